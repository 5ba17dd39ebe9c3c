//! libz3 binding (C API, loaded at run time) and query layer.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

pub type P = *mut c_void;
extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
}

macro_rules! z3api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $(pub $name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            fn load(h: P) -> Api {
                unsafe {
                    $(let $name = {
                        let n = CString::new(concat!("Z3_", stringify!($name))).unwrap();
                        let p = dlsym(h, n.as_ptr());
                        if p.is_null() { panic!("missing symbol Z3_{}", stringify!($name)); }
                        std::mem::transmute::<P, unsafe extern "C" fn($($t),*) $(-> $r)?>(p)
                    };)*
                    Api { $($name,)* }
                }
            }
        }
    };
}
z3api! {
    mk_config: fn() -> P;
    mk_context: fn(P) -> P;
    del_context: fn(P);
    set_error_handler: fn(P, P);
    get_error_code: fn(P) -> c_int;
    mk_string_symbol: fn(P, *const c_char) -> P;
    mk_bv_sort: fn(P, c_uint) -> P;
    mk_bool_sort: fn(P) -> P;
    mk_const: fn(P, P, P) -> P;
    mk_func_decl: fn(P, P, c_uint, *const P, P) -> P;
    mk_app: fn(P, P, c_uint, *const P) -> P;
    mk_numeral: fn(P, *const c_char, P) -> P;
    mk_true: fn(P) -> P;
    mk_false: fn(P) -> P;
    mk_eq: fn(P, P, P) -> P;
    mk_not: fn(P, P) -> P;
    mk_ite: fn(P, P, P, P) -> P;
    mk_and: fn(P, c_uint, *const P) -> P;
    mk_or: fn(P, c_uint, *const P) -> P;
    mk_xor: fn(P, P, P) -> P;
    mk_int_sort: fn(P) -> P;
    mk_add: fn(P, c_uint, *const P) -> P;
    mk_sub: fn(P, c_uint, *const P) -> P;
    mk_mul: fn(P, c_uint, *const P) -> P;
    mk_div: fn(P, P, P) -> P;
    mk_mod: fn(P, P, P) -> P;
    mk_lt: fn(P, P, P) -> P;
    mk_le: fn(P, P, P) -> P;
    mk_bvadd: fn(P, P, P) -> P;
    mk_bvsub: fn(P, P, P) -> P;
    mk_bvmul: fn(P, P, P) -> P;
    mk_bvudiv: fn(P, P, P) -> P;
    mk_bvurem: fn(P, P, P) -> P;
    mk_bvsdiv: fn(P, P, P) -> P;
    mk_bvsrem: fn(P, P, P) -> P;
    mk_bvshl: fn(P, P, P) -> P;
    mk_bvlshr: fn(P, P, P) -> P;
    mk_bvashr: fn(P, P, P) -> P;
    mk_bvand: fn(P, P, P) -> P;
    mk_bvor: fn(P, P, P) -> P;
    mk_bvxor: fn(P, P, P) -> P;
    mk_bvult: fn(P, P, P) -> P;
    mk_bvule: fn(P, P, P) -> P;
    mk_bvslt: fn(P, P, P) -> P;
    mk_bvsle: fn(P, P, P) -> P;
    mk_zero_ext: fn(P, c_uint, P) -> P;
    mk_sign_ext: fn(P, c_uint, P) -> P;
    mk_extract: fn(P, c_uint, c_uint, P) -> P;
    mk_concat: fn(P, P, P) -> P;
    mk_solver: fn(P) -> P;
    mk_simple_solver: fn(P) -> P;
    mk_solver_for_logic: fn(P, P) -> P;
    solver_inc_ref: fn(P, P);
    solver_dec_ref: fn(P, P);
    solver_assert: fn(P, P, P);
    solver_check: fn(P, P) -> c_int;
    solver_get_model: fn(P, P) -> P;
    solver_reset: fn(P, P);
    solver_set_params: fn(P, P, P);
    solver_to_string: fn(P, P) -> *const c_char;
    mk_params: fn(P) -> P;
    params_inc_ref: fn(P, P);
    params_set_uint: fn(P, P, P, c_uint);
    model_inc_ref: fn(P, P);
    model_dec_ref: fn(P, P);
    model_eval: fn(P, P, P, bool, *mut P) -> bool;
    get_numeral_string: fn(P, P) -> *const c_char;
    get_bool_value: fn(P, P) -> c_int;
    mk_fpa_sort_64: fn(P) -> P;
    mk_fpa_sort_32: fn(P) -> P;
    mk_fpa_rne: fn(P) -> P;
    mk_fpa_rtz: fn(P) -> P;
    mk_fpa_to_fp_bv: fn(P, P, P) -> P;
    mk_fpa_to_fp_unsigned: fn(P, P, P, P) -> P;
    mk_fpa_to_fp_signed: fn(P, P, P, P) -> P;
    mk_fpa_to_fp_float: fn(P, P, P, P) -> P;
    mk_fpa_to_ieee_bv: fn(P, P) -> P;
    mk_fpa_to_ubv: fn(P, P, P, c_uint) -> P;
    mk_fpa_to_sbv: fn(P, P, P, c_uint) -> P;
    mk_fpa_add: fn(P, P, P, P) -> P;
    mk_fpa_sub: fn(P, P, P, P) -> P;
    mk_fpa_mul: fn(P, P, P, P) -> P;
    mk_fpa_div: fn(P, P, P, P) -> P;
    mk_fpa_rem: fn(P, P, P) -> P;
    mk_fpa_neg: fn(P, P) -> P;
    mk_fpa_abs: fn(P, P) -> P;
    mk_fpa_lt: fn(P, P, P) -> P;
    mk_fpa_leq: fn(P, P, P) -> P;
    mk_fpa_eq: fn(P, P, P) -> P;
    mk_fpa_is_nan: fn(P, P) -> P;
    get_version: fn(*mut c_uint, *mut c_uint, *mut c_uint, *mut c_uint);
}

unsafe extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::abort();
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub dom_hits: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub lia: u64,
}

pub struct Solver {
    pub api: Api,
    pub ctx: P,
    solver: P,
    pub isolver: P,
    pub ast_int: FxMap<E, P>,
    pub ast_raw: FxMap<E, Option<(P, i128, i128)>>,
    pub ast_ib: FxMap<E, P>,
    pub int_decl: FxMap<u32, P>,
    pub lia_first: FxMap<E, bool>,
    ast_bv: FxMap<E, P>,
    ast_bool: FxMap<E, P>,
    src_decl: FxMap<u32, P>,
    cache: FxMap<Vec<E>, Res>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub version: String,
    pub dump_min: f64,
    pub dump_slow: Option<String>,
    pub nodes_in_ctx: usize,
    pub no_lia: bool,
    pub lia_only: bool,
    avg_lia: f64,
    avg_bv: f64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let cands = match std::env::var("SYM_Z3LIB") {
            Ok(v) => vec![v],
            _ => vec!["libz3.so.4".to_string(), "libz3.so".to_string(), "/usr/lib/x86_64-linux-gnu/libz3.so.4".to_string()],
        };
        let mut h = std::ptr::null_mut();
        for c in &cands {
            let s = CString::new(c.as_str()).unwrap();
            h = unsafe { dlopen(s.as_ptr(), 2) };
            if !h.is_null() {
                break;
            }
        }
        if h.is_null() {
            eprintln!("symir: cannot load libz3");
            std::process::exit(2);
        }
        let api = Api::load(h);
        let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
        unsafe { (api.get_version)(&mut a, &mut b, &mut c, &mut d) };
        let mut s = Solver {
            api,
            ctx: std::ptr::null_mut(),
            solver: std::ptr::null_mut(),
            isolver: std::ptr::null_mut(),
            ast_int: Default::default(),
            ast_raw: Default::default(),
            ast_ib: Default::default(),
            int_decl: Default::default(),
            lia_first: Default::default(),
            ast_bv: Default::default(),
            ast_bool: Default::default(),
            src_decl: Default::default(),
            cache: Default::default(),
            stats: Default::default(),
            timeout_ms,
            version: format!("{}.{}.{}", a, b, c),
            dump_min: std::env::var("SYM_DUMP_MIN").ok().and_then(|s| s.parse().ok()).unwrap_or(2.0),
            dump_slow: std::env::var("SYM_DUMP_SLOW").ok(),
            nodes_in_ctx: 0,
            no_lia: std::env::var("SYM_NOLIA").is_ok(),
            lia_only: false,
            avg_lia: 0.002,
            avg_bv: 0.001,
        };
        s.fresh_ctx();
        s
    }
    fn fresh_ctx(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                (self.api.solver_dec_ref)(self.ctx, self.solver);
                (self.api.solver_dec_ref)(self.ctx, self.isolver);
                (self.api.del_context)(self.ctx);
            }
            let cfg = (self.api.mk_config)();
            self.ctx = (self.api.mk_context)(cfg);
            (self.api.set_error_handler)(self.ctx, on_err as *const () as P);
            self.ast_bv.clear();
            self.ast_bool.clear();
            self.ast_int.clear();
            self.ast_raw.clear();
            self.ast_ib.clear();
            self.int_decl.clear();
            self.src_decl.clear();
            self.nodes_in_ctx = 0;
            self.mk_solver();
        }
    }
    pub fn sym(&self, s: &str) -> P {
        let c = CString::new(s).unwrap();
        unsafe { (self.api.mk_string_symbol)(self.ctx, c.as_ptr()) }
    }
    fn mk_solver(&mut self) {
        unsafe {
            let which = std::env::var("SYM_SOLVER").unwrap_or_default();
            self.solver = match which.as_str() {
                "simple" => (self.api.mk_simple_solver)(self.ctx),
                "default" => (self.api.mk_solver)(self.ctx),
                "" => (self.api.mk_solver)(self.ctx),
                l => (self.api.mk_solver_for_logic)(self.ctx, self.sym(l)),
            };
            (self.api.solver_inc_ref)(self.ctx, self.solver);
            self.isolver = (self.api.mk_simple_solver)(self.ctx);
            (self.api.solver_inc_ref)(self.ctx, self.isolver);
        }
    }
    pub fn set_timeout(&mut self, solver: P, ms: u32) {
        unsafe {
            let p = (self.api.mk_params)(self.ctx);
            (self.api.params_inc_ref)(self.ctx, p);
            let s = self.sym("timeout");
            (self.api.params_set_uint)(self.ctx, p, s, ms);
            (self.api.solver_set_params)(self.ctx, solver, p);
        }
    }
    fn num(&self, k: u128, w: u32) -> P {
        let c = CString::new(k.to_string()).unwrap();
        unsafe {
            let s = (self.api.mk_bv_sort)(self.ctx, w);
            (self.api.mk_numeral)(self.ctx, c.as_ptr(), s)
        }
    }
    fn bv(&mut self, ex: &Exprs, e: E) -> P {
        if let Some(&p) = self.ast_bv.get(&e) {
            return p;
        }
        if ex.w(e) == 1 && ex.node(e).op != Op::Var && ex.node(e).op != Op::Extract {
            let b = self.boolean(ex, e);
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            let p = unsafe { (self.api.mk_ite)(self.ctx, b, o, z) };
            self.ast_bv.insert(e, p);
            return p;
        }
        let n = ex.node(e);
        let c = self.ctx;
        let w = n.w as u32;
        let p = unsafe {
            match n.op {
                Op::Const => self.num(n.k, w),
                Op::Var => {
                    let s = (self.api.mk_bv_sort)(c, w);
                    let sy = self.sym(&format!("v{}_{}", n.a, ex.vars[n.a as usize].name));
                    (self.api.mk_const)(c, sy, s)
                }
                Op::Sel => {
                    let d = match self.src_decl.get(&n.a) {
                        Some(&d) => d,
                        None => {
                            let s64 = (self.api.mk_bv_sort)(c, 64);
                            let s8 = (self.api.mk_bv_sort)(c, 8);
                            let sy = self.sym(&format!("src{}", n.a));
                            let d = (self.api.mk_func_decl)(c, sy, 1, &s64, s8);
                            self.src_decl.insert(n.a, d);
                            d
                        }
                    };
                    let i = self.bv(ex, n.b);
                    (self.api.mk_app)(c, d, 1, &i)
                }
                Op::Ite => {
                    let x = self.boolean(ex, n.a);
                    let t = self.bv(ex, n.b);
                    let f = self.bv(ex, n.c);
                    (self.api.mk_ite)(c, x, t, f)
                }
                Op::ZExt => {
                    let x = self.bv(ex, n.a);
                    (self.api.mk_zero_ext)(c, w - ex.w(n.a), x)
                }
                Op::SExt => {
                    let x = self.bv(ex, n.a);
                    (self.api.mk_sign_ext)(c, w - ex.w(n.a), x)
                }
                Op::Extract => {
                    let x = self.bv(ex, n.a);
                    (self.api.mk_extract)(c, n.b + w - 1, n.b, x)
                }
                Op::FNeg | Op::FAbs | Op::FpCast => {
                    let x = self.fp(ex, n.a);
                    let r = match n.op {
                        Op::FNeg => (self.api.mk_fpa_neg)(c, x),
                        Op::FAbs => (self.api.mk_fpa_abs)(c, x),
                        _ => {
                            let s = self.fsort(w);
                            (self.api.mk_fpa_to_fp_float)(c, (self.api.mk_fpa_rne)(c), x, s)
                        }
                    };
                    (self.api.mk_fpa_to_ieee_bv)(c, r)
                }
                Op::UiToFp | Op::SiToFp => {
                    let x = self.bv(ex, n.a);
                    let s = self.fsort(w);
                    let rm = (self.api.mk_fpa_rne)(c);
                    let r = if n.op == Op::UiToFp { (self.api.mk_fpa_to_fp_unsigned)(c, rm, x, s) } else { (self.api.mk_fpa_to_fp_signed)(c, rm, x, s) };
                    (self.api.mk_fpa_to_ieee_bv)(c, r)
                }
                Op::FpToUi | Op::FpToSi => {
                    let x = self.fp(ex, n.a);
                    let rm = (self.api.mk_fpa_rtz)(c);
                    if n.op == Op::FpToUi {
                        (self.api.mk_fpa_to_ubv)(c, rm, x, w)
                    } else {
                        (self.api.mk_fpa_to_sbv)(c, rm, x, w)
                    }
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                    let x = self.fp(ex, n.a);
                    let y = self.fp(ex, n.b);
                    let rm = (self.api.mk_fpa_rne)(c);
                    let r = match n.op {
                        Op::FAdd => (self.api.mk_fpa_add)(c, rm, x, y),
                        Op::FSub => (self.api.mk_fpa_sub)(c, rm, x, y),
                        Op::FMul => (self.api.mk_fpa_mul)(c, rm, x, y),
                        Op::FDiv => (self.api.mk_fpa_div)(c, rm, x, y),
                        _ => (self.api.mk_fpa_rem)(c, x, y),
                    };
                    (self.api.mk_fpa_to_ieee_bv)(c, r)
                }
                _ => {
                    let x = self.bv(ex, n.a);
                    let y = self.bv(ex, n.b);
                    let f = match n.op {
                        Op::Add => self.api.mk_bvadd,
                        Op::Sub => self.api.mk_bvsub,
                        Op::Mul => self.api.mk_bvmul,
                        Op::UDiv => self.api.mk_bvudiv,
                        Op::URem => self.api.mk_bvurem,
                        Op::SDiv => self.api.mk_bvsdiv,
                        Op::SRem => self.api.mk_bvsrem,
                        Op::Shl => self.api.mk_bvshl,
                        Op::LShr => self.api.mk_bvlshr,
                        Op::AShr => self.api.mk_bvashr,
                        Op::And => self.api.mk_bvand,
                        Op::Or => self.api.mk_bvor,
                        Op::Xor => self.api.mk_bvxor,
                        Op::Concat => self.api.mk_concat,
                        o => panic!("bv translation of {:?}", o),
                    };
                    f(c, x, y)
                }
            }
        };
        self.nodes_in_ctx += 1;
        self.ast_bv.insert(e, p);
        p
    }
    fn fsort(&self, w: u32) -> P {
        unsafe {
            if w == 32 {
                (self.api.mk_fpa_sort_32)(self.ctx)
            } else {
                (self.api.mk_fpa_sort_64)(self.ctx)
            }
        }
    }
    fn fp(&mut self, ex: &Exprs, e: E) -> P {
        let x = self.bv(ex, e);
        let s = self.fsort(ex.w(e));
        unsafe { (self.api.mk_fpa_to_fp_bv)(self.ctx, x, s) }
    }
    fn boolean(&mut self, ex: &Exprs, e: E) -> P {
        if let Some(&p) = self.ast_bool.get(&e) {
            return p;
        }
        let n = ex.node(e);
        let c = self.ctx;
        debug_assert_eq!(n.w, 1);
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        (self.api.mk_true)(c)
                    } else {
                        (self.api.mk_false)(c)
                    }
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.bv(ex, n.a);
                    let y = self.bv(ex, n.b);
                    match n.op {
                        Op::Eq => (self.api.mk_eq)(c, x, y),
                        Op::Ult => (self.api.mk_bvult)(c, x, y),
                        Op::Ule => (self.api.mk_bvule)(c, x, y),
                        Op::Slt => (self.api.mk_bvslt)(c, x, y),
                        _ => (self.api.mk_bvsle)(c, x, y),
                    }
                }
                Op::FOlt | Op::FOle | Op::FOeq | Op::FUno => {
                    let x = self.fp(ex, n.a);
                    let y = self.fp(ex, n.b);
                    match n.op {
                        Op::FOlt => (self.api.mk_fpa_lt)(c, x, y),
                        Op::FOle => (self.api.mk_fpa_leq)(c, x, y),
                        Op::FOeq => (self.api.mk_fpa_eq)(c, x, y),
                        _ => {
                            let v = [(self.api.mk_fpa_is_nan)(c, x), (self.api.mk_fpa_is_nan)(c, y)];
                            (self.api.mk_or)(c, 2, v.as_ptr())
                        }
                    }
                }
                Op::And | Op::Or => {
                    let v = [self.boolean(ex, n.a), self.boolean(ex, n.b)];
                    if n.op == Op::And {
                        (self.api.mk_and)(c, 2, v.as_ptr())
                    } else {
                        (self.api.mk_or)(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    let x = self.boolean(ex, n.a);
                    if ex.as_const(n.b) == Some(1) {
                        (self.api.mk_not)(c, x)
                    } else {
                        let y = self.boolean(ex, n.b);
                        (self.api.mk_xor)(c, x, y)
                    }
                }
                Op::Ite => {
                    let x = self.boolean(ex, n.a);
                    let t = self.boolean(ex, n.b);
                    let f = self.boolean(ex, n.c);
                    (self.api.mk_ite)(c, x, t, f)
                }
                Op::Var | Op::Extract => {
                    let x = self.bv(ex, e);
                    let o = self.num(1, 1);
                    (self.api.mk_eq)(c, x, o)
                }
                _ => {
                    // 1-bit arithmetic
                    let x = self.bv_arith1(ex, e);
                    let o = self.num(1, 1);
                    (self.api.mk_eq)(c, x, o)
                }
            }
        };
        self.nodes_in_ctx += 1;
        self.ast_bool.insert(e, p);
        p
    }
    fn bv_arith1(&mut self, ex: &Exprs, e: E) -> P {
        let n = ex.node(e);
        let x = self.bv(ex, n.a);
        unsafe {
            let y = self.bv(ex, n.b);
            match n.op {
                Op::Add | Op::Sub => (self.api.mk_bvxor)(self.ctx, x, y),
                Op::Mul => (self.api.mk_bvand)(self.ctx, x, y),
                o => panic!("1-bit {:?}", o),
            }
        }
    }

    /// Satisfiability of the conjunction. `cons` must be sorted and deduplicated.
    pub fn check(&mut self, ex: &mut Exprs, cons: Vec<E>) -> Res {
        if let Some(r) = self.cache.get(&cons) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        if self.nodes_in_ctx > 2_000_000 {
            self.fresh_ctx();
        }
        let t0 = Instant::now();
        // variables and byte-source reads
        let mut vars: Vec<u32> = vec![];
        let mut has_sel = false;
        for &c in &cons {
            let vs = ex.varset(c);
            for &v in vs.iter() {
                if v & 0x8000_0000 != 0 {
                    has_sel = true
                } else {
                    vars.push(v)
                }
            }
        }
        vars.sort_unstable();
        vars.dedup();
        let mut sels: Vec<E> = vec![];
        if has_sel {
            let mut seen: FxSet<E> = Default::default();
            let mut st = cons.clone();
            while let Some(x) = st.pop() {
                if !seen.insert(x) {
                    continue;
                }
                let n = ex.node(x);
                if n.op == Op::Sel {
                    sels.push(x);
                }
                for k in Exprs::kids(&n).iter().flatten() {
                    st.push(*k);
                }
            }
        }
        let full = self.timeout_ms;
        if self.lia_only {
            return self.check_lia(ex, &cons, &vars, &sels, full);
        }
        // whichever form has been quicker so far goes first; the other one is tried now and then
        let lia0 = self.stats.lia;
        let wants = cons.iter().any(|&c| self.wants_lia(ex, c));
        let lia_first = !self.no_lia && (wants || if self.stats.queries % 64 == 63 { self.avg_lia > self.avg_bv } else { self.avg_lia <= self.avg_bv });
        let mut r = Res::Unknown;
        for round in 0..4 {
            for lia in [lia_first, !lia_first] {
                if !matches!(r, Res::Unknown) || lia && self.no_lia {
                    continue;
                }
                let t = Instant::now();
                let n = self.stats.lia;
                let limit = if round == 3 { 2 * full } else { [300, 3000, full][round].min(full) };
                r = if lia { self.check_lia(ex, &cons, &vars, &sels, limit) } else { self.check_bv(ex, &cons, &vars, &sels, limit) };
                let dt = t.elapsed().as_secs_f64().min(0.02);
                if lia {
                    if self.stats.lia > n && !wants {
                        self.avg_lia = 0.95 * self.avg_lia + 0.05 * dt;
                    }
                } else {
                    self.avg_bv = 0.95 * self.avg_bv + 0.05 * dt;
                }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.secs += dt;
        if dt > self.stats.max_secs {
            self.stats.max_secs = dt;
        }
        if let Some(d) = &self.dump_slow {
            if dt > self.dump_min {
                unsafe {
                    let s = CStr::from_ptr((self.api.solver_to_string)(self.ctx, if self.stats.lia > lia0 { self.isolver } else { self.solver })).to_string_lossy().to_string();
                    let _ = std::fs::write(format!("{}/q{}.smt2", d, self.stats.queries), format!("; {:.2}s {:?}\n{}\n(check-sat)\n", dt, matches!(r, Res::Unsat), s));
                }
            }
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        if self.cache.len() > 300_000 {
            self.cache.clear();
        }
        self.cache.insert(cons, r.clone());
        r
    }
    /// Without the cache.
    pub fn check_fresh(&mut self, ex: &mut Exprs, mut cons: Vec<E>) -> Res {
        cons.sort_unstable();
        cons.dedup();
        cons.retain(|c| ex.as_const(*c) != Some(1));
        self.cache.remove(&cons);
        self.check(ex, cons)
    }
    fn check_bv(&mut self, ex: &mut Exprs, cons: &[E], vars: &[u32], sels: &[E], ms: u32) -> Res {
        self.set_timeout(self.solver, ms);
        unsafe {
            (self.api.solver_reset)(self.ctx, self.solver);
            for &v in vars {
                let (lo, hi, w) = {
                    let i = &ex.vars[v as usize];
                    (i.min, i.max, i.w)
                };
                let ve = self.bv(ex, ex.var_expr[v as usize]);
                if lo > 0 {
                    let k = self.num(lo, w);
                    let a = (self.api.mk_bvule)(self.ctx, k, ve);
                    (self.api.solver_assert)(self.ctx, self.solver, a);
                }
                if hi < mask(w) {
                    let k = self.num(hi, w);
                    let a = (self.api.mk_bvule)(self.ctx, ve, k);
                    (self.api.solver_assert)(self.ctx, self.solver, a);
                }
            }
            for &c in cons {
                let a = self.boolean(ex, c);
                (self.api.solver_assert)(self.ctx, self.solver, a);
            }
            match (self.api.solver_check)(self.ctx, self.solver) {
                1 => {
                    let m = (self.api.solver_get_model)(self.ctx, self.solver);
                    (self.api.model_inc_ref)(self.ctx, m);
                    let mut model = Model::default();
                    for &v in vars {
                        let ve = self.bv(ex, ex.var_expr[v as usize]);
                        model.vars.insert(v, self.eval_num(m, ve));
                    }
                    for &s in sels {
                        let n = ex.node(s);
                        let ia = self.bv(ex, n.b);
                        let i = self.eval_num(m, ia);
                        let va = self.bv(ex, s);
                        let v = self.eval_num(m, va);
                        model.sels.insert((n.a, i as u64), v as u8);
                    }
                    (self.api.model_dec_ref)(self.ctx, m);
                    Res::Sat(model)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        }
    }
    pub fn eval_num(&self, m: P, a: P) -> u128 {
        unsafe {
            let mut out: P = std::ptr::null_mut();
            if !(self.api.model_eval)(self.ctx, m, a, true, &mut out) {
                panic!("model eval");
            }
            let s = CStr::from_ptr((self.api.get_numeral_string)(self.ctx, out)).to_str().unwrap().to_string();
            s.parse::<u128>().unwrap_or_else(|_| panic!("numeral {}", s))
        }
    }
}
