//! Symbolic executor core: states, forking, memory access, instruction semantics.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Instant;

#[derive(Debug)]
pub enum Halt {
    Done,
    Infeasible,
    Violation(String),
    Panic(String),
    Error(String), // unsupported / inconclusive
    Yield,         // thread switch: state keeps running another thread
}
pub type R<X> = Result<X, Halt>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RetKind {
    Normal,
    HarnessEnd,
    ThreadEnd,
    Ignore,
}
#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub blk: u32,
    pub prev: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub dst: u32,
    pub then: Option<u32>,
    pub kind: RetKind,
}
#[derive(Clone, Debug, PartialEq)]
pub enum TStat {
    Run,
    WaitJoin(usize),
    WaitMutex(u64), // address of a parking_lot raw mutex byte
    WaitFutex(u64),
    Done,
}
#[derive(Clone)]
pub struct Thread {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub tls: FxMap<u32, u64>,
    pub keys: FxMap<u64, V>,
    pub stat: TStat,
    pub ret: V,
    pub dtors: Vec<(u64, u64)>,
    pub errno: u64,
}
#[derive(Clone)]
pub enum Inp {
    U(String, E),
    Choice(String, u64),
    Bytes(String, Vec<E>),
    Source(String, u32, V), // source id, length
    Sched(u64),
    Conc(String, u64),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PanicMode {
    Never,
    Iff(E), // 1-bit expression: allowed and required exactly when true
    Any,
    If(E), // allowed (not required) when true
}
#[derive(Clone)]
pub struct Fd {
    pub file: usize,
    pub pos: V,
    pub append: bool,
}
#[derive(Clone)]
pub struct FileN {
    pub path: Vec<u8>,
    pub obj: u32,
    pub size: V,
    pub dir: bool,
}
#[derive(Clone, Default)]
pub struct Fs {
    pub files: Vec<FileN>,
    pub fds: Vec<Option<Fd>>,
}
#[derive(Clone)]
pub struct State {
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub pcset: Rc<FxSet<E>>,
    pub known: Rc<FxMap<E, u128>>,
    pub model: Rc<Model>,
    pub memo: Rc<RefCell<FxMap<E, u128>>>,
    /// values that byte-sized variables can still have
    pub dom: Rc<FxMap<u32, [u64; 4]>>,
    pub smemo: Rc<RefCell<FxMap<E, E>>>,
    pub inputs: Rc<Vec<Inp>>,
    pub panic: PanicMode,
    pub fs: Rc<Fs>,
    pub steps: u64,
    pub logmode: bool,
    pub preempt: u32,   // preemptions used
    pub sched_on: bool, // explore interleavings
    pub sched_decided: bool,
    pub dirs: FxMap<u64, (Vec<Vec<u8>>, usize, u64)>,
    pub trace: Rc<Vec<String>>,
    pub args_set: bool,
    pub lock_owner: FxMap<u64, usize>,
    pub notes: Rc<Vec<(String, E)>>,
    pub faults: u64,
    pub clock_v: Rc<Vec<(V, V)>>,
    pub clock_pos: usize,
    pub wall: (V, V),
    /// counter registers, answers of cpuid
    pub hw: Rc<(Vec<(u64, V)>, Vec<(u64, [V; 4])>)>,
}
impl State {
    #[inline]
    pub fn th(&mut self) -> &mut Thread {
        let c = self.cur;
        &mut self.threads[c]
    }
    pub fn stack_names(&self) -> Vec<String> {
        let t = &self.threads[self.cur];
        let mut v = vec![t.cur.func.name.clone()];
        for f in t.stack.iter().rev() {
            v.push(f.func.name.clone());
        }
        v
    }
}

#[derive(Clone)]
pub struct Cex {
    pub kind: String,
    pub msg: String,
    pub inputs: String,
    pub stack: Vec<String>,
}
pub struct Cfg {
    pub max_paths: u64,
    pub max_secs: f64,
    /// how long to go on after the first violation
    pub stop_after: f64,
    pub max_steps: u64,
    pub deep: bool,
    pub max_preempt: u32,
    pub stop_first: bool,
    pub verbose: bool,
    pub concrete: Option<Vec<String>>, // replay inputs instead of symbolic ones
    pub seed: u64,
    pub fix_choice: std::collections::HashMap<String, u64>,
}
pub struct Eng {
    pub m: Module,
    pub ex: Exprs,
    pub sol: Solver,
    pub cfg: Cfg,
    pub work: Vec<State>,
    pub extk: Vec<Option<crate::ext::Ext>>,
    pub intr_cache: FxMap<*const u8, crate::ext::Intr>,
    pub covered: Vec<u64>,
    pub violations: Vec<Cex>,
    pub inconclusive: FxMap<String, u64>,
    /// inputs of paths that could not be followed to their end
    pub suspects: Vec<(String, String)>,
    /// inputs of some of the paths that were followed to their end
    pub samples: Vec<String>,
    pub want_fork: Option<E>,
    pub qstat: FxMap<String, u64>,
    pub paths: u64,
    pub ended: FxMap<String, u64>,
    pub checks_discharged: u64,
    pub checks_by_msg: FxMap<String, u64>,
    pub reached: FxMap<String, u64>,
    pub forks: u64,
    pub steps: u64,
    pub t0: Instant,
    pub globals_done: bool,
    pub path_ok: u64,
    pub traces: Vec<String>,
    pub conc_pos: usize,
    pub srcmap: std::collections::HashMap<String, u32>,
    pub varmap: std::collections::HashMap<String, E>,
}

pub enum Tri {
    Yes(Option<Model>),
    No,
    Unknown,
}

#[inline]
pub fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl Eng {
    // ------------------------------------------------------------------ values
    pub fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::I(x) => self.ex.cst(*x as u128, w),
            V::W(x) => self.ex.cst(**x, w),
            V::S(e) => {
                debug_assert_eq!(self.ex.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate where scalar expected"),
        }
    }
    pub fn v(&self, e: E) -> V {
        match self.ex.as_const(e) {
            Some(k) => {
                if self.ex.w(e) <= 64 {
                    V::I(k as u64)
                } else {
                    V::W(Box::new(k))
                }
            }
            None => V::S(e),
        }
    }
    pub fn kc(&self, v: &V) -> Option<u128> {
        match v {
            V::I(x) => Some(*x as u128),
            V::W(x) => Some(**x),
            V::S(e) => self.ex.as_const(*e),
            V::A(_) => None,
        }
    }
    pub fn bin(&mut self, op: Bop, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                Bop::Add => x.wrapping_add(y),
                Bop::Sub => x.wrapping_sub(y),
                Bop::Mul => x.wrapping_mul(y),
                Bop::And => x & y,
                Bop::Or => x | y,
                Bop::Xor => x ^ y,
                Bop::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Bop::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bop::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
                Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem if y == 0 => return Err(Halt::Violation("division by zero (undefined behaviour)".into())),
                Bop::UDiv => x / y,
                Bop::URem => x % y,
                Bop::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64,
                Bop::SRem => sx(x, w).wrapping_rem(sx(y, w)) as u64,
                Bop::FAdd => Exprs::ffold(Op::FAdd, w, w, x as u128, y as u128) as u64,
                Bop::FSub => Exprs::ffold(Op::FSub, w, w, x as u128, y as u128) as u64,
                Bop::FMul => Exprs::ffold(Op::FMul, w, w, x as u128, y as u128) as u64,
                Bop::FDiv => Exprs::ffold(Op::FDiv, w, w, x as u128, y as u128) as u64,
                Bop::FRem => Exprs::ffold(Op::FRem, w, w, x as u128, y as u128) as u64,
            };
            return Ok(V::I(r & m));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let op = match op {
            Bop::Add => Op::Add,
            Bop::Sub => Op::Sub,
            Bop::Mul => Op::Mul,
            Bop::UDiv => Op::UDiv,
            Bop::URem => Op::URem,
            Bop::SDiv => Op::SDiv,
            Bop::SRem => Op::SRem,
            Bop::Shl => Op::Shl,
            Bop::LShr => Op::LShr,
            Bop::AShr => Op::AShr,
            Bop::And => Op::And,
            Bop::Or => Op::Or,
            Bop::Xor => Op::Xor,
            Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv | Bop::FRem => {
                let o = match op {
                    Bop::FAdd => Op::FAdd,
                    Bop::FSub => Op::FSub,
                    Bop::FMul => Op::FMul,
                    Bop::FDiv => Op::FDiv,
                    _ => Op::FRem,
                };
                let r = self.ex.fop(o, w, x, y);
                return Ok(self.v(r));
            }
        };
        let r = self.ex.bin(op, x, y);
        Ok(self.v(r))
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
            };
            return V::I(r as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = match p {
            Pred::Eq => self.ex.cmp(Op::Eq, x, y),
            Pred::Ne => {
                let q = self.ex.cmp(Op::Eq, x, y);
                self.ex.not1(q)
            }
            Pred::Ult => self.ex.cmp(Op::Ult, x, y),
            Pred::Ule => self.ex.cmp(Op::Ule, x, y),
            Pred::Ugt => self.ex.cmp(Op::Ult, y, x),
            Pred::Uge => self.ex.cmp(Op::Ule, y, x),
            Pred::Slt => self.ex.cmp(Op::Slt, x, y),
            Pred::Sle => self.ex.cmp(Op::Sle, x, y),
            Pred::Sgt => self.ex.cmp(Op::Slt, y, x),
            Pred::Sge => self.ex.cmp(Op::Sle, y, x),
        };
        self.v(r)
    }
    /// ite over a value of IR type `t`
    pub fn select_t(&mut self, t: T, c: E, a: &V, b: &V) -> R<V> {
        match self.m.types[t as usize].clone() {
            Ty::Int(w) => Ok(self.select_w(w, c, a, b)),
            Ty::Ptr | Ty::Double => Ok(self.select_w(64, c, a, b)),
            Ty::Float => Ok(self.select_w(32, c, a, b)),
            Ty::Vec(n, e) | Ty::Arr(n, e) => {
                let (x, y) = (agg(a), agg(b));
                let mut o = vec![];
                for i in 0..n as usize {
                    o.push(self.select_t(e, c, &x[i], &y[i])?);
                }
                Ok(V::A(Rc::new(o)))
            }
            Ty::Struct(f, _) => {
                let (x, y) = (agg(a), agg(b));
                let mut o = vec![];
                for i in 0..f.len() {
                    o.push(self.select_t(f[i], c, &x[i], &y[i])?);
                }
                Ok(V::A(Rc::new(o)))
            }
            t => Err(Halt::Error(format!("select of {:?}", t))),
        }
    }
    pub fn select_w(&mut self, w: u32, c: E, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            if x == y {
                return a.clone();
            }
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.ex.ite(c, x, y);
        self.v(r)
    }

    // ------------------------------------------------------------------ solving
    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut vars: FxSet<u32> = self.ex.varset(c).iter().cloned().collect();
        let mut out = vec![c];
        let mut rest: Vec<E> = st.pc.clone();
        loop {
            let mut changed = false;
            let mut nrest = Vec::with_capacity(rest.len());
            for &p in &rest {
                let vs = self.ex.varset(p);
                if vs.iter().any(|v| vars.contains(v)) {
                    out.push(p);
                    for v in vs.iter() {
                        vars.insert(*v);
                    }
                    changed = true;
                } else {
                    nrest.push(p);
                }
            }
            rest = nrest;
            if !changed {
                break;
            }
        }
        out.sort_unstable();
        out.dedup();
        out
    }
    pub fn eval(&mut self, st: &State, e: E) -> u128 {
        let memo = st.memo.clone();
        let mut mm = memo.borrow_mut();
        self.ex.eval(e, &st.model, &mut mm)
    }
    #[track_caller]
    pub fn feasible(&mut self, st: &State, c: E) -> Tri {
        if let Some(k) = self.ex.as_const(c) {
            return if k != 0 { Tri::Yes(None) } else { Tri::No };
        }
        if st.pcset.contains(&c) {
            return Tri::Yes(None);
        }
        let nc = self.ex.not1(c);
        if st.pcset.contains(&nc) {
            return Tri::No;
        }
        if self.eval(st, c) == 1 {
            self.sol.stats.model_hits += 1;
            return Tri::Yes(None);
        }
        let c = if st.dom.is_empty() {
            c
        } else {
            let memo = st.smemo.clone();
            let c = self.ex.simp_dom(c, &st.dom, &mut memo.borrow_mut());
            if let Some(k) = self.ex.as_const(c) {
                self.sol.stats.dom_hits += 1;
                debug_assert!(k == 0);
                return if k != 0 { Tri::Yes(None) } else { Tri::No };
            }
            c
        };
        let s = self.slice(st, c);
        if self.cfg.verbose {
            let l = std::panic::Location::caller();
            *self.qstat.entry(format!("{} {}", l.line(), st.stack_names().first().map(|s| demangle(s)).unwrap_or_default())).or_default() += 1;
        }
        match self.sol.check(&mut self.ex, s) {
            Res::Sat(m) => {
                let mut mm = (*st.model).clone();
                for (k, v) in m.vars {
                    mm.vars.insert(k, v);
                }
                for (k, v) in m.sels {
                    mm.sels.insert(k, v);
                }
                Tri::Yes(Some(mm))
            }
            Res::Unsat => Tri::No,
            Res::Unknown => {
                *self.inconclusive.entry("solver timeout/unknown".into()).or_default() += 1;
                Tri::Unknown
            }
        }
    }
    /// pc implies c ?  (unknown counts as "not implied" and is recorded)
    pub fn must(&mut self, st: &State, c: E) -> bool {
        if let Some(k) = self.ex.as_const(c) {
            return k != 0;
        }
        let nc = self.ex.not1(c);
        matches!(self.feasible(st, nc), Tri::No)
    }
    pub fn add_pc(&mut self, st: &mut State, c: E, m: Option<Model>) {
        if self.ex.as_const(c).is_some() {
            return;
        }
        // split conjunctions
        let n = self.ex.node(c);
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a, m.clone());
            self.add_pc(st, n.b, m);
            return;
        }
        if let Some(m) = m {
            st.model = Rc::new(m);
            st.memo = Rc::new(RefCell::new(Default::default()));
        }
        if st.pcset.contains(&c) {
            return;
        }
        st.pc.push(c);
        Rc::make_mut(&mut st.pcset).insert(c);
        if let Some((v, t)) = self.ex.truth(c) {
            let full = self.ex.full_domain(v);
            let d = Rc::make_mut(&mut st.dom).entry(v).or_insert(full);
            let old = *d;
            for i in 0..4 {
                d[i] &= t[i];
            }
            if *d != old {
                st.smemo = Default::default();
            }
        }
        if n.op == Op::Eq {
            if let Some(k) = self.ex.as_const(n.b) {
                Rc::make_mut(&mut st.known).insert(n.a, k);
            }
        }
        Rc::make_mut(&mut st.known).insert(c, 1);
        let nc = self.ex.not1(c);
        Rc::make_mut(&mut st.known).insert(nc, 0);
    }
    /// Continue under `c` although its feasibility is not known (recorded as inconclusive).
    pub fn add_pc_unchecked(&mut self, st: &mut State, c: E) {
        if self.ex.as_const(c).is_none() {
            Rc::make_mut(&mut st.known).insert(c, 1);
        }
    }
    /// Evaluate a branch condition: returns the side to take in this state; pushes the other
    /// side as a new state after `alt` has been applied to it.
    pub fn branch(&mut self, st: &mut State, c: E, alt: &mut dyn FnMut(&mut State, bool)) -> R<bool> {
        if let Some(k) = self.ex.as_const(c) {
            return Ok(k != 0);
        }
        if let Some(k) = st.known.get(&c) {
            return Ok(*k != 0);
        }
        let cur = self.eval(st, c) == 1;
        let nc = self.ex.not1(c);
        let other = if cur { nc } else { c };
        match self.feasible(st, other) {
            Tri::No => {
                // remember (implied) to avoid asking again
                let this = if cur { c } else { nc };
                Rc::make_mut(&mut st.known).insert(this, 1);
                Rc::make_mut(&mut st.known).insert(other, 0);
                Ok(cur)
            }
            Tri::Yes(m) => {
                self.forks += 1;
                let mut o = st.clone();
                self.add_pc(&mut o, other, m);
                alt(&mut o, !cur);
                self.work.push(o);
                let this = if cur { c } else { nc };
                self.add_pc(st, this, None);
                Ok(cur)
            }
            Tri::Unknown => {
                let this = if cur { c } else { nc };
                self.add_pc(st, this, None);
                Ok(cur)
            }
        }
    }
    /// Branch where the alternative re-executes the current instruction.
    pub fn branch_retry(&mut self, st: &mut State, c: E) -> R<bool> {
        self.branch(st, c, &mut |_, _| {})
    }
    /// Concrete value of an expression: enumerates all feasible values by forking.
    pub fn concretize(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::I(x) => Ok(*x as u128),
            V::W(x) => Ok(**x),
            V::A(_) => Err(Halt::Error("concretize aggregate".into())),
            V::S(e) => {
                let e = *e;
                if let Some(k) = self.ex.as_const(e) {
                    return Ok(k);
                }
                if let Some(k) = st.known.get(&e) {
                    return Ok(*k);
                }
                let n = self.ex.node(e);
                if n.op == Op::Ite {
                    // split on the condition, it is usually more meaningful
                    let c = self.branch_retry(st, n.a)?;
                    let sub = if c { n.b } else { n.c };
                    let r = self.concretize(st, &V::S(sub))?;
                    Rc::make_mut(&mut st.known).insert(e, r);
                    return Ok(r);
                }
                let k = self.eval(st, e);
                let w = self.ex.w(e);
                let kk = self.ex.cst(k, w);
                let c = self.ex.eq(e, kk);
                let t = self.branch_retry(st, c)?;
                debug_assert!(t);
                Rc::make_mut(&mut st.known).insert(e, k);
                Ok(k)
            }
        }
    }
    /// The constant a value must have, where there is only one.
    pub fn sole_value(&mut self, st: &mut State, v: V) -> V {
        let v = self.simp_known(st, v);
        let e = match v {
            V::S(e) => e,
            _ => return v,
        };
        let k = self.eval(st, e);
        let w = self.ex.w(e);
        let kk = self.ex.cst(k, w);
        let c = self.ex.eq(e, kk);
        let n = self.ex.not1(c);
        if matches!(self.feasible(st, n), Tri::No) {
            Rc::make_mut(&mut st.known).insert(e, k);
            return Module::kint(k, w);
        }
        v
    }
    pub fn simp_known(&mut self, st: &State, v: V) -> V {
        if let V::S(e) = &v {
            if let Some(k) = st.known.get(e) {
                let w = self.ex.w(*e);
                return Module::kint(*k, w);
            }
        }
        v
    }

    // ------------------------------------------------------------------ memory
    /// Resolve a pointer to (object, offset). The access covers `n` bytes.
    pub fn resolve(&mut self, st: &mut State, p: &V, n: u64) -> R<(u32, V)> {
        let nv = V::I(n);
        self.resolve_v(st, p, &nv)
    }
    pub fn resolve_v(&mut self, st: &mut State, p: &V, n: &V) -> R<(u32, V)> {
        match p {
            V::I(a) => {
                let id = (*a >> 32) as u32;
                let off = a.wrapping_sub(obj_addr(id));
                let o = match st.mem.get(id) {
                    Some(o) => o,
                    None => {
                        if self.kc(n) == Some(0) {
                            return Ok((0, V::I(0)));
                        }
                        return Err(Halt::Violation(format!("memory access through invalid or dangling pointer {:#x} size {:?}", a, n)));
                    }
                };
                match (&o.size, n) {
                    (V::I(s), V::I(n)) => {
                        if off.checked_add(*n).map_or(true, |e| e > *s) {
                            return Err(Halt::Violation(format!("out-of-bounds memory access: offset {} size {} in object of {} bytes ({:?})", off as i64, n, s, o.kind)));
                        }
                    }
                    (s, n) => {
                        let s = s.clone();
                        let n = n.clone();
                        self.bounds(st, &V::I(off), &n, &s)?;
                    }
                }
                Ok((id, V::I(off)))
            }
            V::S(e) => {
                let mut e = *e;
                if let Some(k) = st.known.get(&e) {
                    let k = *k as u64;
                    return self.resolve_v(st, &V::I(k), n);
                }
                let mut node = self.ex.node(e);
                // pointer chosen by a condition
                if node.op == Op::Ite {
                    let c = self.branch_retry(st, node.a)?;
                    e = if c { node.b } else { node.c };
                    let v = self.v(e);
                    return self.resolve_v(st, &v, n);
                }
                // base + symbolic offset
                let mut cand = None;
                if node.op == Op::Add {
                    if let Some(k) = self.ex.as_const(node.b) {
                        let id = ((k as u64).wrapping_add(0x3000_0000) >> 32) as u32;
                        if st.mem.get(id).is_some() {
                            cand = Some(id);
                        }
                    }
                    if let Op::Ite = self.ex.node(node.a).op {
                        if cand.is_none() {
                            let c = self.ex.node(node.a).a;
                            let cc = self.branch_retry(st, c)?;
                            let nn = self.ex.node(node.a);
                            let x = self.ex.bin(Op::Add, if cc { nn.b } else { nn.c }, node.b);
                            let v = self.v(x);
                            return self.resolve_v(st, &v, n);
                        }
                    }
                }
                let mv = self.eval(st, e) as u64;
                let mid = (mv >> 32) as u32;
                let id = match cand {
                    Some(c) if c == mid => c,
                    _ => {
                        if st.mem.get(mid).is_none() {
                            return Err(Halt::Violation(format!("memory access through invalid symbolic pointer (e.g. {:#x})", mv)));
                        }
                        mid
                    }
                };
                node = self.ex.node(e);
                let _ = node;
                let base = self.ex.cst(obj_addr(id) as u128, 64);
                let off = self.ex.bin(Op::Sub, e, base);
                let size = st.mem.get(id).unwrap().size.clone();
                // if the pointer may leave the object, split there (another object or an error)
                let (lo, hi) = self.ex.range(off);
                let _ = lo;
                let nmax = match n {
                    V::I(x) => *x as u128,
                    V::S(x) => self.ex.range(*x).1,
                    _ => 0,
                };
                let ok = match &size {
                    V::I(s) => hi.checked_add(nmax).map_or(false, |x| x <= *s as u128),
                    _ => false,
                };
                if !ok {
                    let off_v = self.v(off);
                    self.bounds(st, &off_v, n, &size)?;
                }
                let v = self.v(off);
                Ok((id, v))
            }
            _ => Err(Halt::Error("pointer is an aggregate".into())),
        }
    }
    fn bounds(&mut self, st: &mut State, off: &V, n: &V, size: &V) -> R<()> {
        let o = self.e(off, 64);
        let nn = self.e(n, 64);
        let s = self.e(size, 64);
        // n <= s && off <= s - n
        let c1 = self.ex.cmp(Op::Ule, nn, s);
        let d = self.ex.bin(Op::Sub, s, nn);
        let c2 = self.ex.cmp(Op::Ule, o, d);
        let c = self.ex.and1(c1, c2);
        let inb = self.branch_retry(st, c)?;
        if !inb {
            return Err(Halt::Violation("out-of-bounds memory access (symbolic offset)".into()));
        }
        Ok(())
    }
    pub fn byte_expr(&mut self, b: ByteV) -> E {
        match b {
            ByteV::C(x) => self.ex.cst(x as u128, 8),
            ByteV::S((e, i)) => {
                let w = self.ex.w(e);
                if w == 8 {
                    e
                } else if w < 8 {
                    self.ex.zext(e, 8)
                } else {
                    let lo = i as u32 * 8;
                    if lo + 8 <= w {
                        self.ex.extract(e, lo, 8)
                    } else {
                        let x = self.ex.extract(e, lo, w - lo);
                        self.ex.zext(x, 8)
                    }
                }
            }
        }
    }
    pub fn byte_v(&mut self, e: E) -> ByteV {
        match self.ex.as_const(e) {
            Some(k) => ByteV::C(k as u8),
            None => ByteV::S((e, 0)),
        }
    }
    /// value of `w` bits from little-endian bytes
    pub fn combine(&mut self, bs: &[ByteV], w: u32) -> V {
        if bs.iter().all(|b| matches!(b, ByteV::C(_))) {
            let mut k = 0u128;
            for (i, b) in bs.iter().enumerate() {
                if let ByteV::C(x) = b {
                    k |= (*x as u128) << (8 * i)
                }
            }
            return Module::kint(k, w);
        }
        // whole-expression fast path
        if let ByteV::S((e, 0)) = bs[0] {
            if self.ex.w(e) == w && bs.iter().enumerate().all(|(i, b)| *b == ByteV::S((e, i as u8))) {
                return V::S(e);
            }
        }
        let parts: Vec<E> = bs.iter().map(|b| self.byte_expr(*b)).collect();
        let x = self.ex.concat_many(&parts);
        let x = if self.ex.w(x) > w { self.ex.extract(x, 0, w) } else { x };
        self.v(x)
    }
    pub fn split_bytes(&mut self, v: &V, w: u32) -> Vec<ByteV> {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::I(x) => (0..n).map(|i| ByteV::C(if i < 8 { (x >> (8 * i)) as u8 } else { 0 })).collect(),
            V::W(x) => (0..n).map(|i| ByteV::C((**x >> (8 * i)) as u8)).collect(),
            V::S(e) => {
                let nd = self.ex.node(*e);
                if nd.op == Op::Concat || nd.op == Op::ZExt {
                    (0..n)
                        .map(|i| {
                            let b = self.byte_expr(ByteV::S((*e, i as u8)));
                            // keep whole-value view unless the byte is constant
                            match self.ex.as_const(b) {
                                Some(k) => ByteV::C(k as u8),
                                None => ByteV::S((*e, i as u8)),
                            }
                        })
                        .collect()
                } else {
                    (0..n).map(|i| ByteV::S((*e, i as u8))).collect()
                }
            }
            V::A(_) => panic!("split aggregate"),
        }
    }
    /// Read one byte of an object (immutable snapshot) at a possibly symbolic offset.
    pub fn obj_byte(&mut self, st: &State, o: &Rc<Obj>, off: &V, depth: u32) -> R<E> {
        if depth > 200 {
            return Err(Halt::Error("log depth".into()));
        }
        let off = self.simp_known(st, off.clone());
        match &o.data {
            Data::B(b, sy) => match off {
                V::I(k) => {
                    let bv = o.get(k);
                    Ok(self.byte_expr(bv))
                }
                V::S(oe) => {
                    let (lo, hi) = self.ex.range(oe);
                    let sz = o.csize().unwrap_or(b.len() as u64) as u128;
                    let hi = hi.min(sz.saturating_sub(1));
                    // everything beyond the bytes ever written is zero
                    let used = (b.len() as u128).max(sy.keys().max().map_or(0, |m| *m as u128 + 1));
                    if lo >= used && lo <= hi {
                        return Ok(self.ex.cst(0, 8));
                    }
                    let clipped = hi >= used;
                    let hi = hi.min(used.saturating_sub(1));
                    if lo > hi || hi - lo > 4096 {
                        return Err(Halt::Error(format!("symbolic byte read over {} candidates", hi.wrapping_sub(lo))));
                    }
                    let mut acc = if clipped {
                        self.ex.cst(0, 8)
                    } else {
                        let bv = o.get(lo as u64);
                        self.byte_expr(bv)
                    };
                    for k in (if clipped { lo } else { lo + 1 })..=hi {
                        let bv = o.get(k as u64);
                        let x = self.byte_expr(bv);
                        let kk = self.ex.cst(k, 64);
                        let c = self.ex.eq(oe, kk);
                        acc = self.ex.ite(c, x, acc);
                    }
                    Ok(acc)
                }
                _ => Err(Halt::Error("offset".into())),
            },
            Data::Log(base, log) => {
                let oe = self.e(&off, 64);
                let mut pending: Vec<(E, E)> = vec![];
                let mut result: Option<E> = None;
                for ent in log.iter().rev() {
                    let eo = self.e(&ent.off, 64);
                    let el = self.e(&ent.len, 64);
                    let d = self.ex.bin(Op::Sub, oe, eo);
                    let c = self.in_range(oe, eo, el);
                    let cv = match self.ex.as_const(c) {
                        Some(k) => Some(k != 0),
                        None => {
                            // decide with the path condition
                            match self.decided(st, c) {
                                None if st.logmode => {
                                    // let the reader split the path
                                    self.want_fork = Some(c);
                                    return Err(Halt::Error("read position not decided".into()));
                                }
                                x => x,
                            }
                        }
                    };
                    if cv == Some(false) {
                        continue;
                    }
                    let val = match &ent.src {
                        Src::Fill(b) => self.byte_expr(*b),
                        Src::Bytes(bs) => {
                            let dv = self.v(d);
                            match dv {
                                V::I(k) => self.byte_expr(bs[k as usize]),
                                _ => {
                                    let mut acc = self.byte_expr(bs[0]);
                                    for (i, b) in bs.iter().enumerate().skip(1) {
                                        let x = self.byte_expr(*b);
                                        let kk = self.ex.cst(i as u128, 64);
                                        let c = self.ex.eq(d, kk);
                                        acc = self.ex.ite(c, x, acc);
                                    }
                                    acc
                                }
                            }
                        }
                        Src::Snap(so, soff) => {
                            let se = self.e(soff, 64);
                            let i = self.ex.bin(Op::Add, d, se);
                            let iv = self.v(i);
                            self.obj_byte(st, so, &iv, depth + 1)?
                        }
                    };
                    if cv == Some(true) {
                        result = Some(val);
                        break;
                    }
                    pending.push((c, val));
                }
                let mut acc = match result {
                    Some(r) => r,
                    None => match base {
                        Base::Zero => self.ex.cst(0, 8),
                        Base::Source(s) => self.ex.sel(*s, oe),
                        Base::Snap(o2) => {
                            let ov = self.v(oe);
                            self.obj_byte(st, &o2.clone(), &ov, depth + 1)?
                        }
                    },
                };
                for (c, v) in pending.into_iter().rev() {
                    acc = self.ex.ite(c, v, acc);
                }
                Ok(acc)
            }
        }
    }
    /// start <= x < start + len (the end of an object's contents never wraps around)
    fn in_range(&mut self, x: E, start: E, len: E) -> E {
        let lim = 1u128 << 62;
        if self.ex.range(start).1 < lim && self.ex.range(len).1 < lim {
            let end = self.ex.bin(Op::Add, start, len);
            let a = self.ex.cmp(Op::Ule, start, x);
            let b = self.ex.cmp(Op::Ult, x, end);
            return self.ex.and1(a, b);
        }
        let d = self.ex.bin(Op::Sub, x, start);
        self.ex.cmp(Op::Ult, d, len)
    }
    #[track_caller]
    fn decided(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(k) = self.ex.as_const(c) {
            return Some(k != 0);
        }
        if let Some(k) = st.known.get(&c) {
            return Some(*k != 0);
        }
        let nc = self.ex.not1(c);
        // the side the current model takes is feasible
        if self.eval(st, c) == 1 {
            if matches!(self.feasible(st, nc), Tri::No) {
                return Some(true);
            }
        } else if matches!(self.feasible(st, c), Tri::No) {
            return Some(false);
        }
        None
    }
    /// Read n bytes that all come from the same log entry, if that can be shown.
    fn obj_bytes(&mut self, st: &State, o: &Rc<Obj>, off: &V, n: u64) -> R<Option<Vec<E>>> {
        let off = self.simp_known(st, off.clone());
        let each = |eng: &mut Self, o: &Rc<Obj>, off: &V| -> R<Option<Vec<E>>> {
            let oe = eng.e(off, 64);
            let mut v = vec![];
            for i in 0..n {
                let k = eng.ex.cst(i as u128, 64);
                let x = eng.ex.bin(Op::Add, oe, k);
                let xv = eng.v(x);
                match eng.obj_byte(st, o, &xv, 0) {
                    Ok(b) => v.push(b),
                    Err(_) if eng.want_fork.is_some() => return Ok(None),
                    Err(e) => return Err(e),
                }
            }
            Ok(Some(v))
        };
        let (base, log) = match &o.data {
            Data::Log(b, l) => (b, l),
            _ => return each(self, o, &off),
        };
        let oe = self.e(&off, 64);
        for ent in log.iter().rev() {
            let eo = self.e(&ent.off, 64);
            let el = self.e(&ent.len, 64);
            let d = self.ex.bin(Op::Sub, oe, eo);
            let c = self.in_range(oe, eo, el);
            let nm = self.ex.cst(n as u128 - 1, 64);
            let oel = self.ex.bin(Op::Add, oe, nm);
            let cl = self.in_range(oel, eo, el);
            match (self.decided(st, c), self.decided(st, cl)) {
                (Some(true), Some(true)) => {
                    return match &ent.src {
                        Src::Snap(so, soff) => {
                            let se = self.e(soff, 64);
                            let i = self.ex.bin(Op::Add, d, se);
                            let iv = self.v(i);
                            self.obj_bytes(st, so, &iv, n)
                        }
                        Src::Fill(b) => {
                            let x = self.byte_expr(*b);
                            Ok(Some(vec![x; n as usize]))
                        }
                        Src::Bytes(bs) => match self.v(d) {
                            V::I(k) => {
                                let bs: Vec<ByteV> = bs[k as usize..(k + n) as usize].to_vec();
                                Ok(Some(bs.into_iter().map(|b| self.byte_expr(b)).collect()))
                            }
                            _ => Ok(None),
                        },
                    };
                }
                (Some(false), Some(false)) => {
                    // neither end inside; a shorter entry strictly inside the range?
                    let m = self.ex.bin(Op::Sub, eo, oe);
                    let nn = self.ex.cst(n as u128, 64);
                    let inside = self.ex.cmp(Op::Ult, m, nn);
                    if self.decided(st, inside) != Some(false) {
                        return Ok(None);
                    }
                }
                _ => return Ok(None),
            }
        }
        match base {
            Base::Zero => {
                let z = self.ex.cst(0, 8);
                Ok(Some(vec![z; n as usize]))
            }
            Base::Source(_) => Ok(None),
            Base::Snap(o2) => self.obj_bytes(st, &o2.clone(), &off, n),
        }
    }
    fn to_log(&mut self, st: &mut State, id: u32) {
        let o = st.mem.get(id).unwrap().clone();
        if o.is_log() {
            return;
        }
        let size = o.size.clone();
        let om = st.mem.get_mut(id).unwrap();
        om.data = Data::Log(Base::Snap(o), vec![]);
        om.size = size;
    }
    fn log_push(&mut self, st: &mut State, id: u32, ent: LogEnt) {
        // merge adjacent constant stores into one entry to keep logs short
        let om = st.mem.get_mut(id).unwrap();
        if let Data::Log(_, l) = &mut om.data {
            l.push(Rc::new(ent));
        }
    }
    fn load_bytes(&mut self, st: &mut State, id: u32, off: &V, n: u64) -> R<Vec<ByteV>> {
        let o = st.mem.get(id).unwrap().clone();
        match (&o.data, off) {
            (Data::B(b, s), V::I(k)) => {
                if s.is_empty() {
                    let k = *k as usize;
                    let mut v = Vec::with_capacity(n as usize);
                    for i in 0..n as usize {
                        v.push(ByteV::C(b.get(k + i).cloned().unwrap_or(0)));
                    }
                    return Ok(v);
                }
                Ok((0..n).map(|i| o.get(k + i)).collect())
            }
            (Data::Log(..), _) => {
                let mut v = vec![];
                if n > 1 {
                    if let Some(es) = self.obj_bytes(st, &o, off, n)? {
                        for b in es {
                            v.push(self.byte_v(b));
                        }
                        return Ok(v);
                    }
                }
                let oe = self.e(off, 64);
                for i in 0..n {
                    let k = self.ex.cst(i as u128, 64);
                    let x = self.ex.bin(Op::Add, oe, k);
                    let xv = self.v(x);
                    let b = loop {
                        self.want_fork = None;
                        match self.obj_byte(st, &o, &xv, 0) {
                            Ok(b) => break b,
                            Err(e) => match self.want_fork.take() {
                                Some(c) => {
                                    self.branch_retry(st, c)?;
                                }
                                None => return Err(e),
                            },
                        }
                    };
                    v.push(self.byte_v(b));
                }
                Ok(v)
            }
            (Data::B(..), V::S(_)) => unreachable!(),
            _ => Err(Halt::Error("load_bytes".into())),
        }
    }
    fn candidates(&mut self, st: &mut State, off: E, n: u64, size: u64, limit: u128) -> Option<Vec<u64>> {
        let (lo, hi) = self.ex.range(off);
        let hi = hi.min(size.checked_sub(n)? as u128);
        if lo > hi {
            return None;
        }
        let inf = self.ex.info[off as usize];
        let stride = 1u128 << (!inf.kz).trailing_zeros().min(16);
        let base = inf.ko & (stride - 1);
        let _ = st;
        let mut c = vec![];
        let mut k = (lo + stride - 1) / stride * stride + base;
        if (hi - lo) / stride > limit {
            return None;
        }
        while k <= hi {
            if (k & inf.kz) == 0 && (k & inf.ko) == inf.ko {
                c.push(k as u64);
            }
            k += stride;
        }
        Some(c)
    }
    pub fn load_scalar(&mut self, st: &mut State, p: &V, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        // fast path
        if let V::I(a) = p {
            let id = (*a >> 32) as u32;
            if let Some(o) = st.mem.get(id) {
                let off = a.wrapping_sub(obj_addr(id));
                if let (V::I(sz), Data::B(b, s)) = (&o.size, &o.data) {
                    if off.checked_add(n).map_or(false, |e| e <= *sz) && s.is_empty() && w <= 64 {
                        let off = off as usize;
                        let e = off + n as usize;
                        let mut k = [0u8; 8];
                        if e <= b.len() {
                            k[..n as usize].copy_from_slice(&b[off..e]);
                        } else if off < b.len() {
                            let l = b.len() - off;
                            k[..l].copy_from_slice(&b[off..]);
                        }
                        return Ok(V::I(u64::from_le_bytes(k) & m64(w)));
                    }
                }
            }
        }
        let (id, off) = self.resolve(st, p, n)?;
        let islog = st.mem.get(id).unwrap().is_log();
        match &off {
            V::S(oe) if !islog => {
                let o = st.mem.get(id).unwrap().clone();
                let size = o.csize().unwrap();
                match self.candidates(st, *oe, n, size, 1024) {
                    Some(c) if !c.is_empty() => {
                        let mut groups: Vec<(V, Vec<u64>)> = vec![];
                        let mut gidx: FxMap<u128, usize> = Default::default();
                        let mut acc: Option<V> = None;
                        for k in &c {
                            let bs: Vec<ByteV> = (0..n).map(|i| o.get(k + i)).collect();
                            let v = self.combine(&bs, w);
                            let key = match self.kc(&v) {
                                Some(x) => x,
                                None => {
                                    if let V::S(e) = v {
                                        (1u128 << 127) | e as u128
                                    } else {
                                        0
                                    }
                                }
                            };
                            match gidx.get(&key) {
                                Some(&g) => groups[g].1.push(*k),
                                None => {
                                    gidx.insert(key, groups.len());
                                    groups.push((v, vec![*k]));
                                }
                            }
                        }
                        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                        for (v, ks) in groups {
                            match acc {
                                None => acc = Some(v),
                                Some(a) => {
                                    let mut cond = self.ex.cst(0, 1);
                                    for k in ks {
                                        let kk = self.ex.cst(k as u128, 64);
                                        let c = self.ex.eq(*oe, kk);
                                        cond = self.ex.or1(cond, c);
                                    }
                                    let x = self.e(&v, w);
                                    let y = self.e(&a, w);
                                    let r = self.ex.ite(cond, x, y);
                                    acc = Some(self.v(r));
                                }
                            }
                        }
                        Ok(acc.unwrap())
                    }
                    _ => {
                        let k = self.concretize(st, &off)? as u64;
                        let bs = self.load_bytes(st, id, &V::I(k), n)?;
                        Ok(self.combine(&bs, w))
                    }
                }
            }
            _ => {
                let bs = self.load_bytes(st, id, &off, n)?;
                Ok(self.combine(&bs, w))
            }
        }
    }
    pub fn store_scalar(&mut self, st: &mut State, p: &V, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        if let (V::I(a), V::I(x)) = (p, v) {
            let id = (*a >> 32) as u32;
            let off = a.wrapping_sub(obj_addr(id));
            if let Some(o) = st.mem.get_mut(id) {
                if let (V::I(sz), Data::B(b, s)) = (&o.size, &mut o.data) {
                    if off.checked_add(n).map_or(false, |e| e <= *sz) && s.is_empty() && !o.ro {
                        let off = off as usize;
                        let e = off + n as usize;
                        if e > b.len() {
                            b.resize(e, 0);
                        }
                        b[off..e.min(off + 8)].copy_from_slice(&x.to_le_bytes()[..(n as usize).min(8)]);
                        if n > 8 {
                            for z in &mut b[off + 8..e] {
                                *z = 0
                            }
                        }
                        return Ok(());
                    }
                }
            }
        }
        let (id, off) = self.resolve(st, p, n)?;
        let o = st.mem.get(id).unwrap();
        if o.ro {
            return Err(Halt::Violation("write to read-only memory".into()));
        }
        let bs = self.split_bytes(v, w);
        if o.is_log() {
            self.log_push(st, id, LogEnt { off, len: V::I(n), src: Src::Bytes(Rc::new(bs)) });
            return Ok(());
        }
        match off {
            V::I(k) => {
                let om = st.mem.get_mut(id).unwrap();
                for (i, b) in bs.iter().enumerate() {
                    om.set(k + i as u64, *b);
                }
                Ok(())
            }
            V::S(oe) => {
                let size = o.csize().unwrap();
                match self.candidates(st, oe, n, size, 256) {
                    Some(c) if !c.is_empty() => {
                        let o = st.mem.get(id).unwrap().clone();
                        let mut newb: Vec<(u64, ByteV)> = vec![];
                        let lo = c[0];
                        let hi = c[c.len() - 1] + n;
                        let cset: FxSet<u64> = c.iter().cloned().collect();
                        for j in lo..hi {
                            let ob = o.get(j);
                            let mut acc = self.byte_expr(ob);
                            let mut ch = false;
                            for i in 0..n {
                                if j >= i && cset.contains(&(j - i)) {
                                    let kk = self.ex.cst((j - i) as u128, 64);
                                    let c = self.ex.eq(oe, kk);
                                    let nb = self.byte_expr(bs[i as usize]);
                                    acc = self.ex.ite(c, nb, acc);
                                    ch = true;
                                }
                            }
                            if ch {
                                newb.push((j, self.byte_v(acc)));
                            }
                        }
                        let om = st.mem.get_mut(id).unwrap();
                        for (j, b) in newb {
                            om.set(j, b);
                        }
                        Ok(())
                    }
                    _ => {
                        let k = self.concretize(st, &V::S(oe))? as u64;
                        let om = st.mem.get_mut(id).unwrap();
                        for (i, b) in bs.iter().enumerate() {
                            om.set(k + i as u64, *b);
                        }
                        Ok(())
                    }
                }
            }
            _ => Err(Halt::Error("store".into())),
        }
    }
    pub fn padd(&mut self, p: &V, k: u64) -> V {
        match p {
            V::I(x) => V::I(x.wrapping_add(k)),
            _ => {
                let e = self.e(p, 64);
                let kk = self.ex.cst(k as u128, 64);
                let r = self.ex.bin(Op::Add, e, kk);
                self.v(r)
            }
        }
    }
    pub fn load(&mut self, st: &mut State, t: T, p: &V) -> R<V> {
        match self.m.types[t as usize].clone() {
            Ty::Int(w) => self.load_scalar(st, p, w),
            Ty::Ptr | Ty::Double => self.load_scalar(st, p, 64),
            Ty::Float => self.load_scalar(st, p, 32),
            Ty::Vec(n, e) => {
                let w = self.m.int_w(e).unwrap();
                if w % 8 != 0 {
                    let x = self.load_scalar(st, p, n as u32 * w)?;
                    let mut o = vec![];
                    let tot = n as u32 * w;
                    for i in 0..n as u32 {
                        o.push(self.bits(&x, tot, i * w, w));
                    }
                    return Ok(V::A(Rc::new(o)));
                }
                let mut o = vec![];
                for i in 0..n {
                    let q = self.padd(p, i * (w as u64 / 8));
                    o.push(self.load_scalar(st, &q, w)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            Ty::Struct(f, _) => {
                let mut o = vec![];
                for i in 0..f.len() {
                    let (off, ft) = self.m.field_off(t, i);
                    let q = self.padd(p, off);
                    o.push(self.load(st, ft, &q)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            Ty::Arr(n, e) => {
                let sz = self.m.size_of(e);
                let mut o = vec![];
                for i in 0..n {
                    let q = self.padd(p, i * sz);
                    o.push(self.load(st, e, &q)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            t => Err(Halt::Error(format!("load of {:?}", t))),
        }
    }
    pub fn bits(&mut self, v: &V, w: u32, lo: u32, n: u32) -> V {
        match v {
            V::I(x) => V::I((x >> lo) & m64(n)),
            V::W(x) => Module::kint(**x >> lo, n),
            _ => {
                let e = self.e(v, w);
                let r = self.ex.extract(e, lo, n);
                self.v(r)
            }
        }
    }
    pub fn store(&mut self, st: &mut State, t: T, v: &V, p: &V) -> R<()> {
        match self.m.types[t as usize].clone() {
            Ty::Int(w) => self.store_scalar(st, p, w, v),
            Ty::Ptr | Ty::Double => self.store_scalar(st, p, 64, v),
            Ty::Float => self.store_scalar(st, p, 32, v),
            Ty::Vec(n, e) => {
                let w = self.m.int_w(e).unwrap();
                let a = agg(v);
                if w % 8 != 0 {
                    let b = self.pack(&a, w);
                    return self.store_scalar(st, p, n as u32 * w, &b);
                }
                // resolve once up front so that a fork cannot repeat partial stores
                let _ = self.resolve(st, p, n * w as u64 / 8)?;
                for i in 0..n {
                    let q = self.padd(p, i * (w as u64 / 8));
                    self.store_scalar(st, &q, w, &a[i as usize])?;
                }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let a = agg(v);
                let _ = self.resolve(st, p, self.m.size_of(t))?;
                for i in 0..f.len() {
                    let (off, ft) = self.m.field_off(t, i);
                    let q = self.padd(p, off);
                    self.store(st, ft, &a[i], &q)?;
                }
                Ok(())
            }
            Ty::Arr(n, e) => {
                let a = agg(v);
                let sz = self.m.size_of(e);
                let _ = self.resolve(st, p, self.m.size_of(t))?;
                for i in 0..n {
                    let q = self.padd(p, i * sz);
                    self.store(st, e, &a[i as usize], &q)?;
                }
                Ok(())
            }
            t => Err(Halt::Error(format!("store of {:?}", t))),
        }
    }
    pub fn pack(&mut self, a: &[V], w: u32) -> V {
        if a.iter().all(|v| self.kc(v).is_some()) {
            let tot = w * a.len() as u32;
            if tot <= 128 {
                let mut k = 0u128;
                for (i, v) in a.iter().enumerate() {
                    k |= self.kc(v).unwrap() << (i as u32 * w);
                }
                return Module::kint(k, tot);
            }
        }
        let parts: Vec<E> = a.iter().map(|v| self.e(v, w)).collect();
        let r = self.ex.concat_many(&parts);
        self.v(r)
    }
    /// memmove semantics
    pub fn copy(&mut self, st: &mut State, d: &V, s: &V, n: &V) -> R<()> {
        let n = self.simp_known(st, n.clone());
        if self.kc(&n) == Some(0) {
            return Ok(());
        }
        let n = match &n {
            V::I(_) => n,
            V::S(_) if st.logmode => n,
            _ => V::I(self.concretize(st, &n)? as u64),
        };
        if self.kc(&n) == Some(0) {
            return Ok(());
        }
        if let V::S(ne) = &n {
            // split off the empty copy: pointers may be dangling then
            let z = self.ex.cst(0, 64);
            let c = self.ex.eq(*ne, z);
            if self.branch_retry(st, c)? {
                return Ok(());
            }
        }
        let (si, so) = self.resolve_v(st, s, &n)?;
        let (di, dof) = self.resolve_v(st, d, &n)?;
        let (slog, dlog) = (st.mem.get(si).unwrap().is_log(), st.mem.get(di).unwrap().is_log());
        if st.mem.get(di).unwrap().ro {
            return Err(Halt::Violation("copy to read-only memory".into()));
        }
        if let (V::I(sk), V::I(dk), V::I(nn), false, false) = (&so, &dof, &n, slog, dlog) {
            let src = st.mem.get(si).unwrap().clone();
            let dst = st.mem.get_mut(di).unwrap();
            let (sk, dk, nn) = (*sk as usize, *dk as usize, *nn as usize);
            if let (Data::B(sb, ss), Data::B(db, ds)) = (&src.data, &mut dst.data) {
                if ss.is_empty() && ds.is_empty() {
                    let e = dk + nn;
                    let avail = sb.len().saturating_sub(sk).min(nn);
                    if db.len() < dk + avail {
                        db.resize(dk + avail, 0);
                    }
                    if avail > 0 {
                        db[dk..dk + avail].copy_from_slice(&sb[sk..sk + avail]);
                    }
                    let e2 = e.min(db.len());
                    if dk + avail < e2 {
                        for z in &mut db[dk + avail..e2] {
                            *z = 0;
                        }
                    }
                    return Ok(());
                }
            }
            for i in 0..nn {
                let b = src.get((sk + i) as u64);
                dst.set((dk + i) as u64, b);
            }
            return Ok(());
        }
        // small copies out of / between ordinary objects with concrete destination
        if let (V::I(dk), V::I(nn), false) = (&dof, &n, dlog) {
            if *nn <= 64 {
                if slog {
                    let bs = self.load_bytes(st, si, &so, *nn)?;
                    let dst = st.mem.get_mut(di).unwrap();
                    for (i, b) in bs.into_iter().enumerate() {
                        dst.set(dk + i as u64, b);
                    }
                    return Ok(());
                }
                let mut bs = vec![];
                for i in 0..*nn {
                    let q = self.padd(s, i);
                    let v = self.load_scalar(st, &q, 8)?;
                    let e = self.e(&v, 8);
                    bs.push(self.byte_v(e));
                }
                let dst = st.mem.get_mut(di).unwrap();
                for (i, b) in bs.into_iter().enumerate() {
                    dst.set(dk + i as u64, b);
                }
                return Ok(());
            }
        }
        if !st.logmode && !slog && !dlog {
            // concretise whatever is symbolic
            let a = self.concretize(st, d)? as u64;
            let b = self.concretize(st, s)? as u64;
            return self.copy(st, &V::I(a), &V::I(b), &n);
        }
        let snap = st.mem.get(si).unwrap().clone();
        self.to_log(st, di);
        self.log_push(st, di, LogEnt { off: dof, len: n, src: Src::Snap(snap, so) });
        Ok(())
    }
    pub fn fill(&mut self, st: &mut State, d: &V, byte: &V, n: &V) -> R<()> {
        let n = self.simp_known(st, n.clone());
        let n = match &n {
            V::I(_) => n,
            V::S(_) if st.logmode => n,
            _ => V::I(self.concretize(st, &n)? as u64),
        };
        if self.kc(&n) == Some(0) {
            return Ok(());
        }
        if let V::S(ne) = &n {
            let z = self.ex.cst(0, 64);
            let c = self.ex.eq(*ne, z);
            if self.branch_retry(st, c)? {
                return Ok(());
            }
        }
        let (di, dof) = self.resolve_v(st, d, &n)?;
        let be = self.e(byte, 8);
        let bv = self.byte_v(be);
        let dlog = st.mem.get(di).unwrap().is_log();
        if let (V::I(dk), V::I(nn), false) = (&dof, &n, dlog) {
            let dst = st.mem.get_mut(di).unwrap();
            if let (Data::B(b, s), ByteV::C(x)) = (&mut dst.data, bv) {
                if s.is_empty() {
                    let (dk, e) = (*dk as usize, (*dk + *nn) as usize);
                    if x == 0 {
                        let e2 = e.min(b.len());
                        if dk < e2 {
                            for z in &mut b[dk..e2] {
                                *z = 0
                            }
                        }
                    } else {
                        if b.len() < e {
                            b.resize(e, 0);
                        }
                        for z in &mut b[dk..e] {
                            *z = x
                        }
                    }
                    return Ok(());
                }
            }
            for i in 0..*nn {
                dst.set(dk + i, bv);
            }
            return Ok(());
        }
        if !dlog && !st.logmode {
            let a = self.concretize(st, d)? as u64;
            return self.fill(st, &V::I(a), byte, &n);
        }
        self.to_log(st, di);
        self.log_push(st, di, LogEnt { off: dof, len: n, src: Src::Fill(bv) });
        Ok(())
    }
    pub fn alloc(&mut self, st: &mut State, size: &V, align: u64, kind: Kind) -> R<u64> {
        let size = self.simp_known(st, size.clone());
        let size = match &size {
            V::I(_) => size,
            V::S(_) if st.logmode => {
                let mut o = Obj::new(0, align, kind);
                o.size = size.clone();
                o.data = Data::Log(Base::Zero, vec![]);
                return Ok(st.mem.alloc(o));
            }
            _ => V::I(self.concretize(st, &size)? as u64),
        };
        let n = self.kc(&size).unwrap() as u64;
        if n > 0x2000_0000 {
            return Err(Halt::Error(format!("allocation of {} bytes", n)));
        }
        Ok(st.mem.alloc(Obj::new(n, align, kind)))
    }
    pub fn read_concrete_bytes(&mut self, st: &mut State, p: &V, n: u64) -> R<Vec<u8>> {
        let mut out = vec![];
        for i in 0..n {
            let q = self.padd(p, i);
            let v = self.load_scalar(st, &q, 8)?;
            out.push(self.concretize(st, &v)? as u8);
        }
        Ok(out)
    }
    /// best-effort, never forks
    pub fn peek_bytes(&mut self, st: &State, addr: u64, n: u64) -> Option<Vec<u8>> {
        let id = (addr >> 32) as u32;
        let o = st.mem.get(id)?;
        let off = addr.wrapping_sub(obj_addr(id));
        let s = o.csize()?;
        if off.checked_add(n)? > s || o.is_log() {
            return None;
        }
        let mut v = vec![];
        for i in 0..n {
            match o.get(off + i) {
                ByteV::C(x) => v.push(x),
                ByteV::S(_) => v.push(b'?'),
            }
        }
        Some(v)
    }
    pub fn cstr(&mut self, st: &mut State, p: &V) -> R<Vec<u8>> {
        let mut out = vec![];
        loop {
            let q = self.padd(p, out.len() as u64);
            let v = self.load_scalar(st, &q, 8)?;
            let b = self.concretize(st, &v)? as u8;
            if b == 0 {
                return Ok(out);
            }
            out.push(b);
        }
    }

    // ------------------------------------------------------------------ execution
    #[inline]
    fn op(&self, f: &Frame, o: &Opnd) -> V {
        match o {
            Opnd::R(r) => f.regs[*r as usize].clone(),
            Opnd::K(v) => v.clone(),
        }
    }
    pub fn new_frame(&mut self, fid: u32, args: Vec<V>, dst: u32, then: Option<u32>, kind: RetKind) -> Frame {
        let func = self.m.func(fid);
        let mut regs = vec![V::I(0); func.nregs as usize];
        for (i, p) in func.params.iter().enumerate() {
            if i < args.len() {
                regs[*p as usize] = args[i].clone();
            }
        }
        self.cover(&func, 0);
        Frame { func, blk: 0, prev: 0, ip: 0, regs, allocas: vec![], dst, then, kind }
    }
    #[inline]
    fn cover(&mut self, f: &Func, b: u32) {
        let i = f.gblock + b as usize;
        let w = i >> 6;
        if w >= self.covered.len() {
            self.covered.resize(w + 64, 0);
        }
        self.covered[w] |= 1 << (i & 63);
    }
    pub fn goto(&mut self, st: &mut State, target: u32) {
        let c = st.cur;
        let th = &mut st.threads[c];
        let fr = &mut th.cur;
        let func = fr.func.clone();
        let from = fr.blk;
        let b = &func.blocks[target as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, ins) = &b.phis[0];
                let v = ins.iter().find(|(l, _)| *l == from).map(|(_, o)| o).expect("phi");
                let v = match v {
                    Opnd::R(r) => fr.regs[*r as usize].clone(),
                    Opnd::K(v) => v.clone(),
                };
                fr.regs[*d as usize] = v;
            } else {
                let mut tmp = Vec::with_capacity(b.phis.len());
                for (_, ins) in &b.phis {
                    let v = ins.iter().find(|(l, _)| *l == from).map(|(_, o)| o).expect("phi");
                    tmp.push(match v {
                        Opnd::R(r) => fr.regs[*r as usize].clone(),
                        Opnd::K(v) => v.clone(),
                    });
                }
                for ((d, _), v) in b.phis.iter().zip(tmp) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.prev = from;
        fr.blk = target;
        fr.ip = 0;
        self.cover(&func, target);
    }
    pub fn set(&mut self, st: &mut State, dst: u32, v: V) {
        if dst != u32::MAX {
            st.th().cur.regs[dst as usize] = v;
        }
    }
    /// Finish a call executed inside the engine (external or intrinsic).
    pub fn finish_call(&mut self, st: &mut State, dst: u32, then: Option<u32>, v: V) {
        self.set(st, dst, v);
        match then {
            Some(t) => self.goto(st, t),
            None => st.th().cur.ip += 1,
        }
    }
    pub fn push_call(&mut self, st: &mut State, fid: u32, args: Vec<V>, dst: u32, then: Option<u32>, kind: RetKind) -> R<()> {
        let nf = self.new_frame(fid, args, dst, then, kind);
        let th = st.th();
        if th.stack.len() > 2000 {
            return Err(Halt::Violation("stack overflow (unbounded recursion)".into()));
        }
        let old = std::mem::replace(&mut th.cur, nf);
        th.stack.push(Rc::new(old));
        Ok(())
    }
    pub fn do_return(&mut self, st: &mut State, v: V) -> R<()> {
        let allocas = std::mem::take(&mut st.th().cur.allocas);
        for a in allocas {
            st.mem.free(a);
        }
        let th = st.th();
        let (dst, then, kind) = (th.cur.dst, th.cur.then, th.cur.kind);
        match kind {
            RetKind::HarnessEnd => return Err(Halt::Done),
            RetKind::ThreadEnd => {
                return crate::ext::thread_end(self, st, v);
            }
            RetKind::Normal | RetKind::Ignore => {}
        }
        let parent = th.stack.pop().expect("return from bottom frame");
        th.cur = match Rc::try_unwrap(parent) {
            Ok(f) => f,
            Err(rc) => (*rc).clone(),
        };
        if kind == RetKind::Ignore {
            // the interrupted instruction is re-executed or was already advanced
            return Ok(());
        }
        self.finish_call(st, dst, then, v);
        Ok(())
    }

    pub fn run_state(&mut self, mut st: State) -> (State, Halt) {
        loop {
            let mut n = 0u32;
            let r = loop {
                n += 1;
                if n & 0xfff == 0 {
                    st.steps += 0x1000;
                    self.steps += 0x1000;
                    if st.steps > self.cfg.max_steps {
                        break Halt::Error("step limit".into());
                    }
                    if self.t0.elapsed().as_secs_f64() > self.cfg.max_secs {
                        break Halt::Error("time limit".into());
                    }
                }
                if let Err(h) = self.step(&mut st) {
                    break h;
                }
            };
            match r {
                Halt::Yield => continue,
                h => return (st, h),
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (inst, ip): (&Inst, u32) = {
            let c = st.cur;
            let fr = &st.threads[c].cur;
            let b = &fr.func.blocks[fr.blk as usize];
            // functions are never freed while the engine lives
            (unsafe { &*(&b.insts[fr.ip as usize] as *const Inst) }, fr.ip)
        };
        let _ = ip;
        let c = st.cur;
        macro_rules! fr {
            () => {
                st.threads[c].cur
            };
        }
        macro_rules! ret {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let f = &mut st.threads[c].cur;
                f.regs[$d as usize] = v;
                f.ip += 1;
                return Ok(());
            }};
        }
        match inst {
            Inst::Bin(d, op, w, lanes, a, b) => {
                let x = self.op(&fr!(), a);
                let y = self.op(&fr!(), b);
                if *w == 256 {
                    let r = self.wide_div(*op, &x, &y)?;
                    ret!(*d, r)
                }
                if *lanes == 0 {
                    let r = self.bin(*op, *w, &x, &y)?;
                    ret!(*d, r)
                }
                let (x, y) = (agg(&x), agg(&y));
                let mut o = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    o.push(self.bin(*op, *w, &x[i], &y[i])?);
                }
                ret!(*d, V::A(Rc::new(o)))
            }
            Inst::Icmp(d, p, w, lanes, a, b) => {
                let x = self.op(&fr!(), a);
                let y = self.op(&fr!(), b);
                if *lanes == 0 {
                    let r = self.icmp(*p, *w, &x, &y);
                    ret!(*d, r)
                }
                let (x, y) = (agg(&x), agg(&y));
                let mut o = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    o.push(self.icmp(*p, *w, &x[i], &y[i]));
                }
                ret!(*d, V::A(Rc::new(o)))
            }
            Inst::Fcmp(d, p, w, a, b) => {
                let x = self.op(&fr!(), a);
                let y = self.op(&fr!(), b);
                let (x, y) = (self.e(&x, *w), self.e(&y, *w));
                let r = self.fcmp(p, x, y)?;
                let v = self.v(r);
                ret!(*d, v)
            }
            Inst::FNeg(d, w, a) => {
                let x = self.op(&fr!(), a);
                let e = self.e(&x, *w);
                let r = self.ex.fop(Op::FNeg, *w, e, e);
                let v = self.v(r);
                ret!(*d, v)
            }
            Inst::Cast(d, k, ft, tt, a) => {
                let mut x = self.op(&fr!(), a);
                if matches!(k, Cast::UiToFp | Cast::SiToFp) {
                    x = self.sole_value(st, x);
                }
                let v = self.cast(st, *k, *ft, *tt, x)?;
                ret!(*d, v)
            }
            Inst::Load(d, t, p, atomic) => {
                if *atomic {
                    crate::ext::sched_point(self, st)?;
                }
                let p = self.op(&fr!(), p);
                let v = self.load(st, *t, &p)?;
                ret!(*d, v)
            }
            Inst::Store(t, v, p, atomic) => {
                if *atomic {
                    crate::ext::sched_point(self, st)?;
                }
                let p = self.op(&fr!(), p);
                let v = self.op(&fr!(), v);
                self.store(st, *t, &v, &p)?;
                fr!().ip += 1;
                Ok(())
            }
            Inst::Alloca(d, sz, al, n) => {
                let n = self.op(&fr!(), n);
                let n = self.concretize(st, &n)? as u64;
                let a = st.mem.alloc(Obj::new(sz * n, *al, Kind::Stack));
                fr!().allocas.push((a >> 32) as u32);
                ret!(*d, V::I(a))
            }
            Inst::Gep(d, base, k, terms) => {
                let b = self.op(&fr!(), base);
                let mut fast = true;
                let mut addr = match &b {
                    V::I(x) => x.wrapping_add(*k as u64),
                    _ => {
                        fast = false;
                        0
                    }
                };
                if fast {
                    for (o, w, s) in terms {
                        match self.op(&fr!(), o) {
                            V::I(i) => addr = addr.wrapping_add((sx(i, *w) as u64).wrapping_mul(*s)),
                            _ => {
                                fast = false;
                                break;
                            }
                        }
                    }
                }
                if fast {
                    ret!(*d, V::I(addr))
                }
                let mut e = self.e(&b, 64);
                let kk = self.ex.cst(*k as u64 as u128, 64);
                e = self.ex.bin(Op::Add, e, kk);
                for (o, w, s) in terms {
                    let iv = self.op(&fr!(), o);
                    let ie = self.e(&iv, *w);
                    let ie = if *w < 64 {
                        self.ex.sext(ie, 64)
                    } else if *w > 64 {
                        self.ex.extract(ie, 0, 64)
                    } else {
                        ie
                    };
                    let sc = self.ex.cst(*s as u128, 64);
                    let t = self.ex.bin(Op::Mul, ie, sc);
                    e = self.ex.bin(Op::Add, e, t);
                }
                let v = self.v(e);
                ret!(*d, v)
            }
            Inst::Select(d, cv, a, b, isv, t) => {
                let cnd = self.op(&fr!(), cv);
                let x = self.op(&fr!(), a);
                let y = self.op(&fr!(), b);
                if *isv {
                    let cs = agg(&cnd);
                    let et = match self.m.types[*t as usize] {
                        Ty::Vec(_, e) => e,
                        _ => return Err(Halt::Error("vector select".into())),
                    };
                    let (x, y) = (agg(&x), agg(&y));
                    let mut o = vec![];
                    for i in 0..cs.len() {
                        let v = match &cs[i] {
                            V::I(k) => if *k != 0 { x[i].clone() } else { y[i].clone() },
                            V::S(c) => self.select_t(et, *c, &x[i], &y[i])?,
                            _ => return Err(Halt::Error("vector select".into())),
                        };
                        o.push(v);
                    }
                    ret!(*d, V::A(Rc::new(o)))
                }
                let cnd = self.simp_known(st, cnd);
                match cnd {
                    V::I(k) => ret!(*d, if k != 0 { x } else { y }),
                    V::S(c) => {
                        if st.logmode && matches!(self.m.types[*t as usize], Ty::Int(64)) {
                            // sizes stay linear along a path
                            let k = self.branch_retry(st, c)?;
                            ret!(*d, if k { x } else { y })
                        }
                        let v = self.select_t(*t, c, &x, &y)?;
                        ret!(*d, v)
                    }
                    _ => Err(Halt::Error("select".into())),
                }
            }
            Inst::Freeze(d, a) => {
                let x = self.op(&fr!(), a);
                ret!(*d, x)
            }
            Inst::Br(t) => {
                self.goto(st, *t);
                Ok(())
            }
            Inst::CondBr(cv, a, b) => {
                let x = self.op(&fr!(), cv);
                let t = match x {
                    V::I(k) => k != 0,
                    V::S(e) => {
                        let (a2, b2) = (*a, *b);
                        let me: *mut Eng = self;
                        self.branch(st, e, &mut |o: &mut State, side: bool| {
                            // safety: branch does not touch the engine while alt runs
                            unsafe { (*me).goto(o, if side { a2 } else { b2 }) }
                        })?
                    }
                    _ => return Err(Halt::Error("condbr".into())),
                };
                self.goto(st, if t { *a } else { *b });
                Ok(())
            }
            Inst::Switch(v, w, cases, def) => {
                let x = self.op(&fr!(), v);
                let x = self.simp_known(st, x);
                match self.kc(&x) {
                    Some(k) => {
                        let t = cases.iter().find(|(c, _)| *c == k).map(|(_, l)| *l).unwrap_or(*def);
                        self.goto(st, t);
                        Ok(())
                    }
                    None => {
                        let xe = self.e(&x, *w);
                        // group the cases by target
                        let mut groups: Vec<(u32, E)> = vec![];
                        let (lo, hi) = self.ex.range(xe);
                        let mut any = self.ex.cst(0, 1);
                        for (k, l) in cases {
                            if *k < lo || *k > hi {
                                continue;
                            }
                            let kk = self.ex.cst(*k, *w);
                            let c = self.ex.eq(xe, kk);
                            any = self.ex.or1(any, c);
                            match groups.iter_mut().find(|g| g.0 == *l) {
                                Some(g) => g.1 = self.ex.or1(g.1, c),
                                None => groups.push((*l, c)),
                            }
                        }
                        let _ = any;
                        for (l, cnd) in groups {
                            let me: *mut Eng = self;
                            let mut taken_by_alt = false;
                            let r = self.branch(st, cnd, &mut |o: &mut State, side: bool| {
                                if side {
                                    unsafe { (*me).goto(o, l) }
                                } else {
                                    taken_by_alt = true;
                                }
                            })?;
                            // alternative with side == false re-executes the switch with the case excluded
                            if r {
                                self.goto(st, l);
                                return Ok(());
                            }
                        }
                        self.goto(st, *def);
                        Ok(())
                    }
                }
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some(o) => self.op(&fr!(), o),
                    None => V::I(0),
                };
                self.do_return(st, v)
            }
            Inst::Unreachable => Err(Halt::Violation("unreachable code executed (undefined behaviour)".into())),
            Inst::ExtractValue(d, a, idx) => {
                let mut x = self.op(&fr!(), a);
                for i in idx {
                    x = agg(&x)[*i as usize].clone();
                }
                ret!(*d, x)
            }
            Inst::InsertValue(d, a, b, idx) => {
                let x = self.op(&fr!(), a);
                let y = self.op(&fr!(), b);
                let v = ins(&x, &y, idx);
                ret!(*d, v)
            }
            Inst::ExtractElt(d, a, i) => {
                let x = self.op(&fr!(), a);
                let i = self.op(&fr!(), i);
                let i = self.concretize(st, &i)? as usize;
                let v = agg(&x)[i].clone();
                ret!(*d, v)
            }
            Inst::InsertElt(d, a, v, i) => {
                let x = self.op(&fr!(), a);
                let v = self.op(&fr!(), v);
                let i = self.op(&fr!(), i);
                let i = self.concretize(st, &i)? as u32;
                let r = ins(&x, &v, &[i]);
                ret!(*d, r)
            }
            Inst::Shuffle(d, a, b, m, n) => {
                let x = agg(&self.op(&fr!(), a));
                let y = agg(&self.op(&fr!(), b));
                let n = *n as usize;
                let o: Vec<V> = m
                    .iter()
                    .map(|&i| {
                        let i = i as usize;
                        if i < n {
                            x[i].clone()
                        } else if i - n < y.len() {
                            y[i - n].clone()
                        } else {
                            V::I(0)
                        }
                    })
                    .collect();
                ret!(*d, V::A(Rc::new(o)))
            }
            Inst::CmpXchg(d, t, p, e, n) => {
                crate::ext::sched_point(self, st)?;
                let p = self.op(&fr!(), p);
                let e = self.op(&fr!(), e);
                let n = self.op(&fr!(), n);
                let (w, _) = self.m.scalar(*t);
                let old = self.load(st, *t, &p)?;
                let eqv = self.icmp(Pred::Eq, w, &old, &e);
                let ok = match eqv {
                    V::I(k) => k != 0,
                    V::S(x) => self.branch_retry(st, x)?,
                    _ => false,
                };
                if ok {
                    self.store(st, *t, &n, &p)?;
                }
                ret!(*d, V::A(Rc::new(vec![old, V::I(ok as u64)])))
            }
            Inst::AtomicRmw(d, op, t, p, v) => {
                crate::ext::sched_point(self, st)?;
                let p = self.op(&fr!(), p);
                let v = self.op(&fr!(), v);
                let (w, _) = self.m.scalar(*t);
                let old = self.load(st, *t, &p)?;
                let new = match &**op {
                    "xchg" => v,
                    "add" => self.bin(Bop::Add, w, &old, &v)?,
                    "sub" => self.bin(Bop::Sub, w, &old, &v)?,
                    "and" => self.bin(Bop::And, w, &old, &v)?,
                    "or" => self.bin(Bop::Or, w, &old, &v)?,
                    "xor" => self.bin(Bop::Xor, w, &old, &v)?,
                    "umax" | "umin" | "max" | "min" => {
                        let pr = match &**op {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "max" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        match self.icmp(pr, w, &old, &v) {
                            V::I(k) => if k != 0 { old.clone() } else { v },
                            V::S(c) => self.select_w(w, c, &old, &v),
                            _ => return Err(Halt::Error("atomicrmw".into())),
                        }
                    }
                    o => return Err(Halt::Error(format!("atomicrmw {}", o))),
                };
                self.store(st, *t, &new, &p)?;
                if *d != u32::MAX {
                    fr!().regs[*d as usize] = old;
                }
                fr!().ip += 1;
                Ok(())
            }
            Inst::Fence => {
                fr!().ip += 1;
                Ok(())
            }
            Inst::LandingPad(_) | Inst::Resume => Err(Halt::Error("landing pad reached".into())),
            Inst::Call(d, callee, args, rt, then) => {
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    av.push(self.op(&fr!(), a));
                }
                match callee {
                    Callee::Direct(f) => self.call_fn(st, *f, av, *d, *then, *rt),
                    Callee::Indirect(o) => {
                        let p = self.op(&fr!(), o);
                        let p = self.concretize(st, &p)? as u64;
                        let id = (p >> 32) as u32;
                        if p != obj_addr(id) || id == 0 || id as usize > self.m.funcs.len() {
                            return Err(Halt::Violation(format!("indirect call to {:#x}", p)));
                        }
                        self.call_fn(st, id - 1, av, *d, *then, *rt)
                    }
                    Callee::Intr(n) => {
                        crate::ext::intrinsic(self, st, n, av, *d, *then, *rt)
                    }
                    Callee::Asm(s) => {
                        let v = crate::ext::asm(self, st, s, &av)?;
                        self.finish_call(st, *d, *then, v);
                        Ok(())
                    }
                }
            }
        }
    }
    pub fn call_fn(&mut self, st: &mut State, f: u32, args: Vec<V>, d: u32, then: Option<u32>, rt: T) -> R<()> {
        if let Some(e) = self.extk[f as usize] {
            return crate::ext::external(self, st, e, f, args, d, then, rt);
        }
        if self.m.funcs[f as usize].body.is_none() {
            let n = self.m.funcs[f as usize].name.clone();
            return Err(Halt::Error(format!("unmodelled external function {}", n)));
        }
        self.push_call(st, f, args, d, then, RetKind::Normal)
    }
    fn fcmp(&mut self, p: &str, x: E, y: E) -> R<E> {
        let un = self.ex.fop(Op::FUno, 1, x, y);
        let r = match p {
            "false" => self.ex.cst(0, 1),
            "true" => self.ex.cst(1, 1),
            "uno" => un,
            "ord" => self.ex.not1(un),
            "oeq" => self.ex.fop(Op::FOeq, 1, x, y),
            "olt" => self.ex.fop(Op::FOlt, 1, x, y),
            "ole" => self.ex.fop(Op::FOle, 1, x, y),
            "ogt" => self.ex.fop(Op::FOlt, 1, y, x),
            "oge" => self.ex.fop(Op::FOle, 1, y, x),
            "one" => {
                let a = self.ex.fop(Op::FOlt, 1, x, y);
                let b = self.ex.fop(Op::FOlt, 1, y, x);
                self.ex.or1(a, b)
            }
            "ueq" => {
                let a = self.ex.fop(Op::FOeq, 1, x, y);
                self.ex.or1(a, un)
            }
            "une" => {
                let a = self.ex.fop(Op::FOeq, 1, x, y);
                self.ex.not1(a)
            }
            "ult" => {
                let a = self.ex.fop(Op::FOle, 1, y, x);
                self.ex.not1(a)
            }
            "ule" => {
                let a = self.ex.fop(Op::FOlt, 1, y, x);
                self.ex.not1(a)
            }
            "ugt" => {
                let a = self.ex.fop(Op::FOle, 1, x, y);
                self.ex.not1(a)
            }
            "uge" => {
                let a = self.ex.fop(Op::FOlt, 1, x, y);
                self.ex.not1(a)
            }
            o => return Err(Halt::Error(format!("fcmp {}", o))),
        };
        Ok(r)
    }
    fn cast(&mut self, st: &mut State, k: Cast, ft: T, tt: T, x: V) -> R<V> {
        if k == Cast::Nop {
            return Ok(x);
        }
        if k == Cast::Bitcast {
            let fv = matches!(self.m.types[ft as usize], Ty::Vec(..));
            let tv = matches!(self.m.types[tt as usize], Ty::Vec(..));
            if !fv && !tv {
                return Ok(x);
            }
            let packed = if fv {
                let (w, _) = self.m.scalar(ft);
                self.pack(&agg(&x), w)
            } else {
                x
            };
            if !tv {
                return Ok(packed);
            }
            let (w, l) = self.m.scalar(tt);
            let tot = w * l;
            let mut o = vec![];
            for i in 0..l {
                o.push(self.bits(&packed, tot, i * w, w));
            }
            return Ok(V::A(Rc::new(o)));
        }
        let (fw, fl) = self.m.scalar(ft);
        let (tw, _) = self.m.scalar(tt);
        if tw == 256 && k == Cast::ZExt && fl == 0 {
            let v = if fw == 128 { x } else { self.cast1(k, fw, 128, &x)? };
            return Ok(V::A(Rc::new(vec![v])));
        }
        if fw == 256 {
            return match &x {
                V::A(a) if a.len() == 1 && k == Cast::Trunc && tw == 128 => Ok(a[0].clone()),
                V::A(a) if a.len() == 1 && k == Cast::Trunc && tw < 128 => self.cast1(Cast::Trunc, 128, tw, &a[0]),
                _ => Err(Halt::Error("256-bit arithmetic".into())),
            };
        }
        if fl > 0 {
            let a = agg(&x);
            let mut o = vec![];
            for v in a.iter() {
                o.push(self.cast1(k, fw, tw, v)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let _ = st;
        self.cast1(k, fw, tw, &x)
    }
    /// The one 256-bit computation of the standard library: division of a 128-bit number by
    /// 10^16 as a multiplication and a shift. It is exact for all of them, because
    /// 0 <= M * 10^16 - 2^179 <= 2^51.
    fn wide_div(&mut self, op: Bop, x: &V, y: &V) -> R<V> {
        const M: u128 = 76624777043294442917917351357515459181;
        if let V::A(a) = x {
            let k = match y {
                V::I(k) => Some(*k as u128),
                V::W(k) => Some(**k),
                V::S(e) => self.ex.as_const(*e),
                _ => None,
            };
            if op == Bop::Mul && a.len() == 1 && k == Some(M) {
                return Ok(V::A(Rc::new(vec![a[0].clone(), V::I(1)])));
            }
            if op == Bop::LShr && a.len() == 2 && k == Some(179) {
                let d = self.ex.cst(10_000_000_000_000_000, 128);
                let e = self.e(&a[0], 128);
                let q = self.ex.bin(Op::UDiv, e, d);
                let q = self.v(q);
                return Ok(V::A(Rc::new(vec![q])));
            }
        }
        Err(Halt::Error("256-bit arithmetic".into()))
    }
    pub fn cast1(&mut self, k: Cast, fw: u32, tw: u32, x: &V) -> R<V> {
        match (k, x) {
            (Cast::Trunc, V::I(v)) => return Ok(V::I(v & m64(tw))),
            (Cast::ZExt, V::I(v)) if tw <= 64 => return Ok(V::I(*v)),
            (Cast::SExt, V::I(v)) if tw <= 64 => return Ok(V::I(sx(*v, fw) as u64 & m64(tw))),
            _ => {}
        }
        let e = self.e(x, fw);
        let r = match k {
            Cast::Trunc => self.ex.extract(e, 0, tw),
            Cast::ZExt => self.ex.zext(e, tw),
            Cast::SExt => self.ex.sext(e, tw),
            Cast::FpTrunc | Cast::FpExt => self.ex.fop(Op::FpCast, tw, e, e),
            Cast::FpToUi => self.ex.fop(Op::FpToUi, tw, e, e),
            Cast::FpToSi => self.ex.fop(Op::FpToSi, tw, e, e),
            Cast::UiToFp => self.ex.fop(Op::UiToFp, tw, e, e),
            Cast::SiToFp => self.ex.fop(Op::SiToFp, tw, e, e),
            _ => unreachable!(),
        };
        Ok(self.v(r))
    }

    // ------------------------------------------------------------------ driver
    pub fn initial(&mut self) -> State {
        let mut mem = Mem::new();
        mem.next = 1;
        // functions occupy ids but have no memory
        let first_g = 1 + self.m.funcs.len() as u32;
        for g in 0..self.m.globals.len() as u32 {
            if self.m.globals[g as usize].tls {
                continue;
            }
            let b = self.m.global_bytes(g);
            let gl = &self.m.globals[g as usize];
            let mut o = Obj::new(b.len() as u64, gl.align, Kind::Global);
            o.ro = gl.constant;
            o.data = Data::B(b, Default::default());
            mem.put(first_g + g, o);
        }
        mem.next = self.m.first_dyn_obj();
        let dummy = Frame {
            func: Rc::new(Func { id: 0, name: "<none>".into(), nregs: 0, params: vec![], blocks: vec![], gblock: 0 }),
            blk: 0,
            prev: 0,
            ip: 0,
            regs: vec![],
            allocas: vec![],
            dst: u32::MAX,
            then: None,
            kind: RetKind::HarnessEnd,
        };
        let th = Thread { cur: dummy, stack: vec![], tls: Default::default(), keys: Default::default(), stat: TStat::Run, ret: V::I(0), dtors: vec![], errno: 0 };
        let mut st = State {
            threads: vec![th],
            cur: 0,
            mem,
            pc: vec![],
            pcset: Default::default(),
            known: Default::default(),
            model: Rc::new(Model::default()),
            memo: Default::default(),
            dom: Default::default(),
            smemo: Default::default(),
            inputs: Default::default(),
            panic: PanicMode::Never,
            fs: Default::default(),
            steps: 0,
            logmode: false,
            preempt: 0,
            sched_on: false,
            sched_decided: false,
            dirs: Default::default(),
            trace: Default::default(),
            args_set: false,
            lock_owner: Default::default(),
            notes: Default::default(),
            faults: 0,
            clock_v: Default::default(),
            clock_pos: 0,
            wall: (V::I(1_600_000_000), V::I(5)),
            hw: Rc::new((vec![], vec![])),
        };
        crate::ext::fs_init(&mut st);
        st
    }
    pub fn explore(&mut self, entry: &str) -> Result<(), String> {
        let f = *self.m.fmap.get(entry).ok_or_else(|| format!("no function {}", entry))?;
        let mut st = self.initial();
        st.threads[0].cur = self.new_frame(f, vec![], u32::MAX, None, RetKind::HarnessEnd);
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_secs {
                *self.inconclusive.entry("time limit".into()).or_default() += 1 + self.work.len() as u64;
                break;
            }
            if self.paths >= self.cfg.max_paths {
                *self.inconclusive.entry("path limit".into()).or_default() += 1 + self.work.len() as u64;
                break;
            }
            let (st, h) = self.run_state(st);
            self.paths += 1;
            self.path_end(st, h);
            if self.cfg.stop_first && !self.violations.is_empty() {
                break;
            }
            if self.cfg.verbose && self.paths % 500 == 0 {
                eprintln!("  paths {} work {} steps {}M q {} ({:.1}s) t {:.1}s", self.paths, self.work.len(), self.steps / 1_000_000, self.sol.stats.queries, self.sol.stats.secs, self.t0.elapsed().as_secs_f64());
            }
        }
        Ok(())
    }
    fn path_end(&mut self, st: State, h: Halt) {
        let key;
        match h {
            Halt::Done => {
                // an expected refusal that did not come, when nothing said where its region ends
                if let PanicMode::Iff(c) = st.panic {
                    self.checks_discharged += 1;
                    if !matches!(self.feasible(&st, c), Tri::No) {
                        self.report(&st, "check", "completed although it has to be refused");
                    }
                }
                key = "completed".to_string();
                self.path_ok += 1;
                self.sample(&st);
                if !st.trace.is_empty() {
                    self.traces.extend(st.trace.iter().cloned());
                }
            }
            Halt::Infeasible => key = "assumption not met".into(),
            Halt::Panic(m) => {
                // compare with the expectation
                match st.panic {
                    PanicMode::Any => key = "panic (allowed)".into(),
                    PanicMode::Never => {
                        key = "panic (violation)".into();
                        self.report(&st, "panic", &m);
                    }
                    PanicMode::Iff(c) | PanicMode::If(c) => {
                        let nc = self.ex.not1(c);
                        self.checks_discharged += 1;
                        match self.feasible(&st, nc) {
                            Tri::No => {
                                key = "panic (expected)".into();
                                self.path_ok += 1;
                                // a process that ends itself ends natively with that status
                                match m.strip_prefix("process exit with status ") {
                                    Some(x) => {
                                        let n = self.samples.len();
                                        self.sample(&st);
                                        for s in &mut self.samples[n..] {
                                            *s = format!("# exit {}\n{}", x, s);
                                        }
                                    }
                                    None => self.sample(&st),
                                }
                            }
                            Tri::Yes(mo) => {
                                key = "panic (violation)".into();
                                let mut s2 = st.clone();
                                self.add_pc(&mut s2, nc, mo);
                                self.report(&s2, "panic", &format!("unexpected: {}", m));
                            }
                            Tri::Unknown => key = "panic (unknown)".into(),
                        }
                    }
                }
                if self.cfg.concrete.is_some() {
                    self.traces.extend(st.trace.iter().cloned());
                    self.traces.push("PANIC".to_string());
                }
            }
            Halt::Violation(m) => {
                key = "violation".into();
                if !m.starts_with('\0') {
                    self.report(&st, "memory", &m);
                }
            }
            Halt::Error(m) => {
                key = format!("error: {}", m);
                if self.cfg.verbose {
                    eprintln!("path error: {}\n   stack: {:?}", m, st.stack_names().iter().map(|s| demangle(s)).collect::<Vec<_>>());
                }
                if self.suspects.iter().filter(|x| x.0 == m).count() < 4 && self.suspects.len() < 24 {
                    let i = self.inputs_of(&st);
                    self.suspects.push((m.clone(), i));
                }
                *self.inconclusive.entry(m).or_default() += 1;
            }
            Halt::Yield => unreachable!(),
        }
        *self.ended.entry(key).or_default() += 1;
    }
    /// Keeps the inputs of the first, second, fourth ... such path.
    fn sample(&mut self, st: &State) {
        if self.path_ok.is_power_of_two() && self.cfg.concrete.is_none() {
            let i = self.inputs_of(st);
            self.samples.push(i);
        }
    }
    pub fn report(&mut self, st: &State, kind: &str, msg: &str) {
        // at most a few per message
        if self.cfg.stop_after > 0.0 {
            self.cfg.max_secs = self.cfg.max_secs.min(self.t0.elapsed().as_secs_f64() + self.cfg.stop_after);
            self.cfg.stop_after = 0.0;
        }
        let n = self.violations.iter().filter(|c| c.msg == msg).count();
        if n >= 3 || self.violations.len() >= 40 {
            return;
        }
        let out = self.inputs_of(st);
        let stack = st.stack_names();
        self.violations.push(Cex { kind: kind.into(), msg: msg.into(), inputs: out, stack });
    }
    fn inputs_of(&mut self, st: &State) -> String {
        let mut out = String::new();
        let inputs = st.inputs.clone();
        for i in inputs.iter() {
            match i {
                Inp::U(n, e) => {
                    let v = self.eval(st, *e);
                    out.push_str(&format!("u {} {}\n", n, v));
                }
                Inp::Choice(n, v) => out.push_str(&format!("c {} {}\n", n, v)),
                Inp::Conc(n, v) => out.push_str(&format!("# {} = {}\n", n, v)),
                Inp::Bytes(n, es) => {
                    let mut h = String::new();
                    for e in es {
                        h.push_str(&format!("{:02x}", self.eval(st, *e)));
                    }
                    out.push_str(&format!("b {} {}\n", n, h));
                }
                Inp::Source(n, src, len) => {
                    let l = match len {
                        V::I(x) => *x,
                        V::S(e) => self.eval(st, *e) as u64,
                        _ => 0,
                    };
                    let mut s = String::new();
                    let mut ks: Vec<(u64, u8)> = st.model.sels.iter().filter(|((a, i), _)| a == src && *i < l).map(|((_, i), v)| (*i, *v)).collect();
                    ks.sort();
                    for (i, v) in ks {
                        s.push_str(&format!(" {}={}", i, v));
                    }
                    out.push_str(&format!("s {} {}{}\n", n, l, s));
                }
                Inp::Sched(t) => out.push_str(&format!("t sched {}\n", t)),
            }
        }
        for (n, e) in st.notes.iter() {
            let v = self.eval(st, *e);
            out.push_str(&format!("# note {} = {}\n", n, v));
        }
        out
    }
}

pub fn agg(v: &V) -> Rc<Vec<V>> {
    match v {
        V::A(x) => x.clone(),
        o => panic!("aggregate expected, got {:?}", o),
    }
}
fn ins(a: &V, v: &V, idx: &[u32]) -> V {
    let mut x = (*agg(a)).clone();
    let i = idx[0] as usize;
    if idx.len() == 1 {
        x[i] = v.clone();
    } else {
        x[i] = ins(&x[i], v, &idx[1..]);
    }
    V::A(Rc::new(x))
}

pub fn demangle(s: &str) -> String {
    if let Some(r) = s.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut p = 0;
        let mut parts = vec![];
        while p < b.len() && b[p].is_ascii_digit() {
            let mut n = 0usize;
            while p < b.len() && b[p].is_ascii_digit() {
                n = n * 10 + (b[p] - b'0') as usize;
                p += 1;
            }
            if p + n > b.len() {
                break;
            }
            parts.push(r[p..p + n].to_string());
            p += n;
        }
        if let Some(l) = parts.last() {
            if l.len() == 17 && l.starts_with('h') {
                parts.pop();
            }
        }
        let j = parts.join("::");
        return j
            .replace("$LT$", "<")
            .replace("$GT$", ">")
            .replace("$u20$", " ")
            .replace("$RF$", "&")
            .replace("$u7b$", "{")
            .replace("$u7d$", "}")
            .replace("$C$", ",")
            .replace("$BP$", "*")
            .replace("..", "::")
            .trim_start_matches('_')
            .to_string();
    }
    s.to_string()
}
