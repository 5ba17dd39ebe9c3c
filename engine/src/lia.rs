//! The same query over the integers: exact, and only available when every
//! operation in it has a linear form. Time arithmetic (multiplication and
//! division by 10^9) is far easier there than on bit vectors.
use crate::expr::*;
use crate::solver::*;
use std::ffi::CString;

impl Solver {
    /// Arithmetic by constants that are no powers of two is easier over the integers.
    pub fn wants_lia(&mut self, ex: &Exprs, e: E) -> bool {
        if let Some(&b) = self.lia_first.get(&e) {
            return b;
        }
        let n = ex.node(e);
        let mut r = false;
        if matches!(n.op, Op::Mul | Op::UDiv | Op::URem) && n.w >= 32 {
            if let Some(k) = ex.as_const(n.b) {
                r = !k.is_power_of_two() && k > 64 && k < 1 << 40; // (larger ones are hash functions)
            }
        }
        if !r {
            for k in Exprs::kids(&n).iter().flatten() {
                if self.wants_lia(ex, *k) {
                    r = true;
                    break;
                }
            }
        }
        self.lia_first.insert(e, r);
        r
    }
    pub fn check_lia(&mut self, ex: &mut Exprs, cons: &[E], vars: &[u32], sels: &[E], ms: u32) -> Res {
        let mut fs = vec![];
        for &c in cons {
            match self.ibool(ex, c) {
                Some(p) => fs.push(p),
                None => return Res::Unknown,
            }
        }
        self.stats.lia += 1;
        self.set_timeout(self.isolver, ms);
        unsafe {
            (self.api.solver_reset)(self.ctx, self.isolver);
            for &v in vars {
                let (lo, hi) = {
                    let i = &ex.vars[v as usize];
                    (i.min, i.max)
                };
                let ve = self.int(ex, ex.var_expr[v as usize]).unwrap();
                for a in [(self.api.mk_le)(self.ctx, self.inum(lo), ve), (self.api.mk_le)(self.ctx, ve, self.inum(hi))] {
                    (self.api.solver_assert)(self.ctx, self.isolver, a);
                }
            }
            for &s in sels {
                let ve = match self.int(ex, s) {
                    Some(v) => v,
                    None => return Res::Unknown,
                };
                for a in [(self.api.mk_le)(self.ctx, self.inum(0), ve), (self.api.mk_le)(self.ctx, ve, self.inum(255))] {
                    (self.api.solver_assert)(self.ctx, self.isolver, a);
                }
            }
            for a in fs {
                (self.api.solver_assert)(self.ctx, self.isolver, a);
            }
            match (self.api.solver_check)(self.ctx, self.isolver) {
                1 => {
                    let m = (self.api.solver_get_model)(self.ctx, self.isolver);
                    (self.api.model_inc_ref)(self.ctx, m);
                    let mut model = Model::default();
                    for &v in vars {
                        let ve = self.int(ex, ex.var_expr[v as usize]).unwrap();
                        model.vars.insert(v, self.eval_num(m, ve));
                    }
                    for &s in sels {
                        let n = ex.node(s);
                        let ia = self.int(ex, n.b).unwrap();
                        let i = self.eval_num(m, ia);
                        let va = self.int(ex, s).unwrap();
                        let v = self.eval_num(m, va);
                        model.sels.insert((n.a, i as u64), v as u8);
                    }
                    (self.api.model_dec_ref)(self.ctx, m);
                    Res::Sat(model)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        }
    }
    fn inum(&self, k: u128) -> P {
        let c = CString::new(k.to_string()).unwrap();
        unsafe { (self.api.mk_numeral)(self.ctx, c.as_ptr(), (self.api.mk_int_sort)(self.ctx)) }
    }
    fn pow2(&self, k: u32) -> P {
        if k == 128 {
            let c = CString::new("340282366920938463463374607431768211456").unwrap();
            return unsafe { (self.api.mk_numeral)(self.ctx, c.as_ptr(), (self.api.mk_int_sort)(self.ctx)) };
        }
        self.inum(1u128 << k)
    }
    fn iadd(&self, a: P, b: P) -> P {
        unsafe { (self.api.mk_add)(self.ctx, 2, [a, b].as_ptr()) }
    }
    fn isub(&self, a: P, b: P) -> P {
        unsafe { (self.api.mk_sub)(self.ctx, 2, [a, b].as_ptr()) }
    }
    fn imul(&self, a: P, b: P) -> P {
        unsafe { (self.api.mk_mul)(self.ctx, 2, [a, b].as_ptr()) }
    }
    fn ineg_wrap(&self, x: P, w: u32) -> P {
        unsafe { (self.api.mk_ite)(self.ctx, (self.api.mk_lt)(self.ctx, x, self.inum(0)), self.iadd(x, self.pow2(w)), x) }
    }
    /// bits lo..lo+len of x (x below 2^w)
    fn ibits(&self, x: P, w: u32, lo: u32, len: u32, max: u128) -> P {
        unsafe {
            let d = if lo == 0 { x } else { (self.api.mk_div)(self.ctx, x, self.pow2(lo)) };
            if lo + len >= w || max >> lo <= mask(len) {
                d
            } else {
                (self.api.mk_mod)(self.ctx, d, self.pow2(len))
            }
        }
    }
    /// x & k
    fn iand(&self, x: P, w: u32, k: u128, max: u128) -> Option<P> {
        let mut runs = vec![];
        let mut i = 0;
        while i < w {
            if k >> i & 1 == 1 {
                let s = i;
                while i < w && k >> i & 1 == 1 {
                    i += 1;
                }
                runs.push((s, i - s));
            } else {
                i += 1;
            }
        }
        if runs.len() > 3 {
            return None;
        }
        let mut acc = self.inum(0);
        for (lo, len) in runs {
            if max >> lo == 0 {
                continue;
            }
            let b = self.ibits(x, w, lo, len, max);
            let b = if lo == 0 { b } else { self.imul(self.pow2(lo), b) };
            acc = self.iadd(acc, b);
        }
        Some(acc)
    }
    /// An integer congruent to `e` modulo 2^w, with its bounds: sums, differences and multiples stay
    /// linear, and the reduction is left to whoever needs it.
    fn raw(&mut self, ex: &Exprs, e: E) -> Option<(P, i128, i128)> {
        if let Some(&r) = self.ast_raw.get(&e) {
            return r;
        }
        let r = self.raw_(ex, e);
        self.nodes_in_ctx += 1;
        self.ast_raw.insert(e, r);
        r
    }
    fn raw_(&mut self, ex: &Exprs, e: E) -> Option<(P, i128, i128)> {
        const LIM: i128 = 1 << 126;
        let n = ex.node(e);
        let w = n.w as u32;
        let ok = |lo: Option<i128>, hi: Option<i128>| match (lo, hi) {
            (Some(l), Some(h)) if l > -LIM && h < LIM => Some((l, h)),
            _ => None,
        };
        let sk = |k: u128| -> Option<i128> {
            let v = if w < 128 && k >> (w - 1) != 0 { k as i128 - (1i128 << w) } else { k as i128 };
            if v > -LIM && v < LIM { Some(v) } else { None }
        };
        let num = |s: &Self, v: i128| unsafe {
            let c = CString::new(v.to_string()).unwrap();
            (s.api.mk_numeral)(s.ctx, c.as_ptr(), (s.api.mk_int_sort)(s.ctx))
        };
        if w > 1 {
            match n.op {
                Op::Const => {
                    if let Some(v) = sk(n.k) {
                        return Some((num(self, v), v, v));
                    }
                }
                Op::Add | Op::Sub => {
                    let (x, xl, xh) = self.raw(ex, n.a)?;
                    let (y, yl, yh) = self.raw(ex, n.b)?;
                    let (b, p) = if n.op == Op::Add { (ok(xl.checked_add(yl), xh.checked_add(yh)), self.iadd(x, y)) } else { (ok(xl.checked_sub(yh), xh.checked_sub(yl)), self.isub(x, y)) };
                    if let Some((l, h)) = b {
                        return Some((p, l, h));
                    }
                }
                Op::Mul => {
                    if let Some(k) = ex.as_const(n.b).and_then(sk) {
                        let (x, xl, xh) = self.raw(ex, n.a)?;
                        if let (Some(a), Some(b)) = (xl.checked_mul(k), xh.checked_mul(k)) {
                            if let Some((l, h)) = ok(Some(a.min(b)), Some(a.max(b))) {
                                return Some((self.imul(num(self, k), x), l, h));
                            }
                        }
                    }
                }
                Op::Ite => {
                    let c = self.ibool(ex, n.a)?;
                    let (x, xl, xh) = self.raw(ex, n.b)?;
                    let (y, yl, yh) = self.raw(ex, n.c)?;
                    return Some((unsafe { (self.api.mk_ite)(self.ctx, c, x, y) }, xl.min(yl), xh.max(yh)));
                }
                Op::Extract if n.b == 0 => {
                    return self.raw(ex, n.a);
                }
                Op::SExt => {
                    if let Some((x, l, h)) = self.raw(ex, n.a) {
                        let sw = ex.w(n.a);
                        if sw < 127 && l >= -(1i128 << (sw - 1)) && h < 1i128 << (sw - 1) {
                            return Some((x, l, h));
                        }
                    }
                }
                _ => {}
            }
        }
        let (lo, hi) = ex.range(e);
        if hi >= LIM as u128 {
            return None;
        }
        let x = match n.op {
            Op::Add | Op::Sub | Op::Mul | Op::Ite | Op::Extract | Op::SExt => self.int_old(ex, e)?,
            _ => self.int(ex, e)?,
        };
        Some((x, lo as i128, hi as i128))
    }
    /// the value reduced into 0..2^w
    fn reduced(&mut self, ex: &Exprs, e: E) -> Option<P> {
        let w = ex.w(e);
        let (x, l, h) = self.raw(ex, e)?;
        unsafe {
            let z = self.inum(0);
            let top = if w >= 126 { i128::MAX } else { 1i128 << w };
            if l >= 0 && h < top {
                Some(x)
            } else if l >= -(top - 1) && h < top {
                Some((self.api.mk_ite)(self.ctx, (self.api.mk_lt)(self.ctx, x, z), self.iadd(x, self.pow2(w)), x))
            } else if w < 126 && l >= 0 && h < 2 * top {
                Some((self.api.mk_ite)(self.ctx, (self.api.mk_lt)(self.ctx, x, self.pow2(w)), x, self.isub(x, self.pow2(w))))
            } else {
                Some((self.api.mk_mod)(self.ctx, x, self.pow2(w)))
            }
        }
    }
    fn fits_signed(w: u32, l: i128, h: i128) -> bool {
        let half = if w >= 127 { i128::MAX } else { 1i128 << (w - 1) };
        l >= -half && h < half
    }
    fn signed(&mut self, ex: &Exprs, e: E) -> Option<P> {
        if ex.w(e) > 1 {
            if let Some((x, l, h)) = self.raw(ex, e) {
                if Self::fits_signed(ex.w(e), l, h) {
                    return Some(x);
                }
            }
        }
        let x = self.int(ex, e)?;
        let w = ex.w(e);
        let (lo, hi) = ex.range(e);
        let h = 1u128 << (w - 1);
        if hi < h {
            return Some(x);
        }
        let m = self.isub(x, self.pow2(w));
        if lo >= h {
            return Some(m);
        }
        unsafe {
            let c = (self.api.mk_lt)(self.ctx, x, self.pow2(w - 1));
            Some((self.api.mk_ite)(self.ctx, c, x, m))
        }
    }
    fn int(&mut self, ex: &Exprs, e: E) -> Option<P> {
        if let Some(&p) = self.ast_int.get(&e) {
            return if p.is_null() { None } else { Some(p) };
        }
        let p = self.int_(ex, e);
        self.nodes_in_ctx += 1;
        self.ast_int.insert(e, p.unwrap_or(std::ptr::null_mut()));
        p
    }
    fn int_(&mut self, ex: &Exprs, e: E) -> Option<P> {
        let n = ex.node(e);
        let w = n.w as u32;
        if w > 1 && (matches!(n.op, Op::Add | Op::Sub | Op::Mul | Op::Ite | Op::SExt) || n.op == Op::Extract && n.b == 0) {
            if let Some(p) = self.reduced(ex, e) {
                return Some(p);
            }
        }
        // the sign bit
        let top = match n.op {
            Op::LShr => ex.as_const(n.b) == Some(w as u128 - 1),
            Op::Extract => n.b + w == ex.w(n.a) && w == 1,
            _ => false,
        };
        if top {
            if let Some((x, l, h)) = self.raw(ex, n.a) {
                if Self::fits_signed(ex.w(n.a), l, h) {
                    let (o, z) = (self.inum(1), self.inum(0));
                    return Some(unsafe { (self.api.mk_ite)(self.ctx, (self.api.mk_lt)(self.ctx, x, z), o, z) });
                }
            }
        }
        self.int_old(ex, e)
    }
    fn int_old(&mut self, ex: &Exprs, e: E) -> Option<P> {
        let n = ex.node(e);
        let w = n.w as u32;
        let c = self.ctx;
        if w == 1 && n.op != Op::Var {
            let b = self.ibool(ex, e)?;
            let (o, z) = (self.inum(1), self.inum(0));
            return Some(unsafe { (self.api.mk_ite)(c, b, o, z) });
        }
        let kb = |x: E| ex.as_const(x);
        let max = |x: E| ex.range(x).1;
        let min = |x: E| ex.range(x).0;
        unsafe {
            Some(match n.op {
                Op::Const => self.inum(n.k),
                Op::Var => {
                    let s = (self.api.mk_int_sort)(c);
                    let sy = self.sym(&format!("i{}_{}", n.a, ex.vars[n.a as usize].name));
                    (self.api.mk_const)(c, sy, s)
                }
                Op::Sel => {
                    let i = self.int(ex, n.b)?;
                    let d = match self.int_decl.get(&n.a) {
                        Some(&d) => d,
                        None => {
                            let s = (self.api.mk_int_sort)(c);
                            let sy = self.sym(&format!("isrc{}", n.a));
                            let d = (self.api.mk_func_decl)(c, sy, 1, &s, s);
                            self.int_decl.insert(n.a, d);
                            d
                        }
                    };
                    (self.api.mk_app)(c, d, 1, &i)
                }
                Op::Add => {
                    let (x, y) = (self.int(ex, n.a)?, self.int(ex, n.b)?);
                    let s = self.iadd(x, y);
                    if max(n.a).checked_add(max(n.b)).map_or(false, |m| m <= mask(w)) {
                        s
                    } else {
                        let p = self.pow2(w);
                        (self.api.mk_ite)(c, (self.api.mk_lt)(c, s, p), s, self.isub(s, p))
                    }
                }
                Op::Sub => {
                    let (x, y) = (self.int(ex, n.a)?, self.int(ex, n.b)?);
                    let s = self.isub(x, y);
                    if min(n.a) >= max(n.b) {
                        s
                    } else {
                        self.ineg_wrap(s, w)
                    }
                }
                Op::Mul => {
                    let (k, x) = match (kb(n.a), kb(n.b)) {
                        (_, Some(k)) => (k, n.a),
                        (Some(k), _) => (k, n.b),
                        _ => return None,
                    };
                    let xi = self.int(ex, x)?;
                    if k == mask(w) {
                        // negation
                        let z = self.inum(0);
                        return Some((self.api.mk_ite)(c, (self.api.mk_eq)(c, xi, z), z, self.isub(self.pow2(w), xi)));
                    }
                    let p = self.imul(self.inum(k), xi);
                    if max(x).checked_mul(k).map_or(false, |m| m <= mask(w)) {
                        p
                    } else {
                        (self.api.mk_mod)(c, p, self.pow2(w))
                    }
                }
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem => {
                    let k = kb(n.b)?;
                    if k == 0 {
                        return None;
                    }
                    if matches!(n.op, Op::SDiv | Op::SRem) && (max(n.a) >> (w - 1) != 0 || k >> (w - 1) != 0) {
                        return None;
                    }
                    let x = self.int(ex, n.a)?;
                    let f = if matches!(n.op, Op::UDiv | Op::SDiv) { self.api.mk_div } else { self.api.mk_mod };
                    f(c, x, self.inum(k))
                }
                Op::Shl => {
                    let k = kb(n.b)?;
                    if k >= w as u128 {
                        return Some(self.inum(0));
                    }
                    let k = k as u32;
                    let x = self.int(ex, n.a)?;
                    let low = self.ibits(x, w, 0, w - k, max(n.a));
                    self.imul(self.pow2(k), low)
                }
                Op::LShr => {
                    let k = kb(n.b)?;
                    if k >= w as u128 {
                        return Some(self.inum(0));
                    }
                    let x = self.int(ex, n.a)?;
                    (self.api.mk_div)(c, x, self.pow2(k as u32))
                }
                Op::AShr => {
                    let k = kb(n.b)?.min(w as u128 - 1) as u32;
                    let x = self.signed(ex, n.a)?;
                    let d = (self.api.mk_div)(c, x, self.pow2(k));
                    if max(n.a) >> (w - 1) == 0 {
                        d
                    } else {
                        self.ineg_wrap(d, w)
                    }
                }
                Op::And => {
                    let k = kb(n.b)?;
                    let x = self.int(ex, n.a)?;
                    self.iand(x, w, k, max(n.a))?
                }
                Op::Or | Op::Xor => {
                    let (ia, ib) = (ex.info[n.a as usize], ex.info[n.b as usize]);
                    let x = self.int(ex, n.a)?;
                    let y = self.int(ex, n.b)?;
                    let s = self.iadd(x, y);
                    if (ia.kz | ib.kz) & mask(w) == mask(w) {
                        s
                    } else {
                        let k = kb(n.b)?;
                        if k == mask(w) && n.op == Op::Xor {
                            return Some(self.isub(self.inum(k), x));
                        }
                        let both = self.iand(x, w, k, max(n.a))?;
                        let both = if n.op == Op::Or { both } else { self.imul(self.inum(2), both) };
                        self.isub(s, both)
                    }
                }
                Op::Ite => {
                    let b = self.ibool(ex, n.a)?;
                    let (x, y) = (self.int(ex, n.b)?, self.int(ex, n.c)?);
                    (self.api.mk_ite)(c, b, x, y)
                }
                Op::ZExt => self.int(ex, n.a)?,
                Op::SExt => {
                    let s = self.signed(ex, n.a)?;
                    if max(n.a) >> (ex.w(n.a) - 1) == 0 {
                        s
                    } else {
                        self.ineg_wrap(s, w)
                    }
                }
                Op::Extract => {
                    let x = self.int(ex, n.a)?;
                    self.ibits(x, ex.w(n.a), n.b, w, max(n.a))
                }
                Op::Concat => {
                    let (x, y) = (self.int(ex, n.a)?, self.int(ex, n.b)?);
                    self.iadd(self.imul(self.pow2(ex.w(n.b)), x), y)
                }
                _ => return None,
            })
        }
    }
    fn ibool(&mut self, ex: &Exprs, e: E) -> Option<P> {
        if let Some(&p) = self.ast_ib.get(&e) {
            return if p.is_null() { None } else { Some(p) };
        }
        let p = self.ibool_(ex, e);
        self.nodes_in_ctx += 1;
        self.ast_ib.insert(e, p.unwrap_or(std::ptr::null_mut()));
        p
    }
    fn ibool_(&mut self, ex: &Exprs, e: E) -> Option<P> {
        let n = ex.node(e);
        let c = self.ctx;
        unsafe {
            Some(match n.op {
                Op::Const => {
                    if n.k != 0 {
                        (self.api.mk_true)(c)
                    } else {
                        (self.api.mk_false)(c)
                    }
                }
                Op::Eq | Op::Ult | Op::Ule => {
                    if ex.w(n.a) == 1 && n.op == Op::Eq {
                        let (x, y) = (self.ibool(ex, n.a)?, self.ibool(ex, n.b)?);
                        return Some((self.api.mk_eq)(c, x, y));
                    }
                    if n.op == Op::Eq {
                        let w = ex.w(n.a);
                        if let (Some((x, xl, xh)), Some((y, yl, yh))) = (self.raw(ex, n.a), self.raw(ex, n.b)) {
                            if Self::fits_signed(w, xl, xh) && Self::fits_signed(w, yl, yh) {
                                return Some((self.api.mk_eq)(c, x, y));
                            }
                        }
                    }
                    let (x, y) = (self.int(ex, n.a)?, self.int(ex, n.b)?);
                    match n.op {
                        Op::Eq => (self.api.mk_eq)(c, x, y),
                        Op::Ult => (self.api.mk_lt)(c, x, y),
                        _ => (self.api.mk_le)(c, x, y),
                    }
                }
                Op::Slt | Op::Sle => {
                    let (x, y) = (self.signed(ex, n.a)?, self.signed(ex, n.b)?);
                    if n.op == Op::Slt {
                        (self.api.mk_lt)(c, x, y)
                    } else {
                        (self.api.mk_le)(c, x, y)
                    }
                }
                Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul => {
                    let (x, y) = (self.ibool(ex, n.a)?, self.ibool(ex, n.b)?);
                    match n.op {
                        Op::And | Op::Mul => (self.api.mk_and)(c, 2, [x, y].as_ptr()),
                        Op::Or => (self.api.mk_or)(c, 2, [x, y].as_ptr()),
                        _ => (self.api.mk_xor)(c, x, y),
                    }
                }
                Op::Ite => {
                    let (x, t, f) = (self.ibool(ex, n.a)?, self.ibool(ex, n.b)?, self.ibool(ex, n.c)?);
                    (self.api.mk_ite)(c, x, t, f)
                }
                Op::Var => {
                    let x = self.int(ex, e)?;
                    (self.api.mk_eq)(c, x, self.inum(1))
                }
                Op::Extract => {
                    if n.b + 1 == ex.w(n.a) {
                        if let Some((x, l, h)) = self.raw(ex, n.a) {
                            if Self::fits_signed(ex.w(n.a), l, h) {
                                return Some((self.api.mk_lt)(c, x, self.inum(0)));
                            }
                        }
                    }
                    let x = self.int(ex, n.a)?;
                    let b = self.ibits(x, ex.w(n.a), n.b, 1, ex.range(n.a).1);
                    (self.api.mk_eq)(c, b, self.inum(1))
                }
                _ => return None,
            })
        }
    }
}
