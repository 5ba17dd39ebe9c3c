//! Hash-consed bit-vector expressions with on-construction simplification,
//! unsigned interval and known-bits analysis.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // b = lo
    Concat,  // a = high, b = low
    Sel,     // uninterpreted byte source: a = source index, b = index (64 bit)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FNeg,
    FAbs,
    FOlt,
    FOle,
    FOeq,
    FUno,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpCast,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

#[derive(Clone, Copy)]
pub struct Info {
    pub min: u128,
    pub max: u128,
    pub kz: u128, // bits known to be zero
    pub ko: u128, // bits known to be one
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub min: u128,
    pub max: u128,
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: FxMap<Node, E>,
    pub vars: Vec<VarInfo>,
    pub var_expr: Vec<E>,
    pub srcs: Vec<String>,
    varsets: Vec<Option<Rc<Vec<u32>>>>,
    table_depth: u32,
    tables: FxMap<E, Option<Rc<Vec<u64>>>>,
}

fn ones_up_to(v: u128) -> u128 {
    // all bits up to and including the highest set bit
    if v == 0 {
        0
    } else {
        mask(128 - v.leading_zeros())
    }
}

#[derive(Clone, Copy, Debug)]
struct Seg {
    w: u32,
    k: Option<u128>,
    e: E,
    lo: u32,
}

impl Exprs {
    pub fn new() -> Self {
        Exprs {
            nodes: vec![],
            info: vec![],
            map: Default::default(),
            vars: vec![],
            var_expr: vec![],
            srcs: vec![],
            varsets: vec![],
            table_depth: 0,
            tables: Default::default(),
        }
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    #[inline]
    pub fn range(&self, e: E) -> (u128, u128) {
        let i = &self.info[e as usize];
        (i.min, i.max)
    }

    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32, k: u128) -> E {
        let n = Node { op, w: w as u16, a, b, c, k };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let mut inf = self.compute_info(&n);
        // combine both domains
        let m = mask(w);
        inf.kz &= m;
        inf.ko &= m;
        inf.min = inf.min.max(inf.ko);
        inf.max = inf.max.min(m & !inf.kz);
        inf.kz |= m & !ones_up_to(inf.max);
        if inf.min > inf.max {
            // contradictory (dead) value: keep it harmless
            inf = Info { min: 0, max: m, kz: 0, ko: 0 };
        }
        if op != Op::Const && inf.min == inf.max {
            // value is forced: represent it by the constant
            let c = self.cst(inf.min, w);
            self.map.insert(n, c);
            return c;
        }
        self.nodes.push(n);
        self.info.push(inf);
        self.varsets.push(None);
        self.map.insert(n, e);
        e
    }

    pub fn cst(&mut self, k: u128, w: u32) -> E {
        self.mk(Op::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn var(&mut self, name: &str, w: u32, min: u128, max: u128) -> E {
        let idx = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), w, min, max });
        let n = Node { op: Op::Var, w: w as u16, a: idx, b: 0, c: 0, k: 0 };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.info.push(Info { min, max, kz: mask(w) & !ones_up_to(max), ko: 0 });
        self.varsets.push(None);
        self.map.insert(n, e);
        self.var_expr.push(e);
        e
    }
    pub fn new_src(&mut self, name: &str) -> u32 {
        self.srcs.push(name.to_string());
        (self.srcs.len() - 1) as u32
    }
    pub fn sel(&mut self, src: u32, idx: E) -> E {
        self.mk(Op::Sel, 8, src, idx, 0, 0)
    }

    fn compute_info(&self, n: &Node) -> Info {
        let w = n.w as u32;
        let m = mask(w);
        let full = Info { min: 0, max: m, kz: 0, ko: 0 };
        let ia = || self.info[n.a as usize];
        let ib = || self.info[n.b as usize];
        match n.op {
            Op::Const => Info { min: n.k, max: n.k, kz: m & !n.k, ko: n.k },
            Op::Add => {
                let (a, b) = (ia(), ib());
                let mut r = full;
                match (a.min.checked_add(b.min), a.max.checked_add(b.max)) {
                    (Some(lo), Some(hi)) if hi <= m => {
                        r.min = lo;
                        r.max = hi
                    }
                    (Some(lo), Some(hi)) if w < 128 && lo > m => {
                        // both wrap
                        r.min = lo & m;
                        r.max = hi & m;
                        if r.min > r.max {
                            r.min = 0;
                            r.max = m;
                        }
                    }
                    _ => {}
                }
                let tz = (!a.kz & m).trailing_zeros().min((!b.kz & m).trailing_zeros()).min(w);
                r.kz |= mask(tz);
                r
            }
            Op::Sub => {
                let (a, b) = (ia(), ib());
                let mut r = full;
                if a.min >= b.max {
                    r.min = a.min - b.max;
                    r.max = a.max - b.min;
                }
                let tz = (!a.kz & m).trailing_zeros().min((!b.kz & m).trailing_zeros()).min(w);
                r.kz |= mask(tz);
                r
            }
            Op::Mul => {
                let (a, b) = (ia(), ib());
                let mut r = full;
                if let Some(hi) = a.max.checked_mul(b.max) {
                    if hi <= m {
                        r.min = a.min * b.min;
                        r.max = hi;
                    }
                }
                let tz = ((!a.kz & m).trailing_zeros().min(w) + (!b.kz & m).trailing_zeros().min(w)).min(w);
                r.kz |= mask(tz);
                r
            }
            Op::UDiv => {
                let (a, b) = (ia(), ib());
                if b.min == 0 {
                    return full;
                }
                Info { min: a.min / b.max, max: a.max / b.min, kz: 0, ko: 0 }
            }
            Op::URem => {
                let (a, b) = (ia(), ib());
                if b.min == 0 {
                    return full;
                }
                Info { min: 0, max: a.max.min(b.max - 1), kz: 0, ko: 0 }
            }
            Op::And => {
                let (a, b) = (ia(), ib());
                Info { min: 0, max: a.max.min(b.max), kz: a.kz | b.kz, ko: a.ko & b.ko }
            }
            Op::Or => {
                let (a, b) = (ia(), ib());
                Info { min: a.min.max(b.min), max: ones_up_to(a.max | b.max), kz: a.kz & b.kz, ko: a.ko | b.ko }
            }
            Op::Xor => {
                let (a, b) = (ia(), ib());
                Info {
                    min: 0,
                    max: ones_up_to(a.max | b.max),
                    kz: (a.kz & b.kz) | (a.ko & b.ko),
                    ko: (a.ko & b.kz) | (a.kz & b.ko),
                }
            }
            Op::LShr => {
                if let Some(s) = self.as_const(n.b) {
                    if s < w as u128 {
                        let a = ia();
                        return Info { min: a.min >> s, max: a.max >> s, kz: (a.kz >> s) | (m & !(m >> s)), ko: a.ko >> s };
                    }
                }
                Info { min: 0, max: ia().max, kz: 0, ko: 0 }
            }
            Op::Shl => {
                if let Some(s) = self.as_const(n.b) {
                    if s < w as u128 {
                        let a = ia();
                        let mut r = full;
                        if a.max.leading_zeros() as u128 >= s + (128 - w as u128) {
                            r.min = a.min << s;
                            r.max = a.max << s;
                        }
                        r.kz = ((a.kz << s) | mask(s as u32)) & m;
                        r.ko = (a.ko << s) & m;
                        return r;
                    }
                }
                full
            }
            Op::Ite => {
                let (b, c) = (ib(), self.info[n.c as usize]);
                Info { min: b.min.min(c.min), max: b.max.max(c.max), kz: b.kz & c.kz, ko: b.ko & c.ko }
            }
            Op::ZExt => {
                let a = ia();
                let aw = self.w(n.a);
                Info { min: a.min, max: a.max, kz: a.kz | (m & !mask(aw)), ko: a.ko }
            }
            Op::SExt => {
                let a = ia();
                let aw = self.w(n.a);
                if a.max < (1u128 << (aw - 1)) {
                    Info { min: a.min, max: a.max, kz: a.kz | (m & !mask(aw)), ko: a.ko }
                } else {
                    full
                }
            }
            Op::Extract => {
                let a = ia();
                let lo = n.b;
                let mut r = full;
                r.kz = (a.kz >> lo) & m;
                r.ko = (a.ko >> lo) & m;
                if (a.max >> lo) <= m {
                    r.min = a.min >> lo;
                    r.max = a.max >> lo;
                }
                r
            }
            Op::Concat => {
                let (a, b) = (ia(), ib());
                let bw = self.w(n.b);
                Info {
                    min: (a.min << bw) | b.min,
                    max: (a.max << bw) | b.max,
                    kz: (a.kz << bw) | b.kz,
                    ko: (a.ko << bw) | b.ko,
                }
            }
            _ => full,
        }
    }

    /// Sorted list of variables an expression depends on. Byte sources appear
    /// as ids with the top bit set.
    pub fn varset(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = &self.varsets[e as usize] {
            return v.clone();
        }
        // iterative post-order
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.varsets[x as usize].is_some() {
                st.pop();
                continue;
            }
            let n = self.node(x);
            let kids = Self::kids(&n);
            let mut pending = false;
            for k in kids.iter().flatten() {
                if self.varsets[*k as usize].is_none() {
                    st.push(*k);
                    pending = true;
                }
            }
            if pending {
                continue;
            }
            let mut set: Vec<u32> = match n.op {
                Op::Var => vec![n.a],
                Op::Sel => vec![n.a | 0x8000_0000],
                _ => vec![],
            };
            let ks: Vec<E> = kids.iter().flatten().cloned().collect();
            let r = if set.is_empty() && ks.len() == 1 {
                self.varsets[ks[0] as usize].clone().unwrap()
            } else {
                for k in ks {
                    set.extend_from_slice(self.varsets[k as usize].as_ref().unwrap());
                }
                set.sort_unstable();
                set.dedup();
                Rc::new(set)
            };
            self.varsets[x as usize] = Some(r);
            st.pop();
        }
        self.varsets[e as usize].clone().unwrap()
    }

    /// The values of `e` for every value 0..=255 of the one byte-sized variable it depends on.
    pub fn byte_table(&mut self, e: E) -> Option<Rc<Vec<u64>>> {
        if let Some(t) = self.tables.get(&e) {
            return t.clone();
        }
        // Not while tables of the operands are being computed: that would compute them again and again.
        if self.table_depth == 0 && self.tables.len() > 150_000 {
            self.tables.clear();
        }
        let n = self.node(e);
        let w = n.w as u32;
        let mut r = None;
        if w <= 64 {
            let vs = self.varset(e);
            let ok = match vs.len() {
                0 => true,
                1 => vs[0] & 0x8000_0000 == 0 && self.vars[vs[0] as usize].max <= 255,
                _ => false,
            };
            if ok {
                self.table_depth += 1;
                r = self.byte_table_(&n, w);
                self.table_depth -= 1;
            }
        }
        let r = r.map(Rc::new);
        self.tables.insert(e, r.clone());
        r
    }
    fn byte_table_(&mut self, n: &Node, w: u32) -> Option<Vec<u64>> {
        let m = mask(w) as u64;
        Some(match n.op {
            Op::Const => vec![n.k as u64; 256],
            Op::Var => (0..256).collect(),
            Op::ZExt => self.byte_table(n.a)?.to_vec(),
            Op::SExt => {
                let aw = self.w(n.a);
                self.byte_table(n.a)?.iter().map(|x| sext128(*x as u128, aw) as u64 & m).collect()
            }
            Op::Extract => self.byte_table(n.a)?.iter().map(|x| x >> n.b & m).collect(),
            Op::Concat => {
                let bw = self.w(n.b);
                let (a, b) = (self.byte_table(n.a)?, self.byte_table(n.b)?);
                (0..256).map(|i| a[i] << bw | b[i]).collect()
            }
            Op::Ite => {
                let (c, a, b) = (self.byte_table(n.a)?, self.byte_table(n.b)?, self.byte_table(n.c)?);
                (0..256).map(|i| if c[i] != 0 { a[i] } else { b[i] }).collect()
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let aw = self.w(n.a);
                let (a, b) = (self.byte_table(n.a)?, self.byte_table(n.b)?);
                (0..256)
                    .map(|i| {
                        let (x, y) = (a[i], b[i]);
                        let (sx, sy) = (sext128(x as u128, aw), sext128(y as u128, aw));
                        (match n.op {
                            Op::Eq => x == y,
                            Op::Ult => x < y,
                            Op::Ule => x <= y,
                            Op::Slt => sx < sy,
                            _ => sx <= sy,
                        }) as u64
                    })
                    .collect()
            }
            Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::Shl | Op::LShr | Op::AShr | Op::And | Op::Or | Op::Xor => {
                let (a, b) = (self.byte_table(n.a)?, self.byte_table(n.b)?);
                (0..256).map(|i| Self::fold(n.op, w, a[i] as u128, b[i] as u128) as u64).collect()
            }
            _ => return None,
        })
    }
    /// For a condition on one byte-sized variable: the variable, and the values that fulfil it.
    pub fn truth(&mut self, e: E) -> Option<(u32, [u64; 4])> {
        let vs = self.varset(e);
        if vs.len() != 1 || self.w(e) != 1 {
            return None;
        }
        let t = self.byte_table(e)?;
        let mut r = [0u64; 4];
        let (lo, hi) = {
            let i = &self.vars[vs[0] as usize];
            (i.min as usize, i.max as usize)
        };
        for i in lo..=hi {
            if t[i] != 0 {
                r[i / 64] |= 1 << (i % 64);
            }
        }
        Some((vs[0], r))
    }
    pub fn full_domain(&self, v: u32) -> [u64; 4] {
        let i = &self.vars[v as usize];
        let mut r = [0u64; 4];
        for k in i.min..=i.max.min(255) {
            r[k as usize / 64] |= 1 << (k % 64);
        }
        r
    }
    /// `e` under the given domains of byte-sized variables.
    pub fn simp_dom(&mut self, e: E, dom: &FxMap<u32, [u64; 4]>, memo: &mut FxMap<E, E>) -> E {
        if self.as_const(e).is_some() {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let vs = self.varset(e);
        if !vs.iter().any(|v| dom.contains_key(v)) {
            memo.insert(e, e);
            return e;
        }
        let n = self.node(e);
        let mut r = None;
        if vs.len() == 1 {
            let d = dom[&vs[0]];
            if n.w == 1 {
                if let Some((_, t)) = self.truth(e) {
                    let inter: Vec<u64> = (0..4).map(|i| t[i] & d[i]).collect();
                    if inter.iter().all(|x| *x == 0) {
                        r = Some(self.cst(0, 1));
                    } else if (0..4).all(|i| inter[i] == d[i]) {
                        r = Some(self.cst(1, 1));
                    }
                }
            }
            if r.is_none() && d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                if let Some(t) = self.byte_table(e) {
                    let i = (0..256).find(|i| d[i / 64] >> (i % 64) & 1 != 0).unwrap();
                    r = Some(self.cst(t[i] as u128, n.w as u32));
                }
            }
        }
        let r = match r {
            Some(r) => r,
            None => {
                let mut k = [0u32; 3];
                let mut changed = false;
                for (i, x) in Self::kids(&n).iter().enumerate() {
                    if let Some(x) = x {
                        k[i] = self.simp_dom(*x, dom, memo);
                        changed |= k[i] != *x;
                        if n.op == Op::Ite && i == 0 {
                            if let Some(c) = self.as_const(k[0]) {
                                let r = self.simp_dom(if c != 0 { n.b } else { n.c }, dom, memo);
                                memo.insert(e, r);
                                return r;
                            }
                        }
                    }
                }
                if !changed {
                    e
                } else {
                    match n.op {
                        Op::Ite => self.ite(k[0], k[1], k[2]),
                        Op::ZExt => self.zext(k[0], n.w as u32),
                        Op::SExt => self.sext(k[0], n.w as u32),
                        Op::Extract => self.extract(k[0], n.b, n.w as u32),
                        Op::Concat => self.concat(k[0], k[1]),
                        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => self.cmp(n.op, k[0], k[1]),
                        Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::And | Op::Or | Op::Xor => self.bin(n.op, k[0], k[1]),
                        _ => e,
                    }
                }
            }
        };
        memo.insert(e, r);
        r
    }

    pub fn kids(n: &Node) -> [Option<E>; 3] {
        match n.op {
            Op::Const | Op::Var => [None, None, None],
            Op::Sel => [Some(n.b), None, None],
            Op::Ite => [Some(n.a), Some(n.b), Some(n.c)],
            Op::ZExt | Op::SExt | Op::Extract | Op::FNeg | Op::FAbs | Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpCast => {
                [Some(n.a), None, None]
            }
            _ => [Some(n.a), Some(n.b), None],
        }
    }

    // ---------------------------------------------------------------- segments
    fn segs(&mut self, e: E, out: &mut Vec<Seg>) {
        // little-endian order (low segment first)
        self.segs_range(e, 0, self.w(e), out, 0)
    }
    fn segs_range(&mut self, e: E, lo: u32, w: u32, out: &mut Vec<Seg>, depth: u32) {
        if w == 0 {
            return;
        }
        let n = self.node(e);
        let inf = self.info[e as usize];
        match n.op {
            Op::Const => {
                out.push(Seg { w, k: Some((n.k >> lo) & mask(w)), e: 0, lo: 0 });
                return;
            }
            Op::Concat if depth < 64 => {
                let bw = self.w(n.b);
                if lo < bw {
                    let l = w.min(bw - lo);
                    self.segs_range(n.b, lo, l, out, depth + 1);
                    if w > l {
                        self.segs_range(n.a, 0, w - l, out, depth + 1);
                    }
                } else {
                    self.segs_range(n.a, lo - bw, w, out, depth + 1);
                }
                return;
            }
            Op::ZExt => {
                let aw = self.w(n.a);
                if lo < aw {
                    let l = w.min(aw - lo);
                    self.segs_range(n.a, lo, l, out, depth + 1);
                    if w > l {
                        out.push(Seg { w: w - l, k: Some(0), e: 0, lo: 0 });
                    }
                } else {
                    out.push(Seg { w, k: Some(0), e: 0, lo: 0 });
                }
                return;
            }
            Op::Extract => {
                self.segs_range(n.a, lo + n.b, w, out, depth + 1);
                return;
            }
            _ => {}
        }
        // leading known-zero bits of atoms become constants
        let known = (inf.kz >> lo) & mask(w);
        let top = if known == mask(w) { w } else { w - (128 - (!known & mask(w)).leading_zeros()) };
        let body = w - top;
        if body > 0 {
            // trailing zeros, too
            let tz = (!known & mask(body)).trailing_zeros();
            if tz > 0 {
                out.push(Seg { w: tz, k: Some(0), e: 0, lo: 0 });
            }
            out.push(Seg { w: body - tz, k: None, e, lo: lo + tz });
        }
        if top > 0 {
            out.push(Seg { w: top, k: Some(0), e: 0, lo: 0 });
        }
    }
    fn norm_segs(v: &[Seg]) -> Vec<Seg> {
        let mut r: Vec<Seg> = vec![];
        for s in v {
            if let Some(l) = r.last_mut() {
                match (l.k, s.k) {
                    (Some(a), Some(b)) => {
                        l.k = Some(a | (b << l.w));
                        l.w += s.w;
                        continue;
                    }
                    (None, None) if l.e == s.e && l.lo + l.w == s.lo => {
                        l.w += s.w;
                        continue;
                    }
                    _ => {}
                }
            }
            r.push(*s);
        }
        r
    }
    fn from_segs(&mut self, v: &[Seg]) -> E {
        let mut v = Self::norm_segs(v);
        // extend an atom over following zero constants when its own bits there are known zero
        let mut i = 0;
        while i < v.len() {
            if v[i].k.is_none() && i + 1 < v.len() {
                if let Some(k) = v[i + 1].k {
                    let e = v[i].e;
                    let ew = self.w(e);
                    let hi = v[i].lo + v[i].w;
                    let avail = ew - hi;
                    let take = avail.min(v[i + 1].w);
                    if take > 0 {
                        let kz = (self.info[e as usize].kz >> hi) & mask(take);
                        if kz == mask(take) && (k & mask(take)) == 0 {
                            v[i].w += take;
                            if v[i + 1].w == take {
                                v.remove(i + 1);
                            } else {
                                v[i + 1].k = Some(k >> take);
                                v[i + 1].w -= take;
                            }
                        }
                    }
                }
            }
            // low known-zero constants below an atom
            if i > 0 && v[i].k.is_none() {
                if let Some(k) = v[i - 1].k {
                    let e = v[i].e;
                    let take = v[i].lo.min(v[i - 1].w);
                    if take > 0 {
                        let pw = v[i - 1].w;
                        let kz = (self.info[e as usize].kz >> (v[i].lo - take)) & mask(take);
                        if kz == mask(take) && (k >> (pw - take)) == 0 {
                            v[i].lo -= take;
                            v[i].w += take;
                            if pw == take {
                                v.remove(i - 1);
                                continue;
                            } else {
                                v[i - 1].w -= take;
                                v[i - 1].k = Some(k & mask(pw - take));
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        let total: u32 = v.iter().map(|s| s.w).sum();
        // top zero segment -> zext
        if v.len() >= 2 && v.last().unwrap().k == Some(0) {
            let inner: Vec<Seg> = v[..v.len() - 1].to_vec();
            let x = self.from_segs_raw(&inner);
            return self.raw_zext(x, total);
        }
        self.from_segs_raw(&v)
    }
    fn seg_expr(&mut self, s: &Seg) -> E {
        match s.k {
            Some(k) => self.cst(k, s.w),
            None => {
                if s.lo == 0 && s.w == self.w(s.e) {
                    s.e
                } else {
                    self.mk(Op::Extract, s.w, s.e, s.lo, 0, 0)
                }
            }
        }
    }
    fn from_segs_raw(&mut self, v: &[Seg]) -> E {
        let mut acc = self.seg_expr(&v[0]);
        for s in &v[1..] {
            let h = self.seg_expr(s);
            let w = self.w(acc) + s.w;
            if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(acc)) {
                acc = self.cst((x << self.w(acc)) | y, w);
            } else {
                acc = self.mk(Op::Concat, w, h, acc, 0, 0);
            }
        }
        acc
    }
    fn raw_zext(&mut self, x: E, w: u32) -> E {
        let xw = self.w(x);
        if xw == w {
            return x;
        }
        let n = self.node(x);
        match n.op {
            Op::Const => self.cst(n.k, w),
            Op::ZExt => self.raw_zext(n.a, w),
            _ => self.mk(Op::ZExt, w, x, 0, 0, 0),
        }
    }

    // ---------------------------------------------------------------- constructors
    pub fn zext(&mut self, x: E, w: u32) -> E {
        let n = self.node(x);
        if n.w as u32 == w {
            return x;
        }
        if n.op == Op::Ite && self.is_leafy(n.b) && self.is_leafy(n.c) {
            let b = self.zext(n.b, w);
            let c = self.zext(n.c, w);
            return self.ite(n.a, b, c);
        }
        // an extract whose removed upper bits are known zero is the identity
        if n.op == Op::Extract && n.b == 0 {
            let inner = n.a;
            let iw = self.w(inner);
            let up = mask(iw) & !mask(n.w as u32);
            if self.info[inner as usize].kz & up == up {
                return if iw == w {
                    inner
                } else if iw < w {
                    self.zext(inner, w)
                } else {
                    self.extract(inner, 0, w)
                };
            }
        }
        self.raw_zext(x, w)
    }
    pub fn sext(&mut self, x: E, w: u32) -> E {
        let n = self.node(x);
        let xw = n.w as u32;
        if xw == w {
            return x;
        }
        if let Op::Const = n.op {
            return self.cst(sext128(n.k, xw) as u128, w);
        }
        if self.info[x as usize].kz >> (xw - 1) & 1 == 1 {
            return self.zext(x, w);
        }
        if n.op == Op::Ite && self.is_leafy(n.b) && self.is_leafy(n.c) {
            let b = self.sext(n.b, w);
            let c = self.sext(n.c, w);
            return self.ite(n.a, b, c);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Op::SExt, w, x, 0, 0, 0)
    }
    fn is_leafy(&self, e: E) -> bool {
        // constants or ite trees over constants
        let n = self.node(e);
        match n.op {
            Op::Const => true,
            Op::Ite => {
                let (b, c) = (self.node(n.b), self.node(n.c));
                (b.op == Op::Const || (b.op == Op::Ite && self.is_leafy(n.b))) && (c.op == Op::Const || (c.op == Op::Ite && self.is_leafy(n.c)))
            }
            _ => false,
        }
    }
    pub fn extract(&mut self, x: E, lo: u32, w: u32) -> E {
        let n = self.node(x);
        let xw = n.w as u32;
        debug_assert!(lo + w <= xw);
        if lo == 0 && w == xw {
            return x;
        }
        match n.op {
            Op::Const => return self.cst(n.k >> lo, w),
            Op::Concat | Op::ZExt | Op::Extract => {
                let mut v = vec![];
                self.segs_range(x, lo, w, &mut v, 0);
                return self.from_segs(&v);
            }
            Op::Ite if self.is_leafy(n.b) && self.is_leafy(n.c) => {
                let b = self.extract(n.b, lo, w);
                let c = self.extract(n.c, lo, w);
                return self.ite(n.a, b, c);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // low bits only depend on low bits
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                // only when that actually simplifies something
                let simp = |s: &Self, e: E, orig: E| s.as_const(e).is_some() || s.node(e).op != Op::Extract || s.node(e).a != orig;
                if simp(self, a, n.a) && simp(self, b, n.b) {
                    return self.bin(n.op, a, b);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.as_const(n.b).is_some() {
                    let a = self.extract(n.a, lo, w);
                    let b = self.extract(n.b, lo, w);
                    return self.bin(n.op, a, b);
                }
            }
            Op::SExt => {
                let aw = self.w(n.a);
                if lo + w <= aw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            _ => {}
        }
        let mut v = vec![];
        self.segs_range(x, lo, w, &mut v, 0);
        self.from_segs(&v)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let mut v = vec![];
        self.segs(lo, &mut v);
        self.segs(hi, &mut v);
        self.from_segs(&v)
    }
    /// concatenate many pieces, low first
    pub fn concat_many(&mut self, parts: &[E]) -> E {
        let mut v = vec![];
        for &p in parts {
            self.segs(p, &mut v);
        }
        self.from_segs(&v)
    }
    pub fn not1(&mut self, x: E) -> E {
        debug_assert_eq!(self.w(x), 1);
        let n = self.node(x);
        match n.op {
            Op::Const => self.cst(n.k ^ 1, 1),
            Op::Xor if self.as_const(n.b) == Some(1) => n.a,
            Op::Ult => self.cmp(Op::Ule, n.b, n.a),
            Op::Ule => self.cmp(Op::Ult, n.b, n.a),
            Op::Slt => self.cmp(Op::Sle, n.b, n.a),
            Op::Sle => self.cmp(Op::Slt, n.b, n.a),
            _ => {
                let o = self.cst(1, 1);
                self.mk(Op::Xor, 1, x, o, 0, 0)
            }
        }
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if t == f {
            return t;
        }
        let cn = self.node(c);
        if cn.op == Op::Const {
            return if cn.k != 0 { t } else { f };
        }
        if cn.op == Op::Xor && self.as_const(cn.b) == Some(1) {
            return self.ite(cn.a, f, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not1(c),
                (Some(1), None) => return self.or1(c, f),
                (Some(_), None) => {
                    let nc = self.not1(c);
                    return self.and1(nc, f);
                }
                (None, Some(0)) => return self.and1(c, t),
                (None, Some(_)) => {
                    let nc = self.not1(c);
                    return self.or1(nc, t);
                }
                _ => {}
            }
        }
        // nested with the same condition
        let tn = self.node(t);
        if tn.op == Op::Ite && tn.a == c {
            return self.ite(c, tn.b, f);
        }
        let fnn = self.node(f);
        if fnn.op == Op::Ite && fnn.a == c {
            return self.ite(c, t, fnn.c);
        }
        // merge: ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if fnn.op == Op::Ite && fnn.b == t {
            let cd = self.or1(c, fnn.a);
            return self.ite(cd, t, fnn.c);
        }
        self.mk(Op::Ite, w, c, t, f, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.cmp(Op::Eq, a, b)
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            let r = matches!(op, Op::Eq | Op::Ule | Op::Sle);
            return self.cst(r as u128, 1);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = match op {
                Op::Eq => x == y,
                Op::Ult => x < y,
                Op::Ule => x <= y,
                Op::Slt => sext128(x, w) < sext128(y, w),
                Op::Sle => sext128(x, w) <= sext128(y, w),
                _ => unreachable!(),
            };
            return self.cst(r as u128, 1);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        match op {
            Op::Eq => {
                if ia.max < ib.min || ib.max < ia.min || (ia.ko & ib.kz) != 0 || (ia.kz & ib.ko) != 0 {
                    return self.cst(0, 1);
                }
                if ca.is_some() {
                    return self.cmp(Op::Eq, b, a);
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not1(a) };
                    }
                    let n = self.node(a);
                    match n.op {
                        Op::Ite => {
                            let (tb, fc) = (self.as_const(n.b), self.as_const(n.c));
                            if tb.is_some() || fc.is_some() || (self.is_leafy(n.b) && self.is_leafy(n.c)) {
                                let t = self.cmp(Op::Eq, n.b, b);
                                let f = self.cmp(Op::Eq, n.c, b);
                                return self.ite(n.a, t, f);
                            }
                        }
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            let kk = self.cst(k, iw);
                            return self.cmp(Op::Eq, n.a, kk); // range check above ruled out high bits
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            if sext128(k & mask(iw), iw) as u128 & mask(w) != k {
                                return self.cst(0, 1);
                            }
                            let kk = self.cst(k, iw);
                            return self.cmp(Op::Eq, n.a, kk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(n.b) {
                                let kk = self.cst(k.wrapping_sub(k2), w);
                                return self.cmp(Op::Eq, n.a, kk);
                            }
                        }
                        Op::Sub => {
                            if k == 0 {
                                return self.cmp(Op::Eq, n.a, n.b);
                            }
                            if let Some(k2) = self.as_const(n.a) {
                                let kk = self.cst(k2.wrapping_sub(k), w);
                                return self.cmp(Op::Eq, n.b, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(n.b) {
                                let kk = self.cst(k ^ k2, w);
                                return self.cmp(Op::Eq, n.a, kk);
                            }
                            if k == 0 {
                                return self.cmp(Op::Eq, n.a, n.b);
                            }
                        }
                        Op::Concat => {
                            let bw = self.w(n.b);
                            let kh = self.cst(k >> bw, w - bw);
                            let kl = self.cst(k, bw);
                            let h = self.cmp(Op::Eq, n.a, kh);
                            let l = self.cmp(Op::Eq, n.b, kl);
                            return self.and1(h, l);
                        }
                        Op::Or if k == 0 => {
                            let z = self.cst(0, w);
                            let x = self.cmp(Op::Eq, n.a, z);
                            let y = self.cmp(Op::Eq, n.b, z);
                            return self.and1(x, y);
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (self.node(a), self.node(b));
                    // zext(x) == zext(y)
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let m = wa.max(wb);
                        if m < w {
                            let x = self.zext(na.a, m);
                            let y = self.zext(nb.a, m);
                            return self.cmp(Op::Eq, x, y);
                        }
                    }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                        return self.cmp(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                        return self.cmp(Op::Eq, na.b, nb.b);
                    }
                    if na.op == Op::Add && (na.a == b || na.b == b) {
                        let o = if na.a == b { na.b } else { na.a };
                        let z = self.cst(0, w);
                        return self.cmp(Op::Eq, o, z);
                    }
                    if nb.op == Op::Add && (nb.a == a || nb.b == a) {
                        let o = if nb.a == a { nb.b } else { nb.a };
                        let z = self.cst(0, w);
                        return self.cmp(Op::Eq, o, z);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let h = self.cmp(Op::Eq, na.a, nb.a);
                        let l = self.cmp(Op::Eq, na.b, nb.b);
                        return self.and1(h, l);
                    }
                    if a > b {
                        return self.mk(Op::Eq, 1, b, a, 0, 0);
                    }
                }
                self.mk(Op::Eq, 1, a, b, 0, 0)
            }
            Op::Ult => {
                if ia.max < ib.min {
                    return self.cst(1, 1);
                }
                if ia.min >= ib.max {
                    return self.cst(0, 1);
                }
                if let Some(r) = self.cmp_push(op, a, b) {
                    return r;
                }
                if let Some(k) = cb {
                    if k == 1 {
                        let z = self.cst(0, w);
                        return self.cmp(Op::Eq, a, z);
                    }
                    if k == ia.max {
                        let z = self.cst(k, w);
                        let e = self.cmp(Op::Eq, a, z);
                        return self.not1(e);
                    }
                }
                if let Some(k) = ca {
                    if k == ib.min {
                        let z = self.cst(k, w);
                        let e = self.cmp(Op::Eq, b, z);
                        return self.not1(e);
                    }
                }
                self.mk(Op::Ult, 1, a, b, 0, 0)
            }
            Op::Ule => {
                if ia.max <= ib.min {
                    return self.cst(1, 1);
                }
                if ia.min > ib.max {
                    return self.cst(0, 1);
                }
                if let Some(k) = cb {
                    // x <= k  ->  x < k+1
                    let kk = self.cst(k + 1, w);
                    return self.cmp(Op::Ult, a, kk);
                }
                if let Some(k) = ca {
                    // k <= x -> k-1 < x   (k > 0 here)
                    let kk = self.cst(k - 1, w);
                    return self.cmp(Op::Ult, kk, b);
                }
                if let Some(r) = self.cmp_push(op, a, b) {
                    return r;
                }
                self.mk(Op::Ule, 1, a, b, 0, 0)
            }
            Op::Slt | Op::Sle => {
                let sb = w - 1;
                let (na, nb) = (ia.kz >> sb & 1, ib.kz >> sb & 1);
                let (pa, pb) = (ia.ko >> sb & 1, ib.ko >> sb & 1);
                if (na == 1 && nb == 1) || (pa == 1 && pb == 1) {
                    return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if na == 1 && pb == 1 {
                    return self.cst(0, 1);
                }
                if pa == 1 && nb == 1 {
                    return self.cst(1, 1);
                }
                // x < 0 : sign bit
                if op == Op::Slt && cb == Some(0) {
                    return self.extract(a, sb, 1);
                }
                if op == Op::Slt && ca == Some(mask(w)) {
                    let s = self.extract(b, sb, 1);
                    return self.not1(s);
                }
                if op == Op::Sle && ca == Some(0) {
                    let s = self.extract(b, sb, 1);
                    return self.not1(s);
                }
                if op == Op::Sle && cb == Some(mask(w)) {
                    return self.extract(a, sb, 1);
                }
                if let Some(r) = self.cmp_push(op, a, b) {
                    return r;
                }
                self.mk(op, 1, a, b, 0, 0)
            }
            _ => unreachable!(),
        }
    }
    fn cmp_push(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w as u32;
        // strip zext
        if matches!(op, Op::Ult | Op::Ule) {
            let wa = if na.op == Op::ZExt { Some(self.w(na.a)) } else { None };
            let wb = if nb.op == Op::ZExt { Some(self.w(nb.a)) } else { None };
            let need = |s: &Self, e: E| 128 - s.info[e as usize].max.leading_zeros();
            match (wa, wb) {
                (Some(x), Some(y)) => {
                    let m = x.max(y);
                    if m < w {
                        let p = self.zext(na.a, m);
                        let q = self.zext(nb.a, m);
                        return Some(self.cmp(op, p, q));
                    }
                }
                (Some(x), None) if nb.op == Op::Const && need(self, b) <= x => {
                    let q = self.cst(nb.k, x);
                    return Some(self.cmp(op, na.a, q));
                }
                (None, Some(y)) if na.op == Op::Const && need(self, a) <= y => {
                    let p = self.cst(na.k, y);
                    return Some(self.cmp(op, p, nb.a));
                }
                _ => {}
            }
            // (x + c) < (y + c) etc. without overflow
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b && self.noovf_add(a) && self.noovf_add(b) {
                return Some(self.cmp(op, na.a, nb.a));
            }
            if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a && self.noovf_add(a) && self.noovf_add(b) {
                return Some(self.cmp(op, na.b, nb.b));
            }
            if nb.op == Op::Const && na.op == Op::Add && self.noovf_add(a) {
                if let Some(k) = self.as_const(na.b) {
                    if nb.k >= k {
                        let q = self.cst(nb.k - k, w);
                        return Some(self.cmp(op, na.a, q));
                    }
                }
            }
            if na.op == Op::Const && nb.op == Op::Add && self.noovf_add(b) {
                if let Some(k) = self.as_const(nb.b) {
                    if na.k >= k {
                        let q = self.cst(na.k - k, w);
                        return Some(self.cmp(op, q, nb.a));
                    }
                }
            }
            // concat(h, l) < concat with constant low part zero, common low parts
            if na.op == Op::Concat && nb.op == Op::Const {
                let lw = self.w(na.b);
                if nb.k & mask(lw) == 0 && op == Op::Ult {
                    let q = self.cst(nb.k >> lw, w - lw);
                    return Some(self.cmp(Op::Ult, na.a, q));
                }
            }
        }
        if nb.op == Op::Const && na.op == Op::Ite && self.is_leafy(na.b) && self.is_leafy(na.c) {
            let t = self.cmp(op, na.b, b);
            let f = self.cmp(op, na.c, b);
            return Some(self.ite(na.a, t, f));
        }
        if na.op == Op::Const && nb.op == Op::Ite && self.is_leafy(nb.b) && self.is_leafy(nb.c) {
            let t = self.cmp(op, a, nb.b);
            let f = self.cmp(op, a, nb.c);
            return Some(self.ite(nb.a, t, f));
        }
        None
    }
    fn noovf_add(&self, e: E) -> bool {
        let n = self.node(e);
        let (a, b) = (self.info[n.a as usize], self.info[n.b as usize]);
        matches!(a.max.checked_add(b.max), Some(s) if s <= mask(n.w as u32))
    }
    fn noovf_mul(&self, a: E, b: E, w: u32) -> bool {
        let (a, b) = (self.info[a as usize], self.info[b as usize]);
        matches!(a.max.checked_mul(b.max), Some(s) if s <= mask(w))
    }

    pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
        let m = mask(w);
        (match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sext128(x, w), sext128(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            Op::SRem => {
                let (a, b) = (sext128(x, w), sext128(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = if y >= w as u128 { w - 1 } else { y as u32 };
                (sext128(x, w) >> s) as u128
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            _ => unreachable!(),
        }) & m
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let m = mask(w);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let k = Self::fold(op, w, x, y);
            return self.cst(k, w);
        }
        // constants to the right for commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            if ca.is_some() || (cb.is_none() && a > b) {
                return self.bin2(op, b, a);
            }
        }
        let _ = m;
        self.bin2(op, a, b)
    }
    fn bin2(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let m = mask(w);
        let cb = self.as_const(b);
        let na = self.node(a);
        // push constant operand into constant-leaf ite trees
        if cb.is_some() && na.op == Op::Ite && self.is_leafy(a) {
            let t = self.bin(op, na.b, b);
            let f = self.bin(op, na.c, b);
            return self.ite(na.a, t, f);
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.cst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                    if na.op == Op::Sub {
                        if let Some(k2) = self.as_const(na.a) {
                            let kk = self.cst(k.wrapping_add(k2), w);
                            return self.bin(Op::Sub, kk, na.b);
                        }
                    }
                } else {
                    let nb = self.node(b);
                    // (x - y) + y -> x
                    if na.op == Op::Sub && na.b == b {
                        return na.a;
                    }
                    if nb.op == Op::Sub && nb.b == a {
                        return nb.a;
                    }
                    // pull constants outwards: (x + c) + y -> (x + y) + c
                    if na.op == Op::Add && self.as_const(na.b).is_some() {
                        let s = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                    if nb.op == Op::Add && self.as_const(nb.b).is_some() {
                        let s = self.bin(Op::Add, a, nb.a);
                        return self.bin(Op::Add, s, nb.b);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(k) = cb {
                    let kk = self.cst(0u128.wrapping_sub(k), w);
                    return self.bin(Op::Add, a, kk);
                }
                let nb = self.node(b);
                if na.op == Op::Add {
                    if na.b == b {
                        return na.a;
                    }
                    if na.a == b {
                        return na.b;
                    }
                    if self.as_const(na.b).is_some() {
                        let s = self.bin(Op::Sub, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                }
                if nb.op == Op::Add {
                    if nb.a == a {
                        let z = self.cst(0, w);
                        return self.bin(Op::Sub, z, nb.b);
                    }
                    if nb.b == a {
                        let z = self.cst(0, w);
                        return self.bin(Op::Sub, z, nb.a);
                    }
                    if let Some(k) = self.as_const(nb.b) {
                        let s = self.bin(Op::Sub, a, nb.a);
                        let kk = self.cst(0u128.wrapping_sub(k), w);
                        return self.bin(Op::Add, s, kk);
                    }
                }
                // x - (x - y) -> y
                if nb.op == Op::Sub && nb.a == a {
                    return nb.b;
                }
                // (x+p) - (x+q)
                if na.op == Op::Add && nb.op == Op::Add {
                    if na.a == nb.a {
                        return self.bin(Op::Sub, na.b, nb.b);
                    }
                    if na.b == nb.b {
                        return self.bin(Op::Sub, na.a, nb.a);
                    }
                }
            }
            Op::Mul => {
                match cb {
                    Some(0) => return b,
                    Some(1) => return a,
                    Some(k) if k.is_power_of_two() => {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                    Some(k) => {
                        if na.op == Op::Mul {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.cst(k.wrapping_mul(k2), w);
                                return self.bin(Op::Mul, na.a, kk);
                            }
                        }
                        // (x + c) * k -> x*k + c*k
                        if na.op == Op::Add {
                            if let Some(k2) = self.as_const(na.b) {
                                let p = self.bin(Op::Mul, na.a, b);
                                let kk = self.cst(k.wrapping_mul(k2), w);
                                return self.bin(Op::Add, p, kk);
                            }
                        }
                    }
                    None => {}
                }
            }
            Op::UDiv => {
                match cb {
                    Some(1) => return a,
                    Some(k) if k.is_power_of_two() => {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    Some(k) if k > 0 => {
                        if let Some((q, _r)) = self.divmod_parts(a, k) {
                            return q;
                        }
                        if na.op == Op::UDiv {
                            if let Some(k2) = self.as_const(na.b) {
                                if let Some(kk) = k.checked_mul(k2) {
                                    if kk <= m {
                                        let kk = self.cst(kk, w);
                                        return self.bin(Op::UDiv, na.a, kk);
                                    }
                                }
                            }
                        }
                        // narrow
                        if let Some(r) = self.narrow_bin(Op::UDiv, a, b) {
                            return r;
                        }
                    }
                    _ => {}
                }
            }
            Op::URem => match cb {
                Some(1) => return self.cst(0, w),
                Some(k) if k.is_power_of_two() => {
                    let kk = self.cst(k - 1, w);
                    return self.bin(Op::And, a, kk);
                }
                Some(k) if k > 0 => {
                    if self.info[a as usize].max < k {
                        return a;
                    }
                    if let Some((_q, r)) = self.divmod_parts(a, k) {
                        return r;
                    }
                    if let Some(r) = self.narrow_bin(Op::URem, a, b) {
                        return r;
                    }
                }
                _ => {}
            },
            Op::Shl => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.cst(0, w);
                    }
                    if na.op == Op::Mul || na.op == Op::Add {
                        // keep arithmetic visible: (x*k) << s -> x*(k<<s)
                        if na.op == Op::Mul {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.cst(k2 << s, w);
                                return self.bin(Op::Mul, na.a, kk);
                            }
                        }
                    }
                    let mut v = vec![Seg { w: s as u32, k: Some(0), e: 0, lo: 0 }];
                    self.segs_range(a, 0, w - s as u32, &mut v, 0);
                    return self.from_segs(&v);
                }
            }
            Op::LShr => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.cst(0, w);
                    }
                    let mut v = vec![];
                    self.segs_range(a, s as u32, w - s as u32, &mut v, 0);
                    v.push(Seg { w: s as u32, k: Some(0), e: 0, lo: 0 });
                    return self.from_segs(&v);
                }
            }
            Op::AShr => {
                if self.info[a as usize].kz >> (w - 1) & 1 == 1 {
                    return self.bin(Op::LShr, a, b);
                }
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    let s = s.min(w as u128 - 1) as u32;
                    let x = self.extract(a, s, w - s);
                    return self.sext(x, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if a == b {
                    return if op == Op::Xor { self.cst(0, w) } else { a };
                }
                if let Some(k) = cb {
                    match op {
                        Op::And if k == 0 => return b,
                        Op::And if k == m => return a,
                        Op::Or if k == 0 => return a,
                        Op::Or if k == m => return b,
                        Op::Xor if k == 0 => return a,
                        Op::Xor if w == 1 => return self.not1(a),
                        _ => {}
                    }
                    if na.op == op {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.cst(Self::fold(op, w, k, k2), w);
                            return self.bin(op, na.a, kk);
                        }
                    }
                }
                if w == 1 {
                    let nb = self.node(b);
                    // x & !x
                    let neg = |n: &Node, s: &Self| n.op == Op::Xor && s.as_const(n.b) == Some(1);
                    if (neg(&na, self) && na.a == b) || (neg(&nb, self) && nb.a == a) {
                        return match op {
                            Op::And => self.cst(0, 1),
                            _ => self.cst(1, 1),
                        };
                    }
                    // absorption x & (x & y), x | (x | y), x & (x|y)
                    for (p, q, nq) in [(a, b, nb), (b, a, na)] {
                        if nq.op == op && op != Op::Xor && (nq.a == p || nq.b == p) {
                            return q;
                        }
                        if (op == Op::And && nq.op == Op::Or || op == Op::Or && nq.op == Op::And) && (nq.a == p || nq.b == p) {
                            return p;
                        }
                    }
                    return self.mk(op, w, a, b, 0, 0);
                }
                // segment-wise combination
                if let Some(r) = self.seg_logic(op, a, b) {
                    return r;
                }
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0, 0)
    }
    /// a = q*k + r with r < k, syntactically visible and without overflow
    fn divmod_parts(&mut self, a: E, k: u128) -> Option<(E, E)> {
        let w = self.w(a);
        if self.info[a as usize].max < k {
            let z = self.cst(0, w);
            return Some((z, a));
        }
        let n = self.node(a);
        match n.op {
            Op::Mul => {
                if let Some(c) = self.as_const(n.b) {
                    if c % k == 0 && self.noovf_mul(n.a, n.b, w) {
                        let q = self.cst(c / k, w);
                        let q = self.bin(Op::Mul, n.a, q);
                        let z = self.cst(0, w);
                        return Some((q, z));
                    }
                }
                None
            }
            Op::Add => {
                if !self.noovf_add(a) {
                    return None;
                }
                let (q1, r1) = self.divmod_parts(n.a, k)?;
                let (q2, r2) = self.divmod_parts(n.b, k)?;
                let (m1, m2) = (self.info[r1 as usize].max, self.info[r2 as usize].max);
                if m1 + m2 < k {
                    let q = self.bin(Op::Add, q1, q2);
                    let r = self.bin(Op::Add, r1, r2);
                    return Some((q, r));
                }
                None
            }
            Op::Const => {
                let q = self.cst(n.k / k, w);
                let r = self.cst(n.k % k, w);
                Some((q, r))
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if k > mask(iw) {
                    return None;
                }
                let (q, r) = self.divmod_parts(n.a, k)?;
                let q = self.zext(q, w);
                let r = self.zext(r, w);
                Some((q, r))
            }
            _ => None,
        }
    }
    fn narrow_bin(&mut self, op: Op, a: E, b: E) -> Option<E> {
        // unsigned division on values whose high halves are zero
        let w = self.w(a);
        let need = 128 - self.info[a as usize].max.max(self.info[b as usize].max).leading_zeros();
        for t in [8u32, 16, 32, 64] {
            if need <= t && t < w {
                let x = self.extract(a, 0, t);
                let y = self.extract(b, 0, t);
                let r = self.bin(op, x, y);
                return Some(self.zext(r, w));
            }
        }
        None
    }
    fn seg_logic(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        // split at constant run boundaries for constants
        fn runs(k: u128, w: u32) -> Vec<(u128, u32)> {
            let mut r = vec![];
            let mut i = 0;
            while i < w {
                let bit = k >> i & 1;
                let mut j = i;
                while j < w && (k >> j & 1) == bit {
                    j += 1;
                }
                r.push((if bit == 1 { mask(j - i) } else { 0 }, j - i));
                i = j;
            }
            r
        }
        let explode = |v: Vec<Seg>| -> Option<Vec<Seg>> {
            let mut o = vec![];
            for s in v {
                match s.k {
                    Some(k) => {
                        let rs = runs(k, s.w);
                        if rs.len() > 9 {
                            return None;
                        }
                        for (kk, ww) in rs {
                            o.push(Seg { w: ww, k: Some(kk), e: 0, lo: 0 });
                        }
                    }
                    None => o.push(s),
                }
            }
            Some(o)
        };
        let sa = explode(Self::norm_segs(&sa))?;
        let sb = explode(Self::norm_segs(&sb))?;
        if sa.len() == 1 && sb.len() == 1 {
            return None;
        }
        let (mut i, mut j) = (0, 0);
        let (mut oi, mut oj) = (0u32, 0u32);
        let mut out: Vec<Seg> = vec![];
        let mut hard = 0;
        while i < sa.len() && j < sb.len() {
            let l = (sa[i].w - oi).min(sb[j].w - oj);
            let cut = |s: &Seg, o: u32| Seg { w: l, k: s.k.map(|k| (k >> o) & mask(l)), e: s.e, lo: s.lo + o };
            let x = cut(&sa[i], oi);
            let y = cut(&sb[j], oj);
            let allz = |s: &Seg| s.k == Some(0);
            let allo = |s: &Seg| s.k == Some(mask(l));
            let r = match op {
                Op::And if allz(&x) || allz(&y) => Some(Seg { w: l, k: Some(0), e: 0, lo: 0 }),
                Op::And if allo(&x) => Some(y),
                Op::And if allo(&y) => Some(x),
                Op::Or if allo(&x) || allo(&y) => Some(Seg { w: l, k: Some(mask(l)), e: 0, lo: 0 }),
                Op::Or | Op::Xor if allz(&x) => Some(y),
                Op::Or | Op::Xor if allz(&y) => Some(x),
                _ => None,
            };
            let r = match r {
                Some(r) => r,
                None => {
                    hard += 1;
                    if hard > 4 {
                        return None;
                    }
                    let ex = self.seg_expr(&x);
                    let ey = self.seg_expr(&y);
                    let e = if let (Some(p), Some(q)) = (self.as_const(ex), self.as_const(ey)) {
                        self.cst(Self::fold(op, l, p, q), l)
                    } else if l == 1 {
                        self.bin(op, ex, ey)
                    } else {
                        let (ex, ey) = if self.as_const(ex).is_some() || (self.as_const(ey).is_none() && ex > ey) { (ey, ex) } else { (ex, ey) };
                        self.mk(op, l, ex, ey, 0, 0)
                    };
                    match self.as_const(e) {
                        Some(k) => Seg { w: l, k: Some(k), e: 0, lo: 0 },
                        None => Seg { w: l, k: None, e, lo: 0 },
                    }
                }
            };
            out.push(r);
            oi += l;
            oj += l;
            if oi == sa[i].w {
                i += 1;
                oi = 0
            }
            if oj == sb[j].w {
                j += 1;
                oj = 0
            }
        }
        Some(self.from_segs(&out))
    }

    // floating point (opaque to the simplifier except constants)
    pub fn fop(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let aw = self.w(a);
            let k = Self::ffold(op, aw, w, x, y);
            return self.cst(k, w);
        }
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn ffold(op: Op, aw: u32, w: u32, x: u128, y: u128) -> u128 {
        let f = |v: u128, w: u32| if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) };
        let g = |v: f64, w: u32| if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
        match op {
            Op::FAdd => g(f(x, w) + f(y, w), w),
            Op::FSub => g(f(x, w) - f(y, w), w),
            Op::FMul => g(f(x, w) * f(y, w), w),
            Op::FDiv => g(f(x, w) / f(y, w), w),
            Op::FRem => g(f(x, w) % f(y, w), w),
            Op::FNeg => x ^ (1u128 << (w - 1)),
            Op::FAbs => x & !(1u128 << (w - 1)),
            Op::FOlt => (f(x, aw) < f(y, aw)) as u128,
            Op::FOle => (f(x, aw) <= f(y, aw)) as u128,
            Op::FOeq => (f(x, aw) == f(y, aw)) as u128,
            Op::FUno => (f(x, aw).is_nan() || f(y, aw).is_nan()) as u128,
            Op::UiToFp => {
                if w == 32 {
                    (x as f32).to_bits() as u128
                } else {
                    (x as f64).to_bits() as u128
                }
            }
            Op::SiToFp => {
                let s = sext128(x, aw);
                if w == 32 {
                    (s as f32).to_bits() as u128
                } else {
                    (s as f64).to_bits() as u128
                }
            }
            Op::FpToUi => {
                let v = f(x, aw);
                let r = v as u128;
                r.min(mask(w))
            }
            Op::FpToSi => {
                let v = f(x, aw);
                let r = v as i128;
                let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                (r.max(lo).min(hi)) as u128 & mask(w)
            }
            Op::FpCast => g(f(x, aw), w),
            _ => unreachable!(),
        }
    }

    // ---------------------------------------------------------------- evaluation
    pub fn eval(&self, e: E, m: &Model, memo: &mut FxMap<E, u128>) -> u128 {
        if let Some(k) = self.as_const(e) {
            return k;
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let get = |i: E, memo: &FxMap<E, u128>| -> Option<u128> {
                let nn = &self.nodes[i as usize];
                if nn.op == Op::Const {
                    Some(nn.k)
                } else {
                    memo.get(&i).cloned()
                }
            };
            if n.op == Op::Ite {
                match get(n.a, memo) {
                    None => {
                        st.push(n.a);
                        continue;
                    }
                    Some(c) => {
                        let t = if c != 0 { n.b } else { n.c };
                        match get(t, memo) {
                            None => {
                                st.push(t);
                                continue;
                            }
                            Some(v) => {
                                memo.insert(x, v);
                                st.pop();
                                continue;
                            }
                        }
                    }
                }
            }
            let kids = Self::kids(&n);
            let mut vals = [0u128; 3];
            let mut pending = false;
            for (i, k) in kids.iter().enumerate() {
                if let Some(k) = k {
                    match get(*k, memo) {
                        Some(v) => vals[i] = v,
                        None => {
                            st.push(*k);
                            pending = true
                        }
                    }
                }
            }
            if pending {
                continue;
            }
            let w = n.w as u32;
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => m.vars.get(&n.a).cloned().unwrap_or(self.vars[n.a as usize].min),
                Op::Sel => m.sels.get(&(n.a, vals[0] as u64)).cloned().unwrap_or(0) as u128,
                Op::ZExt => vals[0],
                Op::SExt => sext128(vals[0], self.w(n.a)) as u128 & mask(w),
                Op::Extract => (vals[0] >> n.b) & mask(w),
                Op::Concat => (vals[0] << self.w(n.b)) | vals[1],
                Op::Eq => (vals[0] == vals[1]) as u128,
                Op::Ult => (vals[0] < vals[1]) as u128,
                Op::Ule => (vals[0] <= vals[1]) as u128,
                Op::Slt => {
                    let aw = self.w(n.a);
                    (sext128(vals[0], aw) < sext128(vals[1], aw)) as u128
                }
                Op::Sle => {
                    let aw = self.w(n.a);
                    (sext128(vals[0], aw) <= sext128(vals[1], aw)) as u128
                }
                Op::Ite => unreachable!(),
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::And | Op::Or | Op::Xor => {
                    Self::fold(n.op, w, vals[0], vals[1])
                }
                _ => Self::ffold(n.op, self.w(n.a), w, vals[0], vals[1]),
            };
            memo.insert(x, v);
            st.pop();
        }
        memo[&e]
    }
}

#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vars: FxMap<u32, u128>,
    pub sels: FxMap<(u32, u64), u8>,
}
