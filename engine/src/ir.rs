//! Parser for textual LLVM IR (whole-program, opaque pointers) into a compact
//! executable form. Function bodies are decoded lazily.
use crate::expr::{FxMap, E};
use std::rc::Rc;

pub type T = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Float,
    Double,
    Ptr,
    Arr(u64, T),
    Vec(u64, T),
    Struct(Vec<T>, bool),
    Opaque,
}

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    W(Box<u128>),
    S(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    Nop, // ptrtoint / inttoptr / freeze of 64 bits
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opnd),
    Intr(Rc<str>),
    Asm(Rc<str>),
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, Bop, u32, u32, Opnd, Opnd), // dst, op, width, lanes (0 = scalar), a, b
    Icmp(u32, Pred, u32, u32, Opnd, Opnd),
    Fcmp(u32, Rc<str>, u32, Opnd, Opnd),
    FNeg(u32, u32, Opnd),
    Cast(u32, Cast, T, T, Opnd), // dst, kind, from, to
    Load(u32, T, Opnd, bool),
    Store(T, Opnd, Opnd, bool),
    Alloca(u32, u64, u64, Opnd),
    Gep(u32, Opnd, i64, Vec<(Opnd, u32, u64)>), // base, const, (index, width, scale)
    Select(u32, Opnd, Opnd, Opnd, bool, T),
    Freeze(u32, Opnd),
    Call(u32, Callee, Vec<Opnd>, T, Option<u32>), // dst (MAX = none), callee, args, ret type, invoke normal dest
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, Vec<(u128, u32)>, u32), // value, width, cases, default
    Ret(Option<Opnd>),
    Unreachable,
    ExtractValue(u32, Opnd, Vec<u32>),
    InsertValue(u32, Opnd, Opnd, Vec<u32>),
    ExtractElt(u32, Opnd, Opnd),
    InsertElt(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<u32>, u64),
    CmpXchg(u32, T, Opnd, Opnd, Opnd),
    AtomicRmw(u32, Rc<str>, T, Opnd, Opnd),
    Fence,
    LandingPad(u32),
    Resume,
}
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
}
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub gblock: usize, // base index into the global coverage table
}
pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of the whole definition
    pub nparams: usize,
    pub ret: T,
}
pub struct Global {
    pub name: String,
    pub ty: T,
    pub init: Option<usize>,
    pub constant: bool,
    pub tls: bool,
    pub align: u64,
}
pub const OBJ_BIAS: u64 = 0x4000_0000;
pub fn obj_addr(id: u32) -> u64 {
    ((id as u64) << 32) | OBJ_BIAS
}

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub types: Vec<Ty>,
    tmap: FxMap<Ty, T>,
    named: FxMap<String, T>,
    named_src: FxMap<String, usize>,
    pub globals: Vec<Global>,
    pub gmap: FxMap<String, u32>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: FxMap<String, u32>,
    pub compiled: Vec<Option<Rc<Func>>>,
    pub md: FxMap<u32, usize>,
    pub nblocks: usize,
}

pub struct Cur {
    pub s: Rc<Vec<u8>>,
    pub p: usize,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}
impl Cur {
    #[inline]
    pub fn ws(&mut self) {
        loop {
            let c = self.s[self.p];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.p += 1
            } else if c == b';' {
                while self.s[self.p] != b'\n' {
                    self.p += 1
                }
            } else {
                break;
            }
        }
    }
    #[inline]
    pub fn peek(&mut self) -> u8 {
        self.ws();
        self.s[self.p]
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char))
        }
    }
    pub fn fail(&self, m: &str) -> ! {
        let a = self.p.saturating_sub(200);
        let b = (self.p + 120).min(self.s.len());
        panic!("IR parse error: {} at ...{}<<<HERE>>>{}", m, String::from_utf8_lossy(&self.s[a..self.p]), String::from_utf8_lossy(&self.s[self.p..b]))
    }
    pub fn word(&mut self) -> String {
        self.ws();
        let st = self.p;
        while idc(self.s[self.p]) {
            self.p += 1
        }
        String::from_utf8_lossy(&self.s[st..self.p]).to_string()
    }
    pub fn peek_word(&mut self) -> String {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        self.ws();
        let b = w.as_bytes();
        if self.s[self.p..].starts_with(b) && !idc(self.s[self.p + b.len()]) {
            self.p += b.len();
            true
        } else {
            false
        }
    }
    pub fn name(&mut self) -> String {
        // after % or @ or label
        if self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1
            }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).to_string();
            self.p += 1;
            r
        } else {
            let st = self.p;
            while idc(self.s[self.p]) {
                self.p += 1
            }
            String::from_utf8_lossy(&self.s[st..self.p]).to_string()
        }
    }
    pub fn int(&mut self) -> i128 {
        self.ws();
        let neg = if self.s[self.p] == b'-' {
            self.p += 1;
            true
        } else {
            false
        };
        let st = self.p;
        let mut v: u128 = 0;
        while self.s[self.p].is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.s[self.p] - b'0') as u128);
            self.p += 1
        }
        if st == self.p {
            self.fail("integer")
        }
        if neg {
            (v as i128).wrapping_neg()
        } else {
            v as i128
        }
    }
    pub fn skip_parens(&mut self, o: u8, c: u8) {
        self.expect(o);
        let mut d = 1;
        while d > 0 {
            let x = self.s[self.p];
            if x == b'"' {
                self.p += 1;
                while self.s[self.p] != b'"' {
                    self.p += 1
                }
            } else if x == o {
                d += 1
            } else if x == c {
                d -= 1
            }
            self.p += 1;
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        // after c
        self.expect(b'"');
        let mut v = vec![];
        loop {
            let c = self.s[self.p];
            self.p += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    if self.s[self.p] == b'\\' {
                        v.push(b'\\');
                        self.p += 1;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.p..self.p + 2]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        self.p += 2;
                    }
                }
                _ => v.push(c),
            }
        }
        v
    }
}

fn md_skip(c: &mut Cur) -> u32 {
    // ", !dbg !12, !noalias !3" -- returns the dbg id
    let mut dbg = 0;
    loop {
        let save = c.p;
        if !c.eat(b',') {
            return dbg;
        }
        if c.peek() != b'!' {
            c.p = save;
            return dbg;
        }
        c.p += 1;
        let n = c.word();
        c.ws();
        if c.s[c.p] == b'!' {
            c.p += 1;
            if c.s[c.p] == b'{' {
                c.skip_parens(b'{', b'}');
            } else if c.s[c.p] == b'"' {
                c.name();
            } else {
                let w = c.word();
                if n == "dbg" {
                    dbg = w.parse().unwrap_or(0);
                } else if c.s[c.p] == b'(' {
                    c.skip_parens(b'(', b')');
                }
            }
        }
    }
}

const PARAM_ATTR_PAREN: &[&str] = &["sret", "byval", "byref", "inalloca", "preallocated", "elementtype", "dereferenceable", "dereferenceable_or_null", "range", "captures", "initializes", "nofpclass", "align", "memory", "allocsize", "allockind"];

impl Module {
    pub fn load(path: &str) -> Module {
        let mut bytes = std::fs::read(path).unwrap_or_else(|e| {
            eprintln!("symir: cannot read {}: {}", path, e);
            std::process::exit(2)
        });
        bytes.extend_from_slice(b"\n\0\0\0");
        let text = Rc::new(bytes);
        let mut m = Module {
            text: text.clone(),
            types: vec![],
            tmap: Default::default(),
            named: Default::default(),
            named_src: Default::default(),
            globals: vec![],
            gmap: Default::default(),
            funcs: vec![],
            fmap: Default::default(),
            compiled: vec![],
            md: Default::default(),
            nblocks: 0,
        };
        m.index();
        m
    }
    pub fn ty(&mut self, t: Ty) -> T {
        if let Some(&x) = self.tmap.get(&t) {
            return x;
        }
        let i = self.types.len() as T;
        self.types.push(t.clone());
        self.tmap.insert(t, i);
        i
    }
    fn cur(&self, p: usize) -> Cur {
        Cur { s: self.text.clone(), p }
    }
    fn index(&mut self) {
        let s = self.text.clone();
        let mut p = 0;
        let n = s.len() - 3;
        let mut gl: Vec<usize> = vec![];
        let mut fl: Vec<(usize, Option<usize>)> = vec![];
        while p < n {
            let eol = {
                let mut e = p;
                while e < n && s[e] != b'\n' {
                    e += 1
                }
                e
            };
            match s[p] {
                b'@' => gl.push(p),
                b'%' => {
                    let mut c = self.cur(p + 1);
                    let nm = c.name();
                    c.expect(b'=');
                    assert!(c.eat_word("type"));
                    c.ws();
                    self.named_src.insert(nm, c.p);
                }
                b'!' => {
                    if s[p + 1].is_ascii_digit() {
                        let mut c = self.cur(p + 1);
                        let id = c.int() as u32;
                        c.expect(b'=');
                        c.ws();
                        self.md.insert(id, c.p);
                    }
                }
                b'd' => {
                    if s[p..].starts_with(b"define ") {
                        // find end: line == "}"
                        let mut q = eol + 1;
                        loop {
                            if s[q] == b'}' {
                                break;
                            }
                            while s[q] != b'\n' {
                                q += 1
                            }
                            q += 1;
                        }
                        fl.push((p, Some(q)));
                        p = q + 1;
                        continue;
                    } else if s[p..].starts_with(b"declare ") {
                        fl.push((p, None));
                    }
                }
                _ => {}
            }
            p = eol + 1;
        }
        // register functions first (names only), then parse globals
        for (st, end) in &fl {
            let mut q = *st;
            while s[q] != b'@' {
                if s[q] == b'"' {
                    q += 1;
                    while s[q] != b'"' {
                        q += 1
                    }
                }
                q += 1
            }
            let mut c = self.cur(q + 1);
            let nm = c.name();
            let id = self.funcs.len() as u32;
            self.fmap.insert(nm.clone(), id);
            self.funcs.push(FuncDecl { name: nm, body: end.map(|e| (*st, e)), nparams: 0, ret: 0 });
        }
        self.compiled = (0..self.funcs.len()).map(|_| None).collect();
        for &g in &gl {
            let mut c = self.cur(g + 1);
            let nm = c.name();
            let id = self.globals.len() as u32;
            self.gmap.insert(nm.clone(), id);
            self.globals.push(Global { name: nm, ty: 0, init: None, constant: false, tls: false, align: 1 });
            let _ = c;
        }
        for (i, &g) in gl.iter().enumerate() {
            let mut c = self.cur(g + 1);
            c.name();
            c.expect(b'=');
            let mut external = false;
            loop {
                let w = c.peek_word();
                match w.as_str() {
                    "external" | "extern_weak" => {
                        external = true;
                        c.word();
                    }
                    "thread_local" => {
                        c.word();
                        self.globals[i].tls = true;
                        if c.peek() == b'(' {
                            c.skip_parens(b'(', b')')
                        }
                    }
                    "constant" => {
                        c.word();
                        self.globals[i].constant = true;
                        break;
                    }
                    "global" => {
                        c.word();
                        break;
                    }
                    "alias" | "ifunc" => panic!("alias global"),
                    "addrspace" => {
                        c.word();
                        c.skip_parens(b'(', b')')
                    }
                    "" => c.fail("global"),
                    _ => {
                        c.word();
                    }
                }
            }
            let t = self.parse_ty(&mut c);
            self.globals[i].ty = t;
            if !external {
                c.ws();
                self.globals[i].init = Some(c.p);
            }
            // alignment: scan to end of line
            let mut e = c.p;
            while s[e] != b'\n' {
                e += 1
            }
            let line = &s[c.p..e];
            let key = b", align ";
            if let Some(k) = line.windows(key.len()).rposition(|w| w == key) {
                let mut a = 0u64;
                for &ch in &line[k + key.len()..] {
                    if ch.is_ascii_digit() {
                        a = a * 10 + (ch - b'0') as u64
                    } else {
                        break;
                    }
                }
                self.globals[i].align = a.max(1);
            }
        }
    }
    pub fn func_obj(&self, f: u32) -> u32 {
        1 + f
    }
    pub fn global_obj(&self, g: u32) -> u32 {
        1 + self.funcs.len() as u32 + g
    }
    pub fn first_dyn_obj(&self) -> u32 {
        1 + self.funcs.len() as u32 + self.globals.len() as u32
    }
    pub fn sym_addr(&self, name: &str) -> Option<u64> {
        if let Some(&f) = self.fmap.get(name) {
            Some(obj_addr(self.func_obj(f)))
        } else {
            self.gmap.get(name).map(|&g| obj_addr(self.global_obj(g)))
        }
    }

    // -------------------------------------------------------------- types
    pub fn parse_ty(&mut self, c: &mut Cur) -> T {
        let t = match c.peek() {
            b'[' => {
                c.p += 1;
                let n = c.int() as u64;
                assert!(c.eat_word("x"));
                let t = self.parse_ty(c);
                c.expect(b']');
                self.ty(Ty::Arr(n, t))
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    let f = self.parse_struct_fields(c);
                    c.expect(b'>');
                    self.ty(Ty::Struct(f, true))
                } else {
                    let n = c.int() as u64;
                    assert!(c.eat_word("x"));
                    let t = self.parse_ty(c);
                    c.expect(b'>');
                    self.ty(Ty::Vec(n, t))
                }
            }
            b'{' => {
                let f = self.parse_struct_fields(c);
                self.ty(Ty::Struct(f, false))
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                if let Some(&t) = self.named.get(&n) {
                    t
                } else {
                    let src = *self.named_src.get(&n).unwrap_or_else(|| c.fail("unknown type"));
                    let mut cc = self.cur(src);
                    let t = if cc.eat_word("opaque") { self.ty(Ty::Opaque) } else { self.parse_ty(&mut cc) };
                    self.named.insert(n, t);
                    t
                }
            }
            _ => {
                let w = c.word();
                match w.as_str() {
                    "void" => self.ty(Ty::Void),
                    "ptr" => {
                        if c.peek_word() == "addrspace" {
                            c.word();
                            c.skip_parens(b'(', b')')
                        }
                        self.ty(Ty::Ptr)
                    }
                    "float" => self.ty(Ty::Float),
                    "double" => self.ty(Ty::Double),
                    "metadata" | "label" | "token" => self.ty(Ty::Opaque),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                        let n = w[1..].parse::<u32>().unwrap();
                        self.ty(Ty::Int(n))
                    }
                    _ => {
                        c.p -= w.len();
                        c.fail("type")
                    }
                }
            }
        };
        t
    }
    fn parse_struct_fields(&mut self, c: &mut Cur) -> Vec<T> {
        c.expect(b'{');
        let mut f = vec![];
        if c.eat(b'}') {
            return f;
        }
        loop {
            f.push(self.parse_ty(c));
            if c.eat(b'}') {
                return f;
            }
            c.expect(b',');
        }
    }
    pub fn is_type_start(&self, c: &mut Cur) -> bool {
        match c.peek() {
            b'[' | b'<' | b'{' | b'%' => true,
            _ => {
                let w = c.peek_word();
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token") || (w.starts_with('i') && w[1..].parse::<u32>().is_ok())
            }
        }
    }
    pub fn align_of(&self, t: T) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Float => 4,
            Ty::Double | Ty::Ptr => 8,
            Ty::Arr(_, e) => self.align_of(*e),
            Ty::Vec(..) => self.size_of(t).next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|x| self.align_of(*x)).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size_of(&self, t: T) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                (b + a - 1) / a * a
            }
            Ty::Float => 4,
            Ty::Double | Ty::Ptr => 8,
            Ty::Arr(n, e) => n * self.size_of(*e),
            Ty::Vec(n, e) => match self.types[*e as usize] {
                Ty::Int(w) => ((n * w as u64) + 7) / 8,
                _ => n * self.size_of(*e),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for x in f {
                    if !packed {
                        let a = self.align_of(*x);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size_of(*x);
                }
                if !packed {
                    let a = self.align_of(t);
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: T, i: usize) -> (u64, T) {
        match &self.types[t as usize] {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, x) in f.iter().enumerate() {
                    if !packed {
                        let a = self.align_of(*x);
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return (o, *x);
                    }
                    o += self.size_of(*x);
                }
                panic!("field")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => (i as u64 * self.size_of(*e), *e),
            _ => panic!("field_off"),
        }
    }
    pub fn int_w(&self, t: T) -> Option<u32> {
        match self.types[t as usize] {
            Ty::Int(w) => Some(w),
            Ty::Ptr => Some(64),
            Ty::Float => Some(32),
            Ty::Double => Some(64),
            _ => None,
        }
    }
    pub fn scalar(&self, t: T) -> (u32, u32) {
        // (width, lanes)
        match self.types[t as usize] {
            Ty::Vec(n, e) => (self.int_w(e).unwrap(), n as u32),
            _ => (self.int_w(t).unwrap_or_else(|| panic!("scalar type expected: {:?}", self.types[t as usize])), 0),
        }
    }

    // -------------------------------------------------------------- constants
    pub fn kint(v: u128, w: u32) -> V {
        let v = v & crate::expr::mask(w);
        if w <= 64 {
            V::I(v as u64)
        } else {
            V::W(Box::new(v))
        }
    }
    pub fn zero(&self, t: T) -> V {
        match &self.types[t as usize] {
            Ty::Int(w) => Self::kint(0, *w),
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let z = self.zero(*e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            _ => V::I(0),
        }
    }
    /// parse a constant (no leading type)
    pub fn parse_const(&mut self, c: &mut Cur, t: T) -> V {
        match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                match self.sym_addr(&n) {
                    Some(a) => V::I(a),
                    None => c.fail(&format!("unknown symbol {}", n)),
                }
            }
            b'-' | b'0'..=b'9' => {
                match self.types[t as usize] {
                    Ty::Double | Ty::Float => {
                        let isf = self.types[t as usize] == Ty::Float;
                        c.ws();
                        let st = c.p;
                        while idc(c.s[c.p]) || c.s[c.p] == b'+' {
                            c.p += 1
                        }
                        let tx = std::str::from_utf8(&c.s[st..c.p]).unwrap();
                        let bits = if let Some(h) = tx.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { tx.parse::<f64>().unwrap().to_bits() };
                        if isf {
                            V::I((f64::from_bits(bits) as f32).to_bits() as u64)
                        } else {
                            V::I(bits)
                        }
                    }
                    _ => {
                        let w = self.int_w(t).unwrap_or(64);
                        let v = c.int();
                        Self::kint(v as u128, w)
                    }
                }
            }
            b'{' | b'[' => {
                let close = if c.peek() == b'{' { b'}' } else { b']' };
                c.p += 1;
                let mut v = vec![];
                if c.eat(close) {
                    return V::A(Rc::new(v));
                }
                loop {
                    let et = self.parse_ty(c);
                    v.push(self.parse_const(c, et));
                    if c.eat(close) {
                        break;
                    }
                    c.expect(b',');
                }
                V::A(Rc::new(v))
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    let r = self.parse_const(c, t);
                    c.expect(b'>');
                    return r;
                }
                let mut v = vec![];
                loop {
                    let et = self.parse_ty(c);
                    v.push(self.parse_const(c, et));
                    if c.eat(b'>') {
                        break;
                    }
                    c.expect(b',');
                }
                V::A(Rc::new(v))
            }
            b'c' if c.s[c.p + 1] == b'"' => {
                c.p += 1;
                let b = c.cstr();
                V::A(Rc::new(b.into_iter().map(|x| V::I(x as u64)).collect()))
            }
            _ => {
                let w = c.word();
                match w.as_str() {
                    "true" => V::I(1),
                    "false" | "null" => V::I(0),
                    "undef" | "poison" | "zeroinitializer" | "none" => self.zero(t),
                    "splat" => {
                        c.expect(b'(');
                        let et = self.parse_ty(c);
                        let v = self.parse_const(c, et);
                        c.expect(b')');
                        match self.types[t as usize] {
                            Ty::Vec(n, _) | Ty::Arr(n, _) => V::A(Rc::new(vec![v; n as usize])),
                            _ => c.fail("splat"),
                        }
                    }
                    "getelementptr" => {
                        loop {
                            let w = c.peek_word();
                            if w == "inbounds" || w == "nuw" || w == "nusw" {
                                c.word();
                            } else if w == "inrange" {
                                c.word();
                                c.skip_parens(b'(', b')');
                            } else {
                                break;
                            }
                        }
                        c.expect(b'(');
                        let st = self.parse_ty(c);
                        c.expect(b',');
                        let bt = self.parse_ty(c);
                        let base = self.parse_const(c, bt);
                        let mut addr = self.k64(&base);
                        let mut first = true;
                        let mut cur = st;
                        while c.eat(b',') {
                            let it = self.parse_ty(c);
                            let iv = self.parse_const(c, it);
                            let w = self.int_w(it).unwrap();
                            let i = crate::expr::sext128(self.k64(&iv) as u128, w) as i64;
                            if first {
                                addr = addr.wrapping_add((i as u64).wrapping_mul(self.size_of(cur)));
                                first = false;
                            } else {
                                let (o, nt) = self.field_off(cur, i as usize);
                                addr = addr.wrapping_add(o);
                                cur = nt;
                            }
                        }
                        c.expect(b')');
                        V::I(addr)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "zext" => {
                        c.expect(b'(');
                        let ft = self.parse_ty(c);
                        let v = self.parse_const(c, ft);
                        assert!(c.eat_word("to"));
                        let tt = self.parse_ty(c);
                        c.expect(b')');
                        match self.int_w(tt) {
                            Some(w) => Self::kint(self.k64(&v) as u128, w),
                            None => v,
                        }
                    }
                    "add" | "sub" | "xor" | "and" | "or" | "mul" => {
                        while matches!(c.peek_word().as_str(), "nuw" | "nsw") {
                            c.word();
                        }
                        c.expect(b'(');
                        let at = self.parse_ty(c);
                        let a = self.parse_const(c, at);
                        c.expect(b',');
                        let bt = self.parse_ty(c);
                        let b = self.parse_const(c, bt);
                        c.expect(b')');
                        let (x, y) = (self.k64(&a), self.k64(&b));
                        let r = match w.as_str() {
                            "add" => x.wrapping_add(y),
                            "sub" => x.wrapping_sub(y),
                            "xor" => x ^ y,
                            "and" => x & y,
                            "or" => x | y,
                            _ => x.wrapping_mul(y),
                        };
                        Self::kint(r as u128, self.int_w(at).unwrap())
                    }
                    _ => {
                        c.p -= w.len();
                        c.fail("constant")
                    }
                }
            }
        }
    }
    fn k64(&self, v: &V) -> u64 {
        match v {
            V::I(x) => *x,
            V::W(x) => **x as u64,
            _ => panic!("k64"),
        }
    }
    pub fn const_bytes(&self, t: T, v: &V, out: &mut Vec<u8>) {
        match (&self.types[t as usize], v) {
            (Ty::Arr(_, e), V::A(xs)) | (Ty::Vec(_, e), V::A(xs)) => {
                for x in xs.iter() {
                    self.const_bytes(*e, x, out)
                }
            }
            (Ty::Struct(f, _), V::A(xs)) => {
                let st = out.len();
                for (i, x) in xs.iter().enumerate() {
                    let (o, ft) = self.field_off(t, i);
                    out.resize(st + o as usize, 0);
                    self.const_bytes(ft, x, out);
                    let _ = f;
                }
                out.resize(st + self.size_of(t) as usize, 0);
            }
            (_, V::I(x)) => {
                let n = self.size_of(t) as usize;
                let b = (*x as u128).to_le_bytes();
                out.extend_from_slice(&b[..n]);
            }
            (_, V::W(x)) => {
                let n = self.size_of(t) as usize;
                let b = x.to_le_bytes();
                out.extend_from_slice(&b[..n]);
            }
            _ => panic!("const_bytes"),
        }
    }
    pub fn global_bytes(&mut self, g: u32) -> Vec<u8> {
        let t = self.globals[g as usize].ty;
        let mut out = vec![];
        if let Some(p) = self.globals[g as usize].init {
            let mut c = self.cur(p);
            let v = self.parse_const(&mut c, t);
            self.const_bytes(t, &v, &mut out);
        }
        out.resize(self.size_of(t) as usize, 0);
        out
    }

    // -------------------------------------------------------------- functions
    fn skip_param_attrs(&mut self, c: &mut Cur) {
        loop {
            match c.peek() {
                b'a'..=b'z' => {
                    let w = c.peek_word();
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "asm" | "add" | "sub" | "xor" | "trunc" | "and" | "or" | "mul" | "zext" | "blockaddress" | "addrspacecast"
                    ) {
                        return;
                    }
                    if w == "c" {
                        return;
                    }
                    c.word();
                    if w == "align" && c.peek() != b'(' {
                        c.int();
                    } else if PARAM_ATTR_PAREN.contains(&w.as_str()) && c.peek() == b'(' {
                        c.skip_parens(b'(', b')');
                    }
                }
                b'"' => {
                    c.ws();
                    c.name();
                    if c.eat(b'=') {
                        c.ws();
                        c.name();
                    }
                }
                b'#' => {
                    c.p += 1;
                    c.int();
                }
                _ => return,
            }
        }
    }
    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.compiled[id as usize] {
            return f.clone();
        }
        let f = Rc::new(self.compile(id));
        self.compiled[id as usize] = Some(f.clone());
        f
    }
    fn compile(&mut self, id: u32) -> Func {
        let (st, end) = self.funcs[id as usize].body.expect("no body");
        let mut c = self.cur(st);
        assert!(c.eat_word("define"));
        // skip linkage etc. up to the return type
        loop {
            if self.is_type_start(&mut c) {
                break;
            }
            self.skip_ret_attr(&mut c);
        }
        let _rt = self.parse_ty(&mut c);
        c.ws();
        assert_eq!(c.s[c.p], b'@');
        c.p += 1;
        let name = c.name();
        let mut regs: FxMap<String, u32> = Default::default();
        let mut params = vec![];
        let mut numeric = 0u32;
        c.expect(b'(');
        if !c.eat(b')') {
            loop {
                if c.peek() == b'.' {
                    c.p += 3;
                    c.expect(b')');
                    break;
                }
                let _t = self.parse_ty(&mut c);
                self.skip_param_attrs(&mut c);
                c.ws();
                assert_eq!(c.s[c.p], b'%');
                c.p += 1;
                let n = c.name();
                if n == numeric.to_string() {
                    numeric += 1
                }
                let r = regs.len() as u32;
                regs.insert(n, r);
                params.push(r);
                if c.eat(b')') {
                    break;
                }
                c.expect(b',');
            }
        }
        // skip to '{' at end of the line
        loop {
            match c.s[c.p] {
                b'"' => {
                    c.name();
                }
                b'{' => {
                    if c.s[c.p + 1] == b'\n' {
                        c.p += 2;
                        break;
                    }
                    c.p += 1
                }
                _ => c.p += 1,
            }
        }
        let mut b = FnB { m: self, regs, labels: Default::default(), blocks: vec![] };
        let mut cur: Option<usize> = None;
        loop {
            // blank lines and comment lines
            while c.s[c.p] == b'\n' {
                c.p += 1
            }
            if c.p >= end {
                break;
            }
            let col0 = c.s[c.p] != b' ';
            if col0 && c.s[c.p] == b';' {
                while c.s[c.p] != b'\n' {
                    c.p += 1
                }
                continue;
            }
            if col0 {
                let n = c.name();
                c.expect(b':');
                let i = b.label(&n);
                cur = Some(i as usize);
                // rest of line is a comment
                while c.s[c.p] != b'\n' {
                    c.p += 1
                }
                continue;
            }
            while c.s[c.p] == b' ' {
                c.p += 1
            }
            if c.s[c.p] == b'\n' {
                continue;
            }
            if c.s[c.p] == b'#' || c.s[c.p] == b';' {
                while c.s[c.p] != b'\n' {
                    c.p += 1
                }
                continue;
            }
            if cur.is_none() {
                let i = b.label(&numeric.to_string());
                cur = Some(i as usize);
            }
            b.inst(&mut c, cur.unwrap());
            // to end of line (a look-ahead may have skipped the line break)
            while matches!(c.s[c.p - 1], b' ' | b'\n' | b'\t') {
                c.p -= 1;
            }
            while c.s[c.p] != b'\n' {
                c.p += 1
            }
            c.p += 1;
        }
        let nregs = b.regs.len() as u32;
        let blocks = b.blocks;
        // the entry block must be block 0: labels are created on first mention
        let gblock = self.nblocks;
        self.nblocks += blocks.len();
        Func { id, name, nregs, params, blocks, gblock }
    }
    fn skip_ret_attr(&mut self, c: &mut Cur) {
        let w = c.word();
        if w.is_empty() {
            if c.peek() == b'"' {
                c.name();
                if c.eat(b'=') {
                    c.ws();
                    c.name();
                }
                return;
            }
            c.fail("attr")
        }
        if w == "align" && c.peek() != b'(' {
            c.int();
        } else if c.s[c.p] == b'(' {
            c.skip_parens(b'(', b')');
        }
    }
}

struct FnB<'a> {
    m: &'a mut Module,
    regs: FxMap<String, u32>,
    labels: FxMap<String, u32>,
    blocks: Vec<Block>,
}
impl<'a> FnB<'a> {
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.labels.get(n) {
            return i;
        }
        let i = self.blocks.len() as u32;
        self.labels.insert(n.to_string(), i);
        self.blocks.push(Block { name: n.to_string(), phis: vec![], insts: vec![], dbg: vec![] });
        i
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.regs.get(n) {
            return i;
        }
        let i = self.regs.len() as u32;
        self.regs.insert(n.to_string(), i);
        i
    }
    fn val(&mut self, c: &mut Cur, t: T) -> Opnd {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            Opnd::R(self.reg(&n))
        } else {
            Opnd::K(self.m.parse_const(c, t))
        }
    }
    fn tval(&mut self, c: &mut Cur) -> (T, Opnd) {
        let t = self.m.parse_ty(c);
        let v = self.val(c, t);
        (t, v)
    }
    fn lab(&mut self, c: &mut Cur) -> u32 {
        assert!(c.eat_word("label"));
        c.ws();
        assert_eq!(c.s[c.p], b'%');
        c.p += 1;
        let n = c.name();
        self.label(&n)
    }
    fn flags(&mut self, c: &mut Cur) {
        loop {
            let w = c.peek_word();
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "samesign" | "volatile" | "weak" | "atomic" | "tail" | "musttail" | "notail" => {
                    c.word();
                }
                _ => return,
            }
        }
    }
    fn ordering(&mut self, c: &mut Cur) -> bool {
        let mut any = false;
        loop {
            let w = c.peek_word();
            match w.as_str() {
                "unordered" | "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" => {
                    any = true;
                    c.word();
                }
                "syncscope" => {
                    c.word();
                    c.skip_parens(b'(', b')');
                }
                _ => return any,
            }
        }
    }
    fn inst(&mut self, c: &mut Cur, blk: usize) {
        let mut dst = u32::MAX;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            dst = self.reg(&n);
            c.expect(b'=');
        }
        let opw = c.word();
        let mk = |x: Inst| Some(x);
        let i: Option<Inst> = match opw.as_str() {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(c);
                let (t, a) = self.tval(c);
                c.expect(b',');
                let b = self.val(c, t);
                let op = match opw.as_str() {
                    "add" => Bop::Add,
                    "sub" => Bop::Sub,
                    "mul" => Bop::Mul,
                    "udiv" => Bop::UDiv,
                    "urem" => Bop::URem,
                    "sdiv" => Bop::SDiv,
                    "srem" => Bop::SRem,
                    "shl" => Bop::Shl,
                    "lshr" => Bop::LShr,
                    "ashr" => Bop::AShr,
                    "and" => Bop::And,
                    "or" => Bop::Or,
                    "xor" => Bop::Xor,
                    "fadd" => Bop::FAdd,
                    "fsub" => Bop::FSub,
                    "fmul" => Bop::FMul,
                    "fdiv" => Bop::FDiv,
                    _ => Bop::FRem,
                };
                let (w, l) = self.m.scalar(t);
                mk(Inst::Bin(dst, op, w, l, a, b))
            }
            "fneg" => {
                self.flags(c);
                let (t, a) = self.tval(c);
                let (w, _) = self.m.scalar(t);
                mk(Inst::FNeg(dst, w, a))
            }
            "icmp" => {
                self.flags(c);
                let p = match c.word().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => c.fail("pred"),
                };
                let (t, a) = self.tval(c);
                c.expect(b',');
                let b = self.val(c, t);
                let (w, l) = self.m.scalar(t);
                mk(Inst::Icmp(dst, p, w, l, a, b))
            }
            "fcmp" => {
                self.flags(c);
                let p = c.word();
                let (t, a) = self.tval(c);
                c.expect(b',');
                let b = self.val(c, t);
                let (w, _) = self.m.scalar(t);
                mk(Inst::Fcmp(dst, p.into(), w, a, b))
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "addrspacecast" => {
                self.flags(c);
                let (ft, a) = self.tval(c);
                assert!(c.eat_word("to"));
                let tt = self.m.parse_ty(c);
                let k = match opw.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" => Cast::Bitcast,
                    "ptrtoint" => {
                        let (w, _) = self.m.scalar(tt);
                        if w < 64 {
                            Cast::Trunc
                        } else if w > 64 {
                            Cast::ZExt
                        } else {
                            Cast::Nop
                        }
                    }
                    "inttoptr" => {
                        let (w, _) = self.m.scalar(ft);
                        if w < 64 {
                            Cast::ZExt
                        } else if w > 64 {
                            Cast::Trunc
                        } else {
                            Cast::Nop
                        }
                    }
                    "fptrunc" => Cast::FpTrunc,
                    "fpext" => Cast::FpExt,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    _ => Cast::Nop,
                };
                mk(Inst::Cast(dst, k, ft, tt, a))
            }
            "load" => {
                let at = c.peek_word() == "atomic";
                self.flags(c);
                let t = self.m.parse_ty(c);
                c.expect(b',');
                let (_, p) = self.tval(c);
                self.ordering(c);
                mk(Inst::Load(dst, t, p, at))
            }
            "store" => {
                let at = c.peek_word() == "atomic";
                self.flags(c);
                let (t, v) = self.tval(c);
                c.expect(b',');
                let (_, p) = self.tval(c);
                self.ordering(c);
                mk(Inst::Store(t, v, p, at))
            }
            "alloca" => {
                let t = self.m.parse_ty(c);
                let mut n = Opnd::K(V::I(1));
                let mut al = self.m.align_of(t);
                loop {
                    let save = c.p;
                    if !c.eat(b',') {
                        break;
                    }
                    if c.eat_word("align") {
                        al = c.int() as u64;
                    } else if c.peek() == b'!' {
                        c.p = save;
                        break;
                    } else {
                        let (_, v) = self.tval(c);
                        n = v;
                    }
                }
                let sz = self.m.size_of(t);
                mk(Inst::Alloca(dst, sz, al, n))
            }
            "getelementptr" => {
                self.flags(c);
                let st = self.m.parse_ty(c);
                c.expect(b',');
                let (bt, base) = self.tval(c);
                if let Ty::Vec(..) = self.m.types[bt as usize] {
                    c.fail("vector gep")
                }
                let mut k: i64 = 0;
                let mut terms = vec![];
                let mut cur = st;
                let mut first = true;
                loop {
                    let save = c.p;
                    if !c.eat(b',') {
                        break;
                    }
                    if c.peek() == b'!' {
                        c.p = save;
                        break;
                    }
                    let (it, iv) = self.tval(c);
                    let w = self.m.int_w(it).unwrap();
                    if first {
                        first = false;
                        let sz = self.m.size_of(cur);
                        match &iv {
                            Opnd::K(v) => k = k.wrapping_add((crate::expr::sext128(self.m.k64(v) as u128, w) as i64).wrapping_mul(sz as i64)),
                            _ => terms.push((iv, w, sz)),
                        }
                    } else {
                        match &iv {
                            Opnd::K(v) => {
                                let i = crate::expr::sext128(self.m.k64(v) as u128, w) as i64;
                                match self.m.types[cur as usize].clone() {
                                    Ty::Struct(..) => {
                                        let (o, nt) = self.m.field_off(cur, i as usize);
                                        k = k.wrapping_add(o as i64);
                                        cur = nt;
                                    }
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                        k = k.wrapping_add(i.wrapping_mul(self.m.size_of(e) as i64));
                                        cur = e;
                                    }
                                    _ => c.fail("gep"),
                                }
                            }
                            _ => match self.m.types[cur as usize].clone() {
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    let sz = self.m.size_of(e);
                                    terms.push((iv, w, sz));
                                    cur = e;
                                }
                                _ => c.fail("gep reg"),
                            },
                        }
                    }
                }
                mk(Inst::Gep(dst, base, k, terms))
            }
            "phi" => {
                self.flags(c);
                let t = self.m.parse_ty(c);
                let mut ins = vec![];
                loop {
                    c.expect(b'[');
                    let v = self.val(c, t);
                    c.expect(b',');
                    c.ws();
                    assert_eq!(c.s[c.p], b'%');
                    c.p += 1;
                    let n = c.name();
                    let l = self.label(&n);
                    c.expect(b']');
                    ins.push((l, v));
                    let save = c.p;
                    if !c.eat(b',') {
                        break;
                    }
                    if c.peek() != b'[' {
                        c.p = save;
                        break;
                    }
                }
                self.blocks[blk].phis.push((dst, ins));
                None
            }
            "select" => {
                self.flags(c);
                let (ct, cv) = self.tval(c);
                c.expect(b',');
                let (at, a) = self.tval(c);
                c.expect(b',');
                let (_, b) = self.tval(c);
                let isv = matches!(self.m.types[ct as usize], Ty::Vec(..));
                mk(Inst::Select(dst, cv, a, b, isv, at))
            }
            "freeze" => {
                let (_, a) = self.tval(c);
                mk(Inst::Freeze(dst, a))
            }
            "br" => {
                if c.peek_word() == "label" {
                    let l = self.lab(c);
                    mk(Inst::Br(l))
                } else {
                    let (_, v) = self.tval(c);
                    c.expect(b',');
                    let a = self.lab(c);
                    c.expect(b',');
                    let b = self.lab(c);
                    mk(Inst::CondBr(v, a, b))
                }
            }
            "switch" => {
                let (t, v) = self.tval(c);
                c.expect(b',');
                let d = self.lab(c);
                c.expect(b'[');
                let w = self.m.int_w(t).unwrap();
                let mut cases = vec![];
                while !c.eat(b']') {
                    let (_, k) = self.tval(c);
                    c.expect(b',');
                    let l = self.lab(c);
                    if let Opnd::K(k) = k {
                        let kv = match k {
                            V::I(x) => x as u128,
                            V::W(x) => *x,
                            _ => panic!(),
                        };
                        cases.push((kv, l));
                    }
                }
                mk(Inst::Switch(v, w, cases, d))
            }
            "ret" => {
                let t = self.m.parse_ty(c);
                if self.m.types[t as usize] == Ty::Void {
                    mk(Inst::Ret(None))
                } else {
                    let v = self.val(c, t);
                    mk(Inst::Ret(Some(v)))
                }
            }
            "unreachable" => mk(Inst::Unreachable),
            "extractvalue" => {
                let (_, a) = self.tval(c);
                let idx = self.idxs(c);
                mk(Inst::ExtractValue(dst, a, idx))
            }
            "insertvalue" => {
                let (_, a) = self.tval(c);
                c.expect(b',');
                let (_, b) = self.tval(c);
                let idx = self.idxs(c);
                mk(Inst::InsertValue(dst, a, b, idx))
            }
            "extractelement" => {
                let (_, a) = self.tval(c);
                c.expect(b',');
                let (_, b) = self.tval(c);
                mk(Inst::ExtractElt(dst, a, b))
            }
            "insertelement" => {
                let (_, a) = self.tval(c);
                c.expect(b',');
                let (_, v) = self.tval(c);
                c.expect(b',');
                let (_, b) = self.tval(c);
                mk(Inst::InsertElt(dst, a, v, b))
            }
            "shufflevector" => {
                let (t, a) = self.tval(c);
                c.expect(b',');
                let (_, b) = self.tval(c);
                c.expect(b',');
                let (_, m) = self.tval(c);
                let mv = match m {
                    Opnd::K(V::A(x)) => x.iter().map(|v| self.m.k64(v) as u32).collect(),
                    _ => c.fail("shuffle mask"),
                };
                let n = match self.m.types[t as usize] {
                    Ty::Vec(n, _) => n,
                    _ => 0,
                };
                mk(Inst::Shuffle(dst, a, b, mv, n))
            }
            "cmpxchg" => {
                self.flags(c);
                let (_, p) = self.tval(c);
                c.expect(b',');
                let (t, e) = self.tval(c);
                c.expect(b',');
                let (_, n) = self.tval(c);
                self.ordering(c);
                mk(Inst::CmpXchg(dst, t, p, e, n))
            }
            "atomicrmw" => {
                self.flags(c);
                let op = c.word();
                let (_, p) = self.tval(c);
                c.expect(b',');
                let (t, v) = self.tval(c);
                self.ordering(c);
                mk(Inst::AtomicRmw(dst, op.into(), t, p, v))
            }
            "fence" => {
                self.ordering(c);
                mk(Inst::Fence)
            }
            "landingpad" => {
                let _ = self.m.parse_ty(c);
                // clauses on following lines
                loop {
                    let w = c.peek_word();
                    match w.as_str() {
                        "cleanup" => {
                            c.word();
                        }
                        "catch" | "filter" => {
                            c.word();
                            let _ = self.tval(c);
                        }
                        _ => break,
                    }
                }
                // step back to end of previous line so that line skipping works
                while c.s[c.p - 1] == b' ' {
                    c.p -= 1
                }
                if c.s[c.p - 1] == b'\n' {
                    c.p -= 1
                }
                mk(Inst::LandingPad(dst))
            }
            "resume" => mk(Inst::Resume),
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if opw != "call" && opw != "invoke" {
                    assert!(c.eat_word("call"));
                }
                self.flags(c);
                // calling convention / return attributes
                loop {
                    if self.m.is_type_start(c) {
                        break;
                    }
                    self.m.skip_ret_attr(c);
                }
                let rt = self.m.parse_ty(c);
                if c.peek() == b'(' {
                    c.skip_parens(b'(', b')'); // explicit function type
                }
                let callee = match c.peek() {
                    b'@' => {
                        c.p += 1;
                        let n = c.name();
                        if n.starts_with("llvm.") {
                            Callee::Intr(n.into())
                        } else {
                            match self.m.fmap.get(&n) {
                                Some(&f) => Callee::Direct(f),
                                None => c.fail("unknown function"),
                            }
                        }
                    }
                    b'%' => {
                        c.p += 1;
                        let n = c.name();
                        Callee::Indirect(Opnd::R(self.reg(&n)))
                    }
                    _ => {
                        if c.eat_word("asm") {
                            loop {
                                let w = c.peek_word();
                                if w == "sideeffect" || w == "alignstack" || w == "inteldialect" || w == "unwind" {
                                    c.word();
                                } else {
                                    break;
                                }
                            }
                            c.ws();
                            let a = c.name();
                            c.expect(b',');
                            c.ws();
                            let _k = c.name();
                            Callee::Asm(format!("{}|{}", a, _k).into())
                        } else {
                            let pt = self.m.ty(Ty::Ptr);
                            Callee::Indirect(self.val(c, pt))
                        }
                    }
                };
                let intr = matches!(&callee, Callee::Intr(_));
                c.expect(b'(');
                let mut args = vec![];
                if !c.eat(b')') {
                    loop {
                        let t = self.m.parse_ty(c);
                        if self.m.types[t as usize] == Ty::Opaque {
                            // metadata argument: skip to , or )
                            let mut d = 0;
                            loop {
                                match c.s[c.p] {
                                    b'(' | b'{' => d += 1,
                                    b')' | b'}' if d > 0 => d -= 1,
                                    b',' | b')' if d == 0 => break,
                                    _ => {}
                                }
                                c.p += 1;
                            }
                        } else {
                            self.m.skip_param_attrs(c);
                            let v = self.val(c, t);
                            args.push(v);
                        }
                        if c.eat(b')') {
                            break;
                        }
                        c.expect(b',');
                    }
                }
                let _ = intr;
                // attributes, bundles (on this line only)
                loop {
                    while c.s[c.p] == b' ' {
                        c.p += 1;
                    }
                    match c.s[c.p] {
                        b'#' => {
                            c.p += 1;
                            c.int();
                        }
                        b'[' => c.skip_parens(b'[', b']'),
                        _ => break,
                    }
                }
                let mut then = None;
                if opw == "invoke" {
                    assert!(c.eat_word("to"));
                    then = Some(self.lab(c));
                    assert!(c.eat_word("unwind"));
                    let _ = self.lab(c);
                }
                mk(Inst::Call(dst, callee, args, rt, then))
            }
            _ => c.fail(&format!("instruction {}", opw)),
        };
        // trailing metadata (possibly after ", align N")
        let mut dbg = 0;
        loop {
            // do not cross the line end unless a comma follows on this line
            let mut q = c.p;
            while c.s[q] == b' ' {
                q += 1
            }
            if c.s[q] != b',' {
                break;
            }
            let d = md_skip(c);
            if d != 0 {
                dbg = d;
            }
            let save = c.p;
            if c.s[c.p] == b',' {
                c.p += 1;
                if c.eat_word("align") {
                    c.int();
                    continue;
                }
                c.p = save;
                break;
            }
        }
        if let Some(i) = i {
            self.blocks[blk].insts.push(i);
            self.blocks[blk].dbg.push(dbg);
        }
    }
    fn idxs(&mut self, c: &mut Cur) -> Vec<u32> {
        let mut v = vec![];
        loop {
            let save = c.p;
            if !c.eat(b',') {
                break;
            }
            if c.peek() == b'!' {
                c.p = save;
                break;
            }
            v.push(c.int() as u32);
        }
        v
    }
}
