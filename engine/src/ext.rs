//! Models of everything outside the IR: the harness interface, the C runtime
//! (memory, virtual file system, clock, threads) and LLVM intrinsics.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    SymU64,
    SymBytes,
    SymChoice,
    SymAssume,
    SymCheck,
    SymReach,
    SymConcrete,
    SymPanicIff,
    SymPanicIf,
    SymNoPanic,
    SymSource,
    SymLogmode,
    SymTrace,
    SymEngine,
    SymDeep,
    SymArgs,
    SymNote,
    SymSpawn,
    SymJoin,
    SymSched,
    SymClock,
    SymWall,
    SymFaults,
    SymStdout,
    PanicFmt,
    PanicOther,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    RustAlloc,
    RustAllocZeroed,
    RustRealloc,
    RustDealloc,
    Memcmp,
    Bcmp,
    Memcpy,
    Memset,
    Strlen,
    Open,
    Read,
    Write,
    Writev,
    Close,
    Fstat,
    Stat,
    Statx,
    Lseek,
    Dup2,
    Fsync,
    Fcntl,
    Ftruncate,
    Mkdir,
    Getcwd,
    Realpath,
    Errno,
    ClockGettime,
    Syscall,
    GetRandom,
    Getenv,
    Sysconf,
    AtexitImpl,
    KeyCreate,
    KeySet,
    KeyGet,
    PthreadSelf,
    Ret0,
    RetNeg1,
    PlLock,
    PlUnlock,
    StrerrorR,
    ExitFn,
    Getpid,
    NoAllocShim,
    SymRdpmc,
    SymCpuid,
    Mmap,
    Opendir,
    Readdir,
    Closedir,
}

pub fn classify(m: &Module) -> Vec<Option<Ext>> {
    use Ext::*;
    let mut out = vec![None; m.funcs.len()];
    for (i, f) in m.funcs.iter().enumerate() {
        let n = f.name.as_str();
        let direct = match n {
            "symir_u64" => Some(SymU64),
            "symir_bytes" => Some(SymBytes),
            "symir_choice" => Some(SymChoice),
            "symir_assume" => Some(SymAssume),
            "symir_check" => Some(SymCheck),
            "symir_reach" => Some(SymReach),
            "symir_concrete" => Some(SymConcrete),
            "symir_panic_iff" => Some(SymPanicIff),
            "symir_panic_if" => Some(SymPanicIf),
            "symir_no_panic" => Some(SymNoPanic),
            "symir_source" => Some(SymSource),
            "symir_logmode" => Some(SymLogmode),
            "symir_trace" => Some(SymTrace),
            "symir_engine" => Some(SymEngine),
            "symir_deep" => Some(SymDeep),
            "symir_args" => Some(SymArgs),
            "symir_note" => Some(SymNote),
            "symir_spawn" => Some(SymSpawn),
            "symir_join" => Some(SymJoin),
            "symir_sched" => Some(SymSched),
            "symir_clock" => Some(SymClock),
            "symir_wall" => Some(SymWall),
            "symir_rdpmc" => Some(SymRdpmc),
            "symir_cpuid" => Some(SymCpuid),
            "mmap" | "mmap64" => Some(Mmap),
            "opendir" => Some(Opendir),
            "readdir64" | "readdir" => Some(Readdir),
            "closedir" => Some(Closedir),
            "dirfd" => Some(Ret0),
            "symir_faults" => Some(SymFaults),
            "symir_stdout" => Some(SymStdout),
            "malloc" => Some(Malloc),
            "calloc" => Some(Calloc),
            "realloc" => Some(Realloc),
            "free" => Some(Free),
            "posix_memalign" => Some(PosixMemalign),
            "memcmp" => Some(Memcmp),
            "bcmp" => Some(Bcmp),
            "memcpy" | "memmove" => Some(Memcpy),
            "memset" => Some(Memset),
            "strlen" => Some(Strlen),
            "open64" | "open" => Some(Open),
            "read" => Some(Read),
            "write" => Some(Write),
            "writev" => Some(Writev),
            "close" => Some(Close),
            "fstat64" | "fstat" => Some(Fstat),
            "stat64" | "stat" | "lstat64" => Some(Stat),
            "statx" => Some(Statx),
            "lseek64" | "lseek" => Some(Lseek),
            "dup2" => Some(Dup2),
            "fsync" | "fdatasync" => Some(Fsync),
            "fcntl" | "fcntl64" => Some(Fcntl),
            "ftruncate64" | "ftruncate" => Some(Ftruncate),
            "mkdir" => Some(Mkdir),
            "getcwd" => Some(Getcwd),
            "realpath" => Some(Realpath),
            "__errno_location" => Some(Errno),
            "clock_gettime" => Some(ClockGettime),
            "syscall" => Some(Syscall),
            "getrandom" => Some(GetRandom),
            "getenv" => Some(Getenv),
            "sysconf" => Some(Sysconf),
            "__cxa_thread_atexit_impl" => Some(AtexitImpl),
            "pthread_key_create" => Some(KeyCreate),
            "pthread_setspecific" => Some(KeySet),
            "pthread_getspecific" => Some(KeyGet),
            "pthread_self" => Some(PthreadSelf),
            "getpid" => Some(Getpid),
            "pthread_key_delete" | "munmap" | "mprotect" | "sigaction" | "sigaltstack" | "poll" | "signal" | "sched_yield" | "isatty" | "pthread_rwlock_rdlock" | "pthread_rwlock_unlock" => Some(Ret0),
            "ioctl" | "readlink" | "dl_iterate_phdr" => Some(RetNeg1),
            "__xpg_strerror_r" => Some(StrerrorR),
            "abort" | "_exit" => Some(PanicOther),
            "exit" => Some(ExitFn),
            _ => None,
        };
        if direct.is_some() {
            out[i] = direct;
            continue;
        }
        let d = demangle(n);
        out[i] = match d.as_str() {
            "core::panicking::panic_fmt" | "core::panicking::panic_nounwind_fmt" => Some(PanicFmt),
            "std::panicking::rust_panic_with_hook" | "std::panicking::begin_panic" | "std::process::abort" | "core::panicking::panic_nounwind" | "core::panicking::panic_cannot_unwind" | "alloc::alloc::handle_alloc_error" => Some(PanicOther),
            "std::process::exit" => Some(ExitFn),
            "parking_lot::raw_mutex::RawMutex::lock_slow" => Some(PlLock),
            "parking_lot::raw_mutex::RawMutex::unlock_slow" => Some(PlUnlock),
            _ => {
                // v0-mangled allocator entry points end with their name
                if n.ends_with("___rust_alloc") || n == "__rust_alloc" {
                    Some(RustAlloc)
                } else if n.ends_with("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" {
                    Some(RustAllocZeroed)
                } else if n.ends_with("___rust_realloc") || n == "__rust_realloc" {
                    Some(RustRealloc)
                } else if n.ends_with("___rust_dealloc") || n == "__rust_dealloc" {
                    Some(RustDealloc)
                } else if n.ends_with("rust_no_alloc_shim_is_unstable_v2") {
                    Some(NoAllocShim)
                } else if n.ends_with("17rust_begin_unwind") || n == "rust_begin_unwind" {
                    Some(PanicOther)
                } else {
                    None
                }
            }
        };
    }
    out
}

fn k(v: &V) -> u64 {
    match v {
        V::I(x) => *x,
        _ => 0,
    }
}
fn s32(x: i64) -> V {
    V::I(x as i32 as u32 as u64)
}

pub fn fs_init(st: &mut State) {
    // descriptors 0..2 exist; 1 and 2 are sinks
    let mut fs = Fs::default();
    for i in 0..3 {
        let o = Obj::new(1 << 28, 1, Kind::Heap);
        let a = st.mem.alloc(o);
        fs.files.push(FileN { path: format!("\0fd{}", i).into_bytes(), obj: (a >> 32) as u32, size: V::I(0), dir: false });
        fs.fds.push(Some(Fd { file: i, pos: V::I(0), append: false }));
    }
    st.fs = Rc::new(fs);
}

fn set_errno(eng: &mut Eng, st: &mut State, e: u64) -> R<()> {
    let a = errno_addr(st);
    eng.store_scalar(st, &V::I(a), 32, &V::I(e))
}
fn errno_addr(st: &mut State) -> u64 {
    if st.th().errno == 0 {
        let a = st.mem.alloc(Obj::new(4, 4, Kind::Tls));
        st.th().errno = a;
    }
    st.th().errno
}
fn read_str(eng: &mut Eng, st: &mut State, p: &V, n: &V) -> String {
    let (p, n) = (k(p), k(n));
    match eng.peek_bytes(st, p, n) {
        Some(b) => String::from_utf8_lossy(&b).to_string(),
        None => "?".into(),
    }
}
/// Best-effort text of a core::fmt::Arguments
fn fmt_args(eng: &mut Eng, st: &mut State, p: &V) -> Option<String> {
    let a = match p {
        V::I(x) => *x,
        _ => return None,
    };
    let rd = |eng: &mut Eng, st: &State, a: u64| -> Option<u64> {
        let b = eng.peek_bytes(st, a, 8)?;
        Some(u64::from_le_bytes(b.try_into().ok()?))
    };
    let pieces = rd(eng, st, a)?;
    let n = rd(eng, st, a + 8)?;
    if n > 32 {
        return None;
    }
    let mut out = vec![];
    for i in 0..n {
        let sp = rd(eng, st, pieces + 16 * i)?;
        let sl = rd(eng, st, pieces + 16 * i + 8)?;
        if sl > 4000 {
            return None;
        }
        let b = if sl == 0 { vec![] } else { eng.peek_bytes(st, sp, sl)? };
        out.push(String::from_utf8_lossy(&b).to_string());
    }
    Some(out.join("{}"))
}
fn location(eng: &mut Eng, st: &mut State, p: &V) -> Option<String> {
    let a = match p {
        V::I(x) => *x,
        _ => return None,
    };
    let b = eng.peek_bytes(st, a, 24)?;
    let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let l = g(8);
    if l > 300 {
        return None;
    }
    let f = eng.peek_bytes(st, g(0), l)?;
    let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
    Some(format!("{}:{}", String::from_utf8_lossy(&f).trim_end_matches('\0'), line))
}

fn conc_next(eng: &mut Eng) -> Option<Vec<String>> {
    let c = eng.cfg.concrete.as_ref()?;
    while eng.conc_pos < c.len() {
        let l = &c[eng.conc_pos];
        eng.conc_pos += 1;
        if l.starts_with('#') || l.trim().is_empty() || l.starts_with("t ") {
            continue;
        }
        return Some(l.split(' ').map(|s| s.to_string()).collect());
    }
    None
}
fn mkvar(eng: &mut Eng, name: &str, idx: usize, w: u32, lo: u64, hi: u64) -> E {
    let full = format!("{}@{}:{}:{}", name, idx, lo, hi);
    if let Some(e) = eng.varmap.get(&full) {
        return *e;
    }
    let e = if lo == hi { eng.ex.cst(lo as u128, w) } else { eng.ex.var(&full, w, lo as u128, hi as u128) };
    eng.varmap.insert(full, e);
    e
}
fn bool_arg(eng: &mut Eng, v: &V) -> E {
    match v {
        V::I(x) => eng.ex.cst((*x & 0xff != 0) as u128, 1),
        V::S(e) => {
            let w = eng.ex.w(*e);
            let x = if w > 8 { eng.ex.extract(*e, 0, 8) } else { *e };
            let w = eng.ex.w(x);
            let z = eng.ex.cst(0, w);
            let q = eng.ex.eq(x, z);
            eng.ex.not1(q)
        }
        _ => eng.ex.cst(0, 1),
    }
}
fn check(eng: &mut Eng, st: &mut State, c: E, msg: &str) -> R<()> {
    *eng.checks_by_msg.entry(msg.to_string()).or_default() += 1;
    eng.checks_discharged += 1;
    let nc = eng.ex.not1(c);
    match eng.feasible(st, nc) {
        Tri::No => {
            if eng.ex.as_const(c).is_none() {
                Rc::make_mut(&mut st.known).insert(c, 1);
                Rc::make_mut(&mut st.known).insert(nc, 0);
            }
            Ok(())
        }
        Tri::Yes(m) => {
            let mut s2 = st.clone();
            eng.add_pc(&mut s2, nc, m);
            eng.report(&s2, "check", msg);
            // go on with the passing side, if any
            match eng.feasible(st, c) {
                Tri::Yes(m) => {
                    eng.add_pc(st, c, m);
                    Ok(())
                }
                _ => Err(Halt::Violation(format!("\0{}", msg))),
            }
        }
        Tri::Unknown => {
            *eng.inconclusive.entry(format!("check not decided: {}", msg)).or_default() += 1;
            eng.add_pc_unchecked(st, c);
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- threads
fn runnable(eng: &mut Eng, st: &State, t: usize) -> bool {
    match &st.threads[t].stat {
        TStat::Run => true,
        TStat::WaitJoin(h) => st.threads[*h].stat == TStat::Done,
        TStat::WaitMutex(a) => match eng.peek_bytes(st, *a, 1) {
            Some(b) => b[0] & 1 == 0,
            None => true,
        },
        TStat::WaitFutex(_) => false,
        TStat::Done => false,
    }
}
fn switch_to(st: &mut State, t: usize) {
    st.cur = t;
    st.threads[t].stat = TStat::Run;
    let mut v = (*st.inputs).clone();
    v.push(Inp::Sched(t as u64));
    st.inputs = Rc::new(v);
}
/// The current thread cannot go on: continue with every other runnable one.
fn pick(eng: &mut Eng, st: &mut State) -> R<()> {
    let n = st.threads.len();
    let c: Vec<usize> = (0..n).filter(|t| runnable(eng, st, *t)).collect();
    if c.is_empty() {
        return Err(Halt::Violation("deadlock: no thread can make progress".into()));
    }
    if st.sched_on {
        for t in &c[1..] {
            let mut o = st.clone();
            eng.forks += 1;
            o.sched_decided = true;
            switch_to(&mut o, *t);
            eng.work.push(o);
        }
        st.sched_decided = true;
    }
    switch_to(st, c[0]);
    Err(Halt::Yield)
}
pub fn sched_point(eng: &mut Eng, st: &mut State) -> R<()> {
    if !st.sched_on || st.threads.len() < 2 {
        return Ok(());
    }
    if st.sched_decided {
        st.sched_decided = false;
        return Ok(());
    }
    if st.preempt < eng.cfg.max_preempt {
        for t in 0..st.threads.len() {
            if t != st.cur && runnable(eng, st, t) {
                let mut o = st.clone();
                o.preempt += 1;
                o.sched_decided = true;
                eng.forks += 1;
                switch_to(&mut o, t);
                eng.work.push(o);
            }
        }
    }
    Ok(())
}
pub fn thread_end(eng: &mut Eng, st: &mut State, v: V) -> R<()> {
    let t = st.th();
    t.stat = TStat::Done;
    t.ret = v;
    pick(eng, st)
}

// ---------------------------------------------------------------- file system
fn norm(p: &[u8]) -> Vec<u8> {
    let mut p = p;
    while p.starts_with(b"./") {
        p = &p[2..];
    }
    p.to_vec()
}
fn find_file(st: &State, p: &[u8]) -> Option<usize> {
    let p = norm(p);
    st.fs.files.iter().position(|f| f.path == p)
}
fn fdget(st: &State, fd: u64) -> Option<Fd> {
    st.fs.fds.get(fd as usize).cloned().flatten()
}
fn vadd(eng: &mut Eng, a: &V, b: &V) -> V {
    let (x, y) = (eng.e(a, 64), eng.e(b, 64));
    let r = eng.ex.bin(Op::Add, x, y);
    eng.v(r)
}
fn vsub(eng: &mut Eng, a: &V, b: &V) -> V {
    let (x, y) = (eng.e(a, 64), eng.e(b, 64));
    let r = eng.ex.bin(Op::Sub, x, y);
    eng.v(r)
}
fn vmin(eng: &mut Eng, a: &V, b: &V) -> V {
    let (x, y) = (eng.e(a, 64), eng.e(b, 64));
    let c = eng.ex.cmp(Op::Ult, x, y);
    let r = eng.ex.ite(c, x, y);
    eng.v(r)
}
fn vmax(eng: &mut Eng, a: &V, b: &V) -> V {
    let (x, y) = (eng.e(a, 64), eng.e(b, 64));
    let c = eng.ex.cmp(Op::Ult, x, y);
    let r = eng.ex.ite(c, y, x);
    eng.v(r)
}
fn do_write(eng: &mut Eng, st: &mut State, fd: u64, p: &V, n: &V) -> R<V> {
    let f = match fdget(st, fd) {
        Some(f) => f,
        None => {
            set_errno(eng, st, 9)?;
            return Ok(V::I(u64::MAX));
        }
    };
    let file = st.fs.files[f.file].clone();
    let pos = if f.append { file.size.clone() } else { f.pos.clone() };
    let base = obj_addr(file.obj);
    let dst = vadd(eng, &V::I(base), &pos);
    eng.copy(st, &dst, p, n)?;
    let end = vadd(eng, &pos, n);
    let ns = vmax(eng, &end, &file.size);
    let fs = Rc::make_mut(&mut st.fs);
    fs.files[f.file].size = ns;
    if let Some(Some(x)) = fs.fds.get_mut(fd as usize) {
        x.pos = end;
    }
    Ok(n.clone())
}
fn fill_stat(eng: &mut Eng, st: &mut State, buf: &V, idx: usize, x: bool) -> R<()> {
    let f = st.fs.files[idx].clone();
    let mode: u64 = if f.dir { 0o40755 } else { 0o100644 };
    let len: u64 = if x { 256 } else { 144 };
    eng.fill(st, buf, &V::I(0), &V::I(len))?;
    if x {
        eng.store_scalar(st, buf, 32, &V::I(0x7ff))?;
        let q = eng.padd(buf, 28);
        eng.store_scalar(st, &q, 16, &V::I(mode))?;
        let q = eng.padd(buf, 40);
        eng.store_scalar(st, &q, 64, &f.size)?;
    } else {
        let q = eng.padd(buf, 24);
        eng.store_scalar(st, &q, 32, &V::I(mode))?;
        let q = eng.padd(buf, 48);
        eng.store_scalar(st, &q, 64, &f.size)?;
    }
    Ok(())
}

fn grow(eng: &mut Eng, st: &mut State, p: &V, n: &V, align: u64) -> R<V> {
    let old = eng.concretize(st, p)? as u64;
    if old == 0 {
        let a = eng.alloc(st, n, align, Kind::Heap)?;
        return Ok(V::I(a));
    }
    let id = (old >> 32) as u32;
    let osz = match st.mem.get(id) {
        Some(o) => o.size.clone(),
        None => return Err(Halt::Violation("realloc of an invalid pointer".into())),
    };
    let m = vmin(eng, &osz, n);
    let a = eng.alloc(st, n, align, Kind::Heap)?;
    // a symbolic length forks inside copy; do that before anything is visible
    eng.copy(st, &V::I(a), &V::I(old), &m)?;
    st.mem.free(id);
    Ok(V::I(a))
}
fn free(eng: &mut Eng, st: &mut State, p: &V) -> R<()> {
    let a = eng.concretize(st, p)? as u64;
    if a == 0 {
        return Ok(());
    }
    let id = (a >> 32) as u32;
    match st.mem.get(id) {
        Some(o) if o.kind == Kind::Heap && a == obj_addr(id) => {
            st.mem.free(id);
            Ok(())
        }
        _ => Err(Halt::Violation(format!("free of an invalid pointer {:#x}", a))),
    }
}

pub fn external(eng: &mut Eng, st: &mut State, x: Ext, fid: u32, a: Vec<V>, d: u32, then: Option<u32>, _rt: T) -> R<()> {
    use Ext::*;
    macro_rules! done {
        ($v:expr) => {{
            let v = $v;
            eng.finish_call(st, d, then, v);
            return Ok(());
        }};
    }
    match x {
        SymU64 => {
            let name = read_str(eng, st, &a[0], &a[1]);
            let (lo, hi) = (eng.concretize(st, &a[2])? as u64, eng.concretize(st, &a[3])? as u64);
            if eng.cfg.concrete.is_some() {
                let l = conc_next(eng).ok_or_else(|| Halt::Error("out of concrete inputs".into()))?;
                let v: u64 = l[2].parse().unwrap();
                done!(V::I(v))
            }
            let e = mkvar(eng, &name, st.inputs.len(), 64, lo, hi);
            Rc::make_mut(&mut st.inputs).push(Inp::U(name, e));
            let v = eng.v(e);
            done!(v)
        }
        SymBytes => {
            let name = read_str(eng, st, &a[0], &a[1]);
            let n = eng.concretize(st, &a[3])? as u64;
            if eng.cfg.concrete.is_some() {
                let l = conc_next(eng).ok_or_else(|| Halt::Error("out of concrete inputs".into()))?;
                for i in 0..n as usize {
                    let b = u64::from_str_radix(&l[2][2 * i..2 * i + 2], 16).unwrap();
                    let q = eng.padd(&a[2], i as u64);
                    eng.store_scalar(st, &q, 8, &V::I(b))?;
                }
                done!(V::I(0))
            }
            let mut es = vec![];
            for i in 0..n {
                let e = mkvar(eng, &format!("{}[{}]", name, i), st.inputs.len(), 8, 0, 255);
                es.push(e);
                let q = eng.padd(&a[2], i);
                eng.store_scalar(st, &q, 8, &V::S(e))?;
            }
            Rc::make_mut(&mut st.inputs).push(Inp::Bytes(name, es));
            done!(V::I(0))
        }
        SymChoice => {
            let name = read_str(eng, st, &a[0], &a[1]);
            let n = eng.concretize(st, &a[2])? as u64;
            if eng.cfg.concrete.is_some() {
                let l = conc_next(eng).ok_or_else(|| Halt::Error("out of concrete inputs".into()))?;
                done!(V::I(l[2].parse().unwrap()))
            }
            let first = if let Some(f) = eng.cfg.fix_choice.get(&name) { Some(*f) } else { None };
            if let Some(f) = first {
                Rc::make_mut(&mut st.inputs).push(Inp::Choice(name, f));
                done!(V::I(f))
            }
            for i in 1..n {
                let mut o = st.clone();
                eng.forks += 1;
                Rc::make_mut(&mut o.inputs).push(Inp::Choice(name.clone(), i));
                eng.finish_call(&mut o, d, then, V::I(i));
                eng.work.push(o);
            }
            Rc::make_mut(&mut st.inputs).push(Inp::Choice(name, 0));
            done!(V::I(0))
        }
        SymAssume => {
            let c = bool_arg(eng, &a[0]);
            match eng.feasible(st, c) {
                Tri::No => return Err(Halt::Infeasible),
                Tri::Yes(m) => eng.add_pc(st, c, m),
                Tri::Unknown => return Err(Halt::Error("assumption not decided".into())),
            }
            done!(V::I(0))
        }
        SymCheck => {
            let c = bool_arg(eng, &a[0]);
            let msg = read_str(eng, st, &a[1], &a[2]);
            check(eng, st, c, &msg)?;
            done!(V::I(0))
        }
        SymReach => {
            let msg = read_str(eng, st, &a[0], &a[1]);
            *eng.reached.entry(msg).or_default() += 1;
            done!(V::I(0))
        }
        SymConcrete => {
            let v = eng.concretize(st, &a[0])?;
            done!(V::I(v as u64))
        }
        SymPanicIff | SymPanicIf => {
            let c = bool_arg(eng, &a[0]);
            st.panic = if x == SymPanicIff { PanicMode::Iff(c) } else { PanicMode::If(c) };
            done!(V::I(0))
        }
        SymNoPanic => {
            if let PanicMode::Iff(c) = st.panic {
                let nc = eng.ex.not1(c);
                check(eng, st, nc, "completed although it has to be refused")?;
            }
            st.panic = PanicMode::Never;
            done!(V::I(0))
        }
        SymSource => {
            let name = read_str(eng, st, &a[0], &a[1]);
            if eng.cfg.concrete.is_some() {
                let l = conc_next(eng).ok_or_else(|| Halt::Error("out of concrete inputs".into()))?;
                let n: u64 = l[2].parse().unwrap();
                let mut o = Obj::new(n, 1, Kind::Heap);
                for i in 0..n {
                    o.set(i, ByteV::C((i * 131 + 17) as u8));
                }
                for p in &l[3..] {
                    let (i, v) = p.split_once('=').unwrap();
                    o.set(i.parse().unwrap(), ByteV::C(v.parse().unwrap()));
                }
                let ad = st.mem.alloc(o);
                done!(V::I(ad))
            }
            let key = format!("{}@{}", name, st.inputs.len());
            let src = match eng.srcmap.get(&key) {
                Some(s) => *s,
                None => {
                    let s = eng.ex.new_src(&key);
                    eng.srcmap.insert(key, s);
                    s
                }
            };
            let mut o = Obj::new(0, 1, Kind::Heap);
            o.size = a[2].clone();
            o.data = Data::Log(Base::Source(src), vec![]);
            let ad = st.mem.alloc(o);
            Rc::make_mut(&mut st.inputs).push(Inp::Source(name, src, a[2].clone()));
            done!(V::I(ad))
        }
        SymLogmode => {
            st.logmode = k(&a[0]) & 0xff != 0;
            done!(V::I(0))
        }
        SymTrace => {
            let s = match eng.kc(&a[0]) {
                Some(v) => format!("{}", v),
                None => "sym".into(),
            };
            Rc::make_mut(&mut st.trace).push(s);
            done!(V::I(0))
        }
        SymEngine => done!(V::I(1)),
        SymDeep => done!(V::I(eng.cfg.deep as u64)),
        SymArgs => {
            if st.args_set {
                st.args_set = false;
                done!(V::I(0))
            }
            let f = eng.m.funcs.iter().position(|f| f.body.is_some() && {
                let d = demangle(&f.name);
                d.contains("ARGV_INIT_ARRAY") && d.contains("init")
            });
            match f {
                Some(f) => {
                    st.args_set = true;
                    let z = st.mem.alloc(Obj::new(8, 8, Kind::Heap));
                    // the call is re-executed after the initialiser returns
                    eng.push_call(st, f as u32, vec![a[0].clone(), a[1].clone(), V::I(z)], u32::MAX, None, RetKind::Ignore)?;
                    Ok(())
                }
                None => Err(Halt::Error("std argument initialiser not found".into())),
            }
        }
        SymNote => {
            let name = read_str(eng, st, &a[0], &a[1]);
            let e = eng.e(&a[2], 64);
            Rc::make_mut(&mut st.notes).push((name, e));
            done!(V::I(0))
        }
        SymSpawn => {
            let p = eng.concretize(st, &a[0])? as u64;
            let id = (p >> 32) as u32;
            let f = eng.new_frame(id - 1, vec![a[1].clone()], u32::MAX, None, RetKind::ThreadEnd);
            let t = Thread { cur: f, stack: vec![], tls: Default::default(), keys: Default::default(), stat: TStat::Run, ret: V::I(0), dtors: vec![], errno: 0 };
            st.threads.push(t);
            let h = st.threads.len() as u64 - 1;
            done!(V::I(h))
        }
        SymJoin => {
            let h = eng.concretize(st, &a[0])? as usize;
            if st.threads[h].stat == TStat::Done {
                let v = st.threads[h].ret.clone();
                done!(v)
            }
            st.th().stat = TStat::WaitJoin(h);
            pick(eng, st)
        }
        SymSched => {
            st.sched_on = k(&a[0]) & 0xff != 0;
            done!(V::I(0))
        }
        SymClock => {
            // queue of (seconds, nanoseconds) readings of the monotonic clock
            if eng.kc(&a[0]) == Some(u64::MAX as u128) {
                // forget what has not been read
                st.clock_v = Rc::new(vec![]);
                st.clock_pos = 0;
                done!(V::I(0))
            }
            Rc::make_mut(&mut st.clock_v).push((a[0].clone(), a[1].clone()));
            done!(V::I(0))
        }
        SymWall => {
            st.wall = (a[0].clone(), a[1].clone());
            done!(V::I(0))
        }
        SymRdpmc => {
            // what a counter register holds from now on
            let i = eng.concretize(st, &a[0])? as u64;
            let h = Rc::make_mut(&mut st.hw);
            h.0.retain(|x| x.0 != i);
            h.0.push((i, a[1].clone()));
            done!(V::I(0))
        }
        SymCpuid => {
            // leaf; eax, ebx, ecx, edx
            let i = eng.concretize(st, &a[0])? as u64;
            let h = Rc::make_mut(&mut st.hw);
            h.1.retain(|x| x.0 != i);
            h.1.push((i, [a[1].clone(), a[2].clone(), a[3].clone(), a[4].clone()]));
            done!(V::I(0))
        }
        Mmap => {
            let fd = eng.concretize(st, &a[4])? as u64 & 0xffff_ffff;
            let at = eng.concretize(st, &a[5])? as u64;
            let prot = eng.concretize(st, &a[2])? as u64;
            match fdget(st, fd) {
                // (shared, read-only)
                Some(f) if prot == 1 => done!(V::I(obj_addr(st.fs.files[f.file].obj) + at)),
                Some(_) => Err(Halt::Error("writable mapping of a file".into())),
                None => {
                    set_errno(eng, st, 9)?;
                    done!(V::I(u64::MAX))
                }
            }
        }
        SymFaults => {
            st.faults = k(&a[0]);
            done!(V::I(0))
        }
        SymStdout => {
            // redirect descriptor 1 to a file of the virtual file system
            let p = read_str(eng, st, &a[0], &a[1]).into_bytes();
            let o = Obj::new(1 << 28, 1, Kind::Heap);
            let ad = st.mem.alloc(o);
            let fs = Rc::make_mut(&mut st.fs);
            let f = FileN { path: norm(&p), obj: (ad >> 32) as u32, size: V::I(0), dir: false };
            let i = match fs.files.iter().position(|x| x.path == f.path) {
                Some(i) => {
                    fs.files[i] = f;
                    i
                }
                None => {
                    fs.files.push(f);
                    fs.files.len() - 1
                }
            };
            fs.fds[1] = Some(Fd { file: i, pos: V::I(0), append: true });
            done!(V::I(0))
        }
        PanicFmt => {
            let mut m = None;
            let mut loc = None;
            for v in &a {
                if m.is_none() {
                    m = fmt_args(eng, st, v);
                } else if loc.is_none() {
                    loc = location(eng, st, v);
                }
            }
            let m = m.unwrap_or_else(|| "panic".into());
            Err(Halt::Panic(format!("{} ({})", m, loc.unwrap_or_else(|| "unknown location".into()))))
        }
        PanicOther => Err(Halt::Panic(format!("abnormal termination ({})", demangle(&eng.m.funcs[fid as usize].name)))),
        ExitFn => {
            let c = match eng.kc(&a[0]) {
                Some(c) => format!("{}", c as u32 as i32),
                None => "?".into(),
            };
            Err(Halt::Panic(format!("process exit with status {}", c)))
        }
        NoAllocShim => done!(V::I(0)),
        Malloc => {
            let p = eng.alloc(st, &a[0], 16, Kind::Heap)?;
            done!(V::I(p))
        }
        RustAlloc | RustAllocZeroed => {
            let al = eng.concretize(st, &a[1])? as u64;
            let p = eng.alloc(st, &a[0], al, Kind::Heap)?;
            done!(V::I(p))
        }
        RustRealloc => {
            let al = eng.concretize(st, &a[2])? as u64;
            let p = grow(eng, st, &a[0], &a[3], al)?;
            done!(p)
        }
        RustDealloc => {
            free(eng, st, &a[0])?;
            done!(V::I(0))
        }
        Calloc => {
            let n = match (&a[0], &a[1]) {
                (V::I(x), V::I(y)) => V::I(x.wrapping_mul(*y)),
                _ => eng.bin(Bop::Mul, 64, &a[0], &a[1])?,
            };
            let p = eng.alloc(st, &n, 16, Kind::Heap)?;
            done!(V::I(p))
        }
        Realloc => {
            let p = grow(eng, st, &a[0], &a[1], 16)?;
            done!(p)
        }
        Free => {
            free(eng, st, &a[0])?;
            done!(V::I(0))
        }
        PosixMemalign => {
            let al = eng.concretize(st, &a[1])? as u64;
            let p = eng.alloc(st, &a[2], al, Kind::Heap)?;
            eng.store_scalar(st, &a[0], 64, &V::I(p))?;
            done!(V::I(0))
        }
        Bcmp | Memcmp => {
            let n = eng.concretize(st, &a[2])? as u64;
            if n > 0 {
                eng.resolve(st, &a[0], n)?;
                eng.resolve(st, &a[1], n)?;
            }
            if let (V::I(p), V::I(q)) = (&a[0], &a[1]) {
                let (p, q) = (*p, *q);
                let sym = |st: &State, x: u64| st.mem.get((x >> 32) as u32).map_or(true, |o| o.is_log() || matches!(&o.data, Data::B(_, s) if !s.is_empty()));
                if n == 0 {
                    done!(V::I(0))
                }
                if !sym(st, p) && !sym(st, q) {
                    let b1 = eng.peek_bytes(st, p, n).unwrap();
                    let b2 = eng.peek_bytes(st, q, n).unwrap();
                    let r = match b1.cmp(&b2) {
                        std::cmp::Ordering::Less => -1,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    };
                    done!(s32(r))
                }
            }
            let mut acc = eng.ex.cst(0, 32);
            let mut pairs = vec![];
            for i in 0..n {
                let p = eng.padd(&a[0], i);
                let q = eng.padd(&a[1], i);
                let u = eng.load_scalar(st, &p, 8)?;
                let v = eng.load_scalar(st, &q, 8)?;
                let (u, v) = (eng.e(&u, 8), eng.e(&v, 8));
                let c = eng.ex.eq(u, v);
                if eng.ex.as_const(c) == Some(1) {
                    continue;
                }
                pairs.push((u, v, c));
                if eng.ex.as_const(c) == Some(0) {
                    break;
                }
            }
            if x == Bcmp {
                let one = eng.ex.cst(1, 32);
                let mut alle = eng.ex.cst(1, 1);
                for (_, _, c) in &pairs {
                    alle = eng.ex.and1(alle, *c);
                }
                let z = eng.ex.cst(0, 32);
                acc = eng.ex.ite(alle, z, one);
            } else {
                let m1 = eng.ex.cst(0xffff_ffff, 32);
                let one = eng.ex.cst(1, 32);
                for (u, v, c) in pairs.into_iter().rev() {
                    let lt = eng.ex.cmp(Op::Ult, u, v);
                    let s = eng.ex.ite(lt, m1, one);
                    acc = eng.ex.ite(c, acc, s);
                }
            }
            let v = eng.v(acc);
            done!(v)
        }
        Memcpy => {
            eng.copy(st, &a[0], &a[1], &a[2])?;
            let v = a[0].clone();
            done!(v)
        }
        Memset => {
            let b = match &a[1] {
                V::I(x) => V::I(x & 0xff),
                v => eng.bits(v, 32, 0, 8),
            };
            eng.fill(st, &a[0], &b, &a[2])?;
            let v = a[0].clone();
            done!(v)
        }
        Strlen => {
            let mut n = 0u64;
            loop {
                let q = eng.padd(&a[0], n);
                let v = eng.load_scalar(st, &q, 8)?;
                let zero = match eng.kc(&v) {
                    Some(x) => x == 0,
                    None => {
                        let e = eng.e(&v, 8);
                        let z = eng.ex.cst(0, 8);
                        let c = eng.ex.eq(e, z);
                        eng.branch_retry(st, c)?
                    }
                };
                if zero {
                    break;
                }
                n += 1;
            }
            done!(V::I(n))
        }
        Open => {
            let p = norm(&eng.cstr(st, &a[0])?);
            let fl = eng.concretize(st, &a[1])? as u64;
            let idx = find_file(st, &p);
            if idx.is_some() && fl & 0xC0 == 0xC0 {
                set_errno(eng, st, 17)?;
                done!(s32(-1))
            }
            let idx = match idx {
                Some(i) => {
                    if fl & 0x200 != 0 {
                        Rc::make_mut(&mut st.fs).files[i].size = V::I(0);
                    }
                    i
                }
                None if fl & 0x40 != 0 => {
                    let o = Obj::new(1 << 28, 1, Kind::Heap);
                    let ad = st.mem.alloc(o);
                    let fs = Rc::make_mut(&mut st.fs);
                    fs.files.push(FileN { path: p, obj: (ad >> 32) as u32, size: V::I(0), dir: false });
                    fs.files.len() - 1
                }
                None => {
                    set_errno(eng, st, 2)?;
                    done!(s32(-1))
                }
            };
            let fs = Rc::make_mut(&mut st.fs);
            let fd = Fd { file: idx, pos: V::I(0), append: fl & 0x400 != 0 };
            let i = match fs.fds.iter().position(|f| f.is_none()) {
                Some(i) => {
                    fs.fds[i] = Some(fd);
                    i
                }
                None => {
                    fs.fds.push(Some(fd));
                    fs.fds.len() - 1
                }
            };
            done!(V::I(i as u64))
        }
        Close => {
            let fd = eng.concretize(st, &a[0])? as usize;
            let fs = Rc::make_mut(&mut st.fs);
            if fd < fs.fds.len() {
                fs.fds[fd] = None;
            }
            done!(V::I(0))
        }
        Read => {
            let fd = eng.concretize(st, &a[0])? as u64;
            let f = match fdget(st, fd) {
                Some(f) => f,
                None => {
                    set_errno(eng, st, 9)?;
                    done!(V::I(u64::MAX))
                }
            };
            let file = st.fs.files[f.file].clone();
            if file.dir {
                set_errno(eng, st, 21)?;
                done!(V::I(u64::MAX))
            }
            let p2 = vmin(eng, &f.pos, &file.size);
            let av = vsub(eng, &file.size, &p2);
            let n = vmin(eng, &a[2], &av);
            let n = eng.simp_known(st, n);
            let n = if st.logmode { n } else { V::I(eng.concretize(st, &n)? as u64) };
            let src = vadd(eng, &V::I(obj_addr(file.obj)), &f.pos);
            eng.copy(st, &a[1], &src, &n)?;
            let np = vadd(eng, &f.pos, &n);
            let fs = Rc::make_mut(&mut st.fs);
            if let Some(Some(x)) = fs.fds.get_mut(fd as usize) {
                x.pos = np;
            }
            done!(n)
        }
        Write => {
            let fd = eng.concretize(st, &a[0])? as u64;
            let n = eng.simp_known(st, a[2].clone());
            let n = if st.logmode { n } else { V::I(eng.concretize(st, &n)? as u64) };
            if st.faults > 0 && fd > 2 {
                // 0: complete, 1: interrupted, 2: short write of 1..n-1 bytes
                let mut o = st.clone();
                eng.forks += 1;
                o.faults -= 1;
                Rc::make_mut(&mut o.inputs).push(Inp::Choice("write".into(), 1));
                set_errno(eng, &mut o, 4)?;
                eng.finish_call(&mut o, d, then, V::I(u64::MAX));
                eng.work.push(o);
                let shorts = match n {
                    V::I(x) if !st.logmode || x < 2 => (1..x).map(V::I).collect(),
                    _ => {
                        let e = mkvar(eng, "short", st.inputs.len() + 1, 64, 1, 1 << 30);
                        vec![eng.v(e)]
                    }
                };
                for m in shorts {
                    let mut o = st.clone();
                    o.faults -= 1;
                    let (x, y) = (eng.e(&m, 64), eng.e(&n, 64));
                    let c = eng.ex.cmp(Op::Ult, x, y);
                    match eng.feasible(&mut o, c) {
                        Tri::No => continue,
                        Tri::Yes(w) => eng.add_pc(&mut o, c, w),
                        Tri::Unknown => return Err(Halt::Error("short write not decided".into())),
                    }
                    eng.forks += 1;
                    let i = Rc::make_mut(&mut o.inputs);
                    i.push(Inp::Choice("write".into(), 2));
                    i.push(Inp::U("short".into(), x));
                    let r = do_write(eng, &mut o, fd, &a[1], &m)?;
                    eng.finish_call(&mut o, d, then, r);
                    eng.work.push(o);
                }
                Rc::make_mut(&mut st.inputs).push(Inp::Choice("write".into(), 0));
            }
            let r = do_write(eng, st, fd, &a[1], &n)?;
            done!(r)
        }
        Writev => {
            let fd = eng.concretize(st, &a[0])? as u64;
            let cnt = eng.concretize(st, &a[2])? as u64;
            let mut vecs = vec![];
            for i in 0..cnt {
                let q = eng.padd(&a[1], 16 * i);
                let p = eng.load_scalar(st, &q, 64)?;
                let q = eng.padd(&a[1], 16 * i + 8);
                let n = eng.load_scalar(st, &q, 64)?;
                let n = if st.logmode { n } else { V::I(eng.concretize(st, &n)? as u64) };
                vecs.push((p, n));
            }
            let mut tot = V::I(0);
            for (p, n) in vecs {
                let r = do_write(eng, st, fd, &p, &n)?;
                if k(&r) == u64::MAX {
                    done!(r)
                }
                tot = vadd(eng, &tot, &n);
            }
            done!(tot)
        }
        Fstat => {
            let fd = eng.concretize(st, &a[0])? as u64;
            match fdget(st, fd) {
                Some(f) => {
                    fill_stat(eng, st, &a[1], f.file, false)?;
                    done!(V::I(0))
                }
                None => {
                    set_errno(eng, st, 9)?;
                    done!(s32(-1))
                }
            }
        }
        Stat => {
            let p = eng.cstr(st, &a[0])?;
            match find_file(st, &p) {
                Some(i) => {
                    fill_stat(eng, st, &a[1], i, false)?;
                    done!(V::I(0))
                }
                None => {
                    set_errno(eng, st, 2)?;
                    done!(s32(-1))
                }
            }
        }
        Statx => {
            let p = if k(&a[1]) == 0 { vec![] } else { eng.cstr(st, &a[1])? };
            let idx = if k(&a[1]) == 0 {
                None
            } else if p.is_empty() {
                let fd = eng.concretize(st, &a[0])? as u64;
                fdget(st, fd).map(|f| f.file)
            } else {
                find_file(st, &p)
            };
            match idx {
                Some(i) => {
                    fill_stat(eng, st, &a[4], i, true)?;
                    done!(V::I(0))
                }
                None => {
                    set_errno(eng, st, if k(&a[1]) == 0 { 14 } else { 2 })?;
                    done!(s32(-1))
                }
            }
        }
        Lseek => {
            let fd = eng.concretize(st, &a[0])? as u64;
            let wh = eng.concretize(st, &a[2])? as u64;
            match fdget(st, fd) {
                Some(f) => {
                    let base = match wh {
                        0 => V::I(0),
                        1 => f.pos.clone(),
                        _ => st.fs.files[f.file].size.clone(),
                    };
                    let np = vadd(eng, &base, &a[1]);
                    let fs = Rc::make_mut(&mut st.fs);
                    if let Some(Some(x)) = fs.fds.get_mut(fd as usize) {
                        x.pos = np.clone();
                    }
                    done!(np)
                }
                None => {
                    set_errno(eng, st, 9)?;
                    done!(V::I(u64::MAX))
                }
            }
        }
        Dup2 => {
            let (o, n) = (eng.concretize(st, &a[0])? as usize, eng.concretize(st, &a[1])? as usize);
            let fs = Rc::make_mut(&mut st.fs);
            let f = fs.fds[o].clone();
            while fs.fds.len() <= n {
                fs.fds.push(None);
            }
            fs.fds[n] = f;
            done!(V::I(n as u64))
        }
        Ftruncate => {
            let fd = eng.concretize(st, &a[0])? as u64;
            if let Some(f) = fdget(st, fd) {
                Rc::make_mut(&mut st.fs).files[f.file].size = a[1].clone();
            }
            done!(V::I(0))
        }
        Fsync | Ret0 | Fcntl => done!(V::I(0)),
        RetNeg1 => {
            set_errno(eng, st, 25)?;
            done!(s32(-1))
        }
        Mkdir => {
            let p = norm(&eng.cstr(st, &a[0])?);
            if find_file(st, &p).is_some() {
                set_errno(eng, st, 17)?;
                done!(s32(-1))
            }
            let ad = st.mem.alloc(Obj::new(1, 1, Kind::Heap));
            Rc::make_mut(&mut st.fs).files.push(FileN { path: p, obj: (ad >> 32) as u32, size: V::I(0), dir: true });
            done!(V::I(0))
        }
        Opendir => {
            let mut p = norm(&eng.cstr(st, &a[0])?);
            while p.len() > 1 && p.last() == Some(&b'/') {
                p.pop();
            }
            let here = p == b"." || p.is_empty();
            if !here {
                match find_file(st, &p) {
                    Some(i) if st.fs.files[i].dir => {}
                    Some(_) => {
                        set_errno(eng, st, 20)?;
                        done!(V::I(0))
                    }
                    None => {
                        set_errno(eng, st, 2)?;
                        done!(V::I(0))
                    }
                }
                p.push(b'/');
            } else {
                p.clear();
            }
            // the kind of each entry goes before its name
            let mut names = vec![b"\x04.".to_vec(), b"\x04..".to_vec()];
            for f in &st.fs.files {
                if f.path.len() > p.len() && f.path.starts_with(&p) && !f.path[p.len()..].contains(&b'/') {
                    let mut n = vec![if f.dir { 4 } else { 8 }];
                    n.extend_from_slice(&f.path[p.len()..]);
                    names.push(n);
                }
            }
            let ad = st.mem.alloc(Obj::new(300, 8, Kind::Heap));
            st.dirs.insert(ad, (names, 0, ad));
            done!(V::I(ad))
        }
        Readdir => {
            let d = eng.concretize(st, &a[0])? as u64;
            let Some(x) = st.dirs.get_mut(&d) else { return Err(Halt::Violation("readdir of no directory".into())) };
            let Some(n) = x.0.get(x.1).cloned() else { done!(V::I(0)) };
            x.1 += 1;
            let k = x.1 as u64;
            eng.store_scalar(st, &V::I(d), 64, &V::I(100 + k))?;
            eng.store_scalar(st, &V::I(d + 8), 64, &V::I(k))?;
            eng.store_scalar(st, &V::I(d + 16), 16, &V::I(280))?;
            eng.store_scalar(st, &V::I(d + 18), 8, &V::I(n[0] as u64))?;
            for (i, b) in n[1..].iter().chain(&[0]).enumerate() {
                eng.store_scalar(st, &V::I(d + 19 + i as u64), 8, &V::I(*b as u64))?;
            }
            done!(V::I(d))
        }
        Closedir => {
            let d = eng.concretize(st, &a[0])? as u64;
            if st.dirs.remove(&d).is_none() {
                return Err(Halt::Violation("closedir of no directory".into()));
            }
            done!(V::I(0))
        }
        Getcwd => {
            for (i, b) in b"/w\0".iter().enumerate() {
                let q = eng.padd(&a[0], i as u64);
                eng.store_scalar(st, &q, 8, &V::I(*b as u64))?;
            }
            let v = a[0].clone();
            done!(v)
        }
        Realpath => {
            let p = eng.cstr(st, &a[0])?;
            let mut o = Obj::new(p.len() as u64 + 1, 1, Kind::Heap);
            for (i, b) in p.iter().enumerate() {
                o.set(i as u64, ByteV::C(*b));
            }
            let ad = st.mem.alloc(o);
            done!(V::I(ad))
        }
        Errno => {
            let ad = errno_addr(st);
            done!(V::I(ad))
        }
        ClockGettime => {
            // real time: one fixed reading; monotonic time: the queue, whose last reading repeats
            let real = eng.concretize(st, &a[0])? as u32 == 0;
            let (s, n) = match st.clock_v.get(st.clock_pos) {
                _ if real => st.wall.clone(),
                Some((s, n)) => {
                    st.clock_pos += 1;
                    (s.clone(), n.clone())
                }
                None => st.clock_v.last().cloned().unwrap_or((V::I(1000), V::I(0))),
            };
            eng.store_scalar(st, &a[1], 64, &s)?;
            let q = eng.padd(&a[1], 8);
            eng.store_scalar(st, &q, 64, &n)?;
            done!(V::I(0))
        }
        GetRandom => {
            // a fixed value (hash keys)
            let c = eng.concretize(st, &a[1])? as u64;
            eng.fill(st, &a[0], &V::I(0x5a), &V::I(c))?;
            done!(V::I(c))
        }
        Syscall => {
            let n = eng.concretize(st, &a[0])? as u64;
            match n {
                318 => {
                    // getrandom: a fixed value (hash keys)
                    let c = eng.concretize(st, &a[2])? as u64;
                    eng.fill(st, &a[1], &V::I(0x5a), &V::I(c))?;
                    done!(V::I(c))
                }
                186 => {
                    let t = st.cur as u64 + 1000;
                    done!(V::I(t))
                }
                202 => {
                    let op = eng.concretize(st, &a[2])? as u64 & 0x7f;
                    let p = eng.concretize(st, &a[1])? as u64;
                    let n = eng.concretize(st, &a[3])? as u64 & 0xffff_ffff;
                    match op {
                        1 | 10 => {
                            let mut woken = 0;
                            for t in st.threads.iter_mut() {
                                if woken < n && t.stat == TStat::WaitFutex(p) {
                                    t.stat = TStat::Run;
                                    woken += 1;
                                }
                            }
                            done!(V::I(woken))
                        }
                        0 | 9 => {
                            let v = eng.load_scalar(st, &V::I(p), 32)?;
                            let v = eng.concretize(st, &v)? as u64;
                            if v != n {
                                set_errno(eng, st, 11)?;
                                done!(V::I(u64::MAX))
                            }
                            // (resumes with this call, which then looks at the value again)
                            st.th().stat = TStat::WaitFutex(p);
                            pick(eng, st)
                        }
                        _ => Err(Halt::Error(format!("futex operation {}", op))),
                    }
                }
                298 => {
                    // perf_event_open: the request is written to the file "attr-TYPE-CONFIG", followed by
                    // pid, cpu, group and flags; the page of the counter is the file "perf-TYPE-CONFIG"
                    let word = |eng: &mut Eng, st: &mut State, o: u64, w: u32| -> R<u64> {
                        let p = vadd(eng, &a[1], &V::I(o));
                        let v = eng.load_scalar(st, &p, w)?;
                        Ok(eng.concretize(st, &v)? as u64)
                    };
                    let ty = word(eng, st, 0, 32)?;
                    let size = word(eng, st, 4, 32)?.min(128);
                    let config = word(eng, st, 8, 64)?;
                    let o = Obj::new(1 << 28, 1, Kind::Heap);
                    let ad = st.mem.alloc(o);
                    for k in 0..18 {
                        eng.store_scalar(st, &V::I(ad + 8 * k), 64, &V::I(0))?;
                    }
                    eng.copy(st, &V::I(ad), &a[1], &V::I(size))?;
                    for k in 0..4 {
                        let v = eng.concretize(st, &a[2 + k])? as u64 & 0xffff_ffff;
                        eng.store_scalar(st, &V::I(ad + 128 + 4 * k as u64), 32, &V::I(v))?;
                    }
                    let fs = Rc::make_mut(&mut st.fs);
                    fs.files.push(FileN { path: norm(format!("attr-{}-{:x}", ty, config).as_bytes()), obj: (ad >> 32) as u32, size: V::I(144), dir: false });
                    match find_file(st, &norm(format!("perf-{}-{:x}", ty, config).as_bytes())) {
                        None => {
                            let mut e = 2;
                            if let Some(f) = find_file(st, &norm(b"errno")) {
                                let p = V::I(obj_addr(st.fs.files[f].obj));
                                let v = eng.load_scalar(st, &p, 32)?;
                                e = eng.concretize(st, &v)? as u64;
                            }
                            set_errno(eng, st, e)?;
                            done!(V::I(u64::MAX))
                        }
                        Some(f) => {
                            let fs = Rc::make_mut(&mut st.fs);
                            fs.fds.push(Some(Fd { file: f, pos: V::I(0), append: false }));
                            let i = fs.fds.len() as u64 - 1;
                            done!(V::I(i))
                        }
                    }
                }
                _ => Err(Halt::Error(format!("syscall {}", n))),
            }
        }
        Getenv => done!(V::I(0)),
        Sysconf => done!(V::I(4096)),
        AtexitImpl => done!(V::I(0)),
        KeyCreate => {
            let kx = 1 + st.th().keys.len() as u64 + 100;
            eng.store_scalar(st, &a[0], 32, &V::I(kx))?;
            done!(V::I(0))
        }
        KeySet => {
            let kx = eng.concretize(st, &a[0])? as u64;
            let v = a[1].clone();
            st.th().keys.insert(kx, v);
            done!(V::I(0))
        }
        KeyGet => {
            let kx = eng.concretize(st, &a[0])? as u64;
            let v = st.th().keys.get(&kx).cloned().unwrap_or(V::I(0));
            done!(v)
        }
        PthreadSelf => {
            let v = st.cur as u64 + 1;
            done!(V::I(v))
        }
        Getpid => done!(V::I(4242)),
        StrerrorR => {
            let n = eng.concretize(st, &a[0])? as u32;
            for (i, b) in format!("error {:03}\0", n).bytes().enumerate() {
                let q = eng.padd(&a[1], i as u64);
                eng.store_scalar(st, &q, 8, &V::I(b as u64))?;
            }
            done!(V::I(0))
        }
        PlLock => {
            let p = eng.concretize(st, &a[0])? as u64;
            let v = eng.load_scalar(st, &V::I(p), 8)?;
            let v = k(&v);
            if v & 1 == 0 {
                eng.store_scalar(st, &V::I(p), 8, &V::I(v | 1))?;
                done!(V::I(1))
            }
            st.th().stat = TStat::WaitMutex(p);
            pick(eng, st)
        }
        PlUnlock => {
            eng.store_scalar(st, &a[0], 8, &V::I(0))?;
            done!(V::I(0))
        }
    }
}

pub fn asm(eng: &mut Eng, st: &mut State, s: &str, a: &[V]) -> R<V> {
    let (t, c) = s.split_once('|').unwrap_or((s, ""));
    // the outputs, and for each input its register or the output it is tied to
    let mut outs: Vec<String> = vec![];
    let mut ins: Vec<String> = vec![];
    for x in c.split(',') {
        let x = x.trim();
        if let Some(o) = x.strip_prefix('=') {
            outs.push(o.trim_start_matches('&').to_string());
        } else if !x.starts_with('~') {
            ins.push(match x.parse::<usize>() {
                Ok(k) if k < outs.len() => outs[k].clone(),
                _ => x.to_string(),
            });
        }
    }
    let input = |r: &str| ins.iter().position(|x| x == r).and_then(|k| a.get(k).cloned());
    let cpuid = t.contains("cpuid");
    if cpuid || t.trim() == "rdpmc" {
        // eax, ebx, ecx, edx
        let mut regs = [V::I(0), V::I(0), V::I(0), V::I(0)];
        let one = |v: Option<V>| v.ok_or_else(|| Halt::Error(format!("inline asm {:?} {:?}", t, c)));
        if cpuid {
            let leaf = match input("{ax}").or_else(|| input("{eax}")) {
                Some(v) => eng.concretize(st, &v)? as u64 & 0xffff_ffff,
                None => 0,
            };
            if let Some(x) = st.hw.1.iter().find(|x| x.0 == leaf) {
                regs = x.1.clone();
            }
        } else {
            let v = one(input("{cx}").or_else(|| input("{ecx}")))?;
            let i = eng.concretize(st, &v)? as u64 & 0xffff_ffff;
            let v = match st.hw.0.iter().find(|x| x.0 == i) {
                Some(x) => x.1.clone(),
                None => return Err(Halt::Violation(format!("counter register {} is read but not assigned", i))),
            };
            let e = eng.e(&v, 64);
            let lo = eng.ex.extract(e, 0, 32);
            let hi = eng.ex.extract(e, 32, 32);
            regs[0] = eng.v(lo);
            regs[3] = eng.v(hi);
        }
        let pick = |o: &str| match o {
            "{ax}" | "{eax}" => regs[0].clone(),
            "{cx}" | "{ecx}" => regs[2].clone(),
            "{dx}" | "{edx}" => regs[3].clone(),
            // ebx goes through a register of the compiler's choice
            _ => regs[1].clone(),
        };
        let v: Vec<V> = outs.iter().map(|o| pick(o)).collect();
        return Ok(if v.len() == 1 { v[0].clone() } else { V::A(Rc::new(v)) });
    }
    if t.contains("xadd") && a.len() == 2 {
        // (address, value): the old value is the result
        let (p, x) = if ins.last().map_or(false, |x| x == &outs[0]) { (&a[0], &a[1]) } else { (&a[1], &a[0]) };
        let old = eng.load_scalar(st, p, 64)?;
        let (m, n) = (eng.e(&old, 64), eng.e(x, 64));
        let sum = eng.ex.bin(Op::Add, m, n);
        let sum = eng.v(sum);
        eng.store_scalar(st, p, 64, &sum)?;
        return Ok(old);
    }
    if t.is_empty() || t.trim_start().starts_with("/*") || t.trim_start().starts_with('#') {
        return Ok(a.get(0).cloned().unwrap_or(V::I(0)));
    }
    Err(Halt::Error(format!("inline asm {:?}", t)))
}

// ---------------------------------------------------------------- intrinsics
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IK {
    Nop,
    Memcpy,
    Memset,
    Umin,
    Umax,
    Smin,
    Smax,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddS,
    UsubS,
    SaddS,
    SsubS,
    Ucmp,
    Scmp,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Abs,
    Fabs,
    Frnd(u8),
    First,
    Zero,
    MinusOne,
    Trap,
    Tls,
    Reduce(u8),
    FpToUiSat,
    FpToSiSat,
    Ptrmask,
    Unknown,
}
#[derive(Clone, Copy, Debug)]
pub struct Intr {
    pub k: IK,
    pub w: u32,
    pub lanes: u32,
    pub rw: u32,
}
fn parse_suffix(s: &str) -> Option<(u32, u32)> {
    // i64, v16i8, f64, p0
    if let Some(r) = s.strip_prefix('i') {
        return r.parse().ok().map(|w| (w, 0));
    }
    if let Some(r) = s.strip_prefix('f') {
        return r.parse().ok().map(|w| (w, 0));
    }
    if let Some(r) = s.strip_prefix('v') {
        let p = r.find(|c: char| !c.is_ascii_digit())?;
        let n: u32 = r[..p].parse().ok()?;
        let (w, _) = parse_suffix(&r[p..])?;
        return Some((w, n));
    }
    if s.starts_with('p') {
        return Some((64, 0));
    }
    None
}
fn parse_intr(n: &str) -> Intr {
    let n = n.strip_prefix("llvm.").unwrap_or(n);
    let mut parts: Vec<&str> = n.split('.').collect();
    let mut suff = vec![];
    while parts.len() > 1 {
        if let Some(x) = parse_suffix(parts[parts.len() - 1]) {
            suff.push(x);
            parts.pop();
        } else {
            break;
        }
    }
    let base = parts.join(".");
    let (w, lanes) = suff.last().cloned().unwrap_or((64, 0));
    let w2 = suff.first().cloned().unwrap_or((w, 0)).0;
    let k = match base.as_str() {
        "lifetime.start" | "lifetime.end" | "assume" | "experimental.noalias.scope.decl" | "donothing" | "x86.sse2.pause" | "prefetch" | "va_end" | "va_start" | "invariant.start" | "invariant.end" | "dbg.value" | "dbg.declare" | "sideeffect" => IK::Nop,
        "memcpy" | "memmove" | "memcpy.inline" => IK::Memcpy,
        "memset" | "memset.inline" => IK::Memset,
        "umin" => IK::Umin,
        "umax" => IK::Umax,
        "smin" => IK::Smin,
        "smax" => IK::Smax,
        "uadd.with.overflow" => IK::UaddO,
        "usub.with.overflow" => IK::UsubO,
        "umul.with.overflow" => IK::UmulO,
        "sadd.with.overflow" => IK::SaddO,
        "ssub.with.overflow" => IK::SsubO,
        "smul.with.overflow" => IK::SmulO,
        "uadd.sat" => IK::UaddS,
        "usub.sat" => IK::UsubS,
        "sadd.sat" => IK::SaddS,
        "ssub.sat" => IK::SsubS,
        "ucmp" => IK::Ucmp,
        "scmp" => IK::Scmp,
        "ctpop" => IK::Ctpop,
        "ctlz" => IK::Ctlz,
        "cttz" => IK::Cttz,
        "bswap" => IK::Bswap,
        "bitreverse" => IK::Bitrev,
        "fshl" => IK::Fshl,
        "fshr" => IK::Fshr,
        "abs" => IK::Abs,
        "fabs" => IK::Fabs,
        "round" => IK::Frnd(0),
        "floor" => IK::Frnd(1),
        "ceil" => IK::Frnd(2),
        "trunc" => IK::Frnd(3),
        "rint" | "nearbyint" | "roundeven" => IK::Frnd(4),
        "expect" | "launder.invariant.group" | "strip.invariant.group" | "expect.with.probability" => IK::First,
        "is.constant" | "x86.xgetbv" | "type.test" => IK::Zero,
        "objectsize" => IK::MinusOne,
        "trap" | "ubsantrap" => IK::Trap,
        "threadlocal.address" => IK::Tls,
        "vector.reduce.add" => IK::Reduce(0),
        "vector.reduce.or" => IK::Reduce(1),
        "vector.reduce.and" => IK::Reduce(2),
        "vector.reduce.xor" => IK::Reduce(3),
        "vector.reduce.umax" => IK::Reduce(4),
        "vector.reduce.umin" => IK::Reduce(5),
        "vector.reduce.mul" => IK::Reduce(6),
        "fptoui.sat" => IK::FpToUiSat,
        "fptosi.sat" => IK::FpToSiSat,
        "ptrmask" => IK::Ptrmask,
        _ => IK::Unknown,
    };
    if matches!(k, IK::FpToUiSat | IK::FpToSiSat) {
        return Intr { k, w: w2, lanes, rw: w };
    }
    Intr { k, w, lanes, rw: if matches!(k, IK::Ucmp | IK::Scmp | IK::FpToUiSat | IK::FpToSiSat) { w } else { w2 } }
}

fn rest_intr(eng: &mut Eng, i: Intr, w2: u32, a: &[V]) -> R<V> {
    let w = i.w;
    // concrete fast paths
    match i.k {
        IK::Umin | IK::Umax | IK::Smin | IK::Smax => {
            let p = match i.k {
                IK::Umin => Pred::Ult,
                IK::Umax => Pred::Ugt,
                IK::Smin => Pred::Slt,
                _ => Pred::Sgt,
            };
            return Ok(match eng.icmp(p, w, &a[0], &a[1]) {
                V::I(k) => {
                    if k != 0 {
                        a[0].clone()
                    } else {
                        a[1].clone()
                    }
                }
                V::S(c) => eng.select_w(w, c, &a[0], &a[1]),
                _ => unreachable!(),
            });
        }
        IK::Ucmp | IK::Scmp => {
            let (lt, rw) = (if i.k == IK::Ucmp { Pred::Ult } else { Pred::Slt }, w);
            let c = eng.icmp(lt, w2, &a[0], &a[1]);
            let e = eng.icmp(Pred::Eq, w2, &a[0], &a[1]);
            let (c, e) = (eng.e(&c, 1), eng.e(&e, 1));
            let m1 = eng.ex.cst(mask(rw), rw);
            let z = eng.ex.cst(0, rw);
            let o = eng.ex.cst(1, rw);
            let x = eng.ex.ite(e, z, o);
            let r = eng.ex.ite(c, m1, x);
            return Ok(eng.v(r));
        }
        _ => {}
    }
    let x = if a.is_empty() { return Err(Halt::Error("intrinsic args".into())) } else { eng.e(&a[0], w) };
    let r = match i.k {
        IK::UaddO | IK::UsubO | IK::UmulO | IK::SaddO | IK::SsubO | IK::SmulO => {
            let y = eng.e(&a[1], w);
            let (r, o) = ovf(eng, i.k, w, x, y);
            let (r, o) = (eng.v(r), eng.v(o));
            return Ok(V::A(Rc::new(vec![r, o])));
        }
        IK::UaddS | IK::UsubS => {
            let y = eng.e(&a[1], w);
            let (r, o) = ovf(eng, if i.k == IK::UaddS { IK::UaddO } else { IK::UsubO }, w, x, y);
            let sat = eng.ex.cst(if i.k == IK::UaddS { mask(w) } else { 0 }, w);
            eng.ex.ite(o, sat, r)
        }
        IK::SaddS | IK::SsubS => {
            let y = eng.e(&a[1], w);
            let (r, o) = ovf(eng, if i.k == IK::SaddS { IK::SaddO } else { IK::SsubO }, w, x, y);
            let z = eng.ex.cst(0, w);
            let neg = eng.ex.cmp(Op::Slt, x, z);
            let mn = eng.ex.cst(1u128 << (w - 1), w);
            let mx = eng.ex.cst(mask(w - 1), w);
            let s = eng.ex.ite(neg, mn, mx);
            eng.ex.ite(o, s, r)
        }
        IK::Ctpop => {
            let mut acc = eng.ex.cst(0, w);
            for b in 0..w {
                let t = eng.ex.extract(x, b, 1);
                let t = eng.ex.zext(t, w);
                acc = eng.ex.bin(Op::Add, acc, t);
            }
            acc
        }
        IK::Ctlz => {
            let mut acc = eng.ex.cst(w as u128, w);
            for b in 0..w {
                let t = eng.ex.extract(x, b, 1);
                let kk = eng.ex.cst((w - 1 - b) as u128, w);
                acc = eng.ex.ite(t, kk, acc);
            }
            acc
        }
        IK::Cttz => {
            let mut acc = eng.ex.cst(w as u128, w);
            for b in (0..w).rev() {
                let t = eng.ex.extract(x, b, 1);
                let kk = eng.ex.cst(b as u128, w);
                acc = eng.ex.ite(t, kk, acc);
            }
            acc
        }
        IK::Bswap => {
            let mut parts = vec![];
            for b in (0..w / 8).rev() {
                parts.push(eng.ex.extract(x, b * 8, 8));
            }
            eng.ex.concat_many(&parts)
        }
        IK::Bitrev => {
            let mut parts = vec![];
            for b in (0..w).rev() {
                parts.push(eng.ex.extract(x, b, 1));
            }
            eng.ex.concat_many(&parts)
        }
        IK::Fshl | IK::Fshr => {
            let y = eng.e(&a[1], w);
            let s = match eng.kc(&a[2]) {
                Some(s) => (s % w as u128) as u32,
                None => {
                    // double-width shift
                    let z = eng.e(&a[2], w);
                    let ww = eng.ex.cst(w as u128, w);
                    let z = eng.ex.bin(Op::URem, z, ww);
                    let c = eng.ex.concat(x, y);
                    let z2 = eng.ex.zext(z, 2 * w);
                    if i.k == IK::Fshl {
                        let r = eng.ex.bin(Op::Shl, c, z2);
                        let r = eng.ex.extract(r, w, w);
                        return Ok(eng.v(r));
                    }
                    let r = eng.ex.bin(Op::LShr, c, z2);
                    let r = eng.ex.extract(r, 0, w);
                    return Ok(eng.v(r));
                }
            };
            if i.k == IK::Fshl {
                if s == 0 {
                    x
                } else {
                    let hi = eng.ex.extract(x, 0, w - s);
                    let lo = eng.ex.extract(y, w - s, s);
                    eng.ex.concat(hi, lo)
                }
            } else if s == 0 {
                y
            } else {
                let hi = eng.ex.extract(x, 0, s);
                let lo = eng.ex.extract(y, s, w - s);
                eng.ex.concat(hi, lo)
            }
        }
        IK::Abs => {
            let z = eng.ex.cst(0, w);
            let n = eng.ex.bin(Op::Sub, z, x);
            let c = eng.ex.cmp(Op::Slt, x, z);
            eng.ex.ite(c, n, x)
        }
        IK::Fabs => eng.ex.fop(Op::FAbs, w, x, x),
        IK::Frnd(m) => match eng.ex.as_const(x) {
            Some(k) if w == 64 => {
                let f = f64::from_bits(k as u64);
                let r = [f.round(), f.floor(), f.ceil(), f.trunc(), f.round_ties_even()][m as usize];
                eng.ex.cst(r.to_bits() as u128, w)
            }
            Some(k) => {
                let f = f32::from_bits(k as u32);
                let r = [f.round(), f.floor(), f.ceil(), f.trunc(), f.round_ties_even()][m as usize];
                eng.ex.cst(r.to_bits() as u128, w)
            }
            None => return Err(Halt::Error("rounding of a symbolic float".into())),
        },
        IK::FpToUiSat | IK::FpToSiSat => match eng.ex.as_const(x) {
            // (folding saturates, and takes what is no number for 0)
            Some(_) => eng.ex.fop(if i.k == IK::FpToUiSat { Op::FpToUi } else { Op::FpToSi }, i.rw, x, x),
            None => {
                let signed = i.k == IK::FpToSiSat;
                let rw = i.rw;
                let f = |v: f64| if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
                let two = |n: u32| (2.0f64).powi(n as i32);
                let (lo, hi, min, max) = if signed {
                    (-two(rw - 1), two(rw - 1), 1u128 << (rw - 1), (1u128 << (rw - 1)) - 1)
                } else {
                    (0.0, two(rw), 0, if rw == 128 { u128::MAX } else { (1u128 << rw) - 1 })
                };
                let ex = &mut eng.ex;
                let (lo, hi) = (ex.cst(f(lo), w), ex.cst(f(hi), w));
                let (min, max, zero) = (ex.cst(min, rw), ex.cst(max, rw), ex.cst(0, rw));
                let (below, above, nan) = (ex.fop(Op::FOle, 1, x, lo), ex.fop(Op::FOle, 1, hi, x), ex.fop(Op::FUno, 1, x, x));
                let r = ex.fop(if signed { Op::FpToSi } else { Op::FpToUi }, rw, x, x);
                let r = ex.ite(above, max, r);
                let r = ex.ite(below, min, r);
                ex.ite(nan, zero, r)
            }
        },
        IK::Ptrmask => {
            let y = eng.e(&a[1], w);
            eng.ex.bin(Op::And, x, y)
        }
        o => return Err(Halt::Error(format!("intrinsic {:?}", o))),
    };
    Ok(eng.v(r))
}
fn ovf(eng: &mut Eng, k: IK, w: u32, x: E, y: E) -> (E, E) {
    let ex = &mut eng.ex;
    match k {
        IK::UaddO => {
            let r = ex.bin(Op::Add, x, y);
            let (_, h1) = ex.range(x);
            let (_, h2) = ex.range(y);
            let o = if h1.checked_add(h2).map_or(false, |h| h <= mask(w)) {
                ex.cst(0, 1)
            } else if let Some(c) = ex.as_const(y) {
                let lim = ex.cst(mask(w) - c, w);
                ex.cmp(Op::Ult, lim, x)
            } else if let Some(c) = ex.as_const(x) {
                let lim = ex.cst(mask(w) - c, w);
                ex.cmp(Op::Ult, lim, y)
            } else {
                ex.cmp(Op::Ult, r, x)
            };
            (r, o)
        }
        IK::UsubO => {
            let r = ex.bin(Op::Sub, x, y);
            let o = ex.cmp(Op::Ult, x, y);
            (r, o)
        }
        IK::UmulO => {
            let r = ex.bin(Op::Mul, x, y);
            let (_, h1) = ex.range(x);
            let (_, h2) = ex.range(y);
            let o = if h1.checked_mul(h2).map_or(false, |h| h <= mask(w)) {
                ex.cst(0, 1)
            } else if let (Some(c), true) = (ex.as_const(y), true) {
                let lim = ex.cst(mask(w) / c.max(1), w);
                if c == 0 {
                    ex.cst(0, 1)
                } else {
                    ex.cmp(Op::Ult, lim, x)
                }
            } else if let Some(c) = ex.as_const(x) {
                let lim = ex.cst(mask(w) / c.max(1), w);
                if c == 0 {
                    ex.cst(0, 1)
                } else {
                    ex.cmp(Op::Ult, lim, y)
                }
            } else if w <= 64 {
                let (a, b) = (ex.zext(x, 2 * w), ex.zext(y, 2 * w));
                let p = ex.bin(Op::Mul, a, b);
                let h = ex.extract(p, w, w);
                let z = ex.cst(0, w);
                let q = ex.eq(h, z);
                ex.not1(q)
            } else {
                // 128-bit: exact test by division
                let z = ex.cst(0, w);
                let nz = ex.eq(y, z);
                let q = ex.bin(Op::UDiv, r, y);
                let same = ex.eq(q, x);
                let bad = ex.not1(same);
                let nnz = ex.not1(nz);
                ex.and1(nnz, bad)
            };
            (r, o)
        }
        IK::SaddO | IK::SsubO => {
            let op = if k == IK::SaddO { Op::Add } else { Op::Sub };
            let r = ex.bin(op, x, y);
            if w < 128 {
                let (a, b) = (ex.sext(x, w + 1), ex.sext(y, w + 1));
                let s = ex.bin(op, a, b);
                let rs = ex.sext(r, w + 1);
                let q = ex.eq(s, rs);
                (r, ex.not1(q))
            } else {
                let z = ex.cst(0, w);
                let sx = ex.cmp(Op::Slt, x, z);
                let sy = ex.cmp(Op::Slt, y, z);
                let sr = ex.cmp(Op::Slt, r, z);
                let xy = ex.eq(sx, sy);
                let same = if op == Op::Add { xy } else { ex.not1(xy) };
                let q = ex.eq(sx, sr);
                let diff = ex.not1(q);
                (r, ex.and1(same, diff))
            }
        }
        _ => {
            let r = ex.bin(Op::Mul, x, y);
            if w <= 64 {
                let (a, b) = (ex.sext(x, 2 * w), ex.sext(y, 2 * w));
                let p = ex.bin(Op::Mul, a, b);
                let rs = ex.sext(r, 2 * w);
                let q = ex.eq(p, rs);
                (r, ex.not1(q))
            } else {
                panic!("smul overflow i128")
            }
        }
    }
}

pub fn intrinsic(eng: &mut Eng, st: &mut State, name: &Rc<str>, a: Vec<V>, d: u32, then: Option<u32>, rt: T) -> R<()> {
    let key = name.as_ptr();
    let i = match eng.intr_cache.get(&key) {
        Some(i) => *i,
        None => {
            let i = parse_intr(name);
            eng.intr_cache.insert(key, i);
            i
        }
    };
    let v = match i.k {
        IK::Nop => V::I(0),
        IK::Memcpy => {
            eng.copy(st, &a[0], &a[1], &a[2])?;
            V::I(0)
        }
        IK::Memset => {
            eng.fill(st, &a[0], &a[1], &a[2])?;
            V::I(0)
        }
        IK::First => a[0].clone(),
        IK::Zero => eng.m.zero(rt),
        IK::MinusOne => V::I(u64::MAX),
        IK::Trap => return Err(Halt::Panic("trap".into())),
        IK::Tls => {
            let g = k(&a[0]);
            let id = (g >> 32) as u32;
            match st.th().tls.get(&id) {
                Some(x) => V::I(*x),
                None => {
                    let gi = id - 1 - eng.m.funcs.len() as u32;
                    let b = eng.m.global_bytes(gi);
                    let mut o = Obj::new(b.len() as u64, eng.m.globals[gi as usize].align, Kind::Tls);
                    o.data = Data::B(b, Default::default());
                    let ad = st.mem.alloc(o);
                    st.th().tls.insert(id, ad);
                    V::I(ad)
                }
            }
        }
        IK::Reduce(op) => {
            let x = agg(&a[0]);
            let w = i.w;
            let mut acc = x[0].clone();
            for y in x.iter().skip(1) {
                acc = match op {
                    0 => eng.bin(Bop::Add, w, &acc, y)?,
                    1 => eng.bin(Bop::Or, w, &acc, y)?,
                    2 => eng.bin(Bop::And, w, &acc, y)?,
                    3 => eng.bin(Bop::Xor, w, &acc, y)?,
                    6 => eng.bin(Bop::Mul, w, &acc, y)?,
                    o => {
                        let kk = if o == 4 { IK::Umax } else { IK::Umin };
                        rest_intr(eng, Intr { k: kk, w, lanes: 0, rw: w }, w, &[acc, y.clone()])?
                    }
                };
            }
            acc
        }
        IK::Unknown => return Err(Halt::Error(format!("intrinsic {}", name))),
        _ => {
            // width of the operands (second suffix) for ucmp/scmp
            let w2 = match i.k {
                IK::Ucmp | IK::Scmp => name.rsplit('.').next().and_then(parse_suffix).map(|x| x.0).unwrap_or(64),
                _ => i.w,
            };
            if i.lanes > 0 {
                let n = i.lanes as usize;
                let cols: Vec<Vec<V>> = (0..n)
                    .map(|l| {
                        a.iter()
                            .map(|v| match v {
                                V::A(x) => x[l].clone(),
                                o => o.clone(),
                            })
                            .collect()
                    })
                    .collect();
                let mut o = vec![];
                for c in cols {
                    o.push(rest_intr(eng, i, w2, &c)?);
                }
                // vector overflow intrinsics return a pair of vectors
                if matches!(i.k, IK::UaddO | IK::UsubO | IK::UmulO | IK::SaddO | IK::SsubO | IK::SmulO) {
                    let r: Vec<V> = o.iter().map(|p| agg(p)[0].clone()).collect();
                    let f: Vec<V> = o.iter().map(|p| agg(p)[1].clone()).collect();
                    V::A(Rc::new(vec![V::A(Rc::new(r)), V::A(Rc::new(f))]))
                } else {
                    V::A(Rc::new(o))
                }
            } else if st.logmode && i.w == 64 && matches!(i.k, IK::Umin | IK::Umax) {
                let c = eng.icmp(if i.k == IK::Umin { Pred::Ult } else { Pred::Ugt }, 64, &a[0], &a[1]);
                let k = match eng.simp_known(st, c) {
                    V::I(k) => k != 0,
                    V::S(e) => eng.branch_retry(st, e)?,
                    _ => unreachable!(),
                };
                a[1 - k as usize].clone()
            } else {
                rest_intr(eng, i, w2, &a)?
            }
        }
    };
    eng.finish_call(st, d, then, v);
    Ok(())
}
