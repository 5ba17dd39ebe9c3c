//! Harness interface. Under the symbolic executor these calls create symbolic
//! inputs and discharge assertions; natively they replay recorded inputs.
mod ffi {
    extern "C" {
        pub fn symir_u64(n: *const u8, l: usize, lo: u64, hi: u64) -> u64;
        pub fn symir_bytes(n: *const u8, l: usize, p: *mut u8, c: usize);
        pub fn symir_choice(n: *const u8, l: usize, c: u64) -> u64;
        pub fn symir_assume(c: u8);
        pub fn symir_check(c: u8, n: *const u8, l: usize);
        pub fn symir_reach(n: *const u8, l: usize);
        pub fn symir_concrete(v: u64) -> u64;
        pub fn symir_panic_iff(c: u8);
        pub fn symir_panic_if(c: u8);
        pub fn symir_no_panic();
        pub fn symir_panicked(n: *const u8, l: usize);
        pub fn symir_source(n: *const u8, l: usize, c: u64) -> *mut u8;
        pub fn symir_logmode(on: u8);
        pub fn symir_trace(v: u64);
        pub fn symir_engine() -> u8;
        pub fn symir_deep() -> u8;
        pub fn symir_args(c: u64, v: *const *const u8);
        pub fn symir_note(n: *const u8, l: usize, v: u64);
        pub fn symir_spawn(f: extern "C" fn(u64) -> u64, a: u64) -> u64;
        pub fn symir_join(h: u64) -> u64;
        pub fn symir_sched(on: u8);
        pub fn symir_rewind();
        pub fn symir_clock(s: u64, n: u64);
        pub fn symir_wall(s: u64, n: u64);
        pub fn symir_faults(n: u64);
        pub fn symir_rdpmc(i: u64, v: u64);
        pub fn symir_cpuid(leaf: u64, a: u64, b: u64, c: u64, d: u64);
        pub fn symir_stdout(n: *const u8, l: usize);
    }
}
use ffi::*;

/// Any value in lo..=hi.
pub fn range(name: &str, lo: u64, hi: u64) -> u64 {
    unsafe { symir_u64(name.as_ptr(), name.len(), lo, hi) }
}
pub fn any_u64(name: &str) -> u64 {
    range(name, 0, u64::MAX)
}
pub fn any_u32(name: &str) -> u32 {
    range(name, 0, u32::MAX as u64) as u32
}
pub fn any_u8(name: &str) -> u8 {
    range(name, 0, 255) as u8
}
pub fn any_bool(name: &str) -> bool {
    range(name, 0, 1) != 0
}
pub fn bytes(name: &str, buf: &mut [u8]) {
    unsafe { symir_bytes(name.as_ptr(), name.len(), buf.as_mut_ptr(), buf.len()) }
}
pub fn any_bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    bytes(name, &mut v);
    v
}
/// 0..n, explored value by value.
pub fn choice(name: &str, n: usize) -> usize {
    unsafe { symir_choice(name.as_ptr(), name.len(), n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { symir_assume(c as u8) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { symir_check(c as u8, msg.as_ptr(), msg.len()) }
}
/// Vacuity guard: the driver demands that every label was reached.
pub fn reach(msg: &str) {
    unsafe { symir_reach(msg.as_ptr(), msg.len()) }
}
/// Enumerates the feasible values.
pub fn concrete(v: u64) -> u64 {
    unsafe { symir_concrete(v) }
}
/// From here on a panic is required exactly when `c` holds.
pub fn panic_iff(c: bool) {
    unsafe { symir_panic_iff(c as u8) }
}
/// From here on a panic is acceptable when `c` holds.
pub fn panic_if(c: bool) {
    unsafe { symir_panic_if(c as u8) }
}
/// End of a `panic_iff`/`panic_if` region.
pub fn no_panic() {
    unsafe { symir_no_panic() }
}
pub fn logmode(on: bool) {
    unsafe { symir_logmode(on as u8) }
}
/// `n` arbitrary bytes; `n` may be symbolic in log mode.
pub fn source(name: &str, n: usize) -> &'static mut [u8] {
    unsafe {
        let p = symir_source(name.as_ptr(), name.len(), n as u64);
        std::slice::from_raw_parts_mut(p, n)
    }
}
pub fn trace(v: u64) {
    unsafe { symir_trace(v) }
}
pub fn engine() -> bool {
    unsafe { symir_engine() != 0 }
}
/// Wider bounds requested (thorough tier).
pub fn deep() -> bool {
    unsafe { symir_deep() != 0 }
}
pub fn note(name: &str, v: u64) {
    unsafe { symir_note(name.as_ptr(), name.len(), v) }
}
pub fn spawn(f: extern "C" fn(u64) -> u64, a: u64) -> u64 {
    unsafe { symir_spawn(f, a) }
}
pub fn join(h: u64) -> u64 {
    unsafe { symir_join(h) }
}
pub fn sched(on: bool) {
    unsafe { symir_sched(on as u8) }
}
/// The real-time clock.
pub fn wall(s: u64, n: u64) {
    unsafe { symir_wall(s, n) }
}
/// Queues a reading of the monotonic clock; the last one repeats.
pub fn clock(s: u64, n: u64) {
    unsafe { symir_clock(s, n) }
}
/// Forgets the readings that were not taken.
pub fn clock_clear() {
    unsafe { symir_clock(u64::MAX, 0) }
}
pub fn faults(n: u64) {
    unsafe { symir_faults(n) }
}
/// What the counter register holds from now on.
pub fn rdpmc(index: u32, value: u64) {
    unsafe { symir_rdpmc(index as u64, value) }
}
/// The answer of the processor to `cpuid`: eax, ebx, ecx, edx.
pub fn cpuid(leaf: u32, r: [u32; 4]) {
    unsafe { symir_cpuid(leaf as u64, r[0] as u64, r[1] as u64, r[2] as u64, r[3] as u64) }
}
/// Redirect standard output into a file of the current directory.
pub fn stdout_to(path: &str) {
    unsafe { symir_stdout(path.as_ptr(), path.len()) }
}
/// Command line of the program under test.
pub fn args(a: &[&str]) {
    let own: Vec<Vec<u8>> = a
        .iter()
        .map(|s| {
            let mut v = s.as_bytes().to_vec();
            v.push(0);
            v
        })
        .collect();
    args_bytes(own)
}
pub fn args_bytes(own: Vec<Vec<u8>>) {
    let mut p: Vec<*const u8> = own.iter().map(|v| v.as_ptr()).collect();
    p.push(std::ptr::null());
    unsafe { symir_args(own.len() as u64, p.as_ptr()) }
    std::mem::forget(own);
    std::mem::forget(p);
}

pub type Table = &'static [(&'static str, extern "C" fn())];
/// Native entry point: run the harness named by SYMIR_HARNESS.
pub fn run(t: &[(&'static str, extern "C" fn())]) {
    let want = std::env::var("SYMIR_HARNESS").unwrap_or_default();
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i).replace('\n', " ");
        unsafe { symir_panicked(m.as_ptr(), m.len()) }
    }));
    for (n, f) in t {
        if *n == want {
            let reps: u64 = std::env::var("SYMIR_REPEAT").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            for _ in 0..reps {
                f();
                unsafe { symir_rewind() }
            }
            eprintln!("COMPLETED");
            std::process::exit(0);
        }
    }
    for (n, _) in t {
        println!("{}", n);
    }
    std::process::exit(if want.is_empty() { 0 } else { 66 });
}

/// Defines the harness functions and a `fn table()` for the native entry point.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $(#[no_mangle] #[inline(never)] $(#[$m])* pub extern "C" fn $n() $b)*
        pub static TABLE: sym::Table = &[$((stringify!($n), $n)),*];
    };
}
