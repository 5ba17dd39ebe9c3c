//! C29: hardware counters. The processor (`cpuid`, `rdpmc`) and the kernel
//! (`perf_event_open`, the page it shares) are inputs.
use analyzeme::ProfilingData;
use measureme::counters::Counter;
use measureme::{EventId, Profiler, RawEvent};
use std::path::Path;

const WALL: &str = "wall-time";
const INSTR: &str = "instructions:u";
const IRQS: &str = "instructions-minus-irqs:u";
const R0420: &str = "instructions-minus-r0420:u";

/// Leaf 0 and leaf 1 of cpuid.
fn cpu(vendor: &[u8; 12], version: u32) {
    let w = |k: usize| u32::from_le_bytes([vendor[k], vendor[k + 1], vendor[k + 2], vendor[k + 3]]);
    sym::cpuid(0, [0, w(0), w(8), w(4)]);
    sym::cpuid(1, [version, 0, 0, 0]);
}
/// The version word of a family and a model.
fn version(family: u32, model: u32) -> u32 {
    let (f, x) = if family < 15 { (family, 0) } else { (15, family - 15) };
    x << 20 | (model >> 4) << 16 | f << 8 | (model & 15) << 4
}
struct Page {
    lock: u32,
    index: u32,
    caps: u64,
    width: u16,
}
const GOOD: Page = Page { lock: 2, index: 1, caps: 0b11110, width: 48 };

/// The page the kernel shares for the counter of this type and configuration.
fn page(ty: u32, config: u64, p: &Page) {
    let mut b = vec![0u8; 4096];
    b[8..12].copy_from_slice(&p.lock.to_le_bytes());
    b[12..16].copy_from_slice(&p.index.to_le_bytes());
    // an offset that holds only together with the time the counter was active
    b[16..24].copy_from_slice(&77u64.to_le_bytes());
    b[40..48].copy_from_slice(&p.caps.to_le_bytes());
    b[48..50].copy_from_slice(&p.width.to_le_bytes());
    std::fs::write(format!("perf-{}-{:x}", ty, config), b).unwrap();
}
/// What was asked of the kernel for the counter of this type and configuration.
fn asked(ty: u32, config: u64) -> bool {
    let Ok(b) = std::fs::read(format!("attr-{}-{:x}", ty, config)) else { return false };
    sym::check(b.len() == 144, "model: a request");
    let flags = u64::from_le_bytes(b[40..48].try_into().unwrap());
    sym::check(flags >> 5 & 1 == 1 && flags >> 6 & 1 == 1, "only user space is counted");
    sym::check(flags & 1 == 0, "the counter is enabled from the start");
    sym::check(flags >> 4 & 1 == 0, "user space is counted");
    sym::check(b[16..24] == [0; 8], "counting, not sampling");
    sym::check(b[128..132] == [0; 4] && b[132..136] == [255; 4], "the calling thread is counted, on every CPU");
    true
}

fn other_name() -> String {
    let known = [WALL, INSTR, IRQS, R0420];
    match sym::choice("form", 4) {
        0 => ["", "wall", "wall-time:u", "WALL-TIME", "instructions", "instructions:k", "instructions-minus-irqs", "instructions-minus-r0420", "cycles:u", " wall-time"][sym::choice("name", 10)].to_string(),
        1 => {
            // one character of a known name replaced
            let n = known[sym::choice("known", 4)];
            let k = sym::choice("at", n.len());
            let c = sym::any_u8("character");
            let mut b = n.as_bytes().to_vec();
            sym::assume(c < 128 && c != b[k]);
            b[k] = c;
            String::from_utf8(b).unwrap()
        }
        2 => {
            // a known name followed by something
            let n = known[sym::choice("known", 4)];
            let c = sym::any_u8("character");
            sym::assume(c < 128);
            let mut b = n.as_bytes().to_vec();
            b.push(c);
            String::from_utf8(b).unwrap()
        }
        _ => {
            // the beginning of a known name
            let n = known[sym::choice("known", 4)];
            n[..sym::choice("length", n.len())].to_string()
        }
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Cpu {
    Refused,
    NoIrqs,
    Config(u64),
}
/// The documented table of processors.
fn supported(amd: bool, eax: u32) -> Cpu {
    let base = eax >> 8 & 15;
    let family = if base == 15 { 15 + (eax >> 20 & 255) } else { base };
    let low = eax >> 4 & 15;
    let model = if family >= 15 || (!amd && family == 6) { low | (eax >> 16 & 15) << 4 } else { low };
    if amd {
        // no x86_64 before K8; family 19 was never made; Zen starts at 23
        if family < 15 || family == 19 {
            Cpu::Refused
        } else if family < 23 {
            Cpu::Config(0xcf)
        } else {
            Cpu::Config(0x2c)
        }
    } else {
        // before Sandy Bridge (42), Atoms up to Airmont and the Xeon Phi
        let old = [44, 46, 47, 53, 54, 55, 74, 76, 77, 87, 90, 93, 133];
        let mut is_old = model < 42;
        for m in old {
            is_old |= model == m;
        }
        if family < 6 || family == 15 || (family == 6 && is_old) {
            Cpu::NoIrqs
        } else {
            Cpu::Config(0x1cb)
        }
    }
}

const M48: u64 = (1 << 48) - 1;
/// What a 48-bit register holds as a signed number.
fn signed(v: u64) -> i64 {
    let v = v as i64 & M48 as i64;
    if v >= 1 << 47 {
        v - (1 << 48)
    } else {
        v
    }
}
/// The counters of `name` on the processor, in these registers: (plus, minus).
fn counters(k: usize, regs: &[(u32, u32); 4]) -> (u32, u32) {
    let amd = sym::choice("vendor", 2) == 0;
    let irqs = if amd { 0x2c } else { 0x1cb };
    if amd {
        cpu(b"AuthenticAMD", version(23, 1));
    } else {
        cpu(b"GenuineIntel", version(6, 60));
    }
    let (a, b) = regs[sym::choice("registers", regs.len())];
    page(0, 1, &Page { index: a + 1, ..GOOD });
    page(4, [0, irqs, 0x420][k], &Page { index: b + 1, ..GOOD });
    (a, b)
}
const REGS: [(u32, u32); 4] = [(0, 1), (1, 0), (0x4000_0000, 2), (3, 0x4000_0001)];

/// The events in the file.
fn events() -> Vec<RawEvent> {
    let raw = std::fs::read("out.mm_profdata").unwrap();
    let mut i = 8;
    let mut v = vec![];
    while i < raw.len() {
        let tag = raw[i];
        let len = u32::from_le_bytes(raw[i + 1..i + 5].try_into().unwrap()) as usize;
        let page = &raw[i + 5..i + 5 + len];
        if tag == 0 {
            // after the header of the stream, in the first page
            v.extend_from_slice(&page[if v.is_empty() { len % 32 } else { 0 }..]);
        }
        i += 5 + len;
    }
    v.chunks(32).map(RawEvent::deserialize).collect()
}

sym::harnesses! {
    /// A name that is not in the list is refused, whatever the processor offers.
    fn h_c29_names() {
        cpu(b"GenuineIntel", version(6, 94));
        page(0, 1, &GOOD);
        page(4, 0x1cb, &GOOD);
        page(4, 0x420, &GOOD);
        sym::rdpmc(0, 5);
        let n = other_name();
        sym::check(Counter::by_name(&n).is_err(), "an unknown name is refused");
        sym::reach("names");
    }
    /// The profile says which counter it was recorded with.
    fn h_c29_metadata() {
        let (vendor, v) = [(b"AuthenticAMD", version(23, 49)), (b"GenuineIntel", version(6, 142))][sym::choice("vendor", 2)];
        cpu(vendor, v);
        page(0, 1, &GOOD);
        page(4, 0x1cb, &GOOD);
        page(4, 0x2c, &GOOD);
        page(4, 0x420, &GOOD);
        sym::rdpmc(0, 5);
        let k = sym::choice("counter", 4);
        let name = [WALL, INSTR, IRQS, R0420][k];
        let Ok(c) = Counter::by_name(name) else {
            sym::check(false, "the counter is created");
            return;
        };
        sym::check(
            matches!((k, &c), (0, Counter::WallTime(_)) | (1, Counter::Instructions(_)) | (2, Counter::InstructionsMinusIrqs(_)) | (3, Counter::InstructionsMinusRaw0420(_))),
            "the counter that was asked for",
        );
        let Ok(p) = Profiler::with_counter(Path::new("out"), c) else {
            sym::check(false, "the profiler is created");
            return;
        };
        drop(p);
        let b: Vec<u8> = std::fs::read("out.mm_profdata").unwrap().into_iter().filter(|c| *c != b' ').collect();
        let has = |t: String| b.windows(t.len()).any(|w| w == t.as_bytes());
        sym::check(has(format!("\"counter\":{{\"name\":\"{}\"", name)), "the profile names its counter");
        sym::check(has("\"units\":[[\"instructions\",1]]".into()) == (k > 0), "instructions are counted in instructions");
        sym::check(has("\"units\":[[\"ns\",1]".into()) == (k == 0), "time is counted in nanoseconds");
        sym::check(ProfilingData::new(Path::new("out")).is_ok(), "the profile opens");
        sym::reach("metadata");
    }
    /// Every version word of every processor of the two vendors.
    fn h_c29_detect() {
        let amd = sym::choice("vendor", 2) == 0;
        let eax = sym::any_u32("version");
        cpu(if amd { b"AuthenticAMD" } else { b"GenuineIntel" }, eax);
        page(0, 1, &GOOD);
        for c in [0xcf, 0x2c, 0x1cb, 0x420, 0x825] {
            page(4, c, &GOOD);
        }
        sym::rdpmc(0, 5);
        let want = supported(amd, eax);
        let k = sym::choice("counter", 3);
        let r = Counter::by_name([INSTR, IRQS, R0420][k]).is_ok();
        match k {
            1 => {
                sym::check(r == matches!(want, Cpu::Config(_)), "created exactly on the processors that can count interrupts");
                for c in [0xcf, 0x2c, 0x1cb] {
                    let n = asked(4, c);
                    if r {
                        sym::check(n == (want == Cpu::Config(c)), "the counter of interrupts of this processor");
                    }
                }
            }
            _ => {
                sym::check(r == (want != Cpu::Refused), "created exactly on the processors of the table");
                if r {
                    sym::check(asked(4, 0x420) == (k == 2), "r0420");
                }
            }
        }
        if r {
            sym::check(asked(0, 1), "instructions");
            sym::reach("created");
        }
        asked(4, 0x825);
    }
    /// Other vendors are refused.
    fn h_c29_vendor() {
        let mut v = *[b"AuthenticAMD", b"GenuineIntel"][sym::choice("like", 2)];
        let k = sym::choice("at", 12);
        let c = sym::any_u8("byte");
        sym::assume(c != v[k]);
        v[k] = c;
        cpu(&v, sym::any_u32("version"));
        page(0, 1, &GOOD);
        for c in [0xcf, 0x2c, 0x1cb, 0x420, 0x825] {
            page(4, c, &GOOD);
        }
        sym::rdpmc(0, 5);
        let n = [WALL, INSTR, IRQS, R0420][sym::choice("counter", 4)];
        sym::check(Counter::by_name(n).is_ok() == (n == WALL), "only known vendors are counted on; time is always there");
        sym::reach("vendor");
    }
    /// The kernel's answer: a counter only when it can be read from user space.
    fn h_c29_refused() {
        let amd = sym::choice("vendor", 2) == 0;
        let irqs = if amd { 0x2c } else { 0x1cb };
        if amd {
            cpu(b"AuthenticAMD", version(23, 113))
        } else {
            cpu(b"GenuineIntel", version(6, 158))
        }
        let k = sym::choice("counter", 3);
        let name = [INSTR, IRQS, R0420][k];
        let files: &[(u32, u64)] = &[(0, 1), (4, [0, irqs, 0x420][k])][..if k == 0 { 1 } else { 2 }];
        // which of the counters is not as it should be
        let bad = sym::choice("bad", files.len());
        let present = sym::any_bool("present");
        let p = Page {
            lock: 0,
            index: [0, 1, 4, 0x4000_0001][sym::choice("index", 4)],
            caps: sym::any_u64("caps"),
            width: sym::range("width", 0, 65535) as u16,
        };
        for (i, f) in files.iter().enumerate() {
            if i != bad {
                page(f.0, f.1, &GOOD);
            } else if present {
                page(f.0, f.1, &p);
            }
        }
        let errno = [1u32, 2, 13, 19, 22, 24][sym::choice("errno", 6)];
        std::fs::write("errno", errno.to_le_bytes()).unwrap();
        if amd && sym::any_bool("spec") {
            page(4, 0x825, &GOOD);
        }
        for r in [0, 3, 0x4000_0000] {
            sym::rdpmc(r, 9);
        }
        let r = Counter::by_name(name);
        let good = present && p.caps >> 2 & 1 == 1 && p.index != 0 && p.width == 48;
        sym::check(r.is_ok() == good, "created exactly when the kernel lets user space read the counter");
        if let Err(e) = r {
            if !present {
                let t = e.to_string();
                let want = std::io::Error::from_raw_os_error(errno as i32).to_string();
                let want = &want[..want.find(" (os error").unwrap_or(want.len())];
                sym::check(t.contains(want), "the error says why the kernel refused");
                sym::reach("refused by the kernel");
            }
            sym::reach("refused");
        } else {
            sym::reach("created");
        }
    }
    /// Any contents of the registers: what is counted is the number of
    /// instructions since the counter was created, minus the interrupts.
    fn h_c29_read() {
        let k = sym::choice("counter", 3);
        let (a, b) = counters(k, &REGS);
        // (start, instructions and interrupts since)
        let i0 = sym::range("instructions", 0, M48);
        let q0 = if k == 0 {
            0
        } else if sym::deep() {
            sym::range("interrupts", 0, M48)
        } else {
            [0, 12_345, M48, M48 - 998, 1 << 47, (1 << 47) + 77][sym::choice("interrupts", 6)]
        };
        let max = 0x0000_FFFF_FFFF_FFFD;
        let di = sym::range("more instructions", 0, max);
        let dq = if k == 0 { 0 } else { sym::range("more interrupts", 0, if sym::deep() { max } else { 0xffff }) };
        sym::assume(di >= dq);
        // a counter starts below zero and does not pass its top
        sym::assume(signed(i0) + (di as i64) < 1 << 47 && signed(q0) + (dq as i64) < 1 << 47);
        sym::rdpmc(a, i0);
        if k > 0 {
            sym::rdpmc(b, q0);
        }
        let Ok(c) = Counter::by_name([INSTR, IRQS, R0420][k]) else {
            sym::check(false, "the counter is created");
            return;
        };
        sym::rdpmc(a, (i0 + di) & M48);
        if k > 0 {
            sym::rdpmc(b, (q0 + dq) & M48);
        }
        let Ok(p) = Profiler::with_counter(Path::new("out"), c) else {
            sym::check(false, "the profiler is created");
            return;
        };
        let s = p.alloc_string("K");
        let timing = p.start_recording_interval_event(s, EventId::from_label(s), 7);
        drop(timing);
        drop(p);
        let e = events();
        sym::check(e.len() == 1 && e[0].start_value() == di - dq, "the beginning of the interval");
        sym::check(e[0].end_value() == di - dq, "the end of the interval");
        sym::reach("read");
    }
    /// Events carry the number of instructions at their beginning and end.
    fn h_c29_events() {
        let k = sym::choice("counter", 3);
        let (a, b) = counters(k, &REGS);
        let (start, q0) = [(0, 0), (123_456_789, 17)][sym::choice("start", 2)];
        // the count at each step, and the interrupts so far
        let irqs = if k == 0 { [0; 4] } else { [[0; 4], [0, 3, 3, 9]][sym::choice("interrupts", 2)] };
        let mut at = [0; 4];
        for i in 0..4 {
            at[i] = sym::range(["n0", "n1", "n2", "n3"][i], 0, 0xffff_ffff);
            sym::assume(i == 0 || at[i - 1] <= at[i]);
        }
        sym::rdpmc(a, start);
        sym::rdpmc(b, q0);
        let Ok(c) = Counter::by_name([INSTR, IRQS, R0420][k]) else {
            sym::check(false, "the counter is created");
            return;
        };
        let step = |i: usize| {
            sym::rdpmc(a, start + at[i] + irqs[i]);
            sym::rdpmc(b, q0 + irqs[i]);
        };
        let Ok(p) = Profiler::with_counter(Path::new("out"), c) else {
            sym::check(false, "the profiler is created");
            return;
        };
        let s = p.alloc_string("K");
        let id = EventId::from_label(s);
        step(0);
        let outer = p.start_recording_interval_event(s, id, 7);
        step(1);
        p.record_instant_event(s, id, 7);
        step(2);
        let inner = p.start_recording_interval_event_detached(s, id, 8);
        step(3);
        p.finish_recording_interval_event(inner);
        drop(outer);
        drop(p);
        let e = events();
        sym::check(e.len() == 3, "three events");
        sym::check(e[0].is_instant() && e[0].start_value() == at[1], "count of the instant");
        let interval = |e: &RawEvent, x: u64, y: u64| !e.is_instant() && e.start_value() == x && e.end_value() == y;
        sym::check(interval(&e[1], at[2], at[3]), "counts of the inner interval");
        sym::check(interval(&e[2], at[0], at[3]), "counts of the outer interval");
        sym::reach("events");
    }
}
