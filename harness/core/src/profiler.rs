//! C25: sessions. C26: interrupted and short writes. C24: threads.
use analyzeme::{Event, EventPayload, ProfilingData, Timestamp};
use measureme::{DetachedTiming, EventId, EventIdBuilder, PageTag, Profiler, SerializationSinkBuilder, StringId, TimingGuard};
use std::path::Path;
use std::time::{Duration, SystemTime};

fn open(p: &str) -> ProfilingData {
    match ProfilingData::new(Path::new(p)) {
        Ok(d) => d,
        Err(_) => {
            sym::check(false, "a finished profile opens");
            loop {}
        }
    }
}
fn wall() -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::new(1_600_000_000, 5)
}
/// What was asked of the profiler.
struct Want {
    kind: usize,
    id: usize,
    thread: u32,
    what: What,
}
enum What {
    Interval(Duration, Duration),
    Instant(Duration),
    Integer(u64),
}
const KINDS: [&str; 2] = ["Kind", "Other"];
const IDS: [(&str, &str); 3] = [("one", ""), ("two", "arg"), ("three", "")];

fn verify(d: &ProfilingData, want: &[Want]) {
    sym::check(d.num_events() == want.len(), "one event for each that was recorded");
    for (k, w) in want.iter().enumerate() {
        let e: Event = d.iter_full().nth(k).unwrap();
        sym::check(e.event_kind == KINDS[w.kind], "kind, in completion order");
        sym::check(e.label == IDS[w.id].0, "label, in completion order");
        let args = if IDS[w.id].1.is_empty() { 0 } else { 1 };
        sym::check(e.additional_data.len() == args && (args == 0 || e.additional_data[0] == IDS[w.id].1), "arguments");
        sym::check(e.thread_id == w.thread, "thread, in completion order");
        match (&w.what, e.payload) {
            (What::Interval(s, t), EventPayload::Timestamp(Timestamp::Interval { start, end })) => {
                sym::check(start == wall() + *s, "start of the interval");
                sym::check(end == wall() + *t, "end of the interval");
            }
            (What::Instant(s), EventPayload::Timestamp(Timestamp::Instant(t))) => sym::check(t == wall() + *s, "time of the instant"),
            (What::Integer(v), EventPayload::Integer(x)) => sym::check(x == *v, "integer value"),
            _ => sym::check(false, "form of the event"),
        }
    }
}
/// `n` steps of any kind with the clock given by `next`.
fn session(n: usize, next: &mut dyn FnMut() -> Duration) {
    let p = Profiler::new("out").unwrap();
    let kinds: Vec<StringId> = KINDS.iter().map(|k| p.alloc_string(*k)).collect();
    let b = EventIdBuilder::new(&p);
    let ids: Vec<EventId> = IDS
        .iter()
        .map(|(l, a)| {
            let l = p.alloc_string(*l);
            if a.is_empty() {
                b.from_label(l)
            } else {
                b.from_label_and_arg(l, p.alloc_string(*a))
            }
        })
        .collect();
    let mut want: Vec<Want> = vec![];
    let mut guards: Vec<(TimingGuard, usize, usize, u32, Duration)> = vec![];
    let mut detached: Option<(DetachedTiming, usize, usize, u32, Duration)> = None;
    for s in 0..n {
        let thread = sym::any_u32(&format!("thread{}", s));
        let (kind, id) = (s % 2, s % 3);
        match sym::choice(&format!("step{}", s), 8) {
            0 => {
                let t = next();
                p.record_instant_event(kinds[kind], ids[id], thread);
                want.push(Want { kind, id, thread, what: What::Instant(t) });
            }
            1 => {
                let v = sym::range(&format!("value{}", s), 0, (1 << 48) - 1);
                p.record_integer_event(kinds[kind], ids[id], thread, v);
                want.push(Want { kind, id, thread, what: What::Integer(v) });
            }
            2 => {
                let t = next();
                guards.push((p.start_recording_interval_event(kinds[kind], ids[id], thread), kind, id, thread, t));
            }
            3 => {
                // innermost
                if let Some((g, kind, id, thread, from)) = guards.pop() {
                    let t = next();
                    drop(g);
                    want.push(Want { kind, id, thread, what: What::Interval(from, t) });
                }
            }
            4 => {
                // outermost
                if guards.len() > 1 {
                    let (g, kind, id, thread, from) = guards.remove(0);
                    let t = next();
                    drop(g);
                    want.push(Want { kind, id, thread, what: What::Interval(from, t) });
                }
            }
            5 => {
                if let Some((g, kind, id, thread, from)) = guards.pop() {
                    let t = next();
                    let id = (id + 1) % 3;
                    g.finish_with_override_event_id(ids[id]);
                    want.push(Want { kind, id, thread, what: What::Interval(from, t) });
                }
            }
            6 => {
                if detached.is_none() {
                    let t = next();
                    detached = Some((p.start_recording_interval_event_detached(kinds[kind], ids[id], thread), kind, id, thread, t));
                }
            }
            _ => {
                if let Some((g, kind, id, thread, from)) = detached.take() {
                    let t = next();
                    p.finish_recording_interval_event(g);
                    want.push(Want { kind, id, thread, what: What::Interval(from, t) });
                }
            }
        }
    }
    while let Some((g, kind, id, thread, from)) = guards.pop() {
        let t = next();
        drop(g);
        want.push(Want { kind, id, thread, what: What::Interval(from, t) });
    }
    drop(guards);
    drop(p);
    verify(&open("out"), &want);
}

sym::harnesses! {
    fn h_c25_session() {
        // steps of any kind, any non-decreasing clock within a second
        let n = if sym::deep() { 6 } else { 5 };
        let mut k = 0;
        let mut last = 0;
        sym::clock(1000, 0);
        session(n, &mut || {
            let t = sym::range(&format!("time{}", k), 0, 999_999_994);
            sym::assume(t >= last);
            k += 1;
            last = t;
            sym::clock(1000, t);
            Duration::new(0, t as u32)
        });
        sym::reach("verified");
    }
    fn h_c25_seconds() {
        // any clock readings whose nanoseconds are around the carries
        let n = if sym::deep() { 3 } else { 2 };
        let nanos = [0, 1, 999_999_999];
        let from = nanos[sym::choice("from", 3)];
        sym::clock(5_000, from);
        let mut k = 0;
        let mut last = (0u64, 0u64);
        session(n, &mut || {
            // since the start
            let t = (sym::range(&format!("s{}", k), 0, 281_473), nanos[sym::choice(&format!("n{}", k), 3)]);
            sym::assume(if t.1 >= last.1 { t.0 >= last.0 } else { t.0 > last.0 });
            k += 1;
            last = t;
            let c = from + t.1 >= 1_000_000_000;
            sym::clock(5_000 + t.0 + c as u64, from + t.1 - if c { 1_000_000_000 } else { 0 });
            Duration::new(t.0, t.1 as u32)
        });
        sym::reach("verified");
    }
    fn h_c25_going_on() {
        // the clock goes on between any two readings
        let nanos = [0, 1, 999_999_999];
        let start = nanos[sym::choice("start", 3)];
        sym::clock(5_000, start);
        let p = Profiler::new("out").unwrap();
        let id = EventIdBuilder::new(&p).from_label(p.alloc_string("label"));
        let kind = p.alloc_string("Kind");
        // two readings on offer, since the start
        let mut last = (0, 0);
        let mut k = 0;
        let mut pair = |gap: u64| {
            sym::clock_clear();
            let mut r = [(0, 0); 2];
            for i in 0..2 {
                let t = (sym::range("s", 0, 281_473), nanos[sym::choice(&format!("n{}", k), 3)]);
                k += 1;
                sym::assume(if t.1 >= last.1 { t.0 >= last.0 } else { t.0 > last.0 });
                sym::assume(i == 0 || t.0 - last.0 <= gap);
                last = t;
                let c = start + t.1 >= 1_000_000_000;
                sym::clock(5_000 + t.0 + c as u64, start + t.1 - if c { 1_000_000_000 } else { 0 });
                r[i] = t;
            }
            r
        };
        let within = |t: SystemTime, r: [(u64, u64); 2]| {
            let at = |r: (u64, u64)| wall() + Duration::new(r.0, r.1 as u32);
            at(r[0]) <= t && t <= at(r[1])
        };
        let first = pair(2);
        match sym::choice("form", 3) {
            0 => {
                p.record_instant_event(kind, id, 7);
                drop(p);
                match open("out").iter_full().next().unwrap().payload {
                    EventPayload::Timestamp(Timestamp::Instant(t)) => sym::check(within(t, first), "an instant lies between the readings around it"),
                    _ => sym::check(false, "form of the instant"),
                }
            }
            form => {
                let (second, payload);
                if form == 1 {
                    let g = p.start_recording_interval_event(kind, id, 7);
                    second = pair(2);
                    drop(g);
                } else {
                    let g = p.start_recording_interval_event_detached(kind, id, 7);
                    second = pair(2);
                    p.finish_recording_interval_event(g);
                }
                drop(p);
                payload = open("out").iter_full().next().unwrap().payload;
                match payload {
                    EventPayload::Timestamp(Timestamp::Interval { start, end }) => {
                        sym::check(within(start, first), "the start lies between the readings around it");
                        sym::check(within(end, second), "the end lies between the readings around it");
                    }
                    _ => sym::check(false, "form of the interval"),
                }
            }
        }
        sym::reach("verified");
    }
    fn h_c25_paths() {
        // written to and read from any kind of path, where an older profile may be
        let stem = ["out", "dir/out", "a/b.c/out", "out.1", "out.1.2", "./out", "dir/../out", "out.mm_profdata", "out.events", "/tmp/x/out", "name-0001234", ".out", "with space", "\u{e9}"][sym::choice("stem", 14)];
        let v = sym::range("value", 0, (1 << 48) - 1);
        if sym::choice("older", 2) == 1 {
            let p = Profiler::new(stem).unwrap();
            let k = p.alloc_string("Older kind");
            for n in 0..9 {
                p.record_integer_event(k, EventId::from_label(p.alloc_string("an older label, longer than the new one")), n, n as u64);
            }
        }
        {
            // beside it
            let p = Profiler::new(["other", "ou", "out.1.3x", "a/b.d/out"][sym::choice("beside", 4)]).unwrap();
            p.record_integer_event(p.alloc_string("Beside"), EventId::from_label(p.alloc_string("beside")), 8, 8);
        }
        let p = Profiler::new(Path::new(stem)).unwrap();
        p.record_integer_event(p.alloc_string("Kind"), EventId::from_label(p.alloc_string("one")), 9, v);
        drop(p);
        let d = open(stem);
        sym::check(d.num_events() == 1, "exactly what was recorded last");
        let e = d.iter_full().next().unwrap();
        sym::check(e.event_kind == "Kind" && e.label == "one" && e.thread_id == 9 && e.payload == EventPayload::Integer(v), "the event that was recorded");
        sym::reach("read");
    }
    fn h_c25_start_time() {
        // any time written with any one of its digits changed
        let (s, n) = [(1_000_000_000, 0), (1_763_562_000, 123_456_789), (9_999_999_900, 999_999_900), (1_600_000_000, 7)][sym::choice("time", 4)];
        let at = sym::choice("digit", 9);
        let place = [1, 10, 100, 1_000, 10_000, 100_000, 1_000_000, 10_000_000, 100_000_000][at];
        let d = sym::range("d", 0, 9);
        let (s, n) = if sym::choice("seconds", 2) == 1 {
            (s + d * place, n)
        } else {
            (s, (n - n % (place * 10)) + d * place)
        };
        sym::assume(n < 1_000_000_000);
        sym::wall(s, n);
        drop(Profiler::new("out").unwrap());
        let d = open("out");
        let m = d.metadata();
        sym::check(m.start_time == SystemTime::UNIX_EPOCH + Duration::new(s, n as u32), "the start time");
        sym::check(m.process_id == std::process::id(), "the process id");
        sym::check(d.num_events() == 0, "no events");
        sym::reach("read");
    }
    fn h_c25_args() {
        // an argument of up to two characters (first: any), and an argument of all kinds of them
        let n = 1;
        let mut argv: Vec<Vec<u8>> = vec![b"prog\0".to_vec()];
        let mut want = b"prog".to_vec();
        for k in 0..n {
            let mut a = vec![];
            let m = if k == 0 { sym::choice("len", 3) } else { 1 };
            for i in 0..m {
                let name = format!("arg{}_{}", k, i);
                let w = if k == 0 && i == 0 { 1 + sym::choice("width", 4) } else { 1 };
                let c = crate::strings::any_char(&name, w);
                sym::assume(c != '\0');
                let mut b = [0; 4];
                a.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
            want.push(b' ');
            want.extend_from_slice(&a);
            a.push(0);
            argv.push(a);
        }
        let last = "it's \"\\\n\t\u{7f}\u{e9}\u{ffff}\u{10ffff}\"";
        want.push(b' ');
        want.extend_from_slice(last.as_bytes());
        argv.push([last.as_bytes(), b"\0"].concat());
        sym::args_bytes(argv);
        drop(Profiler::new("out").unwrap());
        let d = open("out");
        let cmd = d.metadata().cmd.as_bytes();
        let cmd = if cmd.len() == want.len() + 1 && cmd[cmd.len() - 1] == b' ' { &cmd[..want.len()] } else { cmd };
        sym::check(cmd.len() == want.len(), "the length of the command line");
        sym::check(crate::strings::same(cmd, &want), "the command line");
        sym::reach("read");
    }
    fn h_c25_raw_args() {
        // arguments that are no text at all
        let x = sym::range("x", 1, 255) as u8;
        let a = match sym::choice("form", if sym::deep() { 6 } else { 5 }) {
            0 => vec![x],
            1 => vec![x, 0xa9, b'a'],
            2 => vec![0xc3, x],
            3 => vec![0xe2, 0x82, x],
            4 => vec![0xf0, x, 0x80, 0x80],
            _ => vec![x, sym::range("y", 1, 255) as u8],
        };
        let n = a.len();
        let text = std::str::from_utf8(&a).is_ok();
        let mut z = a.clone();
        z.push(0);
        sym::args_bytes(vec![b"p\0".to_vec(), z]);
        drop(Profiler::new("out").unwrap());
        let cmd = open("out").metadata().cmd.clone();
        sym::check(cmd.starts_with("p "), "the program");
        if text {
            sym::check(crate::strings::same(&cmd.as_bytes()[2..2 + n], &a), "text is kept");
            sym::reach("text");
        } else {
            sym::reach("no text");
        }
    }
    fn h_c26_pages() {
        // pages of any length, writes accepted in any parts
        sym::logmode(true);
        let f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open("out").unwrap();
        let b = SerializationSinkBuilder::new_from_file(f).unwrap();
        sym::faults(if sym::deep() { 3 } else { 2 });
        let s = b.new_sink(PageTag::Events);
        let n = sym::range("len", 1, 262_143) as usize;
        let data: &'static [u8] = sym::source("data", n);
        s.write_bytes_atomic(data);
        drop(s);
        drop(b);
        sym::faults(0);
        let file = std::fs::read("out").unwrap();
        sym::check(file.len() >= n + 5, "nothing is lost");
        // (one page, or two when the length is above the maximum)
        let mut pos = 0;
        let mut done = 0;
        for _ in 0..3 {
            if pos >= file.len() {
                break;
            }
            sym::check(file[pos] == 0, "tag of the page");
            let m = u32::from_le_bytes([file[pos + 1], file[pos + 2], file[pos + 3], file[pos + 4]]) as usize;
            sym::check(m > 0 && m <= n - done, "length of the page");
            let i = sym::any_u64("pos") as usize;
            if i < m {
                sym::check(file[pos + 5 + i] == data[done + i], "every byte is in its place");
                sym::reach("byte");
            }
            pos += 5 + m;
            done += m;
        }
        sym::check(pos == file.len() && done == n, "the pages hold exactly the data");
        sym::reach("read");
    }
    fn h_c26_profile() {
        // a whole profile
        sym::faults(2);
        let p = Profiler::new("out").unwrap();
        let v = sym::range("value", 0, (1 << 48) - 1);
        let k = p.alloc_string("Kind");
        let id = EventIdBuilder::new(&p).from_label_and_arg(p.alloc_string("one"), p.alloc_string("arg"));
        p.map_virtual_to_concrete_string(StringId::new_virtual(3u32), id.to_string_id());
        p.record_integer_event(k, EventId::from_virtual(StringId::new_virtual(3u32)), 9, v);
        drop(p);
        sym::faults(0);
        let interrupted = std::fs::read("out.mm_profdata").unwrap();
        let p = Profiler::new("out").unwrap();
        let k = p.alloc_string("Kind");
        let id = EventIdBuilder::new(&p).from_label_and_arg(p.alloc_string("one"), p.alloc_string("arg"));
        p.map_virtual_to_concrete_string(StringId::new_virtual(3u32), id.to_string_id());
        p.record_integer_event(k, EventId::from_virtual(StringId::new_virtual(3u32)), 9, v);
        drop(p);
        let whole = std::fs::read("out.mm_profdata").unwrap();
        sym::check(interrupted.len() == whole.len(), "the file has the same length");
        sym::check(crate::strings::same(&interrupted, &whole), "the file has the same contents");
        let d = open("out");
        let e = d.iter_full().next().unwrap();
        sym::check(e.label == "one" && e.payload == EventPayload::Integer(v), "the event is there");
        sym::reach("compared");
    }
}
