//! C09: headers. C10: damaged files. C11: iteration. C12: the two views of an event. C23: the previous format.
use crate::strings::same;
use analyzeme::{Event, LightweightEvent, ProfilingData, ProfilingDataBuilder};
use decodeme::event_payload::{EventPayload, Timestamp};
use measureme::file_header as fh;
use measureme::{EventId, PageTag, RawEvent, SerializationSinkBuilder, StringId};
use std::hash::{Hash, Hasher};
use std::path::Path;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

const MAGICS: [&[u8; 4]; 4] = [b"MMPD", b"MMES", b"MMSD", b"MMSI"];
const META: &str = r#"{ "start_time": 77000000005, "process_id": 321, "cmd": "cmd" }"#;

/// The three streams of a profile.
pub struct Parts {
    pub events: Vec<u8>,
    pub strings: Vec<u8>,
    pub index: Vec<u8>,
}
/// A page: tag, length, data.
pub fn page(file: &mut Vec<u8>, tag: u8, data: &[u8]) {
    // pages are never empty
    if data.is_empty() {
        return;
    }
    file.push(tag);
    file.extend_from_slice(&(data.len() as u32).to_le_bytes());
    file.extend_from_slice(data);
}
pub fn top(version: u32) -> Vec<u8> {
    let mut v = b"MMPD".to_vec();
    v.extend_from_slice(&version.to_le_bytes());
    v
}
impl Parts {
    pub fn stream(&self, k: usize) -> &Vec<u8> {
        [&self.events, &self.strings, &self.index][k]
    }
    pub fn file(&self, version: u32) -> Vec<u8> {
        let mut v = top(version);
        for k in 0..3 {
            page(&mut v, k as u8, self.stream(k));
        }
        v
    }
}
macro_rules! recorder {
    ($name:ident, $m:ident) => {
        /// Events and strings written by the library of that version.
        pub fn $name(f: impl FnOnce(&$m::StringTableBuilder, &mut dyn FnMut($m::RawEvent))) -> Parts {
            let b = $m::SerializationSinkBuilder::new_in_memory();
            let ev = b.new_sink($m::PageTag::Events);
            let d = Arc::new(b.new_sink($m::PageTag::StringData));
            let i = Arc::new(b.new_sink($m::PageTag::StringIndex));
            let t = $m::StringTableBuilder::new(d.clone(), i.clone()).unwrap();
            $m::file_header::write_file_header(&mut ev.as_std_write(), b"MMES").unwrap();
            t.alloc_metadata(META);
            f(&t, &mut |e| {
                ev.write_atomic(std::mem::size_of::<$m::RawEvent>(), |b| e.serialize(b));
            });
            drop(t);
            Parts { events: ev.into_bytes(), strings: Arc::try_unwrap(d).unwrap().into_bytes(), index: Arc::try_unwrap(i).unwrap().into_bytes() }
        }
    };
}
recorder!(record, measureme);
recorder!(record_8, measureme_10);

pub fn open(file: Vec<u8>) -> Option<ProfilingData> {
    ProfilingData::from_paged_buffer(file, None).ok()
}
fn two_events() -> Parts {
    record(|t, put| {
        let (k, a, b) = (t.alloc("Kind"), t.alloc("first"), t.alloc("second\x1earg"));
        put(RawEvent::new_instant(k, EventId::from_label(a), 11, 1_000));
        put(RawEvent::new_integer(k, EventId::from_label(b), 12, 42));
    })
}
fn at(n: u64) -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::new(77, 5) + Duration::from_nanos(n)
}
fn the_two(d: &ProfilingData) {
    sym::check(d.num_events() == 2, "the events of the file are there");
    let e: Vec<Event> = d.iter_full().collect();
    sym::check(e[0].label == "first" && e[0].event_kind == "Kind" && e[0].thread_id == 11, "first event");
    sym::check(e[0].payload == EventPayload::Timestamp(Timestamp::Instant(at(1_000))), "first payload");
    sym::check(e[1].label == "second" && e[1].additional_data.len() == 1 && e[1].additional_data[0] == "arg", "second event");
    sym::check(e[1].payload == EventPayload::Integer(42) && e[1].thread_id == 12, "second payload");
    sym::check(d.metadata().process_id == 321 && d.metadata().cmd == "cmd" && d.metadata().start_time == at(0), "metadata");
}

/// An event of any payload, thread and ids.
struct Any {
    form: usize,
    a: u64,
    b: u64,
    thread: u32,
}
fn any_event(name: &str, form: usize) -> Any {
    let a = (sym::range(&format!("{}_start_s", name), 0, 4), sym::range(&format!("{}_start_n", name), 0, 999_999_999));
    let b = (sym::range(&format!("{}_end_s", name), 0, 4), sym::range(&format!("{}_end_n", name), 0, 999_999_999));
    let (a, b) = (a.0 * 1_000_000_000 + a.1, b.0 * 1_000_000_000 + b.1);
    if form == 0 {
        sym::assume(a <= b);
    }
    Any { form, a, b, thread: sym::any_u32(&format!("{}_thread", name)) }
}
impl Any {
    fn payload(&self) -> EventPayload {
        match self.form {
            0 => EventPayload::Timestamp(Timestamp::Interval { start: at(self.a), end: at(self.b) }),
            1 => EventPayload::Timestamp(Timestamp::Instant(at(self.a))),
            _ => EventPayload::Integer(self.a),
        }
    }
    fn raw_8(&self, kind: measureme_10::StringId, id: measureme_10::StringId) -> measureme_10::RawEvent {
        use measureme_10::{EventId, RawEvent};
        match self.form {
            0 => RawEvent::new_interval(kind, EventId::from_label(id), self.thread, self.a, self.b),
            1 => RawEvent::new_instant(kind, EventId::from_label(id), self.thread, self.a),
            _ => RawEvent::new_integer(kind, EventId::from_label(id), self.thread, self.a),
        }
    }
    fn raw(&self, kind: StringId, id: StringId) -> RawEvent {
        match self.form {
            0 => RawEvent::new_interval(kind, EventId::from_label(id), self.thread, self.a, self.b),
            1 => RawEvent::new_instant(kind, EventId::from_label(id), self.thread, self.a),
            _ => RawEvent::new_integer(kind, EventId::from_label(id), self.thread, self.a),
        }
    }
}

/// Records what is hashed.
struct Feed(u64);
impl Hasher for Feed {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(7) ^ *x as u64;
        }
    }
}
fn hash(e: &LightweightEvent) -> u64 {
    let mut h = Feed(0);
    e.hash(&mut h);
    h.finish()
}

/// The same two in the previous format.
fn old_events() -> Parts {
    record_8(|t, put| {
        let (k, a, b) = (t.alloc("Kind"), t.alloc("first"), t.alloc("second\x1earg"));
        put(measureme_10::RawEvent::new_instant(k, measureme_10::EventId::from_label(a), 11, 1_000));
        put(measureme_10::RawEvent::new_integer(k, measureme_10::EventId::from_label(b), 12, 42));
    })
}
sym::harnesses! {
    fn h_c09_check() {
        // every length, magic and version
        let n = sym::choice("len", if sym::deep() { 24 } else { 13 });
        let data = sym::any_bytes("data", n);
        let m = MAGICS[sym::choice("magic", 4)];
        let good = n >= 8 && same(&data[..4], m);
        let version = if n >= 8 { u32::from_le_bytes([data[4], data[5], data[6], data[7]]) } else { 0 };
        let r = decodeme::read_file_header(&data, m, None, "x");
        sym::check(r.is_ok() == good, "reading succeeds exactly for the expected magic");
        if let Ok(v) = r {
            sym::check(v == version, "the stored version is returned");
            sym::reach("read");
        }
        let r = fh::verify_file_header(&data, m, Some(Path::new("p")), "x");
        sym::check(r.is_ok() == (good && version == 9), "verification succeeds exactly for the expected magic and the current version");
        if r.is_ok() {
            sym::reach("verified");
        }
        if n >= 8 {
            let rest = fh::strip_file_header(&data);
            sym::check(rest.len() == n - 8 && same(rest, &data[8..]), "stripping removes exactly the header");
        }
        sym::reach("checked");
    }
    fn h_c09_written() {
        // what is written is accepted, by any sink and for its magic only
        let (a, b) = (sym::choice("written", 4), sym::choice("expected", 4));
        let n = sym::choice("rest", 4);
        let rest = sym::any_bytes("data", n);
        let mut out = vec![];
        match sym::choice("sink", 3) {
            0 => {
                fh::write_file_header(&mut out, MAGICS[a]).unwrap();
                out.extend_from_slice(&rest);
            }
            1 => {
                let s = SerializationSinkBuilder::new_in_memory().new_sink(PageTag::Events);
                fh::write_file_header(&mut s.as_std_write(), MAGICS[a]).unwrap();
                s.write_bytes_atomic(&rest);
                out = s.into_bytes();
            }
            _ => {
                let mut f = std::fs::File::create("out").unwrap();
                fh::write_file_header(&mut f, MAGICS[a]).unwrap();
                std::io::Write::write_all(&mut f, &rest).unwrap();
                drop(f);
                out = std::fs::read("out").unwrap();
            }
        }
        sym::check(out.len() == 8 + n, "a header has eight bytes");
        sym::check(fh::verify_file_header(&out, MAGICS[b], None, "x").is_ok() == (a == b), "verified for its own magic");
        let r = decodeme::read_file_header(&out, MAGICS[b], None, "x");
        sym::check(r.is_ok() == (a == b), "read for its own magic");
        if let Ok(v) = r {
            sym::check(v == fh::CURRENT_FILE_FORMAT_VERSION && v == decodeme::CURRENT_FILE_FORMAT_VERSION, "current version");
        }
        sym::check(same(fh::strip_file_header(&out), &rest), "the data follows");
        sym::reach("accepted");
    }
    fn h_c10_top() {
        // any first eight bytes, any length up to there, with and without the pages behind
        let n = sym::choice("len", 9);
        let mut file = sym::any_bytes("header", n);
        let whole = n == 8 && sym::choice("pages", 2) == 1;
        if whole {
            file.extend_from_slice(&two_events().file(9)[8..]);
        }
        let good = whole && same(&file[..8], b"MMPD\x09\0\0\0");
        let d = open(file);
        sym::check(d.is_some() == good, "a file opens exactly when its header is supported and its streams are there");
        if let Some(d) = d {
            the_two(&d);
            sym::reach("opened");
        }
        sym::reach("decided");
    }
    fn h_c10_streams() {
        // any first eight bytes of any one stream, any length up to there
        let mut p = two_events();
        let which = sym::choice("stream", 3);
        let n = sym::choice("len", 10);
        let h = sym::any_bytes("header", n.min(8));
        let s = [&mut p.events, &mut p.strings, &mut p.index][which] as &mut Vec<u8>;
        let rest = s.split_off(8);
        s.clear();
        s.extend_from_slice(&h);
        if n == 9 {
            s.extend_from_slice(&rest);
        }
        let good = n == 9 && same(&h, &[MAGICS[1 + which] as &[u8], &[9, 0, 0, 0]].concat());
        // a bare but right header of the string data has no metadata: the profile is still not usable
        if n == 8 {
            sym::assume(!same(&h, &[MAGICS[1 + which] as &[u8], &[9, 0, 0, 0]].concat()));
        }
        let d = open(p.file(9));
        sym::check(d.is_some() == good, "a file opens exactly when the headers of its streams are right");
        if let Some(d) = d {
            the_two(&d);
            sym::reach("opened");
        }
        sym::reach("decided");
    }
    fn h_c10_versions() {
        // any version in front of the streams of either supported format, whatever the streams say
        let p8 = sym::choice("pages", 2) == 1;
        let mut p = if p8 { old_events() } else { two_events() };
        let v = sym::any_u32("version");
        if sym::choice("everywhere", 2) == 1 {
            for s in [&mut p.events, &mut p.strings, &mut p.index] {
                s[4..8].copy_from_slice(&v.to_le_bytes());
            }
            // (the streams of one format with the headers of the other are not tried)
            sym::assume(v != if p8 { 9 } else { 8 });
        }
        let good = v == if p8 { 8 } else { 9 };
        let d = open(p.file(v));
        sym::check(d.is_some() == good, "a file opens exactly when its version is supported and that of its streams");
        if let Some(d) = d {
            the_two(&d);
            sym::reach("opened");
        }
        sym::reach("decided");
    }
    fn h_c10_missing() {
        // any subset of the streams, in any order, in either supported format
        let v8 = sym::choice("version", 2) == 1;
        let p = if v8 {
            old_events()
        } else {
            two_events()
        };
        let orders = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        let set = sym::choice("present", 8);
        let order = orders[sym::choice("order", 6)];
        let mut file = top(if v8 { 8 } else { 9 });
        for k in order {
            if set & (1 << k) != 0 {
                // in two pages
                let s = p.stream(k);
                page(&mut file, k as u8, &s[..13.min(s.len())]);
                if s.len() > 13 {
                    page(&mut file, k as u8, &s[13..]);
                }
            }
        }
        let d = open(file);
        sym::check(d.is_some() == (set == 7), "a file opens exactly when no stream is missing");
        if let Some(d) = d {
            the_two(&d);
            sym::reach("opened");
        }
        sym::reach("decided");
    }
    fn h_c10_paths() {
        // through the file system
        let what = sym::choice("what", 5);
        // (the last component, up to its last dot, and then the extension)
        let (stem, file) = [("p", "p"), ("p.1", "p"), ("dir.d/p", "dir.d/p"), ("p.1.2", "p.1"), ("p.events", "p"), ("p.mm_profdata", "p")][sym::choice("stem", 6)];
        if stem == "dir.d/p" {
            std::fs::create_dir_all("dir.d").unwrap();
        }
        let at = |e: &str| format!("{}.{}", file, e);
        let h = sym::any_bytes("header", 8);
        match what {
            0 => {}
            1 => std::fs::write(at("events"), b"x").unwrap(),
            2 => std::fs::write(at("mm_profdata"), b"").unwrap(),
            3 => std::fs::write(at("mm_profdata"), &h[..7]).unwrap(),
            _ => {
                let mut f = h.clone();
                f.extend_from_slice(&two_events().file(9)[8..]);
                std::fs::write(at("mm_profdata"), &f).unwrap();
            }
        }
        let d = ProfilingData::new(Path::new(stem)).ok();
        let good = what == 4 && same(&h, b"MMPD\x09\0\0\0");
        sym::check(d.is_some() == good, "a path opens exactly when a usable file is there");
        if let Some(d) = d {
            the_two(&d);
            sym::reach("opened");
        }
        sym::reach("decided");
    }
    fn h_c11_mixed() {
        // any number of events, any mixture of steps from both ends, over both views
        let n = sym::choice("events", if sym::deep() { 6 } else { 4 });
        let threads: Vec<u32> = (0..n).map(|i| sym::any_u32(&format!("thread{}", i))).collect();
        let mut b = ProfilingDataBuilder::new();
        for k in 0..n {
            b.integer("Kind", "label", threads[k], 100 + k as u64);
        }
        let d = b.into_profiling_data();
        sym::check(d.num_events() == n, "number of events");
        let full = sym::choice("full", 2) == 1;
        let mut light = d.iter();
        let mut all = d.iter_full();
        let (mut lo, mut hi) = (0, n);
        for step in 0..n + 2 {
            let left = if full { (all.size_hint(), all.len()) } else { (light.size_hint(), light.len()) };
            sym::check(left == ((hi - lo, Some(hi - lo)), hi - lo), "the remaining count is exact");
            let back = sym::choice(&format!("step{}", step), 2) == 1;
            let got = match (full, back) {
                (false, false) => light.next().map(|e| {
                    sym::check(e.event_index == lo, "position of the event");
                    (e.thread_id, e.payload)
                }),
                (false, true) => light.next_back().map(|e| {
                    sym::check(e.event_index + 1 == hi, "position of the event");
                    (e.thread_id, e.payload)
                }),
                (true, false) => all.next().map(|e| (e.thread_id, e.payload)),
                (true, true) => all.next_back().map(|e| (e.thread_id, e.payload)),
            };
            if lo == hi {
                sym::check(got.is_none(), "no event is repeated");
                sym::reach("end");
                continue;
            }
            let at = if back { hi - 1 } else { lo };
            if back {
                hi -= 1
            } else {
                lo += 1
            }
            match got {
                Some((t, p)) => {
                    sym::check(t == threads[at], "events in order: thread");
                    sym::check(p == EventPayload::Integer(100 + at as u64), "events in order: payload");
                }
                None => sym::check(false, "no event is lost"),
            }
            sym::reach("event");
        }
    }
    fn h_c11_skip() {
        // the derived ways of walking
        let n = sym::choice("events", if sym::deep() { 6 } else { 4 });
        let mut b = ProfilingDataBuilder::new();
        for k in 0..n {
            b.integer("Kind", "label", 7, sym::range(&format!("value{}", k), 0, 1 << 40));
        }
        let d = b.into_profiling_data();
        let v: Vec<LightweightEvent> = d.iter().collect();
        sym::check(v.len() == n, "collects all");
        let mut r: Vec<LightweightEvent> = d.iter().rev().collect();
        r.reverse();
        sym::check(r == v, "reverse order from the back");
        let k = sym::choice("nth", 6);
        sym::check(d.iter().nth(k) == v.get(k).cloned(), "nth event");
        sym::check(d.iter().nth_back(k) == v.iter().rev().nth(k).cloned(), "nth event from the back");
        sym::check(d.iter().count() == n && d.iter().last() == v.last().cloned(), "count and last");
        let f: Vec<Event> = d.iter_full().collect();
        sym::check(f.len() == n && d.iter_full().len() == n, "full view: all");
        for k in 0..n {
            sym::check(d.to_full_event(&v[k]) == f[k], "indexing gives the event iterated to");
        }
        sym::reach("walked");
    }
    fn h_c11_jumps() {
        // steps and jumps from both ends, as positions only
        fn walk<T>(mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator, n: usize, at: impl Fn(&T) -> u64) {
            let (mut lo, mut hi) = (0, n);
            for step in 0..if sym::deep() { 4 } else { 3 } {
                let k = sym::choice(&format!("jump{}", step), 4);
                let back = sym::choice(&format!("back{}", step), 2) == 1;
                let got = match (back, k) {
                    (false, 0) => it.next(),
                    (true, 0) => it.next_back(),
                    (false, k) => it.nth(k),
                    (true, k) => it.nth_back(k),
                };
                let want = if k < hi - lo { Some(if back { hi - 1 - k } else { lo + k }) } else { None };
                match want {
                    Some(w) if back => hi = w,
                    Some(w) => lo = w + 1,
                    None => lo = hi,
                }
                sym::check(got.map(|e| at(&e)) == want.map(|w| w as u64), "the event jumped to");
                sym::check((it.size_hint(), it.len()) == ((hi - lo, Some(hi - lo)), hi - lo), "the remaining count after a jump");
            }
            // what is left, from the chosen end
            let (l, h) = (lo as u64, hi as u64);
            let rest: Vec<u64> = match sym::choice("drain", 7) {
                0 => it.map(|e| at(&e)).collect(),
                1 => {
                    let mut v: Vec<u64> = it.rev().map(|e| at(&e)).collect();
                    v.reverse();
                    v
                }
                2 => {
                    sym::check(it.count() == hi - lo, "the count of what is left");
                    return;
                }
                3 => {
                    sym::check(it.last().map(|e| at(&e)) == if l < h { Some(h - 1) } else { None }, "the last of what is left");
                    return;
                }
                4 => {
                    sym::check(it.rev().last().map(|e| at(&e)) == if l < h { Some(l) } else { None }, "the first of what is left");
                    return;
                }
                5 => it.rfold(vec![], |mut v, e| {
                    v.insert(0, at(&e));
                    v
                }),
                _ => it.step_by(1).map(|e| at(&e)).collect(),
            };
            sym::check(rest == (lo as u64..hi as u64).collect::<Vec<_>>(), "what is left after the jumps");
        }
        let n = if sym::deep() { 5 } else { 4 };
        let mut b = ProfilingDataBuilder::new();
        for k in 0..n {
            b.integer("Kind", "label", 7, k as u64);
        }
        let d = b.into_profiling_data();
        let value = |p: &EventPayload| match p {
            EventPayload::Integer(v) => *v,
            _ => u64::MAX,
        };
        if sym::choice("full", 2) == 1 {
            walk(d.iter_full(), n, |e| value(&e.payload));
        } else {
            walk(d.iter(), n, |e| value(&e.payload));
        }
        sym::reach("jumped");
    }
    fn h_c11_index() {
        // any index at all
        let n = sym::choice("events", 3);
        let mut b = ProfilingDataBuilder::new();
        for k in 0..n {
            b.integer("Kind", "label", 7 + k as u32, 1);
        }
        let d = b.into_profiling_data();
        let at = sym::any_u64("index");
        let e = LightweightEvent { event_index: at as usize, thread_id: 0, payload: EventPayload::Integer(1) };
        sym::panic_iff(at >= n as u64);
        let e = d.to_full_event(&e);
        sym::no_panic();
        sym::check(e.thread_id as u64 == 7 + at, "the event at that index");
        sym::reach("indexed");
    }
    fn h_c11_far() {
        // an event far into a large profile
        let n = 66_000;
        let p = record(|t, _| {
            t.alloc("x");
        });
        let k = [0, 1, 255, 256, 8_191, 8_192, 32_767, 32_768, 65_535, 65_536, 65_999][sym::choice("index", 11)];
        let e = any_event("event", 2);
        let mut events = p.events.clone();
        events.resize(8 + 32 * n, 0);
        let kind = StringId::from_addr(measureme::Addr(8));
        e.raw(kind, kind).serialize(&mut events[8 + 32 * k..40 + 32 * k]);
        let mut file = Parts { events: vec![], ..p }.file(9);
        for c in events.chunks(200_000) {
            page(&mut file, 0, c);
        }
        let d = open(file).unwrap();
        sym::check(d.num_events() == n && d.iter().len() == n, "the number of events");
        for l in [d.iter().nth(k).unwrap(), d.iter().nth_back(n - 1 - k).unwrap()] {
            sym::check(l.event_index == k && l.thread_id == e.thread && l.payload == e.payload(), "the event");
            let f = d.to_full_event(&l);
            sym::check(f.thread_id == e.thread && f.payload == e.payload(), "the full event");
        }
        sym::reach("found");
    }
    fn h_c12_views() {
        // two events of any payload form
        let e = [any_event("first", sym::choice("form1", 3)), any_event("second", sym::choice("form2", 3))];
        let d = open(record(|t, put| {
            let (k, l, m) = (t.alloc("Kind"), t.alloc("label\x1earg"), t.alloc("other"));
            put(e[0].raw(k, l));
            put(e[1].raw(l, m));
        }).file(9)).unwrap();
        let light: Vec<LightweightEvent> = d.iter().collect();
        let full: Vec<Event> = d.iter_full().collect();
        for k in 0..2 {
            sym::check(light[k].event_index == k, "index");
            sym::check(light[k].thread_id == e[k].thread && full[k].thread_id == e[k].thread, "thread");
            sym::check(light[k].payload == e[k].payload(), "payload of the lightweight view");
            sym::check(full[k].payload == e[k].payload(), "payload of the full view");
            sym::check(d.to_full_event(&light[k]) == full[k], "expanding gives the full event");
            sym::check(light[k].duration() == full[k].duration(), "durations agree");
            sym::check(light[k].timestamp() == full[k].payload.timestamp(), "timestamps agree");
            let (s, t) = (light[k].start(), light[k].end());
            match e[k].form {
                0 => sym::check(s == Some(at(e[k].a)) && t == Some(at(e[k].b)), "start and end of an interval"),
                1 => sym::check(s == Some(at(e[k].a)) && t == s, "time of an instant"),
                _ => sym::check(s.is_none() && t.is_none() && full[k].integer() == Some(e[k].a), "integers have no time"),
            }
        }
        sym::check(light[0].contains(&light[1]) == full[0].contains(&full[1]), "containment agrees");
        sym::check(full[0].event_kind == "Kind" && full[0].label == "label" && full[0].additional_data.len() == 1, "first texts");
        sym::check(full[1].event_kind == "label\x1earg" && full[1].label == "other" && full[1].additional_data.is_empty(), "second texts");
        sym::reach("compared");
    }
    fn h_c12_equal() {
        // equality and hashing of lightweight events
        let e = [any_event("first", sym::choice("form1", 3)), any_event("second", sym::choice("form2", 3))];
        let l: Vec<LightweightEvent> = (0..2)
            .map(|k| LightweightEvent { event_index: sym::any_u64(&format!("index{}", k)) as usize, thread_id: e[k].thread, payload: e[k].payload() })
            .collect();
        let want = (l[0].event_index == l[1].event_index)
            & (e[0].thread == e[1].thread)
            & (e[0].form == e[1].form)
            & (e[0].a == e[1].a)
            & ((e[0].form != 0) | (e[0].b == e[1].b));
        sym::check((l[0] == l[1]) == want, "equal exactly for the same event");
        if l[0] == l[1] {
            sym::check(hash(&l[0]) == hash(&l[1]), "equal events hash alike");
            sym::reach("equal");
        }
        let c = l[0].clone();
        sym::check(c == l[0], "a copy is equal");
        sym::reach("compared");
    }
    fn h_c23_events() {
        // two events of any payload form and thread
        let e = [any_event("first", sym::choice("form1", 3)), any_event("second", sym::choice("form2", 3))];
        let new = open(record(|t, put| {
            let (k, l, m) = (t.alloc("Kind"), t.alloc("label\x1earg"), t.alloc("other"));
            put(e[0].raw(k, l));
            put(e[1].raw(l, m));
        }).file(9)).unwrap();
        let old = open(record_8(|t, put| {
            let (k, l, m) = (t.alloc("Kind"), t.alloc("label\x1earg"), t.alloc("other"));
            put(e[0].raw_8(k, l));
            put(e[1].raw_8(l, m));
        }).file(8)).unwrap();
        sym::check(old.num_events() == 2, "number of events");
        sym::check(old.metadata().start_time == new.metadata().start_time && old.metadata().process_id == 321 && old.metadata().cmd == "cmd", "metadata");
        for k in 0..2 {
            let (o, n) = (old.iter().nth(k).unwrap(), new.iter().nth(k).unwrap());
            sym::check(o.event_index == k && o.thread_id == e[k].thread && o.payload == e[k].payload(), "lightweight view");
            sym::check(o == n, "the same lightweight event");
            let (o, n) = (old.to_full_event(&o), new.to_full_event(&n));
            sym::check(o.thread_id == e[k].thread && o.payload == e[k].payload(), "full view");
            sym::check(o == n, "the same event");
        }
        let f: Vec<Event> = old.iter_full().collect();
        sym::check(f[0].event_kind == "Kind" && f[0].label == "label" && f[0].additional_data.len() == 1 && f[0].additional_data[0] == "arg", "texts");
        sym::check(f[1].event_kind == "label\x1earg" && f[1].label == "other" && f[1].additional_data.is_empty(), "texts of the second event");
        sym::reach("compared");
    }
    fn h_c23_texts() {
        // any texts, plain, composite, through virtual ids, without a label
        let n = sym::choice("chars", if sym::deep() { 5 } else { 4 });
        let b: Vec<u8> = (0..n).map(|i| sym::range(&format!("b{}", i), 0, 0x7f) as u8).collect();
        for x in &b {
            // (the published reader of that version refuses it: see known_findings.json)
            sym::assume(*x != 11);
        }
        let s = unsafe { std::str::from_utf8_unchecked(&b) };
        let how = sym::choice("how", 7);
        let kind = sym::choice("kind", 2);
        macro_rules! write {
            ($rec:ident, $m:ident) => {
                $rec(|t, put| {
                    use $m::{EventId, RawEvent, StringComponent, StringId};
                    let (k, l) = (t.alloc("Kind"), t.alloc(s));
                    let c = t.alloc(&[StringComponent::Value("x"), StringComponent::Ref(l), StringComponent::Value("\x1e"), StringComponent::Ref(k)]);
                    let f = t.alloc(&[StringComponent::Ref(k), StringComponent::Ref(l), StringComponent::Value("y")]);
                    t.map_virtual_to_concrete_string(StringId::new_virtual(5u32), l);
                    t.bulk_map_virtual_to_single_concrete_string([7, 6].iter().map(|i| StringId::new_virtual(*i as u32)), c);
                    let id = match how {
                        0 => EventId::from_label(l),
                        1 => EventId::from_label(c),
                        2 => EventId::from_virtual(StringId::new_virtual(5u32)),
                        3 => EventId::from_virtual(StringId::new_virtual(6u32)),
                        6 => EventId::from_label(f),
                        4 => EventId::from_virtual(StringId::new_virtual(8u32)),
                        _ => EventId::INVALID,
                    };
                    put(RawEvent::new_integer(if kind == 0 { k } else { l }, id, 1, 2));
                })
            };
        }
        let new = open(write!(record, measureme).file(9)).unwrap();
        let old = open(write!(record_8, measureme_10).file(8)).unwrap();
        let (o, n) = (old.iter_full().next().unwrap(), new.iter_full().next().unwrap());
        sym::check(same(o.event_kind.as_bytes(), n.event_kind.as_bytes()), "the same kind");
        sym::check(same(o.label.as_bytes(), n.label.as_bytes()), "the same label");
        sym::check(o.additional_data.len() == n.additional_data.len(), "as many arguments");
        for k in 0..n.additional_data.len() {
            sym::check(same(o.additional_data[k].as_bytes(), n.additional_data[k].as_bytes()), "the same arguments");
        }
        if how == 4 || how == 5 {
            sym::check(o.label == "<unknown>", "events without a known label");
            sym::reach("unknown");
        }
        sym::reach("compared");
    }
    fn h_c23_vertical_tab() {
        let old = open(record_8(|t, put| {
            let (k, l) = (t.alloc("Kind"), t.alloc("a\x0bb"));
            put(measureme_10::RawEvent::new_integer(k, measureme_10::EventId::from_label(l), 1, 2));
        }).file(8)).unwrap();
        sym::check(old.iter_full().next().unwrap().label == "a\x0bb", "a vertical tab in the label of a version 8 event");
    }
    fn h_c23_reference_first() {
        // a reference followed by exactly as many bytes of text as the address of the string
        let at = 8 + META.len() + 1 + 5 + 6;
        let text = "t".repeat(at);
        let old = open(record_8(|t, put| {
            let (k, l) = (t.alloc("Kind"), t.alloc("first"));
            let c = t.alloc(&[measureme_10::StringComponent::Ref(l), measureme_10::StringComponent::Value(&text)]);
            sym::assume(c.to_addr().as_usize() == at);
            put(measureme_10::RawEvent::new_integer(k, measureme_10::EventId::from_label(c), 1, 2));
        }).file(8)).unwrap();
        let l = old.iter_full().next().unwrap().label;
        sym::check(l.len() == 5 + at, "a reference followed by text as long as its address in a version 8 event");
    }
}
