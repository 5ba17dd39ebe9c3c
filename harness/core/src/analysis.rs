//! C14, C15: summary data. C16: collapsed stacks.
use crate::files::{open, record};
use analyzeme::{collapse_stacks, ProfilingData, QueryData};
use measureme::{EventId, RawEvent};
use std::time::Duration;

const LABELS: [&str; 3] = ["a", "b;b", "\u{e9}\u{20ac};"];
const KINDS: [&str; 10] = [
    "Query",
    "GenericActivity",
    "IncrementalLoadResult",
    "IncrementalResultHashing",
    "QueryBlocked",
    "SomethingElse",
    "QueryCacheHit",
    "SomeInstant",
    "ArtifactSize",
    "SomeInteger",
];
#[derive(Clone, Copy)]
struct Ev {
    kind: usize,
    label: usize,
    thread: u32,
    /// nanoseconds; for integers the value
    start: u64,
    end: u64,
}
impl Ev {
    fn interval(&self) -> bool {
        self.kind < 6
    }
    fn dur(&self) -> u64 {
        self.end - self.start
    }
    fn within(&self, o: &Ev) -> bool {
        self.thread == o.thread && o.start <= self.start && self.end <= o.end
    }
}
/// Recorded in completion order; the intervals of a thread nest properly.
fn nest(ev: &[Ev]) {
    for j in 0..ev.len() {
        if !ev[j].interval() {
            continue;
        }
        sym::assume(ev[j].start <= ev[j].end);
        for i in 0..j {
            if ev[i].interval() && ev[i].thread == ev[j].thread {
                let inside = ev[j].start <= ev[i].start;
                let before = ev[i].end <= ev[j].start;
                sym::assume((ev[i].end <= ev[j].end) & (inside | before));
            }
        }
    }
}
fn profile(ev: &[Ev]) -> ProfilingData {
    profile_of(ev, |e| KINDS[e.kind].into())
}
fn profile_of(ev: &[Ev], kind: impl Fn(&Ev) -> String) -> ProfilingData {
    open(record(|t, put| {
        for e in ev {
            let (k, l) = (t.alloc(&*kind(e)), EventId::from_label(t.alloc(LABELS[e.label])));
            put(match e.kind {
                0..=5 => RawEvent::new_interval(k, l, e.thread, e.start, e.end),
                6 | 7 => RawEvent::new_instant(k, l, e.thread, e.start),
                _ => RawEvent::new_integer(k, l, e.thread, e.start),
            });
        }
    }).file(9)).unwrap()
}
/// The innermost enclosing event: the next one recorded around it.
fn parent(ev: &[Ev], i: usize) -> Option<usize> {
    (i + 1..ev.len()).find(|j| ev[*j].interval() && ev[i].within(&ev[*j]))
}
fn nanos(d: Duration) -> u64 {
    d.as_secs() * 1_000_000_000 + d.subsec_nanos() as u64
}
/// A time within the first second of the profile's calendar second, in every nanosecond.
fn time(name: &str) -> u64 {
    sym::range(name, 0, 999_999_994)
}
/// A time in any second, with nanoseconds around the carries.
fn time_carry(name: &str) -> u64 {
    let n = [0, 999_999_995, 999_999_999][sym::choice(&format!("{}_n", name), 3)];
    sym::range(&format!("{}_s", name), 0, 281_473) * 1_000_000_000 + n
}
fn intervals(n: usize, time: fn(&str) -> u64, kinds: &[usize], threads: usize, labels: usize) -> Vec<Ev> {
    let mut v = vec![];
    for k in 0..n {
        v.push(Ev {
            kind: kinds[k],
            label: if labels > 1 { sym::choice(&format!("label{}", k), labels) } else { 0 },
            thread: if k > 0 && threads > 1 { [3, 0xee00_0003][sym::choice(&format!("thread{}", k), threads)] } else { 3 },
            start: time(&format!("start{}", k)),
            end: time(&format!("end{}", k)),
        });
    }
    nest(&v);
    v
}
/// The span from the first start to the last end of every thread, added up.
fn overall(ev: &[Ev]) -> u64 {
    let mut sum = 0;
    for t in [3, 0xee00_0003] {
        let of: Vec<&Ev> = ev.iter().filter(|e| e.interval() && e.thread == t).collect();
        if let (Some(s), Some(e)) = (of.iter().map(|e| e.start).min(), of.iter().map(|e| e.end).max()) {
            sum += e - s;
        }
    }
    sum
}
fn want_self(ev: &[Ev], label: usize) -> u64 {
    let mut t = 0u64;
    for e in ev.iter().filter(|e| e.interval() && e.label == label) {
        t = t.wrapping_add(e.dur());
    }
    for i in 0..ev.len() {
        if ev[i].interval() {
            if let Some(j) = parent(ev, i) {
                if ev[j].label == label {
                    t = t.wrapping_sub(ev[i].dur());
                }
            }
        }
    }
    t
}
fn check_self(ev: &[Ev]) {
    let r = profile(ev).perform_analysis();
    let mut rows = 0;
    for l in 0..3 {
        let there = ev.iter().any(|e| e.label == l && e.interval());
        let q: Vec<&QueryData> = r.query_data.iter().filter(|q| q.label == LABELS[l]).collect();
        sym::check(q.len() == there as usize, "one row per label");
        if !there {
            continue;
        }
        rows += 1;
        sym::check(nanos(q[0].self_time) == want_self(ev, l), "self time is the duration minus the direct children");
        let total = ev.iter().filter(|e| e.label == l && e.kind != 3).fold(0, |a, e| a + e.dur());
        sym::check(nanos(q[0].time) == total, "time is the sum of the durations");
    }
    sym::check(r.query_data.len() == rows, "no other rows");
    sym::check(nanos(r.total_time) == overall(ev), "overall time is the span of every thread");
    let all = r.query_data.iter().fold(0, |a, q| a + nanos(q.self_time));
    let outer = (0..ev.len()).filter(|i| parent(ev, *i).is_none()).fold(0, |a, i| a + ev[i].dur());
    sym::check(all == outer, "self times add up to the outermost events");
}
fn check_stacks(ev: &[Ev]) {
    let got = collapse_stacks(&profile(ev));
    // reference: chain of enclosing events
    let mut want: Vec<(String, u64)> = vec![];
    let mut idle = overall(ev);
    for i in 0..ev.len() {
        if !ev[i].interval() {
            continue;
        }
        let mut chain = vec![i];
        while let Some(j) = parent(ev, *chain.last().unwrap()) {
            chain.push(j);
        }
        if chain.len() == 1 {
            idle -= ev[i].dur();
        }
        let mut name = String::from("rustc");
        for k in chain.iter().rev() {
            name.push(';');
            name.push_str(LABELS[ev[*k].label]);
        }
        let mut own = ev[i].dur();
        for k in 0..i {
            if ev[k].interval() && parent(ev, k) == Some(i) {
                own -= ev[k].dur();
            }
        }
        match want.iter_mut().find(|w| w.0 == name) {
            Some(w) => w.1 += own,
            None => want.push((name, own)),
        }
    }
    sym::check(got.get("rustc") == Some(&idle), "the root holds the gaps");
    sym::check(got.len() == want.len() + 1, "one entry per chain");
    for (name, ns) in &want {
        match got.get(name) {
            Some(g) => sym::check(g == ns, "a chain has the self time of its innermost events"),
            None => sym::check(false, "every chain has an entry"),
        }
    }
    let all = got.values().fold(0, |a, v| a + v);
    sym::check(all == overall(ev), "the values add up to the overall time");
}

fn check_kinds(ev: &[Ev], d: ProfilingData) {
    let r = d.perform_analysis();
    let mut rows = 0;
    for l in 0..2 {
        let of: Vec<usize> = (0..ev.len()).filter(|i| ev[*i].label == l).collect();
        let count = |kinds: &[usize]| of.iter().filter(|i| kinds.contains(&ev[**i].kind)).count();
        let sum = |kind: usize| of.iter().filter(|i| ev[**i].kind == kind).fold(0, |a, i| a + ev[*i].dur());
        // work directly inside events of that kind
        let within = |kind: usize| {
            (0..ev.len()).filter(|i| ev[*i].interval() && parent(ev, *i).map_or(false, |j| ev[j].kind == kind && ev[j].label == l)).fold(0, |a, i| a + ev[i].dur())
        };
        let q: Vec<&QueryData> = r.query_data.iter().filter(|q| q.label == LABELS[l]).collect();
        let there = count(&[0, 1, 2, 3, 4, 5, 6]) > 0;
        sym::check(q.len() == there as usize, "one row per label with an interval or a cache hit");
        rows += there as usize;
        if there {
            let q = q[0];
            sym::check(q.number_of_cache_hits == count(&[6]), "cache hits");
            sym::check(q.number_of_cache_misses == count(&[0, 1]), "cache misses");
            sym::check(q.invocation_count == count(&[0, 1, 4, 5, 6]), "invocations");
            sym::check(nanos(q.blocked_time) == sum(4), "blocked time");
            sym::check(nanos(q.incremental_load_time) == sum(2) - within(2), "load time without nested work");
            sym::check(nanos(q.incremental_hashing_time) == sum(3) - within(3), "hashing time without nested work");
            sym::check(nanos(q.time) == sum(0) + sum(1) + sum(2) + sum(4) + sum(5), "time without hashing");
            sym::check(nanos(q.self_time) == want_self(ev, l), "self time");
        }
        let sizes: Vec<u64> = of.iter().filter(|i| ev[**i].kind == 8).map(|i| ev[*i].start).collect();
        let a: Vec<u64> = r.artifact_sizes.iter().filter(|a| a.label == LABELS[l]).map(|a| a.value).collect();
        sym::check(a.len() == !sizes.is_empty() as usize, "one entry per artifact name");
        if !a.is_empty() {
            sym::check(a[0] == sizes.iter().sum::<u64>(), "the values are added up");
            sym::reach("artifact");
        }
    }
    sym::check(r.query_data.len() == rows, "no other rows");
    sym::check(nanos(r.total_time) == overall(ev), "overall time");
}
const TOWER: usize = 200;
fn floor(k: usize) -> String {
    format!("a label that is not all that short, number {}", k)
}
/// Floor k lasts from 10 ns before floor k - 1 to 10 ns after it; the one in the middle ends
/// a millisecond late, and has an interval of any length in that time, too.
fn tower() -> (ProfilingData, u64) {
    let w = sym::range("width", 0, 990_000);
    let d = open(record(|t, put| {
        let kind = t.alloc("Query");
        let id = |l: &str| EventId::from_label(t.alloc(l));
        let mid = 2_000_000;
        for k in 0..TOWER {
            let late = if k >= TOWER / 2 { 1_000_000 } else { 0 };
            if k == TOWER / 2 {
                let from = mid + TOWER as u64 * 10;
                put(RawEvent::new_interval(kind, id("beside"), 3, from, from + w));
            }
            put(RawEvent::new_interval(kind, id(&floor(k)), 3, mid - 10 * k as u64, mid + 10 + 10 * k as u64 + late));
        }
    }).file(9)).unwrap();
    (d, w)
}
/// Two different labels of the kind a program could take for equal.
fn two_labels() -> (&'static str, &'static str) {
    let l = ["q", "q ", " q", "Q", "q\t", "q\n", "qq", "\u{e9}", "e\u{301}", "q\u{a0}", "q,", "\"q\"", "q<T>", "q<U>", "q::q", "mod::q", "q(x)", "0q"];
    match sym::choice("order", 2) {
        0 => (l[0], l[1 + sym::choice("other", l.len() - 1)]),
        _ => {
            let k = sym::choice("first", l.len() - 1);
            (l[k + 1], l[k])
        }
    }
}

sym::harnesses! {
    fn h_c14_shape() {
        // any nesting of intervals on two threads
        let n = if sym::deep() { 5 } else { 4 };
        let ev = intervals(n, time, &[0; 5], 2, 3);
        check_self(&ev);
        if parent(&ev, 0) == Some(1) && parent(&ev, 1) == Some(2) {
            sym::reach("nested twice");
        }
        if parent(&ev, 0) == Some(2) && parent(&ev, 1) == Some(2) {
            sym::reach("two children");
        }
        sym::reach("analysed");
    }
    fn h_c14_deep() {
        // more events, one thread, two of the labels equal
        let n = if sym::deep() { 7 } else { 6 };
        let mut ev = vec![];
        for k in 0..n {
            ev.push(Ev { kind: [0, 1, 4, 5, 2, 0, 1][k], label: [0, 1, 2, 0, 1, 2, 0][k], thread: 3, start: sym::range(&format!("start{}", k), 0, 65535), end: sym::range(&format!("end{}", k), 0, 65535) });
        }
        nest(&ev);
        check_self(&ev);
        sym::reach("analysed");
    }
    fn h_c14_seconds() {
        // times with seconds, in every nanosecond
        let ev = intervals(2, time_carry, &[0; 3], 2, 2);
        check_self(&ev);
        sym::reach("analysed");
    }
    fn h_c14_extremes() {
        // the largest times a profile can hold
        let top = (1u64 << 48) - 3;
        let s = match sym::choice("last_second", 2) {
            0 => sym::range("inner_s", 0, 281_473) * 1_000_000_000 + sym::range("inner_n", 0, 999_999_999),
            _ => 281_474 * 1_000_000_000 + sym::range("inner_n", 0, top - 281_474_000_000_000),
        };
        let ev = [Ev { kind: 0, label: 0, thread: 3, start: s, end: top }, Ev { kind: 0, label: 1, thread: 3, start: 0, end: top }];
        check_self(&ev);
        sym::reach("analysed");
    }
    fn h_c15_kinds() {
        // three events of all kinds
        let n = if sym::deep() { 4 } else { 3 };
        let mut ev = vec![];
        for k in 0..n {
            let kind = sym::choice(&format!("kind{}", k), KINDS.len());
            let label = if k == 0 { 0 } else { sym::choice(&format!("label{}", k), 2) };
            ev.push(Ev { kind, label, thread: 3, start: time(&format!("start{}", k)), end: if kind < 6 { time(&format!("end{}", k)) } else { 0 } });
        }
        nest(&ev);
        check_kinds(&ev, profile(&ev));
        sym::reach("analysed");
    }
    fn h_c15_names() {
        // kinds that are almost, or in the wrong place, one of the predefined ones
        let k = sym::choice("kind", 7);
        let name = ["Query", "GenericActivity", "IncrementalLoadResult", "IncrementalResultHashing", "QueryBlocked", "QueryCacheHit", "ArtifactSize"][k];
        let how = sym::choice("how", 9);
        let odd = match how {
            0 => name.to_string(),
            1 => format!("x{}", name),
            2 => format!("{}x", name),
            3 => name.to_lowercase(),
            4 => name[..name.len() - 1].to_string(),
            5 => name[1..].to_string(),
            6 => format!("{} ", name),
            7 => format!("{}{}", name, name),
            _ => String::new(),
        };
        let shape = sym::choice("shape", 3);
        let kind = match shape {
            0 if how == 0 && k < 5 => k,
            0 => 5,
            1 => if how == 0 && k == 5 { 6 } else { 7 },
            _ => if how == 0 && k == 6 { 8 } else { 9 },
        };
        let start = time("start");
        let mut ev = vec![
            Ev { kind: 2, label: 0, thread: 3, start: 100, end: 200 },
            Ev { kind, label: sym::choice("label", 2), thread: 3, start, end: if shape == 0 { time("end") } else { 0 } },
            Ev { kind: 3, label: 0, thread: 3, start: 0, end: 999_999_994 },
        ];
        nest(&ev);
        check_kinds(&ev, profile_of(&ev, |e| if e.kind == kind && e.start == start { odd.clone() } else { KINDS[e.kind].into() }));
        sym::reach("analysed");
    }
    fn h_c15_seconds() {
        // one interval in another, of all kinds, times with seconds
        let kinds = [sym::choice("kind0", 6), sym::choice("kind1", 6)];
        let ev: Vec<Ev> = (0..2).map(|k| Ev { kind: kinds[k], label: k, thread: 3, start: time_carry(&format!("start{}", k)), end: time_carry(&format!("end{}", k)) }).collect();
        nest(&ev);
        check_kinds(&ev, profile(&ev));
        sym::reach("analysed");
    }
    fn h_c15_artifacts() {
        // artifact sizes of any value
        let n = sym::choice("events", 4);
        let ev: Vec<Ev> = (0..n)
            .map(|k| Ev { kind: 8, label: sym::choice(&format!("label{}", k), 3), thread: 3, start: sym::range(&format!("value{}", k), 0, (1 << 48) - 1), end: 0 })
            .collect();
        let r = profile(&ev).perform_analysis();
        for l in 0..3 {
            let a: Vec<u64> = r.artifact_sizes.iter().filter(|a| a.label == LABELS[l]).map(|a| a.value).collect();
            let of: Vec<u64> = ev.iter().filter(|e| e.label == l).map(|e| e.start).collect();
            sym::check(a.len() == !of.is_empty() as usize, "one entry per artifact name");
            if !a.is_empty() {
                sym::check(of.iter().sum::<u64>() == a[0], "the values are added up");
            }
        }
        sym::check(r.query_data.is_empty() && r.total_time == Duration::ZERO, "artifacts take no time");
        sym::reach("analysed");
    }
    fn h_c15_labels() {
        // two labels that look almost the same
        let (a, b) = two_labels();
        let v = sym::range("value", 0, 99_999);
        let w = sym::range("width", 1, 99_999);
        let d = open(record(|t, put| {
            let id = |l: &str| EventId::from_label(t.alloc(l));
            let k = |k: &str| t.alloc(k);
            put(RawEvent::new_interval(k("Query"), id(a), 3, 2_000, 2_100));
            put(RawEvent::new_interval(k("GenericActivity"), id(b), 3, 1_000, 101_000 + w));
            put(RawEvent::new_instant(k("QueryCacheHit"), id(b), 3, 200_000));
            put(RawEvent::new_interval(k("QueryBlocked"), id(b), 3, 300_000, 300_007));
            put(RawEvent::new_interval(k("IncrementalLoadResult"), id(a), 3, 400_000, 400_011));
            put(RawEvent::new_interval(k("IncrementalResultHashing"), id(b), 3, 500_000, 500_013));
            put(RawEvent::new_integer(k("ArtifactSize"), id(a), 3, v));
            put(RawEvent::new_integer(k("ArtifactSize"), id(b), 3, w));
            put(RawEvent::new_integer(k("ArtifactSize"), id(a), 3, 5));
        }).file(9)).unwrap();
        let r = d.perform_analysis();
        sym::check(r.query_data.len() == 2 && r.artifact_sizes.len() == 2, "an entry for each of two different labels");
        let of = |l: &str| r.query_data.iter().find(|q| q.label == l);
        let size = |l: &str| r.artifact_sizes.iter().find(|q| q.label == l).map(|a| a.value);
        sym::check(size(a) == Some(v + 5) && size(b) == Some(w), "the sizes of each");
        match (of(a), of(b)) {
            (Some(x), Some(y)) => {
                sym::check(nanos(x.self_time) == 111 && nanos(y.self_time) == 100_000 + w - 100 + 20, "self times");
                sym::check(nanos(x.time) == 111 && nanos(y.time) == 100_000 + w + 7, "times");
                sym::check((x.invocation_count, x.number_of_cache_hits, x.number_of_cache_misses) == (1, 0, 1), "counts of the one");
                sym::check((y.invocation_count, y.number_of_cache_hits, y.number_of_cache_misses) == (3, 1, 1), "counts of the other");
                sym::check(nanos(x.incremental_load_time) == 11 && nanos(y.incremental_load_time) == 0, "load times");
                sym::check(nanos(x.incremental_hashing_time) == 0 && nanos(y.incremental_hashing_time) == 13, "hashing times");
                sym::check(nanos(x.blocked_time) == 0 && nanos(y.blocked_time) == 7, "blocked times");
            }
            _ => sym::check(false, "each label as it was recorded"),
        }
        sym::reach("analysed");
    }
    fn h_c14_tower() {
        // two hundred intervals, each in the next one, beside one of any length
        let (d, w) = tower();
        let r = d.perform_analysis();
        sym::check(r.query_data.len() == TOWER + 1, "one row per label");
        for q in &r.query_data {
            let own = if q.label == "beside" { w } else if q.label == floor(0) { 10 } else { 20 };
            let own = if q.label == floor(TOWER / 2) { 1_000_020 - w } else { own };
            sym::check(nanos(q.self_time) == own, "self time is the duration minus the direct children");
        }
        sym::check(nanos(r.total_time) == 20 * TOWER as u64 - 10 + 1_000_000, "overall time is the span of the thread");
        sym::reach("analysed");
    }
    fn h_c16_tower() {
        // two hundred intervals, each in the next one, beside one of any length
        let (d, w) = tower();
        let got = collapse_stacks(&d);
        sym::check(got.len() == TOWER + 2, "one entry per chain");
        let mut name = String::from("rustc");
        sym::check(got.get(&name) == Some(&0), "the root holds the gaps");
        for k in (0..TOWER).rev() {
            name.push(';');
            name.push_str(&floor(k));
            let own = if k == 0 { 10 } else if k == TOWER / 2 { 1_000_020 - w } else { 20 };
            sym::check(got.get(&name) == Some(&own), "a chain has the self time of its innermost events");
            if k == TOWER / 2 {
                sym::check(got.get(&(name.clone() + ";beside")) == Some(&w), "the one beside");
            }
        }
        sym::reach("collapsed");
    }
    fn h_c16_labels() {
        // two labels that look almost the same
        let (a, b) = two_labels();
        let w = sym::range("width", 1, 99_999);
        let d = open(record(|t, put| {
            let id = |l: &str| EventId::from_label(t.alloc(l));
            let k = t.alloc("Query");
            put(RawEvent::new_interval(k, id(a), 3, 2_000, 2_100));
            put(RawEvent::new_interval(k, id(b), 3, 1_000, 101_000 + w));
            put(RawEvent::new_interval(k, id(a), 3, 300_000, 300_000 + w));
        }).file(9)).unwrap();
        let got = collapse_stacks(&d);
        sym::check(got.len() == 4, "one entry per chain");
        sym::check(got.get("rustc") == Some(&(199_000 - w)), "the root holds the gaps");
        sym::check(got.get(&format!("rustc;{}", b)) == Some(&(99_900 + w)), "the outer one");
        sym::check(got.get(&format!("rustc;{};{}", b, a)) == Some(&100), "the inner one");
        sym::check(got.get(&format!("rustc;{}", a)) == Some(&w), "the other one");
        sym::reach("collapsed");
    }
    fn h_c16_shape() {
        let n = if sym::deep() { 5 } else { 4 };
        let ev = intervals(n, time, &[0; 5], 2, 3);
        check_stacks(&ev);
        if parent(&ev, 0) == Some(1) && parent(&ev, 1) == Some(2) {
            sym::reach("nested twice");
        }
        sym::reach("collapsed");
    }
    fn h_c16_seconds() {
        // times with seconds, in every nanosecond
        let ev = intervals(2, time_carry, &[0; 3], 2, 2);
        check_stacks(&ev);
        sym::reach("collapsed");
    }
    fn h_c16_extremes() {
        // the largest times a profile can hold
        let top = (1u64 << 48) - 3;
        let s = match sym::choice("last_second", 2) {
            0 => sym::range("inner_s", 0, 281_473) * 1_000_000_000 + sym::range("inner_n", 0, 999_999_999),
            _ => 281_474 * 1_000_000_000 + sym::range("inner_n", 0, top - 281_474_000_000_000),
        };
        let ev = [Ev { kind: 0, label: 0, thread: 3, start: s, end: top }, Ev { kind: 0, label: 1, thread: 3, start: 0, end: top }];
        check_stacks(&ev);
        sym::reach("collapsed");
    }
    fn h_c16_deep() {
        let n = if sym::deep() { 7 } else { 6 };
        let mut ev = vec![];
        for k in 0..n {
            ev.push(Ev { kind: [0, 1, 4, 5, 2, 3, 0][k], label: [0, 1, 2, 0, 1, 2, 0][k], thread: 3, start: time(&format!("start{}", k)), end: time(&format!("end{}", k)) });
        }
        nest(&ev);
        check_stacks(&ev);
        sym::reach("collapsed");
    }
    fn h_c16_others() {
        // instants and integers between the intervals
        let mut ev = vec![];
        for k in 0..3 {
            let kind = [0, 6, 8][sym::choice(&format!("kind{}", k), 3)];
            let thread = if k == 0 { 3 } else { [3, 0xee00_0003][sym::choice(&format!("thread{}", k), 2)] };
            ev.push(Ev { kind, label: k, thread, start: time(&format!("start{}", k)), end: if kind == 0 { time(&format!("end{}", k)) } else { 0 } });
        }
        nest(&ev);
        check_stacks(&ev);
        sym::reach("collapsed");
    }
}
