//! C21: aggregated profiles.
use crate::tool::*;
use measureme::{EventId, RawEvent};
use std::collections::BTreeMap;

/// A point of the program's run: what happens there, and the time in each profile.
#[derive(Clone, Debug, PartialEq)]
enum Point {
    Start(usize),
    End(usize),
    Instant(usize),
}
/// An event: label with arguments, perhaps after a kind; enclosing event.
type Shape<'a> = (&'a [(&'static str, Option<usize>)], &'a [Point]);
use Point::*;

fn parts(e: &'static str) -> (&'static str, &'static str) {
    match e.find('|') {
        Some(k) => (&e[..k], &e[k + 1..]),
        None => ("Query", e),
    }
}
fn write(path: &str, shape: Shape, times: &[u64]) {
    write_as(path, shape, times, |_| 42, |k| k);
}
fn write_as(path: &str, (events, points): Shape, times: &[u64], thread: impl Fn(usize) -> u32, kind: impl Fn(&'static str) -> &'static str) {
    let p = record(META, |t, put| {
        let mut start = vec![0; events.len()];
        for (p, &now) in points.iter().zip(times) {
            let label = |e: usize| EventId::from_label(t.alloc(parts(events[e].0).1));
            let kind = |e: usize| t.alloc(kind(parts(events[e].0).0));
            match *p {
                Start(e) => start[e] = now,
                End(e) => {
                    put(RawEvent::new_interval(kind(e), label(e), thread(e), start[e], now));
                    // integers are not part of it
                    put(RawEvent::new_integer(t.alloc("ArtifactSize"), label(e), 7, now));
                }
                Instant(e) => put(RawEvent::new_instant(kind(e), label(e), thread(e), now)),
            }
        }
    });
    std::fs::write(format!("{}.mm_profdata", path), &p.file()).unwrap();
}
/// What stands for the interval from a point to the next when there is only one such.
fn describe((events, points): Shape, k: usize) -> String {
    let name = |e: usize| {
        let (kind, label) = parts(events[e].0);
        let mut args = label.split('\x1e');
        let label = args.next().unwrap();
        let kind = if kind == "Query" || kind == "GenericActivity" { String::new() } else { format!("{} ", kind) };
        format!("{}`{}({})`", kind, label, args.collect::<Vec<_>>().join(", "))
    };
    let parent = |e: usize| events[e].1.map(name);
    match (&points[k], &points[k + 1]) {
        (Start(a), End(_)) => name(*a),
        (Start(a), Start(b)) | (Start(a), Instant(b)) => format!("in {}, before {}", name(*a), name(*b)),
        (End(b), End(a)) | (Instant(b), End(a)) => format!("in {}, after {}", name(*a), name(*b)),
        (End(a), Start(b)) | (End(a), Instant(b)) | (Instant(a), Start(b)) | (Instant(a), Instant(b)) => match parent(*a) {
            Some(p) => format!("in {},\n    between {}\n        and {}\n", p, name(*a), name(*b)),
            None => format!("between {} and {}", name(*a), name(*b)),
        },
    }
}
fn run(profiles: &[&str]) -> Vec<u8> {
    sym::stdout_to("printed");
    let mut a = vec!["summarize", "aggregate"];
    a.extend_from_slice(profiles);
    sym::args(&a);
    sym::check(crate::main().is_ok(), "the command succeeds");
    std::fs::read("printed").unwrap()
}
/// The values with how often they occur and where, the ten extreme ones.
fn extremes(v: &[u64], shape: Shape, largest: bool) -> Vec<(u64, String)> {
    let mut m: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
    for (k, &x) in v.iter().enumerate() {
        m.entry(x).or_default().push(k);
    }
    let mut all: Vec<(u64, String)> = m
        .into_iter()
        .map(|(x, at)| {
            let d = if at.len() == 1 {
                describe(shape, at[0])
            } else {
                format!("{} occurrences, or {:.2}%", at.len(), at.len() as f64 / v.len() as f64 * 100.0)
            };
            (x, d)
        })
        .collect();
    let n = all.len().min(10);
    if largest {
        all.drain(..all.len() - n);
    } else {
        all.truncate(n);
    }
    all
}
/// Everything that is to be printed.
fn expected(shape: Shape, times: &[Vec<u64>]) -> String {
    let n = shape.1.len() - 1;
    let of = |t: &Vec<u64>, k: usize| t[k + 1] - t[k];
    let min: Vec<u64> = (0..n).map(|k| times.iter().map(|t| of(t, k)).min().unwrap()).collect();
    let max: Vec<u64> = (0..n).map(|k| times.iter().map(|t| of(t, k)).max().unwrap()).collect();
    let spread: Vec<u64> = (0..n).map(|k| sym::concrete(max[k] - min[k])).collect();
    let mut out = String::new();
    for (what, values, largest) in [("Smallest", &min, false), ("Largest", &max, true)].iter().copied() {
        let e = extremes(values, shape, largest);
        out += &format!("{} {} durations:\n", what, e.len());
        for (x, d) in e {
            out += &format!("  {} ns: {}\n", x as u128, d);
        }
        out += "\n";
    }
    for (what, largest) in [("Smallest", false), ("Largest", true)].iter().copied() {
        let e = extremes(&spread, shape, largest);
        out += &format!("{} {} variances:\n", what, e.len());
        for (x, d) in e {
            let half = if x % 2 == 1 { ".5" } else { "" };
            out += &format!("  ±{}{} ns: {}\n", x / 2, half, d);
        }
        if !largest {
            out += "\n";
        }
    }
    out
}
fn agrees(shape: Shape, times: &[Vec<u64>]) {
    let names = ["p", "q", "r"];
    for (k, t) in times.iter().enumerate() {
        write(names[k], shape, t);
    }
    let out = run(&names[..times.len()]);
    let want = expected(shape, times);
    sym::check(out.len() == want.len() && same(&out, want.as_bytes()), "the extremes over all profiles, and where they are");
}

sym::harnesses! {
    fn h_c21_shapes() {
        // which interval is meant: every way two points follow each other
        let shapes: [Shape; 5] = [
            (&[("a", None), ("b", Some(0)), ("c", Some(0)), ("d", None)], &[Start(0), Start(1), End(1), Start(2), End(2), End(0), Start(3), End(3)]),
            (&[("GenericActivity|a", None), ("QueryCacheHit|b", Some(0)), ("Odd|c", Some(0)), ("d\x1ex", None)], &[Start(0), Instant(1), Instant(2), End(0), Instant(3)]),
            (&[("a", None), ("b", Some(0)), ("c", Some(0)), ("d", Some(0))], &[Start(0), Start(1), End(1), Instant(2), Start(3), End(3), End(0)]),
            (&[("a", None), ("b", None), ("c", None), ("d", None)], &[Instant(0), Instant(1), Start(2), End(2), Instant(3)]),
            (&[("QueryBlocked|a", None), ("b\x1ex\x1ey", Some(0)), ("c", Some(1)), ("QueryCacheHit|d\x1e1\x1e2", Some(2))], &[Start(0), Start(1), Start(2), Instant(3), End(2), End(1), End(0)]),
        ];
        let shape = shapes[sym::choice("shape", 5)];
        // spacings that differ everywhere; another spacing at one place
        let at = sym::choice("at", shape.1.len() - 1);
        // within a second, across its end, longer than 32 bits of nanoseconds
        // nothing at all, and differences of more than 24 bits
        let form = sym::choice("base", 8);
        let (base, gap, grown) = [(500, 0, 0), (500, 0, 4), (922_999_999_400, 0, 9), (500, 77_000_000_000, 1), (500, 0, 40_000_001), (500, 0, 9_000_000_003), (500, 0, 0), (500, 0, 7)][form];
        // (an instant where an event starts is in the event)
        let ambiguous = matches!((&shape.1[at], &shape.1[at + 1]), (Instant(_), Start(_)));
        let more = if form < 2 {
            sym::range("more", 100, 999)
        } else if form < 4 {
            sym::concrete(sym::range("more", 594, 596))
        } else if form < 6 || ambiguous {
            100
        } else {
            0
        };
        let flip = if form > 3 { sym::choice("flip", 2) as u64 } else { 0 };
        let times: Vec<Vec<u64>> = (0..2u64)
            .map(|p| {
                let mut now = base + p * 77;
                let mut t = vec![];
                for k in 0..shape.1.len() {
                    t.push(now);
                    now += if k == at { more + (p ^ flip) * grown + gap } else { 120 + 11 * k as u64 + (p ^ 1) * (20 - 2 * k as u64) };
                }
                t
            })
            .collect();
        agrees(shape, &times);
        sym::reach("end");
    }
    fn h_c21_ten() {
        // more values than are shown, one of them anywhere between them
        let events: [(&'static str, Option<usize>); 13] = [("a", None), ("b", None), ("c", None), ("d", None), ("e", None), ("f", None), ("g", None), ("h", None), ("i", None), ("j", None), ("k", None), ("l", None), ("m", None)];
        let points: Vec<Point> = (0..13).map(Instant).collect();
        let any = sym::range("any", 100, 400);
        let at = [0, 5, 11][sym::choice("at", 3)];
        let step = [20, 0][sym::choice("step", 2)];
        let delta = [0, 3, 30][sym::choice("delta", 3)];
        let times: Vec<Vec<u64>> = (0..3u64)
            .map(|p| {
                let mut now = 1000;
                let mut t = vec![];
                for k in 0..13u64 {
                    t.push(now);
                    now += if k == at {
                        any + [0, delta, 1][p as usize]
                    } else if k % 2 == 0 {
                        110 + step * k + p * k
                    } else {
                        110 + step * (12 - k) + p * p
                    };
                }
                t
            })
            .collect();
        agrees((&events, &points), &times);
        sym::reach("end");
    }
    fn h_c21_refused() {
        // profiles of different programs
        let base: Shape = (&[("a", None), ("b", Some(0))], &[Start(0), Start(1), End(1), End(0)]);
        write("p", base, &[10, 20, 30, 40]);
        let other = sym::choice("other", 10);
        match other {
            0 => write("q", (&[("a", None), ("c", Some(0))], &[Start(0), Start(1), End(1), End(0)]), &[10, 20, 30, 40]),
            1 => write("q", (&[("a", None), ("b", None)], &[Start(0), End(0), Start(1), End(1)]), &[10, 20, 30, 40]),
            2 => write("q", (&[("a", None)], &[Start(0), End(0)]), &[10, 20]),
            3 => write("q", (&[("z", None), ("a", None), ("b", Some(1))], &[Start(0), End(0), Start(1), Start(2), End(2), End(1)]), &[1, 2, 10, 20, 30, 40]),
            4 => write_as("q", base, &[10, 20, 30, 40], |_| 42, |_| "Other"),
            5 => write_as("q", base, &[10, 20, 30, 40], |e| e as u32, |k| k),
            // other arguments, of one or both
            6 => write("q", (&[("a", None), ("b\x1ex", Some(0))], base.1), &[10, 20, 30, 40]),
            7 => write("q", (&[("a\x1ex", None), ("b", Some(0))], base.1), &[10, 20, 30, 40]),
            _ => {
                let with: Shape = (&[("a\x1ex\x1ey", None), ("b\x1ex\x1ey\x1ez", Some(0))], base.1);
                write("p", with, &[10, 20, 30, 40]);
                if other == 8 {
                    write("q", (&[("a\x1ex\x1ey", None), ("b\x1ex\x1ey\x1e0", Some(0))], base.1), &[10, 20, 30, 40])
                } else {
                    write("q", (&[("a\x1ex\x1e", None), ("b\x1ex\x1ey\x1ez", Some(0))], base.1), &[10, 20, 30, 40])
                }
            }
        }
        // also when others agree with the first
        let orders: [&[&str]; 5] = [&["p", "q"], &["q", "p"], &["p", "p", "q"], &["p", "q", "p"], &["p", "p", "p", "q"]];
        let mut args = vec!["summarize", "aggregate"];
        args.extend_from_slice(orders[sym::choice("order", 5)]);
        sym::args(&args);
        sym::reach("refused");
        sym::panic_iff(true);
        let _ = crate::main();
        sym::no_panic();
    }
}
