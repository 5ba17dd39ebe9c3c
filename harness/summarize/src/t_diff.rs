//! C19: differences. C20: signed durations.
use crate::diff::{calculate_diff, SignedDuration};
use crate::jsontext::{parse, J};
use crate::table::read;
use crate::tool::*;
use analyzeme::{AnalysisResults, ArtifactSize, QueryData};
use measureme::{EventId, RawEvent};
use std::cmp::Ordering;
use std::time::Duration;

/// Any duration of up to `secs` seconds.
fn any_duration(name: &str, secs: u64) -> Duration {
    Duration::new(sym::range(&format!("{}_s", name), 0, secs), sym::range(&format!("{}_n", name), 0, 999_999_999) as u32)
}
fn nanos(d: Duration) -> i128 {
    d.as_nanos() as i128
}
fn query(name: &str, label: &str, secs: u64) -> QueryData {
    let count = |f: &str| sym::range(&format!("{}_{}", name, f), 0, 1 << 40) as usize;
    let time = |f: &str| any_duration(&format!("{}_{}", name, f), secs);
    let mut q = QueryData::new(label.to_string());
    q.time = time("time");
    q.self_time = time("self");
    q.number_of_cache_misses = count("misses");
    q.number_of_cache_hits = count("hits");
    q.invocation_count = count("count");
    q.blocked_time = time("blocked");
    q.incremental_load_time = time("load");
    q.incremental_hashing_time = time("hashing");
    q
}
fn results(query_data: Vec<QueryData>, artifact_sizes: Vec<ArtifactSize>, total_time: Duration) -> AnalysisResults {
    AnalysisResults { query_data, artifact_sizes, total_time }
}
fn zero(l: &str) -> QueryData {
    QueryData::new(l.to_string())
}
fn times(q: &QueryData) -> [Duration; 5] {
    [q.time, q.self_time, q.blocked_time, q.incremental_load_time, q.incremental_hashing_time]
}
fn counts(q: &QueryData) -> [usize; 3] {
    [q.number_of_cache_misses, q.number_of_cache_hits, q.invocation_count]
}
const WHAT: [&str; 5] = ["time", "self time", "blocked time", "load time", "hashing time"];
fn minus(d: Duration) -> SignedDuration {
    SignedDuration { duration: d, is_positive: false }
}
/// `is` stands for change minus base, in the only way to write it.
fn is_difference(is: &SignedDuration, base: Duration, change: Duration, what: &str) {
    let (b, c) = (nanos(base), nanos(change));
    sym::check(is.as_nanos() == c - b, &format!("{}: change minus base", what));
    sym::check(is.is_positive == (c >= b), &format!("{}: the sign", what));
}

sym::harnesses! {
    fn h_c19_labels() {
        // each of three labels in neither, one or both, in any order
        let in_base = sym::choice("in_base", 8);
        let in_change = sym::choice("in_change", 8);
        let swap = sym::choice("swap", 2) == 1;
        let n = [["one", "two", "three"], ["q", "q ", "Q"], [" q", "\u{e9}", "e\u{301}"], ["q<T>", "q", "q\t"]][sym::choice("names", 4)];
        let side = |name: &str, set: usize| -> Vec<QueryData> {
            let mut v = vec![];
            for i in 0..3 {
                if set & (1 << i) != 0 {
                    let mut q = zero(n[i]);
                    q.self_time = Duration::from_nanos(((i + 1) * if name == "base" { 10 } else { 1000 }) as u64);
                    q.invocation_count = sym::any_u32(&format!("{}_count{}", name, i)) as usize;
                    q.blocked_time = any_duration(&format!("{}_blocked{}", name, i), 3);
                    v.push(q);
                }
            }
            if swap && name == "base" {
                v.reverse();
            }
            v
        };
        let (b, c) = (side("base", in_base), side("change", in_change));
        let (tb, tc) = (any_duration("total_base", 9), any_duration("total_change", 9));
        let art = |v: &Vec<QueryData>| v.iter().map(|q| ArtifactSize { label: q.label.clone() + "_size", value: q.invocation_count as u64 }).collect::<Vec<_>>();
        let d = calculate_diff(results(b.clone(), art(&b), tb), results(c.clone(), art(&c), tc));
        sym::check(d.query_data.len() == (in_base | in_change).count_ones() as usize, "one entry per label");
        sym::check(d.artifact_sizes.len() == (in_base | in_change).count_ones() as usize, "one size per label");
        let none = zero("");
        for i in 0..3 {
            let e: Vec<_> = d.query_data.iter().filter(|q| q.label == n[i]).collect();
            let a: Vec<_> = d.artifact_sizes.iter().filter(|q| q.label == format!("{}_size", n[i])).collect();
            let there = (in_base | in_change) & (1 << i) != 0;
            sym::check(e.len() == there as usize && a.len() == there as usize, "an entry for exactly the labels of either");
            if !there {
                continue;
            }
            let (b, c) = (b.iter().find(|q| q.label == n[i]).unwrap_or(&none), c.iter().find(|q| q.label == n[i]).unwrap_or(&none));
            is_difference(&e[0].self_time, b.self_time, c.self_time, "self time of the label");
            is_difference(&e[0].blocked_time, b.blocked_time, c.blocked_time, "blocked time of the label");
            sym::check(e[0].invocation_count == c.invocation_count as i64 - b.invocation_count as i64, "the label's count");
            sym::check(a[0].size_change == c.invocation_count as i64 - b.invocation_count as i64, "the size's change");
            sym::reach("label");
        }
        is_difference(&d.total_time, tb, tc, "total time");
    }
    fn h_c19_values() {
        // every quantity of one label, in either or both
        let place = sym::choice("place", 3);
        let secs = 300_000;
        let (b, c) = (query("base", "label", secs), query("change", "label", secs));
        let d = calculate_diff(
            results(if place != 1 { vec![b.clone()] } else { vec![] }, vec![], Duration::from_nanos(0)),
            results(if place != 0 { vec![c.clone()] } else { vec![] }, vec![], Duration::from_nanos(0)),
        );
        let (b, c) = (if place != 1 { b } else { zero("") }, if place != 0 { c } else { zero("") });
        let e = &d.query_data[0];
        let t = [&e.time, &e.self_time, &e.blocked_time, &e.incremental_load_time, &e.incremental_hashing_time];
        for k in 0..5 {
            is_difference(t[k], times(&b)[k], times(&c)[k], WHAT[k]);
        }
        let n = [e.number_of_cache_misses, e.number_of_cache_hits, e.invocation_count];
        for k in 0..3 {
            sym::check(n[k] == counts(&c)[k] as i64 - counts(&b)[k] as i64, ["cache misses", "cache hits", "invocations"][k]);
        }
        sym::reach("compared");
    }
    fn h_c20_arithmetic() {
        let (a, b) = (any_duration("a", 1 << 31), any_duration("b", 1 << 31));
        let zero = SignedDuration::from(Duration::from_nanos(0));
        let (na, nb) = (nanos(a), nanos(b));
        let (pa, pb) = (SignedDuration::from(a), SignedDuration::from(b));
        sym::check(pa.as_nanos() == na, "a duration stands for its nanoseconds");
        let d = pa - pb;
        sym::check(d.as_nanos() == na - nb, "subtraction");
        sym::check(d.is_positive == (na >= nb), "the sign of a difference");
        let m = zero - pb;
        sym::check(m.as_nanos() == -nb, "negation");
        sym::check(m.is_positive == (nb == 0), "the sign of a negative one");
        sym::reach("end");
    }
    fn h_c20_signs() {
        // a difference of any signs
        let (a, b) = (any_duration("a", 1 << 31), any_duration("b", 1 << 31));
        let (na, nb) = (nanos(a), nanos(b));
        let (x, nx, y, ny) = match sym::choice("signs", 3) {
            0 => (SignedDuration::from(a), na, minus(b), -nb),
            1 => (minus(a), -na, SignedDuration::from(b), nb),
            _ => (minus(a), -na, minus(b), -nb),
        };
        let d = x - y;
        sym::check(d.as_nanos() == nx - ny, "subtraction");
        sym::check(d.is_positive == (nx >= ny), "the sign of a difference");
        sym::reach("end");
    }
    fn h_c20_order() {
        // differences of any durations, compared
        let v: Vec<(SignedDuration, i128)> = (0..2)
            .map(|k| {
                // around the largest and smallest there are, too
                let far = Duration::from_secs([0, 9_223_372_036, 18_446_744_072][sym::choice(&format!("far{}", k), 3)]);
                if far > Duration::ZERO {
                    let d = far + Duration::from_nanos(sym::range(&format!("a{}", k), 0, 999_999_999));
                    let down = sym::choice(&format!("down{}", k), 2) == 1;
                    let (p, zero) = (SignedDuration::from(d), SignedDuration::from(Duration::ZERO));
                    return if down { (zero - p, -nanos(d)) } else { (p, nanos(d)) };
                }
                let (a, b) = (any_duration(&format!("a{}", k), 1 << 20), any_duration(&format!("b{}", k), 1 << 20));
                (SignedDuration::from(a) - SignedDuration::from(b), nanos(a) - nanos(b))
            })
            .collect();
        let ((x, nx), (y, ny)) = (v[0], v[1]);
        let o = x.cmp(&y);
        sym::check((o == Ordering::Less) == (nx < ny), "less");
        sym::check((o == Ordering::Equal) == (nx == ny), "neither less nor greater");
        sym::check((x == y) == (nx == ny), "equal");
        sym::check(x.partial_cmp(&y) == Some(o), "comparison operators");
        sym::reach("end");
    }
    fn h_c19_output() {
        // what is printed for each of three labels that is in one or both of the profiles
        let places: Vec<usize> = (0..3).map(|k| sym::choice(&format!("place{}", k), 4)).collect();
        let values = [[(1_000, 1_500), (20_000_000, 20_000_001), (7, 3)], [(400, 100), (300, 300), (90, 500)], [(2_000_000_000, 1), (1, 2_000_000_000), (0, 0)]][sym::choice("values", 3)];
        let n = ["alpha", "beta", "alphabet"];
        let sizes = [[3, 70], [6_000_000_000, 0], [44, 44]];
        let write = |path: &str, side: usize| {
            let p = record(META, |t, put| {
                let mut now = 1_000;
                for i in 0..3 {
                    if places[i] & (1 << side) == 0 {
                        continue;
                    }
                    let l = EventId::from_label(t.alloc(n[i]));
                    let d = if side == 0 { values[i].0 } else { values[i].1 };
                    let kinds = [["Query", "QueryCacheHit"], ["GenericActivity", "QueryBlocked"], ["IncrementalLoadResult", "IncrementalResultHashing"]][i];
                    put(RawEvent::new_interval(t.alloc(kinds[0]), l, 42, now, now + d));
                    now += d;
                    for _ in 0..1 + side {
                        put(if i == 0 { RawEvent::new_instant(t.alloc(kinds[1]), l, 42, now) } else { RawEvent::new_interval(t.alloc(kinds[1]), l, 42, now, now + 10) });
                        now += if i == 0 { 0 } else { 10 };
                    }
                    put(RawEvent::new_integer(t.alloc("ArtifactSize"), EventId::from_label(t.alloc(&format!("{}_size", n[i])[..])), 42, sizes[i][side]));
                }
            });
            std::fs::write(format!("{}.mm_profdata", path), &p.file()).unwrap();
        };
        write("p", 0);
        write("q", 1);
        let options: [&[&str]; 4] = [&[], &["--exclude", "alphab"], &["-e", "bet"], &["-e", "beta", "--exclude", "pha"]];
        let e = sym::choice("exclude", 4);
        let excluded: [&[&str]; 4] = [&[], &["alphab"], &["bet"], &["beta", "pha"]];
        let mut a = vec!["summarize", "diff", "p", "q"];
        a.extend_from_slice(options[e]);
        let out = crate::t_summary::run(&a);
        let (tables, lines) = read(&out);
        let shown: Vec<usize> = (0..3).filter(|&i| places[i] > 0 && !excluded[e].iter().any(|x| n[i].contains(x))).collect();
        let signed = |d: i64| format!("{}{:?}", if d < 0 { "-" } else { "+" }, Duration::from_nanos(d.abs() as u64));
        // per label: the time, self time, hits, blocked, load and hashing times of base and change
        let of = |i: usize, side: usize| -> [i64; 7] {
            if places[i] & (1 << side) == 0 {
                return [0; 7];
            }
            let d = (if side == 0 { values[i].0 } else { values[i].1 }) as i64;
            let k = 1 + side as i64;
            match i {
                0 => [d, d, 1 + k, k, 0, 0, 0],
                1 => [d + 10 * k, d + 10 * k, 1 + k, 0, 10 * k, 0, 0],
                _ => [d, d + 10 * k, 0, 0, 0, d, 10 * k],
            }
        };
        let rows = &tables[0];
        sym::check(rows.len() == 1 + shown.len(), "a row for each label that is not excluded");
        let mut last = None;
        for r in &rows[1..] {
            let i = shown.iter().copied().find(|&i| r[0] == n[i]);
            sym::check(i.is_some() && r.len() == 10, "a row of a label");
            let i = i.unwrap();
            let (b, c) = (of(i, 0), of(i, 1));
            let d = |k: usize| c[k] - b[k];
            sym::check(r[1] == signed(d(1)) && r[3] == signed(d(0)), "the differences of the times");
            for (k, at) in [(1, 2), (0, 4)].iter().copied() {
                if b[k] != 0 {
                    let w = format!("{:+.2}%", (c[k] - b[k]) as f64 / b[k] as f64 * 100.0);
                    sym::check(r[at] == w || (d(k) == 0 && r[at] == "-0.00%"), "their share of the base");
                }
            }
            sym::check(r[5] == format!("{:+}", d(2)) && r[6] == format!("{:+}", d(3)), "the differences of the counts");
            sym::check(r[7] == signed(d(4)) && r[8] == signed(d(5)) && r[9] == signed(d(6)), "the differences of the other times");
            if let Some(l) = last {
                sym::check(d(1).abs() <= l, "largest change of self time first");
            }
            last = Some(d(1).abs());
            sym::reach("row");
        }
        let total = |side: usize| (0..3).map(|i| of(i, side)).map(|v| v[1]).sum::<i64>();
        let wanted = format!("Total cpu time: {}", signed(total(1) - total(0)));
        sym::check(lines.iter().any(|l| *l == wanted), "the difference of the total times");
        let s = &tables[1];
        let shown: Vec<usize> = (0..3).filter(|&i| places[i] > 0 && !excluded[e].iter().any(|x| format!("{}_size", n[i]).contains(x))).collect();
        sym::check(s.len() == 1 + shown.len(), "a row for each artifact that is not excluded");
        for &i in &shown {
            let v = |side: usize| if places[i] & (1 << side) != 0 { sizes[i][side] as i64 } else { 0 };
            let w = format!("{} bytes", v(1) - v(0));
            sym::check(s[1..].iter().filter(|r| r[0] == format!("{}_size", n[i]) && r[1] == w).count() == 1, "the difference of the sizes");
        }
    }
    fn h_c19_json() {
        // the same as JSON
        let secs = sym::range("secs", 0, 9);
        let (b, c) = (sym::range("base", 100_000_000, 100_000_015), [1_000_000, 700_000_000][sym::choice("change", 2)]);
        let both = sym::choice("both", 3);
        let write = |path: &str, d: u64, there: bool| {
            let p = record(META, |t, put| {
                put(RawEvent::new_interval(t.alloc("Query"), EventId::from_label(t.alloc("always")), 42, 0, 5));
                if there {
                    put(RawEvent::new_interval(t.alloc("Query"), EventId::from_label(t.alloc("label")), 42, 5, 5 + d));
                }
            });
            std::fs::write(format!("{}.mm_profdata", path), &p.file()).unwrap();
        };
        let (b, c) = (b, c + sym::concrete(secs) * 1_000_000_000);
        write("p", b, both != 1);
        write("q", c, both != 0);
        // the share is a float
        let b = if both == 2 { sym::concrete(b) } else { b };
        crate::t_summary::run(&["summarize", "diff", "p", "q", "--json"]);
        let j = parse(&std::fs::read("q.json").unwrap());
        sym::check(j.is_some(), "well-formed JSON");
        let j = j.unwrap();
        let q = j.get("query_data").map_or(&[][..], |q| q.items());
        sym::check(q.len() == 2, "an entry for each label");
        let (b, c) = (if both != 1 { b } else { 0 }, if both != 0 { c } else { 0 });
        let is = |t: Option<&J>, b: u64, c: u64| {
            let t = t.unwrap();
            let d = t.get("duration").unwrap();
            let v = if c >= b { c - b } else { b - c };
            let (s, n) = (serde_json::to_vec(&(v / 1_000_000_000)).unwrap(), serde_json::to_vec(&(v % 1_000_000_000)).unwrap());
            matches!(t.get("is_positive"), Some(J::Bool(p)) if *p == (c >= b)) && same(d.num("secs").unwrap(), &s) && same(d.num("nanos").unwrap(), &n)
        };
        let e = q.iter().find(|e| e.str("label") == Some(b"label")).unwrap();
        sym::check(is(e.get("self_time"), b, c) && is(e.get("time"), b, c), "the times of the label");
        sym::check(is(j.get("total_time"), b, c), "the total time");
        let a = q.iter().find(|e| e.str("label") == Some(b"always")).unwrap();
        sym::check(is(a.get("self_time"), 0, 0) && a.num("invocation_count") == Some(b"0"), "no difference");
        sym::reach("read");
    }
    fn h_c20_printed() {
        // the sign that is printed, of every difference of two values around the carries
        let v = [0, 1, 999, 1_000, 1_001, 999_999_999, 1_000_000_000, 1_000_000_001, 86_400_000_000_001, 9_223_372_036_854_775_807u64];
        let (a, b) = (v[sym::choice("a", 10)], v[sym::choice("b", 10)]);
        let s = |n: u64| SignedDuration::from(Duration::from_nanos(n));
        let d = s(a) - s(b);
        let (want, n) = if a >= b { ("+", a - b) } else { ("-", b - a) };
        sym::check(format!("{:?}", d) == format!("{}{:?}", want, Duration::from_nanos(n)), "sign and magnitude are printed");
        sym::check(format!("{:?}", s(a)) == format!("+{:?}", Duration::from_nanos(a)), "a duration is printed as positive");
        let n = s(0) - d;
        let want = if b >= a { "+" } else { "-" };
        sym::check(format!("{:?}", n).starts_with(want) && n.is_positive == (b >= a), "the sign of the negation");
        sym::reach("printed");
    }
}
