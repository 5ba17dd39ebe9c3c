//! C27: the summary's columns, order and filter; summaries as JSON.
use crate::jsontext::{parse, J};
use crate::table::read;
use crate::tool::*;
use measureme::{EventId, RawEvent};
use std::time::Duration;

const NAMES: [&str; 3] = ["first", "second", "third"];
/// What else is known of a label: nothing, cache hits, or time of one of these kinds.
const MORE: [&str; 5] = ["", "QueryCacheHit", "QueryBlocked", "IncrementalLoadResult", "IncrementalResultHashing"];

/// Three labels, one after the other, with `own` ns each and `more.1` ns of the other kind.
fn profile(own: &[u64], more: &[(usize, u64)], pause: u64) -> Vec<u8> {
    record(META, |t, put| {
        let mut now = 1_000;
        for i in 0..own.len() {
            let l = EventId::from_label(t.alloc(NAMES[i]));
            put(RawEvent::new_interval(t.alloc("Query"), l, 42, now, now + own[i]));
            now += own[i];
            let (m, ns) = more[i];
            if m == 1 {
                put(RawEvent::new_instant(t.alloc(MORE[m]), l, 42, now));
            } else if m > 1 {
                put(RawEvent::new_interval(t.alloc(MORE[m]), l, 42, now, now + ns));
                now += ns;
            }
        }
        if pause > 0 {
            // time nobody accounts for
            let l = EventId::from_label(t.alloc("zero"));
            put(RawEvent::new_interval(t.alloc("Query"), l, 42, now + pause, now + pause));
        }
        put(RawEvent::new_integer(t.alloc("ArtifactSize"), EventId::from_label(t.alloc("object")), 42, 1234));
        put(RawEvent::new_integer(t.alloc("ArtifactSize"), EventId::from_label(t.alloc("library")), 42, 6_000_000_000));
    })
    .file()
}
pub fn run(args: &[&str]) -> Vec<u8> {
    sym::stdout_to("printed");
    sym::args(args);
    sym::check(crate::main().is_ok(), "the command succeeds");
    std::fs::read("printed").unwrap()
}
fn ns(n: u64) -> String {
    format!("{:.2?}", Duration::from_nanos(n))
}
sym::harnesses! {
    fn h_c27_columns() {
        // anything may be known of any of three labels of any order
        let more: Vec<(usize, u64)> = (0..3).map(|k| (sym::choice(&format!("more{}", k), 5), k + 1)).collect();
        let own = [[100, 200, 300], [300, 100, 200], [20_000_000, 3_000, 500]][sym::choice("own", 3)];
        std::fs::write("p.mm_profdata", &profile(&own, &more, 0)).unwrap();
        let out = run(&["summarize", "summarize", "p"]);
        // the digits of the other times: only their place in the table is known
        let (tables, _) = crate::table::read_bytes(&out);
        let rows = &tables[0];
        let has = |m: usize| more.iter().any(|x| x.0 == m);
        let mut want: Vec<&[u8]> = vec![b"Item", b"Self time", b"% of total time", b"Time", b"Item count"];
        for (m, n) in [(1, &b"Cache hits"[..]), (2, b"Blocked time"), (3, b"Incremental load time"), (4, b"Incremental result hashing time")] {
            if has(m) {
                want.push(n);
            }
        }
        sym::check(rows[0].len() == want.len() && (0..want.len()).all(|k| rows[0][k] == want[k]), "a column exactly when there is something in it");
        sym::check(rows.len() == 4, "a row for each label");
        let selfs = |i: usize| own[i] + if more[i].0 > 1 { more[i].1 } else { 0 };
        // the labels by descending self time (the first digits decide)
        let mut order = vec![0, 1, 2];
        order.sort_by(|&a, &b| own[b].cmp(&own[a]));
        for (r, &i) in order.iter().enumerate() {
            let row = &rows[r + 1];
            sym::check(row.len() == want.len(), "a cell for each column");
            sym::check(row[0] == NAMES[i].as_bytes(), "labels by descending self time");
            let m = more[i].0;
            let t = if m == 4 { own[i] } else { selfs(i) };
            sym::check(same(row[3], ns(t).as_bytes()), "its time");
            sym::check(same(row[1], ns(selfs(i)).as_bytes()), "its self time");
            sym::check(row[4] == if m == 1 || m == 2 { b"2" } else { b"1" }, "its count");
            let mut at = 5;
            for k in 1..5 {
                if !has(k) {
                    continue;
                }
                let w = match (k, k == m) {
                    (1, here) => (here as usize).to_string(),
                    (_, true) => ns(more[i].1),
                    (_, false) => ns(0),
                };
                sym::check(same(row[at], w.as_bytes()), "what is in the column");
                at += 1;
            }
        }
        sym::check(tables.len() == 2 && tables[1].len() == 3, "the artifacts");
        let sizes = &tables[1][1..];
        sym::check(sizes.iter().any(|r| *r == [&b"object"[..], b"1234 bytes"]) && sizes.iter().any(|r| *r == [&b"library"[..], b"6000000000 bytes"]), "the artifact sizes");
        sym::reach("table");
    }
    fn h_c27_masks() {
        // any set of them may be known of each of two labels, and one has nothing but cache hits
        let masks = [sym::choice("first", 16), sym::choice("second", 16)];
        let hits = sym::choice("hits", 3);
        let own = [[9_000, 500], [500, 9_000]][sym::choice("own", 2)];
        let d = record(META, |t, put| {
            let mut now = 1_000;
            for i in 0..2 {
                let l = EventId::from_label(t.alloc(NAMES[i]));
                put(RawEvent::new_interval(t.alloc("Query"), l, 42, now, now + own[i]));
                now += own[i];
                for m in 1..5 {
                    if masks[i] >> (m - 1) & 1 == 0 {
                        continue;
                    }
                    if m == 1 {
                        put(RawEvent::new_instant(t.alloc(MORE[m]), l, 42, now));
                    } else {
                        put(RawEvent::new_interval(t.alloc(MORE[m]), l, 42, now, now + m as u64 + i as u64));
                        now += m as u64 + i as u64;
                    }
                }
            }
            for _ in 0..hits {
                put(RawEvent::new_instant(t.alloc("QueryCacheHit"), EventId::from_label(t.alloc("only")), 42, now));
            }
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        let out = run(&["summarize", "summarize", "p"]);
        let (tables, _) = read(&out);
        let rows = &tables[0];
        let any = masks[0] | masks[1] | (hits > 0) as usize;
        let mut want = vec!["Item", "Self time", "% of total time", "Time", "Item count"];
        for (m, n) in ["Cache hits", "Blocked time", "Incremental load time", "Incremental result hashing time"].iter().enumerate() {
            if any >> m & 1 == 1 {
                want.push(n);
            }
        }
        sym::check(rows[0] == want, "a column exactly when there is something in it");
        sym::check(rows.len() == 3 + (hits > 0) as usize, "a row for each label");
        let big = if own[0] > own[1] { 0 } else { 1 };
        for (r, i) in [(1, Some(big)), (2, Some(1 - big)), (3, None)] {
            if i.is_none() && hits == 0 {
                continue;
            }
            let (name, mask, q, h) = match i {
                Some(i) => (NAMES[i], masks[i], own[i], masks[i] & 1),
                None => ("only", 0, 0, hits),
            };
            let of = |m: usize| if mask >> (m - 1) & 1 == 1 { m as u64 + i.unwrap_or(0) as u64 } else { 0 };
            let mut w = vec![name.to_string(), ns(q + of(2) + of(3) + of(4)), rows[r][2].clone(), ns(q + of(2) + of(3))];
            w.push((i.is_some() as usize + h + (mask >> 1 & 1)).to_string());
            for m in 1..5 {
                if any >> (m - 1) & 1 == 1 {
                    w.push(if m == 1 { h.to_string() } else { ns(of(m)) });
                }
            }
            sym::check(rows[r] == w, "the row of the label");
        }
        sym::reach("table");
    }
    fn h_c27_filter() {
        // shares of the total time, and thresholds at, below and above them
        let own = [[500, 300, 200], [125, 250, 625], [1, 998, 1], [333, 333, 334], [100, 100, 100]][sym::choice("own", 5)];
        let pause = [0, 1_000 - own.iter().sum::<u64>()][sym::choice("pause", 2)];
        let total = own.iter().sum::<u64>() + pause;
        let at = ["0", "0.1", "12.5", "20", "25", "30.001", "33.3", "50", "62.5", "99.79", "100"];
        let permille = [0, 100, 12_500, 20_000, 25_000, 30_001, 33_300, 50_000, 62_500, 99_790, 100_000u64];
        let a = sym::choice("threshold", at.len());
        let option = [["-p", at[a]], ["--percent-above", at[a]]][sym::choice("option", 2)];
        std::fs::write("p.mm_profdata", &profile(&own, &[(0, 0); 3], pause)).unwrap();
        let out = run(&["summarize", "summarize", option[0], option[1], "p"]);
        let (tables, lines) = read(&out);
        let rows = &tables[0][1..];
        let mut labels: Vec<(u64, &str)> = (0..3).map(|i| (own[i], NAMES[i])).collect();
        if pause > 0 {
            labels.push((0, "zero"));
        }
        let mut share = 0;
        for (t, n) in &labels {
            let shown = rows.iter().filter(|r| r[0] == *n).count();
            // t / total >= threshold
            let want = t * 100_000 >= permille[a] * total;
            sym::check(shown == want as usize, "exactly the labels with the share asked for");
            if want {
                share += t;
                sym::reach("shown");
            } else {
                sym::reach("hidden");
            }
        }
        sym::check(rows.windows(2).all(|w| {
            let of = |r: &Vec<String>| labels.iter().find(|l| l.1 == r[0]).map_or(0, |l| l.0);
            of(&w[0]) >= of(&w[1])
        }), "in descending order");
        for r in rows {
            let t = labels.iter().find(|l| l.1 == r[0]).map_or(0, |l| l.0);
            let w = format!("{:.3}", t as f64 / total as f64 * 100.0);
            sym::check(r[2] == w, "the share of the label");
        }
        sym::check(lines.iter().any(|l| *l == format!("Total cpu time: {:?}", Duration::from_nanos(total))), "the total time");
        if a > 0 {
            let parts: Vec<&str> = lines.iter().find(|l| l.starts_with("Filtered results")).map_or(vec![], |l| l.split_whitespace().collect());
            let got = parts.iter().find(|p| p.ends_with('%')).and_then(|p| p[..p.len() - 1].parse::<f64>().ok()).unwrap_or(-1.0);
            sym::check((got - share as f64 / total as f64 * 100.0).abs() < 0.002, "the share of what is shown");
        }
    }
    fn h_c27_refused() {
        // shares that are none
        std::fs::write("p.mm_profdata", &profile(&[1, 2, 3], &[(0, 0); 3], 0)).unwrap();
        sym::stdout_to("printed");
        let t = ["100.001", "100.3", "101", "1e3", "inf", "-0.001", "-0.3", "-5", "-inf", "x", ""][sym::choice("threshold", 11)];
        let mut a = "--percent-above=".to_string();
        a.push_str(t);
        sym::args(&["summarize", "summarize", &a, "p"]);
        sym::reach("refused");
        // the process ends
        sym::panic_iff(true);
        let _ = crate::main();
        sym::no_panic();
    }
    fn h_c27_json() {
        // a summary written as JSON says what the profile says, and is read back as that
        let own = [sym::range("own", 1_000, 1_063), [500_000_000, 250][sym::choice("other", 2)]];
        let what = sym::choice("more", 5);
        let more = [(what, 3), ((what + 2) % 5, 4)];
        std::fs::write("p.mm_profdata", &profile(&own, &more, 0)).unwrap();
        run(&["summarize", "summarize", "--json", "p"]);
        let text = std::fs::read("p.json").unwrap();
        let j = parse(&text);
        sym::check(j.is_some(), "well-formed JSON");
        let j = j.unwrap();
        let q = j.get("query_data").map_or(&[][..], |q| q.items());
        sym::check(q.len() == 2, "an entry for each label");
        let time = |e: &J, name: &str| -> (Vec<u8>, Vec<u8>) {
            let d = e.get(name);
            (d.and_then(|d| d.num("secs")).unwrap_or(b"?").to_vec(), d.and_then(|d| d.num("nanos")).unwrap_or(b"?").to_vec())
        };
        let num = |n: u64| (b"0".to_vec(), serde_json::to_vec(&n).unwrap());
        for i in 0..2 {
            let e = q.iter().find(|e| e.str("label") == Some(NAMES[i].as_bytes()));
            sym::check(e.is_some(), "the entry of the label");
            let e = e.unwrap();
            let (m, x) = more[i];
            let x = if m > 1 { Duration::from_nanos(x) } else { Duration::from_nanos(0) };
            let both = (Duration::from_nanos(own[i]) + x).as_nanos() as u64;
            sym::check(time(e, "self_time") == num(both), "self time");
            sym::check(time(e, "time") == num(if m == 4 { own[i] } else { both }), "time");
            for (k, f) in [(2, "blocked_time"), (3, "incremental_load_time"), (4, "incremental_hashing_time")] {
                sym::check(time(e, f) == num(if m == k { x.as_nanos() as u64 } else { 0 }), "the times of that kind");
            }
            sym::check(e.num("number_of_cache_hits") == Some(if m == 1 { b"1" } else { b"0" }), "cache hits");
            sym::check(e.num("number_of_cache_misses") == Some(b"1"), "cache misses");
            sym::check(e.num("invocation_count") == Some(if m == 1 || m == 2 { b"2" } else { b"1" }), "count");
        }
        let a = j.get("artifact_sizes").map_or(&[][..], |q| q.items());
        let size = |l: &[u8], v: &[u8]| a.iter().any(|a| a.str("label") == Some(l) && a.num("value") == Some(v));
        sym::check(a.len() == 2 && size(b"object", b"1234") && size(b"library", b"6000000000"), "artifact sizes");
        // compared with an empty profile, the summary says the same as the profile
        std::fs::write("e.mm_profdata", &record(META, |_, _| {}).file()).unwrap();
        // (even where there is no profile)
        std::fs::write("q.json", &text).unwrap();
        let got: Vec<Vec<u8>> = ["p", "p.json", "./q.json"].iter().map(|b| {
            run(&["summarize", "diff", "--json", b, "e"]);
            std::fs::read("e.json").unwrap()
        }).collect();
        // only the extension says which it is
        if own[1] == 250 {
            for name in ["json", "season"] {
                std::fs::write(format!("{}.mm_profdata", name), std::fs::read("p.mm_profdata").unwrap()).unwrap();
                run(&["summarize", "diff", "--json", name, "e"]);
                let other = std::fs::read("e.json").unwrap();
                sym::check(got[0].len() == other.len() && same(&got[0], &other), "the same difference from a profile of any name");
            }
        }
        sym::check(got[0].len() == got[1].len() && same(&got[0], &got[1]), "the same difference from JSON");
        sym::check(got[0].len() == got[2].len() && same(&got[0], &got[2]), "the same difference from JSON alone");
        sym::reach("end");
    }
}
