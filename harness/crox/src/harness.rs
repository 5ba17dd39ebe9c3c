use crate::jsontext::{parse, J};
use crate::tool::*;
use measureme::{EventId, RawEvent};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn at(n: u64) -> SystemTime {
    UNIX_EPOCH + Duration::new(77, 5) + Duration::from_nanos(n)
}
/// Decimal text.
fn text(v: u64) -> Vec<u8> {
    serde_json::to_vec(&v).unwrap()
}
fn micros(d: Duration) -> Vec<u8> {
    text(d.as_micros() as u64)
}
fn run(args: &[&str]) -> Vec<J> {
    sym::args(args);
    let r = crate::main();
    sym::check(r.is_ok(), "the export succeeds");
    let t = std::fs::read("chrome_profiler.json").unwrap();
    let j = parse(&t);
    sym::check(j.is_some(), "well-formed JSON");
    j.unwrap().items().to_vec()
}
fn complete(j: &[J]) -> Vec<&J> {
    j.iter().filter(|e| e.str("ph") == Some(b"X")).collect()
}
sym::harnesses! {
    fn h_c17_lanes() {
        // events of any order and length on up to four threads
        let n = if sym::deep() { 5 } else { 4 };
        let mut threads: Vec<u32> = (0..n).map(|k| 1 + sym::choice(&format!("thread{}", k), (k + 1).min(4)) as u32).collect();
        let times: Vec<(u64, u64)> = (0..n)
            .map(|k| {
                let s = sym::range(&format!("start{}", k), 0, 30_000);
                (s, s + sym::range(&format!("length{}", k), 0, 9_000))
            })
            .collect();
        if threads.contains(&4) {
            // four threads: started in this order, and named in either of two
            for k in 1..4 {
                sym::assume(times[k - 1].0 <= times[k].0);
            }
            let names = [[1, 2, 3, 4], [3, 1, 4, 2]][sym::choice("names", 2)];
            threads = threads.iter().map(|t| names[*t as usize - 1]).collect();
        }
        let d = record(META, |t, put| {
            let (k, l) = (t.alloc("Kind"), t.alloc("label"));
            for i in 0..n {
                put(RawEvent::new_interval(k, EventId::from_label(l), threads[i], times[i].0, times[i].1));
            }
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        let j = run(&["crox", "--collapse-threads", "p"]);
        let j = complete(&j);
        sym::check(j.len() == n, "an entry for each interval");
        let lanes: Vec<&[u8]> = j.iter().map(|e| e.num("tid").unwrap_or(b"")).collect();
        let span = |t: u32| {
            let mine: Vec<(u64, u64)> = (0..n).filter(|&x| threads[x] == t).map(|x| times[x]).collect();
            mine.iter().fold(mine[0], |a, b| (a.0.min(b.0), a.1.max(b.1)))
        };
        for i in 0..n {
            for k in 0..i {
                let shared = lanes[i] == lanes[k];
                if threads[i] == threads[k] {
                    sym::check(shared, "a thread has one lane");
                } else if shared {
                    let (a, b) = (span(threads[i]), span(threads[k]));
                    sym::check((a.1 < b.0) | (b.1 < a.0), "threads sharing a lane are not active at the same time");
                    sym::reach("shared");
                }
            }
        }
        let mut all = lanes.clone();
        all.sort();
        all.dedup();
        let spans: Vec<(u64, u64)> = (0..n)
            .filter(|&i| (0..i).all(|k| threads[k] != threads[i]))
            .map(|i| span(threads[i]))
            .collect();
        let mut enough = false;
        for a in &spans {
            let mut active = 0;
            for b in &spans {
                active += ((b.0 <= a.0) & (a.0 <= b.1)) as usize;
            }
            enough |= active >= all.len();
        }
        sym::check(enough, "no more lanes than threads active at once");
        sym::reach("end");
    }
    fn h_c18_times() {
        // one interval: any start and end within a second, or around the carries of seconds
        let (s, e) = if sym::choice("carries", 2) == 0 {
            let (s, e) = (sym::range("start", 0, 999_999_994), sym::range("end", 0, 999_999_994));
            sym::assume(s <= e);
            (s, e)
        } else {
            let n = [0, 1, 994, 999, 1_000, 999_999_993, 999_999_994, 999_999_995, 999_999_999];
            let s = sym::range("start_s", 3, 6) * 1_000_000_000 + n[sym::choice("start_n", n.len())];
            let e = sym::range("end_s", 10, 90) * 1_000_000_000 + n[sym::choice("end_n", n.len())];
            (s, e)
        };
        let d = record(META, |t, put| {
            let (k, l) = (t.alloc("Kind"), t.alloc("label"));
            put(RawEvent::new_interval(k, EventId::from_label(l), 42, s, e));
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        let j = run(&["crox", "p"]);
        let c = complete(&j);
        sym::check(c.len() == 1, "one entry for the interval");
        sym::check(c[0].num("ts") == Some(&micros(at(s).duration_since(UNIX_EPOCH).unwrap())), "start in microseconds");
        sym::check(c[0].num("dur") == Some(&micros(at(e).duration_since(at(s)).unwrap())), "duration in microseconds");
        sym::check(c[0].num("tid") == Some(b"42") && c[0].num("pid") == Some(b"321"), "thread and process");
        sym::reach("end");
    }
    fn h_c18_years() {
        // the profile may be of any year, and the event be hours into it
        let from = [0, 999_990_000, 2_147_483_647_000_000_000, 2_147_483_648_000_000_000, 4_294_967_296_000_000_000, 9_999_999_999_000_000_000][sym::choice("from", 6)];
        let into = [0, 4_294_960_000, 4_295_000_000, 281_474_000_000_000][sym::choice("into", 4)];
        let s = into + sym::range("start", 0, 1_999);
        let e = into + [19_999, 4_294_969_999, 281_400_000_009_999][sym::choice("long", 3)];
        if e >= (1 << 48) - 2 {
            return;
        }
        let d = record(&format!("{{ \"start_time\": {}, \"process_id\": 321, \"cmd\": \"cmd\" }}", from), |t, put| {
            let (k, l) = (t.alloc("Kind"), t.alloc("label"));
            put(RawEvent::new_interval(k, EventId::from_label(l), 42, s, e));
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        let j = run(&["crox", "p"]);
        let c = complete(&j);
        sym::check(c.len() == 1, "one entry for the interval");
        sym::check(c[0].num("ts") == Some(&text((from + s) / 1_000)), "start in microseconds");
        sym::check(c[0].num("dur") == Some(&text((e - s) / 1_000)), "duration in microseconds");
        sym::reach("end");
    }
    fn h_c18_select() {
        // three events of any form, with and without a filter
        let forms: Vec<usize> = (0..3).map(|k| sym::choice(&format!("form{}", k), 3)).collect();
        let filter = sym::choice("filter", 2) == 1;
        let digits: Vec<u64> = (0..3).map(|k| sym::range(&format!("digit{}", k), 0, 9)).collect();
        let min = digits[0] * 100 + digits[1] * 10 + digits[2];
        let v: Vec<(u64, u64)> = (0..3)
            .map(|k| {
                let s = sym::range(&format!("start{}", k), 0, 1_000_000);
                (s, s + sym::range(&format!("length{}", k), 100_000, 999_999))
            })
            .collect();
        let threads: Vec<u32> = (0..3)
            .map(|k| {
                // (a fixed number of digits)
                let (from, to) = if k == 1 && filter { (4_294_960_000, 4_294_967_295) } else { (1_000, 9_999) };
                sym::range(&format!("thread{}", k), from, to) as u32
            })
            .collect();
        let kinds = ["First", "Second", "Third"];
        let d = record(META, |t, put| {
            for i in 0..3 {
                let (k, l) = (t.alloc(kinds[i]), EventId::from_label(t.alloc(["one", "two", "three"][i])));
                put(match forms[i] {
                    0 => RawEvent::new_interval(k, l, threads[i], v[i].0, v[i].1),
                    1 => RawEvent::new_instant(k, l, threads[i], v[i].0),
                    _ => RawEvent::new_integer(k, l, threads[i], v[i].1),
                });
            }
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        let arg: Vec<u8> = digits.iter().map(|d| b'0' + *d as u8).collect();
        let arg = unsafe { std::str::from_utf8_unchecked(&arg) };
        let j = if filter { run(&["crox", "--minimum-duration", arg, "p"]) } else { run(&["crox", "p"]) };
        let c = complete(&j);
        let mut at = 0;
        for i in 0..3 {
            if forms[i] != 0 {
                continue;
            }
            if filter && (v[i].1 - v[i].0) / 1000 < min {
                sym::reach("filtered");
                continue;
            }
            sym::check(at < c.len(), "every interval that is not filtered is there");
            let e = c[at];
            at += 1;
            sym::check(e.str("cat") == Some(kinds[i].as_bytes()), "its kind, in order");
            sym::check(e.str("name") == Some(["one", "two", "three"][i].as_bytes()), "its label");
            sym::check(e.num("tid") == Some(&text(threads[i] as u64)), "its thread");
            sym::check(e.num("dur") == Some(&micros(self::at(v[i].1).duration_since(self::at(v[i].0)).unwrap())), "its duration");
            sym::check(matches!(e.get("args"), None | Some(J::Null)), "no arguments");
            sym::reach("exported");
        }
        sym::check(at == c.len(), "nothing else is exported");
    }
    fn h_c18_minimum() {
        // one interval of any length around the minimum, over a second too
        let mins: [u128; 9] = [0, 1, 999_999, 1_000_000, 1_000_001, 2_500_000, 60_000_000, 4_294_967_296, 281_474_976_710];
        let k = sym::choice("minimum", mins.len());
        let min = mins[k] as u64;
        let around = sym::range("around", 0, 4_000);
        // from two microseconds below to two above
        let len = (min * 1_000).saturating_sub(2_000) + around;
        let s = sym::range("start", 0, 999_999_994);
        sym::assume(s + len < (1 << 48) - 2);
        let d = record(META, |t, put| {
            let (k, l) = (t.alloc("Kind"), t.alloc("label"));
            put(RawEvent::new_interval(k, EventId::from_label(l), 42, s, s + len));
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        let j = run(&["crox", "p", "--minimum-duration", &min.to_string()]);
        let c = complete(&j);
        let wanted = len / 1_000 >= min;
        sym::check(c.len() == wanted as usize, "the interval is there unless it is shorter than the minimum");
        if wanted {
            sym::reach("exported");
        } else {
            sym::reach("filtered");
        }
    }
    fn h_c18_texts() {
        // kinds, labels and arguments of any characters
        let (w, place) = (1 + sym::choice("width", 4), sym::choice("place", 3));
        let n = if place == 2 { 1 + sym::choice("args", 2) } else { [0, 1, 2, 12][sym::choice("args", 4)] };
        let one = |here: bool, name: &str, any: bool| -> String {
            let c = match (here, any) {
                (true, true) => any_char(name, w),
                (true, false) => text_char(name, w),
                (false, _) => 'x',
            };
            vec![c].iter().collect()
        };
        let kind = one(place == 0, "kind", true);
        let label = one(place == 1, "label0", false) + &one(place == 1 && w == 1, "label1", false);
        let args: Vec<String> = (0..n).map(|k| one(place == 2 && (k == 0 || w == 1), &format!("arg{}", k), false) + "y").collect();
        let d = record(META, |t, put| {
            let mut id = label.clone();
            for a in &args {
                id.push_str("\x1e");
                id.push_str(a);
            }
            put(RawEvent::new_interval(t.alloc(&kind[..]), EventId::from_label(t.alloc(&id[..])), 42, 1_000, 2_000));
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        let j = run(&["crox", "p"]);
        let c = complete(&j);
        sym::check(c.len() == 1, "one entry");
        sym::check(same(c[0].str("cat").unwrap_or(b"?"), kind.as_bytes()), "the kind's text");
        sym::check(same(c[0].str("name").unwrap_or(b"?"), label.as_bytes()), "the label's text");
        match c[0].get("args") {
            Some(a @ J::Obj(_)) => {
                for k in 0..n {
                    sym::check(same(a.str(&format!("arg{}", k)).unwrap_or(b"?"), args[k].as_bytes()), "the argument's text");
                }
                sym::check(matches!(a, J::Obj(v) if v.len() == n) && n > 0, "the arguments are all");
                sym::reach("args");
            }
            a => sym::check(n == 0 && matches!(a, None | Some(J::Null)), "no arguments when there are none"),
        }
        sym::reach("end");
    }
    fn h_c18_process() {
        // what is said about the processes of two profiles
        let crates = [None, Some("first"), Some("second-one")];
        let mut want = vec![];
        for p in 0..2 {
            let pid = [0, 7, 4_294_967_295u32][if p == 0 { sym::choice("pid", 3) } else { 1 }];
            let name = crates[sym::choice(&format!("crate{}", p), 3)];
            let form = sym::choice(&format!("last{}", p), 3);
            let cmd = match name {
                None => "rustc --crate-type lib --crate-names x".to_string(),
                Some(n) if form == 1 => format!("rustc a --crate-name {}", n),
                Some(n) if form == 2 => format!("rustc --crate-name {} src/lib.rs -C opt-level=3 --edition=2018", n),
                Some(n) => format!("rustc --crate-name {} --edition=2018", n),
            };
            let start = [999, 1_000, 77_000_000_005, 1_700_000_000_123_456_789][if p == 0 { sym::choice("start", 4) } else { 3 }];
            let meta = format!("{{ \"start_time\": {}, \"process_id\": {}, \"cmd\": \"{}\" }}", start, pid, cmd);
            let d = record(&meta, |t, put| {
                let (k, l) = (t.alloc("Kind"), t.alloc("label"));
                put(RawEvent::new_interval(k, EventId::from_label(l), 42 + p as u32, 1_000, 3_000));
            });
            std::fs::write(["p.mm_profdata", "q.mm_profdata"][p], &d.file()).unwrap();
            want.push((pid, name, start));
        }
        let j = run(&["crox", "p", "q"]);
        let c = complete(&j);
        sym::check(c.len() == 2, "the intervals of both profiles");
        let meta: Vec<&J> = j.iter().filter(|e| e.str("ph") == Some(b"M")).collect();
        sym::check(meta.len() + c.len() == j.len(), "nothing but intervals and descriptions");
        let mut sorted = meta.iter().filter(|e| e.str("name") == Some(b"process_sort_index"));
        let mut named = meta.iter().filter(|e| e.str("name") == Some(b"process_name"));
        for p in 0..2 {
            let (pid, name, start) = want[p];
            sym::check(c[p].num("pid") == Some(&text(pid as u64)), "the process of the interval");
            sym::check(c[p].num("tid") == Some(&text(42 + p as u64)), "the thread of the interval");
            let s = sorted.next();
            sym::check(s.and_then(|s| s.num("pid")) == Some(&text(pid as u64)), "its process");
            let got = s.and_then(|s| s.get("args")).and_then(|a| a.num("sort_index"));
            sym::check(got == Some(&text(start / 1000)), "processes are sorted by their start");
            if let Some(n) = name {
                let e = named.next();
                sym::check(e.and_then(|s| s.num("pid")) == Some(&text(pid as u64)), "the process named");
                sym::check(e.and_then(|s| s.get("args")).and_then(|a| a.str("name")) == Some(n.as_bytes()), "the process's crate");
                sym::reach("named");
            }
        }
        sym::check(sorted.next().is_none() && named.next().is_none(), "nothing else is described");
    }
    fn h_c18_dir() {
        // profiles in a directory, beside other files, and one given by name
        std::fs::create_dir("d").unwrap();
        let n = sym::choice("profiles", 4);
        let named = sym::choice("named", 2) == 1;
        let names = ["d/b.mm_profdata", "d/a.b.mm_profdata", "d/rustc-0042.mm_profdata"];
        let mut want = vec![];
        for k in 0..n + named as usize {
            let pid = 70 + k as u32;
            let meta = format!("{{ \"start_time\": 77000000005, \"process_id\": {}, \"cmd\": \"rustc\" }}", pid);
            let s = sym::range(&format!("start{}", k), 0, 99_999);
            let d = record(&meta, |t, put| {
                let (k, l) = (t.alloc("Kind"), t.alloc("label"));
                put(RawEvent::new_interval(k, EventId::from_label(l), pid + 500, s, s + 3_000));
            });
            std::fs::write(if k < n { names[k] } else { "p.mm_profdata" }, &d.file()).unwrap();
            want.push((pid, s));
        }
        // what is no profile
        for f in [("d/notes.txt", true), ("d/mm_profdata", true), ("d/c.mm_profdata.old", sym::choice("old", 2) == 1), ("q.mm_profdata", true)] {
            if f.1 {
                std::fs::write(f.0, b"no profile").unwrap();
            }
        }
        let dir = ["d", "d/", "./d"][sym::choice("dir", 3)];
        let j = match (named, sym::choice("order", 2)) {
            (false, _) => run(&["crox", "--dir", dir]),
            (true, 0) => run(&["crox", "--dir", dir, "p"]),
            (true, _) => run(&["crox", "p", "--dir", dir]),
        };
        let c = complete(&j);
        sym::check(c.len() == want.len(), "an interval of each profile");
        let sorted = j.iter().filter(|e| e.str("name") == Some(b"process_sort_index"));
        sym::check(sorted.count() == want.len(), "each process once");
        for (pid, s) in want {
            let mine: Vec<&&J> = c.iter().filter(|e| e.num("pid") == Some(&text(pid as u64))).collect();
            sym::check(mine.len() == 1, "every profile of the directory once");
            sym::check(mine[0].num("tid") == Some(&text(pid as u64 + 500)), "its thread");
            sym::check(mine[0].num("ts") == Some(&micros(at(s).duration_since(UNIX_EPOCH).unwrap())), "its time");
            sym::reach("exported");
        }
        sym::reach("end");
    }
    fn h_c17_files() {
        // every profile has lanes of its own
        let n = 2;
        let times: Vec<(u64, u64)> = (0..2 * n)
            .map(|k| {
                let s = sym::range(&format!("start{}", k), 0, 30_000);
                (s, s + sym::range(&format!("length{}", k), 0, 9_000))
            })
            .collect();
        for f in 0..2 {
            let d = record(META, |t, put| {
                let (k, l) = (t.alloc("Kind"), t.alloc("label"));
                for i in 0..n {
                    let (s, e) = times[f * n + i];
                    put(RawEvent::new_interval(k, EventId::from_label(l), 7 + i as u32, s, e));
                }
            });
            std::fs::write(["p.mm_profdata", "q.mm_profdata"][f], &d.file()).unwrap();
        }
        let j = run(&["crox", "p", "--collapse-threads", "q"]);
        let j = complete(&j);
        sym::check(j.len() == 2 * n, "an entry for each interval");
        for f in 0..2 {
            let lane = |i: usize| j[f * n + i].num("tid").unwrap_or(b"").to_vec();
            let (a, b) = (times[f * n], times[f * n + 1]);
            let apart = (a.1 < b.0) | (b.1 < a.0);
            sym::check((lane(0) == lane(1)) == apart, "one lane if the threads are not active at the same time, else two");
        }
        sym::reach("end");
    }
    fn h_c17_forms() {
        // intervals, instants and integers on up to three threads
        let n = if sym::deep() { 4 } else { 3 };
        let forms: Vec<usize> = (0..n).map(|k| sym::choice(&format!("form{}", k), 3)).collect();
        let threads: Vec<u32> = (0..n).map(|k| 1 + sym::choice(&format!("thread{}", k), (k + 1).min(3)) as u32).collect();
        let times: Vec<(u64, u64)> = (0..n)
            .map(|k| {
                let s = sym::range(&format!("start{}", k), 0, 30_000);
                (s, if forms[k] == 0 { s + sym::range(&format!("length{}", k), 0, 9_000) } else { s })
            })
            .collect();
        let d = record(META, |t, put| {
            let (k, l) = (t.alloc("Kind"), EventId::from_label(t.alloc("label")));
            for i in 0..n {
                put(match forms[i] {
                    0 => RawEvent::new_interval(k, l, threads[i], times[i].0, times[i].1),
                    1 => RawEvent::new_instant(k, l, threads[i], times[i].0),
                    _ => RawEvent::new_integer(k, l, threads[i], times[i].0),
                });
            }
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        let j = run(&["crox", "p", "--collapse-threads"]);
        let j = complete(&j);
        let shown: Vec<usize> = (0..n).filter(|&i| forms[i] == 0).collect();
        sym::check(j.len() == shown.len(), "an entry for each interval");
        let lanes: Vec<&[u8]> = j.iter().map(|e| e.num("tid").unwrap_or(b"")).collect();
        let span = |t: u32| {
            let mine: Vec<(u64, u64)> = (0..n).filter(|&x| threads[x] == t && forms[x] == 0).map(|x| times[x]).collect();
            mine.iter().fold(mine[0], |a, b| (a.0.min(b.0), a.1.max(b.1)))
        };
        for x in 0..shown.len() {
            for y in 0..x {
                let (a, b) = (threads[shown[x]], threads[shown[y]]);
                if a == b {
                    sym::check(lanes[x] == lanes[y], "a thread has one lane");
                } else if lanes[x] == lanes[y] {
                    let (a, b) = (span(a), span(b));
                    sym::check((a.1 < b.0) | (b.1 < a.0), "threads sharing a lane are not active at the same time");
                    sym::reach("shared");
                }
            }
        }
        sym::reach("end");
    }
}
