use crate::tool::*;
use measureme::{EventId, RawEvent};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// What the viewer prints.
fn run(args: &[&str]) -> Vec<u8> {
    sym::stdout_to("printed");
    sym::args(args);
    sym::check(crate::main().is_ok(), "the profile is shown");
    std::fs::read("printed").unwrap()
}
fn at(n: u64) -> SystemTime {
    UNIX_EPOCH + Duration::new(77, 5) + Duration::from_nanos(n)
}
/// The time from one to the other.
fn micros(from: u64, to: u64) -> String {
    format!("{} μs", at(to).duration_since(at(from)).unwrap().as_micros())
}
fn shown(kind: &str, label: &str, args: &str, payload: &str, thread: u32) -> String {
    format!("{{\n    kind: {},\n    label: {},\n    additional_data: [{}],\n    payload: {},\n    thread_id: {},\n}}\n", kind, label, args, payload, thread)
}
sym::harnesses! {
    fn h_c28_select() {
        // three events of any form on any threads
        let forms: Vec<usize> = (0..3).map(|k| sym::choice(&format!("form{}", k), 3)).collect();
        let filter = sym::choice("filter", 3);
        // the thread numbers are of a fixed length each; some agree with the wanted one in all but the high bits
        let threads: Vec<u32> = (0..3)
            .map(|k| {
                let high = if filter == 2 { [0, 0xee00_0000, 0x1_0000][k] } else { 0 };
                high + sym::range(&format!("thread{}", k), 1_000, 9_999) as u32
            })
            .collect();
        let digits: Vec<u64> = (0..4).map(|k| sym::range(&format!("digit{}", k), (k == 0) as u64, 9)).collect();
        let wanted = (digits[0] * 1000 + digits[1] * 100 + digits[2] * 10 + digits[3]) as u32;
        let start = |k: usize| sym::range(&format!("start{}", k), [3_000, 100_000, 700_000][k], [9_000, 699_000, 900_000][k]);
        // any of the three may be the earliest
        let first = sym::choice("first", 3);
        let mut v: Vec<(u64, u64)> = vec![];
        for k in 0..3 {
            let s = start((k + 3 - first) % 3);
            v.push((s, 901_000 + sym::range(&format!("length{}", k), 0, 90_000)));
        }
        let d = record(META, |t, put| {
            for i in 0..3 {
                let (k, l) = (t.alloc(["First", "Second", "Third"][i]), EventId::from_label(t.alloc(["one", "two\x1earg", "three\x1ea\x1eb"][i])));
                put(match forms[i] {
                    0 => RawEvent::new_interval(k, l, threads[i], v[i].0, v[i].1),
                    1 => RawEvent::new_instant(k, l, threads[i], v[i].0),
                    _ => RawEvent::new_integer(k, l, threads[i], v[i].1),
                });
            }
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        let arg: Vec<u8> = digits.iter().map(|d| b'0' + *d as u8).collect();
        let arg = unsafe { std::str::from_utf8_unchecked(&arg) };
        let got = match filter {
            0 => run(&["mmview", "p"]),
            1 => run(&["mmview", "-t", arg, "p"]),
            _ => run(&["mmview", "--thread-id", arg, "p"]),
        };
        let mut first = None;
        for i in 0..3 {
            if forms[i] != 2 && first.map_or(true, |f| v[i].0 < f) {
                first = Some(v[i].0);
            }
        }
        if first.is_none() {
            // nothing has a time, but there are events to show
            sym::reach("no times");
        }
        let first = first.unwrap_or(0);
        let mut want = String::new();
        for i in 0..3 {
            if filter > 0 && threads[i] != wanted {
                continue;
            }
            want.push_str(&shown(
                ["First", "Second", "Third"][i],
                ["one", "two", "three"][i],
                ["", "arg", "a,b"][i],
                &match forms[i] {
                    0 => format!("{} - {}", micros(first, v[i].0), micros(first, v[i].1)),
                    1 => micros(first, v[i].0),
                    _ => v[i].1.to_string(),
                },
                threads[i],
            ));
            sym::reach("shown");
        }
        sym::check(got.len() == want.len(), "the length of the text");
        sym::check(same(&got, want.as_bytes()), "the text");
    }
    fn h_c28_long() {
        // times of whole seconds after the first, and around the carries of seconds
        let secs = [0, 1, 4_295, 281_473][sym::choice("seconds", 4)] * 1_000_000_000;
        let form = sym::choice("form", 3);
        let interval = form == 1;
        let (base, start) = if form == 0 {
            (0, secs + sym::range("start_ns", 0, 999_999))
        } else {
            let nanos = [0, 1, 994, 999, 1_000, 999_999_994, 999_999_999];
            let base = nanos[sym::choice("base_ns", 7)];
            (base, base + secs + nanos[sym::choice("start_ns", 7)])
        };
        let more = if interval { [0, 1, 999, 1_000_000_000, 7_999_999_999][sym::choice("length", 5)] } else { 0 };
        sym::assume(start + more < (1 << 48) - 2);
        let d = record(META, |t, put| {
            let (k, l) = (t.alloc("Kind"), EventId::from_label(t.alloc("label")));
            put(if interval { RawEvent::new_interval(k, l, 7, start, start + more) } else { RawEvent::new_instant(k, l, 7, start) });
            put(RawEvent::new_instant(k, l, 7, base));
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        let got = run(&["mmview", "p"]);
        let span = |ns: u64| format!("{} \u{3bc}s", ns / 1_000);
        let first = if interval { format!("{} - {}", span(start - base), span(start - base + more)) } else { span(start - base) };
        let want = shown("Kind", "label", "", &first, 7) + &shown("Kind", "label", "", "0 \u{3bc}s", 7);
        sym::check(same(&got, want.as_bytes()), "the times in microseconds after the first");
        sym::reach("end");
    }
    fn h_c28_texts() {
        // any characters of the grammar in the label and the arguments, any number of them
        let n = sym::choice("args", 4);
        let text = |name: &str| {
            let mut t = String::new();
            for k in 0..1 + (name == "label") as usize {
                t.push(text_char(&format!("{}_{}", name, k), 1 + sym::choice(&format!("{}_width{}", name, k), if n > 1 { 2 } else { 4 })));
            }
            t
        };
        let kind = ["", "Kind", "k\u{e4}\u{1F600}"][sym::choice("kind", 3)];
        let label = text("label");
        let args: Vec<String> = (0..n).map(|k| if k < 2 { text(["first", "second"][k]) } else { "third".into() }).collect();
        let d = record(META, |t, put| {
            let mut id = label.clone();
            for a in &args {
                id.push('\x1e');
                id.push_str(a);
            }
            put(RawEvent::new_integer(t.alloc(kind), EventId::from_label(t.alloc(&id[..])), 4_000_000_000, 281_474_976_710_655));
            put(RawEvent::new_instant(t.alloc(kind), EventId::from_label(t.alloc("later")), 0, 1_234_567));
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        let thread = sym::choice("thread", 5);
        let got = run(&["mmview", "p", "--thread-id", ["0", "4000000000", "4294967295", "294967296", "1"][thread]]);
        let mut want = String::new();
        if thread == 1 {
            want.push_str(&shown(kind, &label, &args.join(","), "281474976710655", 4_000_000_000));
            sym::reach("texts");
        }
        if thread == 0 {
            want.push_str(&shown(kind, "later", "", "0 \u{3bc}s", 0));
        }
        sym::check(got.len() == want.len() && same(&got, want.as_bytes()), "the texts of the selected event");
    }
}
