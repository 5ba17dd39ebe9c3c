use crate::tool::*;
use measureme::{EventId, RawEvent};

/// The frames of the picture: name and samples.
fn frames(svg: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let find = |b: &[u8], t: &[u8]| b.windows(t.len()).position(|w| w == t);
    let mut v = vec![];
    let mut rest = svg;
    while let Some(k) = find(rest, b"<title>") {
        rest = &rest[k + 7..];
        let end = find(rest, b"</title>").unwrap();
        let t = &rest[..end];
        // NAME (1,234 samples, 12.34%)
        let open = t.iter().rposition(|b| *b == b'(').unwrap();
        let count: Vec<u8> = t[open + 1..].iter().take_while(|b| **b != b' ').filter(|b| **b != b',').cloned().collect();
        v.push((t[..open - 1].to_vec(), count));
    }
    v
}

sym::harnesses! {
    fn h_c16_flame() {
        // the frames are the chains with the time of all that is on top of them
        let form = sym::choice("form", 4);
        let labels = [["a", "b", "c"], ["same", "same", "same"], ["one two", "x", "x"]][sym::choice("labels", 3)];
        let steps = [[100, 100, 100, 100, 100], [1, 999, 20_000, 345, 1_000_000], [700, 1, 1, 5_000, 80]][sym::choice("steps", 3)];
        let mut t = [1_000; 6];
        for k in 0..5 {
            t[k + 1] = t[k] + steps[k];
        }
        let ev: Vec<(&str, u32, u64, u64)> = match form {
            0 => vec![(labels[2], 42, t[2], t[3]), (labels[1], 42, t[1], t[4]), (labels[0], 42, t[0], t[5])],
            1 => vec![(labels[2], 42, t[1], t[2]), (labels[1], 42, t[3], t[4]), (labels[0], 42, t[0], t[5])],
            2 => vec![(labels[2], 42, t[1], t[2]), (labels[1], 42, t[0], t[3]), (labels[0], 42, t[4], t[5])],
            _ => vec![(labels[2], 42, t[2], t[3]), (labels[1], 42, t[1], t[3]), (labels[0], 43, t[0], t[4])],
        };
        let d = record(META, |t, put| {
            for e in &ev {
                put(RawEvent::new_interval(t.alloc("Query"), EventId::from_label(t.alloc(e.0)), e.1, e.2, e.3));
            }
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        sym::args(&["flamegraph", "p"]);
        sym::check(crate::main().is_ok(), "the picture is drawn");
        let got = frames(&std::fs::read("rustc.svg").unwrap());
        // every frame with the time of all that is on top of it
        let mut want: Vec<(Vec<&str>, u64)> = vec![];
        let mut add = |chain: &[&'static str], time: u64| match want.iter_mut().find(|w| w.0 == chain) {
            Some(w) => w.1 += time,
            None => want.push((chain.to_vec(), time)),
        };
        let len = |k: usize| ev[k].3 - ev[k].2;
        let l = labels;
        let mut all = len(2);
        match form {
            0 => {
                add(&["rustc", l[0]], len(2));
                add(&["rustc", l[0], l[1]], len(1));
                add(&["rustc", l[0], l[1], l[2]], len(0));
            }
            1 => {
                add(&["rustc", l[0]], len(2));
                add(&["rustc", l[0], l[1]], len(1));
                add(&["rustc", l[0], l[2]], len(0));
            }
            2 => {
                add(&["rustc", l[1]], len(1));
                add(&["rustc", l[1], l[2]], len(0));
                add(&["rustc", l[0]], len(2));
                all = t[5] - t[0];
            }
            _ => {
                add(&["rustc", l[0]], len(2));
                add(&["rustc", l[1]], len(1));
                add(&["rustc", l[1], l[2]], len(0));
                all = len(2) + len(1);
            }
        }
        for n in ["all", "rustc"] {
            let w = all.to_string();
            sym::check(got.iter().filter(|f| f.0 == n.as_bytes() && f.1 == w.as_bytes()).count() == 1, "the whole picture has all the time");
        }
        for (chain, time) in &want {
            let name = chain.last().unwrap().as_bytes();
            let w = time.to_string();
            let count = |n: &[u8], c: &[u8]| got.iter().filter(|f| f.0 == n && f.1 == c).count();
            let same = want.iter().filter(|x| x.0.last() == chain.last() && x.1 == *time).count();
            sym::check(count(name, w.as_bytes()) == same, "a frame with the time of what is on top of it");
        }
        sym::check(got.len() == want.len() + 2, "no other frames but all and the command");
        sym::reach("drawn");
    }
}
