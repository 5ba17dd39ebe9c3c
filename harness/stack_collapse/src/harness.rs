use crate::tool::*;
use measureme::{EventId, RawEvent};

sym::harnesses! {
    fn h_c16_output() {
        // the file lists exactly the chains with their times
        let forms = ["all in one", "one in another", "side by side"];
        let form = sym::choice("form", forms.len());
        let labels = [["a", "b", "a"], ["a;b", "\u{e9} x", "c"], ["same", "same", "same"]][sym::choice("labels", 3)];
        let thread = 42 + sym::choice("thread", 2) as u32;
        let step = |name: &str| sym::range(name, 100, 199);
        let t: Vec<u64> = (0..6).scan(1_000, |now, k| {
            let v = *now;
            *now += step(&format!("step{}", k));
            Some(v)
        }).collect();
        // (label, thread, start, end), the inner ones first
        let ev: Vec<(&str, u32, u64, u64)> = match form {
            0 => vec![(labels[2], 42, t[2], t[3]), (labels[1], 42, t[1], t[4]), (labels[0], 42, t[0], t[5])],
            1 => vec![(labels[2], 42, t[1], t[2]), (labels[1], 42, t[0], t[3]), (labels[0], thread, t[4], t[5])],
            _ => vec![(labels[2], 42, t[0], t[1]), (labels[1], thread, t[2], t[3]), (labels[0], 42, t[4], t[5])],
        };
        let d = record(META, |t, put| {
            for e in &ev {
                put(RawEvent::new_interval(t.alloc("Query"), EventId::from_label(t.alloc(e.0)), e.1, e.2, e.3));
            }
        });
        std::fs::write("p.mm_profdata", &d.file()).unwrap();
        sym::args(&["stack_collapse", "p"]);
        sym::check(crate::main().is_ok(), "the stacks are collapsed");
        let got = std::fs::read("out.stacks_folded").unwrap();
        // the chain and the own time of each event, and the gaps
        let mut want: Vec<(String, u64)> = vec![("rustc".into(), 0)];
        let mut add = |chain: String, time: u64| match want.iter_mut().find(|w| w.0 == chain) {
            Some(w) => w.1 += time,
            None => want.push((chain, time)),
        };
        let len = |k: usize| ev[k].3 - ev[k].2;
        match form {
            0 => {
                add(format!("rustc;{}", labels[0]), len(2) - len(1));
                add(format!("rustc;{};{}", labels[0], labels[1]), len(1) - len(0));
                add(format!("rustc;{};{};{}", labels[0], labels[1], labels[2]), len(0));
            }
            1 => {
                add(format!("rustc;{}", labels[1]), len(1) - len(0));
                add(format!("rustc;{};{}", labels[1], labels[2]), len(0));
                add(format!("rustc;{}", labels[0]), len(2));
                add("rustc".into(), if thread == 42 { t[4] - t[3] } else { 0 });
            }
            _ => {
                for k in 0..3 {
                    add(format!("rustc;{}", labels[2 - k]), len(k));
                }
                let both = t[2] - t[1] + t[4] - t[3];
                add("rustc".into(), if thread == 42 { both } else { t[4] - t[1] });
            }
        }
        let lines: Vec<&[u8]> = got.split(|b| *b == b'\n').collect();
        sym::check(lines.len() == want.len() + 1 && lines[want.len()].is_empty(), "a line for each chain");
        for (chain, time) in &want {
            let w = format!("{} {}", chain, time);
            let is = |l: &&&[u8]| l.len() > chain.len() && l[chain.len()] == b' ' && same(&l[..chain.len()], chain.as_bytes()) && same(l, w.as_bytes());
            sym::check(lines.iter().filter(is).count() == 1, "a chain and its time");
        }
        sym::reach("collapsed");
    }
}
