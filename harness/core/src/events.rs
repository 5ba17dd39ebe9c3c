//! C08: event ids. C09, C10: headers. C11, C12: iteration and views.
use crate::strings::{any_char, same};
use analyzeme::{ProfilingData, ProfilingDataBuilder};
use measureme::{EventId, EventIdBuilder, Profiler, StringId};
use std::path::Path;

/// The documented grammar: anything but ASCII control characters, whitespace allowed.
fn in_grammar(b: u8) -> bool {
    let space = (b >= 9) & (b <= 13);
    space | ((b >= 0x20) & (b != 0x7f))
}
fn text_of(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
/// Text of the grammar, `n` characters of 1 to 4 bytes.
fn grammar_text(name: &str, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        let nm = format!("{}_{}", name, i);
        let w = if i == 0 { sym::choice(&format!("{}_width", nm), 4) + 1 } else { [1, 3][sym::choice(&format!("{}_width", nm), 2)] };
        let c = any_char(&nm, w);
        if w == 1 {
            sym::assume(in_grammar(c as u32 as u8));
        }
        s.push(c);
    }
    s
}

sym::harnesses! {
    fn h_c08_parse() {
        // any ASCII text as an event id
        let n = sym::choice("len", if sym::deep() { 7 } else { 5 });
        let b: Vec<u8> = (0..n).map(|i| sym::range(&format!("b{}", i), 0, 0x7f) as u8).collect();
        let mut p = ProfilingDataBuilder::new();
        p.instant("Kind", text_of(&b), 3, 17);
        p.instant("Kind", "after\x1earg", 3, 18);
        let p = p.into_profiling_data();
        let mut it = p.iter_full();
        let e = it.next().unwrap();
        let f = it.next().unwrap();
        sym::check(f.label == "after" && f.additional_data.len() == 1 && f.additional_data[0] == "arg", "the next event is not affected");
        // reference: split at the separators; every part must be non-empty text of the grammar
        let mut parts: Vec<Vec<u8>> = vec![vec![]];
        for &x in &b {
            if x == 0x1e {
                parts.push(vec![]);
            } else {
                parts.last_mut().unwrap().push(x);
            }
        }
        let good = |p: &Vec<u8>| !p.is_empty() && p.iter().fold(true, |a, x| a & in_grammar(*x));
        let valid = parts.iter().take_while(|p| good(p)).count();
        sym::check(e.event_kind == "Kind" && e.thread_id == 3, "kind and thread");
        if valid == 0 {
            sym::check(e.label == "<parse error>", "a label outside the grammar is a parse error");
            sym::check(e.additional_data.is_empty(), "a parse error has no arguments");
            sym::reach("parse error");
        } else {
            sym::check(same(e.label.as_bytes(), &parts[0]), "the label is the text before the first separator");
            sym::check(e.additional_data.len() == valid - 1, "every argument up to the first malformed one is there");
            for k in 1..valid {
                sym::check(same(e.additional_data[k - 1].as_bytes(), &parts[k]), "arguments in order");
            }
            sym::reach("parsed");
        }
    }
    fn h_c08_built() {
        // label and arguments assembled by the builder of a profiler
        let p = Profiler::new("out").unwrap();
        let b = EventIdBuilder::new(&p);
        let n = sym::choice("args", if sym::deep() { 9 } else { 5 });
        let label = grammar_text("label", 1 + sym::choice("label_len", 2));
        let l = p.alloc_string(&*label);
        let mut texts = vec![];
        let mut ids = vec![];
        for k in 0..n {
            // one argument of any text, the others fixed
            let t = if k == 0 { grammar_text("arg", 1 + sym::choice("arg_len", 2)) } else { format!("argument {}", k) };
            ids.push(p.alloc_string(&*t));
            texts.push(t);
        }
        let id = match n {
            0 => b.from_label(l),
            1 if sym::choice("single", 2) == 1 => b.from_label_and_arg(l, ids[0]),
            _ => b.from_label_and_args(l, &ids),
        };
        let kind = p.alloc_string("Kind");
        p.record_integer_event(kind, id, 1, 42);
        // a virtual event id
        p.map_virtual_to_concrete_string(StringId::new_virtual(7u64), id.to_string_id());
        p.record_integer_event(kind, EventId::from_virtual(StringId::new_virtual(7u64)), 1, 43);
        drop(p);
        let d = ProfilingData::new(Path::new("out")).unwrap();
        sym::check(d.num_events() == 2, "both events are there");
        for e in d.iter_full() {
            sym::check(same(e.label.as_bytes(), label.as_bytes()), "the label comes back");
            sym::check(e.additional_data.len() == n, "as many arguments as given");
            for k in 0..n {
                sym::check(same(e.additional_data[k].as_bytes(), texts[k].as_bytes()), "the arguments come back in order");
            }
        }
        sym::reach("read back");
    }
    fn h_c08_many() {
        // more arguments than anything of a fixed size holds
        let p = Profiler::new("out").unwrap();
        let b = EventIdBuilder::new(&p);
        let n = [7, 8, 9, 15, 16, 17, 32, 33, 130, 300][sym::choice("args", 10)];
        let label = grammar_text("label", 1);
        let l = p.alloc_string(&*label);
        let texts: Vec<String> = (0..n).map(|k| format!("argument {}", k)).collect();
        let ids: Vec<StringId> = texts.iter().map(|t| p.alloc_string(&**t)).collect();
        let id = b.from_label_and_args(l, &ids);
        let kind = p.alloc_string("Kind");
        p.record_integer_event(kind, id, 1, 42);
        drop(p);
        let d = ProfilingData::new(Path::new("out")).unwrap();
        let e = d.iter_full().next().unwrap();
        sym::check(same(e.label.as_bytes(), label.as_bytes()), "the label comes back");
        sym::check(e.additional_data.len() == n && (0..n).all(|k| e.additional_data[k] == texts[k]), "all arguments come back in order");
        sym::reach("read back");
    }
}
