use crate::tool::*;
use measureme::{EventId, RawEvent};
const MAX: usize = 256 * 1024;
fn run(file: &str) -> bool {
    sym::args(&["mmedit", "truncate", file]);
    crate::main().is_ok()
}
sym::harnesses! {
    fn h_c22_pages() {
        // any sequence of pages of any lengths and contents
        sym::logmode(true);
        let pages = if sym::deep() { 4 } else { 3 };
        let version = sym::choice("version", 2) as u32 + 8;
        let mut file: Vec<u8> = Vec::with_capacity(4 << 20);
        file.extend_from_slice(&top(version));
        let mut parts: Vec<(usize, &'static [u8])> = vec![];
        for k in 0..pages {
            // page k belongs to stream 0..3, or the file ends here
            let s = sym::choice(&format!("tag{}", k), 4);
            if s == 3 {
                break;
            }
            let n = sym::range("len", 1, MAX as u64) as usize;
            let data: &'static [u8] = sym::source("data", n);
            file.push(s as u8);
            file.extend_from_slice(&(n as u32).to_le_bytes());
            file.extend_from_slice(data);
            parts.push((s, data));
        }
        std::fs::write("p.mm_profdata", &file).unwrap();
        sym::check(run("p.mm_profdata"), "a profile is truncated");
        let out = std::fs::read("p.truncated.mm_profdata").unwrap();
        let first = parts.iter().position(|p| p.0 == 0);
        let kept: Vec<_> = (0..parts.len()).filter(|&k| parts[k].0 != 0 || Some(k) == first).map(|k| parts[k]).collect();
        sym::check(out.len() == 8 + kept.iter().map(|p| 5 + p.1.len()).sum::<usize>(), "the pages kept");
        sym::check(same(&out[..8], &top(version)), "the header");
        if kept.len() > 0 {
            let which = sym::choice("which", kept.len());
            let (s, data) = kept[which];
            let at = 8 + kept[..which].iter().map(|p| 5 + p.1.len()).sum::<usize>();
            sym::check(out[at] == s as u8, "the page's stream");
            sym::check(same(&out[at + 1..at + 5], &(data.len() as u32).to_le_bytes()), "the page's length");
            let i = sym::any_u64("pos") as usize;
            sym::assume(i < data.len());
            sym::check(out[at + 5 + i] == data[i], "the page's bytes");
            sym::reach("bytes");
        }
        sym::reach("end");
    }
    fn h_c22_some_sizes() {
        // pages of some sizes, one of them large
        let large = sym::choice("large", 5);
        let version = 8 + large as u32 % 2;
        let mut file = top(version);
        let mut want = vec![top(version)];
        let mut seen = false;
        for k in 0..if large == 4 { 2 } else { 3 } {
            let s = sym::choice(&format!("tag{}", k), 4);
            if s == 3 {
                break;
            }
            let n = match k {
                1 => [3, MAX, MAX - 1, 0x0001_0000, 0x0100_0002][large],
                _ => [1, 2, 5, 6][(k + large) % 4],
            };
            let mut data = vec![k as u8 + 1; n];
            for i in 0..n.min(3) {
                data[i] = sym::any_u8(&format!("first{}_{}", k, i));
                data[n - 1 - i] = sym::any_u8(&format!("last{}_{}", k, i));
            }
            let mut page = vec![s as u8];
            page.extend_from_slice(&(n as u32).to_le_bytes());
            page.extend_from_slice(&data);
            file.extend_from_slice(&page);
            if s != 0 || !seen {
                want.push(page);
            }
            seen |= s == 0;
        }
        std::fs::write("p.mm_profdata", &file).unwrap();
        sym::check(run("p.mm_profdata"), "a profile is truncated");
        let out = std::fs::read("p.truncated.mm_profdata").unwrap();
        sym::check(out.len() == want.iter().map(|p| p.len()).sum::<usize>(), "the pages kept");
        let mut pos = 0;
        for p in &want {
            let n = p.len();
            for i in [0, 1, 2, 3, 4, 5, 6, 7, n / 2, n.wrapping_sub(4), n.wrapping_sub(3), n.wrapping_sub(2), n.wrapping_sub(1)] {
                if i < n {
                    sym::check(out[pos + i] == p[i], "the bytes of the pages kept");
                }
            }
            pos += n;
        }
        sym::reach("compared");
    }
    fn h_c22_reads() {
        // the result opens, with the events of the first page and all texts
        let (a, b) = (1 + sym::choice("first", 2), sym::choice("second", 3));
        let times: Vec<u64> = (0..a + b).map(|k| sym::range(&format!("time{}", k), 0, 999_999_000)).collect();
        let threads: Vec<u32> = (0..a + b).map(|k| sym::any_u32(&format!("thread{}", k))).collect();
        let labels = ["first", "second\x1earg"];
        let d = record(META, |t, put| {
            let (k, l) = (t.alloc("Kind"), [t.alloc(labels[0]), t.alloc(labels[1])]);
            for i in 0..a + b {
                put(RawEvent::new_instant(k, EventId::from_label(l[i % 2]), threads[i], times[i]));
            }
        });
        let size = std::mem::size_of::<RawEvent>();
        let mut file = top(9);
        // texts in several pages, before, between and after the events
        let (events, strings, index) = (&d.0[0], &d.0[1], &d.0[2]);
        page(&mut file, 1, &strings[..20]);
        page(&mut file, 0, &events[..8 + a * size]);
        page(&mut file, 2, &index[..16]);
        page(&mut file, 1, &strings[20..30]);
        page(&mut file, 0, &events[8 + a * size..]);
        page(&mut file, 1, &strings[30..]);
        page(&mut file, 2, &index[16..]);
        std::fs::write("p.mm_profdata", &file).unwrap();
        sym::check(run("p.mm_profdata"), "a profile is truncated");
        let before = std::fs::read("p.mm_profdata").unwrap();
        sym::check(same(&before, &file), "the profile itself is left as it was");
        let p = analyzeme::ProfilingData::new(std::path::Path::new("p.truncated.mm_profdata"));
        sym::check(p.is_ok(), "the result opens");
        let p = p.ok().unwrap();
        sym::check(p.num_events() == a, "the events of the first page");
        for (i, e) in p.iter_full().enumerate() {
            sym::check(e.event_kind == "Kind" && e.label == ["first", "second"][i % 2], "its texts");
            sym::check(e.additional_data.len() == i % 2 && e.additional_data.iter().all(|a| a == "arg"), "its arguments");
            sym::check(e.thread_id == threads[i], "its thread");
            let at = std::time::UNIX_EPOCH + std::time::Duration::new(77, 5) + std::time::Duration::from_nanos(times[i]);
            sym::check(e.payload == analyzeme::EventPayload::Timestamp(analyzeme::Timestamp::Instant(at)), "its time");
        }
        sym::check(p.metadata().cmd == "cmd" && p.metadata().process_id == 321, "the metadata");
        sym::reach("opened");
    }
    fn h_c22_refused() {
        // any header, of any length
        let n = sym::choice("len", 9);
        let h = sym::any_bytes("header", n);
        let d = record(META, |t, put| put(RawEvent::new_integer(t.alloc("Kind"), EventId::from_label(t.alloc("label")), 3, 4)));
        let mut file = h.clone();
        if n == 8 {
            file.extend_from_slice(&d.file()[8..]);
        }
        std::fs::write("p.mm_profdata", &file).unwrap();
        let ok = run("p.mm_profdata");
        let magic = n == 8 && same(&h[..4], b"MMPD");
        let version = if n == 8 { u32::from_le_bytes([h[4], h[5], h[6], h[7]]) } else { 0 };
        // 7: no reader any more, but the same structure
        sym::assume(version != 7);
        sym::check(ok == (magic && (version == 8 || version == 9)), "exactly the supported profiles are truncated");
        let before = std::fs::read("p.mm_profdata").unwrap();
        sym::check(same(&before, &file), "the file itself is left as it was");
        sym::check(ok == std::fs::metadata("p.truncated.mm_profdata").is_ok(), "a result for the supported ones only");
        if ok {
            sym::reach("truncated");
        } else {
            sym::reach("refused");
        }
    }
}
