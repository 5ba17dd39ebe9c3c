//! C03, C04: the paged container.
use measureme::{PageTag, SerializationSink, SerializationSinkBuilder};
use std::io::Write;

const MAX: usize = 256 * 1024;
const MIN: usize = MAX / 2;
const TAGS: [PageTag; 3] = [PageTag::Events, PageTag::StringData, PageTag::StringIndex];

/// Whether a large sequence has these parts in a row: the lengths, and both ends and the middle of each.
fn has_parts(all: &[u8], parts: &[Vec<u8>]) -> bool {
    if all.len() != parts.iter().map(|p| p.len()).sum::<usize>() {
        return false;
    }
    let (mut pos, mut same) = (0, true);
    for p in parts {
        let n = p.len();
        for i in [0, 1, 2, 3, n / 2, n.wrapping_sub(4), n.wrapping_sub(3), n.wrapping_sub(2), n.wrapping_sub(1)] {
            if i < n {
                same &= all[pos + i] == p[i];
            }
        }
        pos += n;
    }
    same
}
struct Op {
    stream: usize,
    addr: u64,
    data: &'static [u8],
}
/// One write of any size up to `top` by any of the public ways to write.
fn write_op(k: usize, sinks: &[SerializationSink], streams: usize, top: usize, methods: usize) -> Op {
    let stream = match streams {
        1 => 0,
        // of the sequences over two streams only the ones that differ by more than the name of the stream
        2 if !sym::deep() && k == 0 => 0,
        _ => sym::choice(&format!("stream{}", k), streams),
    };
    let method = sym::choice(&format!("method{}", k), methods);
    // any length up to `top` half pages
    let n = sym::choice(&format!("halves{}", k), top) * MIN + sym::range("len", 0, MIN as u64 - 1) as usize;
    let data: &'static [u8] = sym::source("data", n);
    let sink = &sinks[stream];
    let addr = match method {
        0 => sink.write_bytes_atomic(data),
        1 => sink.write_atomic(n, |d| d.copy_from_slice(data)),
        _ => {
            let mut w = sink.as_std_write();
            let r = w.write(data);
            sym::check(matches!(r, Ok(m) if m == n), "the Write adapter accepts everything");
            sym::check(w.flush().is_ok(), "flushing succeeds");
            return Op { stream, addr: u64::MAX, data };
        }
    };
    Op { stream, addr: addr.0, data }
}
fn verify(ops: &mut Vec<Op>, sinks: Vec<SerializationSink>, streams: usize) {
    // addresses are the running offsets of each stream
    let mut total = [0u64; 3];
    for o in ops.iter_mut() {
        if o.addr == u64::MAX {
            o.addr = total[o.stream];
        }
        sym::check(o.addr == total[o.stream], "a write returns the offset of its data in the stream");
        total[o.stream] += o.data.len() as u64;
    }
    let mut streams_read = vec![];
    for (s, sink) in sinks.into_iter().enumerate() {
        if s >= streams {
            continue;
        }
        let bytes = sink.into_bytes();
        sym::check(bytes.len() as u64 == total[s], "the stream holds exactly what was written");
        streams_read.push(bytes);
    }
    // any byte of any write
    let which = sym::choice("which", ops.len());
    let o = &ops[which];
    if !o.data.is_empty() {
        let i = sym::any_u64("pos");
        sym::assume(i < o.data.len() as u64);
        sym::check(streams_read[o.stream][(o.addr + i) as usize] == o.data[i as usize], "every byte is found at its address");
    }
}
fn run(streams: usize, ops: usize, top: usize, methods: usize) {
    sym::logmode(true);
    let b = SerializationSinkBuilder::new_in_memory();
    let sinks: Vec<SerializationSink> = TAGS.iter().take(streams).map(|t| b.new_sink(*t)).collect();
    let mut v = vec![];
    for k in 0..ops {
        v.push(write_op(k, &sinks, streams, top, methods));
    }
    verify(&mut v, sinks, streams);
    sym::reach("verified");
}

sym::harnesses! {
    fn h_c03_two_writes() {
        run(1, 2, 6, 2);
        sym::reach("done");
    }
    fn h_c03_three_writes() {
        run(1, 3, 3, 2);
        sym::reach("done");
    }
    fn h_c03_interleaved() {
        run(2, 3, 2, 2);
        sym::reach("done");
    }
    fn h_c03_flush() {
        run(2, 3, 2, 3);
        sym::reach("done");
    }
    fn h_c03_sizes() {
        // writes of some sizes, and each of them again beside a write to another stream
        let b = SerializationSinkBuilder::new_in_memory();
        let sinks: Vec<SerializationSink> = TAGS.iter().take(2).map(|t| b.new_sink(*t)).collect();
        let mut want: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
        let mut pos = [0; 2];
        for k in 0..3 {
            let s = if k == 1 { sym::choice("stream", 2) } else { 0 };
            let sizes = [&[0, 1, 7, MIN, MAX - 8, MAX - 1, MAX, MAX + 1, 2 * MAX + 3][..], &[0, 7, MAX + 1], &[1, 7, 8, MIN, MAX, MAX + 1]][k];
            let n = sizes[sym::choice(&format!("size{}", k), sizes.len())];
            let mut data = vec![k as u8 + 1; n];
            for i in 0..n.min(3) {
                data[i] = sym::any_u8(&format!("first{}_{}", k, i));
                data[n - 1 - i] = sym::any_u8(&format!("last{}_{}", k, i));
            }
            let sink = &sinks[s];
            let addr = if sym::choice(&format!("method{}", k), 2) == 0 { sink.write_bytes_atomic(&data) } else { sink.write_atomic(n, |d| d.copy_from_slice(&data)) };
            sym::check(addr.0 == pos[s] as u64, "a write returns the offset of its data in the stream");
            pos[s] += n;
            want[s].push(data);
        }
        for (sink, want) in sinks.into_iter().zip(&want) {
            let bytes = sink.into_bytes();
            sym::check(has_parts(&bytes, want), "the stream holds exactly what was written");
        }
        sym::reach("compared");
    }
    fn h_c03_pages() {
        // the page structure of a real file
        sym::logmode(true);
        let f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open("out").unwrap();
        let b = SerializationSinkBuilder::new_from_file(f).unwrap();
        let sinks: Vec<SerializationSink> = TAGS.iter().take(2).map(|t| b.new_sink(*t)).collect();
        let mut total = [0u64; 2];
        for k in 0..2 {
            let o = write_op(k, &sinks, 2, if sym::deep() { 6 } else { 3 }, 3);
            total[o.stream] += o.data.len() as u64;
        }
        drop(sinks);
        drop(b);
        let file = std::fs::read("out").unwrap();
        let mut pos = 0usize;
        let mut got = [0u64; 2];
        let mut pages = 0;
        while pos < file.len() {
            let tag = sym::concrete(file[pos] as u64) as usize;
            sym::check(tag < 2, "pages carry the tag of their stream");
            let n = u32::from_le_bytes([file[pos + 1], file[pos + 2], file[pos + 3], file[pos + 4]]) as usize;
            sym::check(n > 0, "no page is empty");
            sym::check(n <= MAX, "no page exceeds the maximum size");
            got[tag] += n as u64;
            pos += 5 + n;
            pages += 1;
        }
        sym::check(pos == file.len(), "pages fill the file exactly");
        sym::check(got == total, "pages hold exactly what was written");
        if pages > 1 {
            sym::reach("several pages");
        }
    }
    fn h_c04_split() {
        sym::logmode(true);
        let pages = if sym::deep() { 4 } else { 3 };
        let mut file: Vec<u8> = Vec::with_capacity(4 << 20);
        let mut parts: Vec<(usize, &'static [u8])> = vec![];
        for k in 0..pages {
            // page k belongs to stream 0..3, or the file ends here
            let s = sym::choice(&format!("tag{}", k), 4);
            if s == 3 {
                break;
            }
            let n = sym::range("len", 1, MAX as u64) as usize;
            let data: &'static [u8] = sym::source("data", n);
            file.push(s as u8);
            file.extend_from_slice(&(n as u32).to_le_bytes());
            file.extend_from_slice(data);
            parts.push((s, data));
        }
        let streams = measureme::split_streams(&file);
        for s in 0..3 {
            let want: usize = parts.iter().filter(|p| p.0 == s).map(|p| p.1.len()).sum();
            match streams.get(&TAGS[s]) {
                None => sym::check(!parts.iter().any(|p| p.0 == s), "a stream with a page has an entry"),
                Some(v) => {
                    sym::check(parts.iter().any(|p| p.0 == s), "a stream without pages has no entry");
                    sym::check(v.len() == want, "a stream has the length of its pages");
                }
            }
        }
        if parts.len() > 0 {
            let which = sym::choice("which", parts.len());
            let (s, data) = parts[which];
            let before: usize = parts[..which].iter().filter(|p| p.0 == s).map(|p| p.1.len()).sum();
            let i = sym::any_u64("pos") as usize;
            sym::assume(i < data.len());
            sym::check(streams[&TAGS[s]][before + i] == data[i], "every byte follows its predecessor pages");
            sym::reach("bytes");
        }
        sym::reach("split");
    }
    fn h_c04_some_sizes() {
        // pages of some sizes, one of them large
        let mut file: Vec<u8> = vec![];
        let mut want: [Vec<Vec<u8>>; 3] = [vec![], vec![], vec![]];
        let large = sym::choice("large", 5);
        for k in 0..if large == 4 { 2 } else { 3 } {
            let s = sym::choice(&format!("tag{}", k), 4);
            if s == 3 {
                break;
            }
            let n = match k {
                1 => [3, MAX, MAX - 1, 0x0001_0000, 0x0100_0002][large],
                _ => [1, 2, 5, 6][(k + large) % 4],
            };
            let mut data = vec![k as u8 + 1; n];
            for i in 0..n.min(3) {
                data[i] = sym::any_u8(&format!("first{}_{}", k, i));
                data[n - 1 - i] = sym::any_u8(&format!("last{}_{}", k, i));
            }
            file.push(s as u8);
            file.extend_from_slice(&(n as u32).to_le_bytes());
            file.extend_from_slice(&data);
            want[s].push(data);
        }
        let streams = measureme::split_streams(&file);
        for s in 0..3 {
            match streams.get(&TAGS[s]) {
                None => sym::check(want[s].is_empty(), "a stream with a page has an entry"),
                Some(v) => {
                    sym::check(!want[s].is_empty(), "a stream without pages has no entry");
                    sym::check(has_parts(v, &want[s]), "a stream holds its pages in a row");
                }
            }
        }
        sym::reach("split");
    }
}
