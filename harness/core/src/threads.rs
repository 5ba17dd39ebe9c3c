//! C24: threads recording at the same time.
use analyzeme::{Event, EventPayload, ProfilingData};
use measureme::{split_streams, EventId, EventIdBuilder, PageTag, Profiler, SerializationSink, SerializationSinkBuilder, StringComponent, StringId};
use std::path::Path;
use std::sync::Arc;

/// Runs `f(0)` .. `f(n - 1)` on threads of their own, in any interleaving.
fn all<F: Fn(usize) + Sync>(n: usize, f: F) {
    struct Arg<F> {
        f: *const F,
        k: usize,
    }
    extern "C" fn go<F: Fn(usize)>(a: u64) -> u64 {
        let a = unsafe { &*(a as *const Arg<F>) };
        unsafe { (*a.f)(a.k) };
        0
    }
    let a: Vec<Arg<F>> = (0..n).map(|k| Arg { f: &f, k }).collect();
    sym::sched(true);
    let t: Vec<u64> = a.iter().map(|a| sym::spawn(go::<F>, a as *const Arg<F> as u64)).collect();
    for t in t {
        sym::join(t);
    }
    sym::sched(false);
}
fn open() -> ProfilingData {
    ProfilingData::new(Path::new("out")).unwrap()
}
/// What one thread did.
#[derive(Clone, Copy)]
enum Op {
    Integer,
    Instant,
    Interval,
    Text,
    Composite,
    Map,
    Bulk,
}
const OPS: [Op; 7] = [Op::Integer, Op::Instant, Op::Interval, Op::Text, Op::Composite, Op::Map, Op::Bulk];

/// `ops[t]`: the steps of thread t
fn record(ops: &[Vec<Op>]) {
    let p = Profiler::new("out").unwrap();
    let kind = p.alloc_string("Kind");
    let shared = p.alloc_string("shared");
    let b = EventIdBuilder::new(&p);
    let label = b.from_label(shared);
    // any values
    let values: Vec<Vec<u64>> = ops.iter().map(|o| o.iter().map(|_| sym::range("value", 0, (1 << 48) - 1)).collect()).collect();
    let made: Vec<std::cell::UnsafeCell<Vec<(StringId, usize)>>> = ops.iter().map(|_| Default::default()).collect();
    struct Share<T>(T);
    unsafe impl<T> Sync for Share<T> {}
    let made = Share(made);
    {
        let (p, made, values) = (&p, &made, &values);
        all(ops.len(), |t| {
            let made = unsafe { &mut *made.0[t].get() };
            for (k, op) in ops[t].iter().enumerate() {
                let v = values[t][k];
                match op {
                    Op::Integer => p.record_integer_event(kind, label, t as u32, v),
                    Op::Instant => p.record_instant_event(kind, label, t as u32),
                    Op::Interval => drop(p.start_recording_interval_event(kind, label, t as u32)),
                    Op::Text => {
                        let s = p.alloc_string(NAMES[t][k]);
                        made.push((s, k));
                        p.record_integer_event(s, EventId::from_label(s), t as u32, v);
                    }
                    Op::Composite => {
                        let s = p.alloc_string(&[StringComponent::Value(NAMES[t][k]), StringComponent::Ref(shared)]);
                        made.push((s, k + 100));
                    }
                    Op::Map => {
                        let s = p.alloc_string(NAMES[t][k]);
                        let id = StringId::new_virtual((t * 16 + k) as u32);
                        p.map_virtual_to_concrete_string(id, s);
                        made.push((id, k));
                    }
                    Op::Bulk => {
                        let s = p.alloc_string(NAMES[t][k]);
                        let id = [StringId::new_virtual((t * 16 + k) as u32), StringId::new_virtual((t * 16 + k + 8) as u32)];
                        p.bulk_map_virtual_to_single_concrete_string(id.iter().cloned(), s);
                        made.push((id[0], k));
                        made.push((id[1], k));
                    }
                }
            }
        });
    }
    // every string is found under its id: record an event with it
    let made: Vec<Vec<(StringId, usize)>> = made.0.into_iter().map(|m| m.into_inner()).collect();
    for (t, m) in made.iter().enumerate() {
        for (s, k) in m {
            p.record_integer_event(kind, EventId::from_label(*s), 99, (t * 1000 + k) as u64);
        }
    }
    drop(p);
    let d = open();
    let mut next = vec![0; ops.len()];
    let mut texts = 0;
    let skip = |t: usize, mut k: usize| {
        while k < ops[t].len() && matches!(ops[t][k], Op::Composite | Op::Map | Op::Bulk) {
            k += 1;
        }
        k
    };
    for e in d.iter_full() {
        let e: Event = e;
        let t = e.thread_id as usize;
        if t == 99 {
            let v = match e.payload {
                EventPayload::Integer(v) => v as usize,
                _ => 0,
            };
            let (t, k) = (v / 1000, v % 1000);
            let name = NAMES[t][k % 100];
            let want = if k >= 100 { format!("{}shared", name) } else { name.to_string() };
            sym::check(e.label == want, "every string is found under its id");
            texts += 1;
            continue;
        }
        sym::check(t < ops.len(), "no event is made up");
        let k = skip(t, next[t]);
        sym::check(k < ops[t].len(), "no event appears twice");
        match ops[t][k] {
            Op::Integer => sym::check(e.event_kind == "Kind" && e.label == "shared" && e.payload == EventPayload::Integer(values[t][k]), "integers of a thread are intact and in order"),
            Op::Instant => sym::check(e.event_kind == "Kind" && e.label == "shared" && e.payload.is_instant(), "instants of a thread are intact and in order"),
            Op::Interval => sym::check(e.event_kind == "Kind" && e.label == "shared" && e.payload.is_interval(), "intervals of a thread are intact and in order"),
            _ => sym::check(e.event_kind == NAMES[t][k] && e.label == NAMES[t][k] && e.payload == EventPayload::Integer(values[t][k]), "events with new strings are intact and in order"),
        }
        next[t] = k + 1;
    }
    for t in 0..ops.len() {
        sym::check(skip(t, next[t]) == ops[t].len(), "no event is lost");
    }
    sym::check(texts == made.iter().map(|m| m.len()).sum::<usize>(), "no later event is lost");
}
const NAMES: [[&str; 4]; 3] = [["one", "two two", "three", "four"], ["a", "bb", "ccc", "dddd"], ["x", "yy", "zzz", "wwww"]];

#[derive(Clone, Copy)]
struct Chunk {
    stream: usize,
    addr: u64,
    data: &'static [u8],
}
struct Slots(std::cell::UnsafeCell<Vec<Option<Chunk>>>);
unsafe impl Sync for Slots {}
/// Every chunk is in its stream, at its address, and nothing else is.
fn check_streams(streams: &[Vec<u8>], chunks: &[Chunk], per_thread: usize) {
    let mut total = [0; 2];
    for c in chunks {
        total[c.stream] += c.data.len() as u64;
    }
    for (k, s) in streams.iter().enumerate() {
        sym::check(s.len() as u64 == total[k], "nothing is lost or added");
    }
    for t in chunks.chunks(per_thread) {
        for p in t.windows(2) {
            sym::check(p[1].addr >= p[0].addr + p[0].data.len() as u64, "the writes of a thread keep their order");
        }
    }
    let c = chunks[sym::choice("which", chunks.len())];
    sym::check(c.addr <= streams[c.stream].len() as u64 && c.data.len() as u64 <= streams[c.stream].len() as u64 - c.addr, "an address is inside of its stream");
    let i = sym::any_u64("pos");
    sym::assume(i < c.data.len() as u64);
    sym::check(streams[c.stream][(c.addr + i) as usize] == c.data[i as usize], "every byte is found at the address returned");
}
/// Two threads write chunks of any lengths, each to the stream given.
fn chunks(stream: [usize; 2], writes: usize, halves: usize, methods: usize) {
    sym::logmode(true);
    let b = SerializationSinkBuilder::new_in_memory();
    let s: Vec<SerializationSink> = vec![b.new_sink(PageTag::Events), b.new_sink(PageTag::StringData)];
    let mut all_chunks: Vec<Chunk> = vec![];
    let prefill = [0, 262_100][sym::choice("prefill", 2)];
    if prefill > 0 {
        let data: &'static [u8] = sym::source("before", prefill);
        let a = s[0].write_atomic(prefill, |m| m.copy_from_slice(data));
        all_chunks.push(Chunk { stream: 0, addr: a.0, data });
    }
    let method = [sym::choice("method0", methods), sym::choice("method1", methods)];
    let mut data: Vec<&'static [u8]> = vec![];
    for k in 0..2 * writes {
        // (of two chunks of a thread the second one is small)
        let n = if k % writes == 0 {
            sym::choice(&format!("halves{}", k), halves) * 131_072 + sym::range("len", 1, 131_071) as usize
        } else {
            sym::range("len", 1, 128) as usize
        };
        data.push(sym::source("data", n));
    }
    let out = Slots(std::cell::UnsafeCell::new(vec![None; 2 * writes]));
    {
        let (s, out, data) = (&s, &out, &data);
        all(2, |t| {
            for k in 0..writes {
                let data = data[t * writes + k];
                let sink = &s[stream[t]];
                let addr = match method[t] {
                    0 => sink.write_atomic(data.len(), |m| m.copy_from_slice(data)).0,
                    1 => sink.write_bytes_atomic(data).0,
                    _ => {
                        let a = sink.write_bytes_atomic(data).0;
                        std::io::Write::flush(&mut sink.as_std_write()).unwrap();
                        a
                    }
                };
                unsafe { (&mut *out.0.get())[t * writes + k] = Some(Chunk { stream: stream[t], addr, data }) };
            }
        });
    }
    let made: Vec<Chunk> = out.0.into_inner().into_iter().map(|c| c.unwrap()).collect();
    if prefill > 0 {
        // (a thread of its own)
        let first = all_chunks[0];
        sym::check(first.addr == 0, "the first address");
        for c in &made {
            sym::check(c.stream == 1 || c.addr >= prefill as u64, "later writes come later");
        }
    }
    let mut it = s.into_iter();
    let x = it.next().unwrap();
    let y = it.next().unwrap();
    let mut streams = vec![x.into_bytes(), y.into_bytes()];
    if prefill > 0 {
        // leave the beginning out
        sym::check(streams[0].len() >= prefill, "the first write is there");
        let rest: Vec<u8> = streams[0][prefill..].to_vec();
        streams[0] = rest;
    }
    let made: Vec<Chunk> = made.into_iter().map(|c| Chunk { addr: if c.stream == 0 { c.addr - prefill as u64 } else { c.addr }, ..c }).collect();
    check_streams(&streams, &made, writes);
    sym::reach("verified");
}
fn op(name: &str) -> Op {
    OPS[sym::choice(name, 7)]
}

sym::harnesses! {
    fn h_c24_recording() {
        // two threads, each with two operations of any kind
        let ops = vec![vec![op("op00"), op("op01")], vec![op("op10"), op("op11")]];
        record(&ops);
        sym::reach("verified");
    }
    fn h_c24_three() {
        // three threads with one operation each
        let ops = vec![vec![op("op0")], vec![op("op1")], vec![op("op2")]];
        record(&ops);
        sym::reach("verified");
    }
    fn h_c24_one_stream() {
        // two threads write to one stream
        chunks([0, 0], 1, 2, 3);
        sym::reach("done");
    }
    fn h_c24_two_streams() {
        // pages of two streams of one file
        chunks([0, 1], 1, 2, 3);
        sym::reach("done");
    }
    fn h_c24_two_writes() {
        chunks([0, 0], 2, 2, 2);
        sym::reach("done");
    }
    fn h_c24_drop() {
        // one thread gives up its sink while another one writes
        let f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open("out").unwrap();
        let b = SerializationSinkBuilder::new_from_file(f).unwrap();
        let s = [Arc::new(b.new_sink(PageTag::Events)), Arc::new(b.new_sink(PageTag::StringData))];
        drop(b);
        let same = sym::choice("same", 2) == 1;
        sym::logmode(true);
        let data: [&'static [u8]; 2] = [sym::source("data0", sym::range("len0", 1, 262_143) as usize), sym::source("data1", sym::range("len1", 1, 262_143) as usize)];
        struct Cell(std::cell::UnsafeCell<[Option<Arc<SerializationSink>>; 2]>, std::cell::UnsafeCell<Vec<Option<Chunk>>>);
        unsafe impl Sync for Cell {}
        let [x, y] = s;
        let z = if same { x.clone() } else { y };
        let c = Cell(std::cell::UnsafeCell::new([Some(x), Some(z)]), std::cell::UnsafeCell::new(vec![None; 2]));
        {
            let c = &c;
            all(2, |t| {
                let s = unsafe { (&mut *c.0.get())[t].take().unwrap() };
                let a = s.write_bytes_atomic(data[t]).0;
                unsafe { (&mut *c.1.get())[t] = Some(Chunk { stream: if same { 0 } else { t }, addr: a, data: data[t] }) };
            });
        }
        let mut m = split_streams(&std::fs::read("out").unwrap());
        let streams = vec![m.remove(&PageTag::Events).unwrap_or_default(), m.remove(&PageTag::StringData).unwrap_or_default()];
        let made: Vec<Chunk> = c.1.into_inner().into_iter().map(|c| c.unwrap()).collect();
        check_streams(&streams, &made, 1);
        sym::reach("verified");
    }
}
