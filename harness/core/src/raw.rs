//! C01, C02: the binary event encoding.
use decodeme::event_payload::{EventPayload, Timestamp};
use measureme::{EventId, RawEvent, StringId};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const MAX_SINGLE: u64 = (1 << 48) - 1;
const MAX_INTERVAL: u64 = (1 << 48) - 3;

struct Ids {
    kind: u64,
    id: u64,
    thread: u32,
}
fn ids() -> Ids {
    Ids { kind: sym::any_u64("kind"), id: sym::any_u64("id"), thread: sym::any_u32("thread") }
}
fn through_bytes(ev: &RawEvent) -> RawEvent {
    // the fixed record size of the format
    let mut buf = [0u8; 32];
    ev.serialize(&mut buf);
    RawEvent::deserialize(&buf)
}
fn same_ids(ev: &RawEvent, i: &Ids) {
    sym::check(ev.event_kind.as_u64() == i.kind, "event kind survives");
    sym::check(ev.event_id.as_u64() == i.id, "event id survives");
    sym::check(ev.thread_id == i.thread, "thread id survives");
}
/// any value up to the 48-bit limit as (seconds, nanoseconds); two ranges, so that each
/// provably fits in 48 bits
fn secs_nanos(name: &str, top: u64) -> (u64, u64) {
    if sym::choice(&format!("{}_hi", name), 2) == 0 {
        (sym::range(&format!("{}_s", name), 0, 281_473), sym::range(&format!("{}_n", name), 0, 999_999_999))
    } else {
        (281_474, sym::range(&format!("{}_n", name), 0, top - 281_474_000_000_000))
    }
}
/// time `s` seconds `n` nanoseconds after the epoch
fn at(s: u64, n: u64) -> SystemTime {
    UNIX_EPOCH + Duration::new(s, n as u32)
}

sym::harnesses! {
    fn h_c01_interval() {
        let i = ids();
        let (s, e) = (sym::range("start", 0, MAX_INTERVAL), sym::range("end", 0, MAX_INTERVAL));
        sym::assume(s <= e);
        let raw = RawEvent::new_interval(StringId::new(i.kind), EventId::from_u64(i.id), i.thread, s, e);
        let d = through_bytes(&raw);
        same_ids(&d, &i);
        sym::check(d == raw, "decoded record equals the encoded one");
        sym::check(!d.is_instant() && !d.is_integer(), "an interval is recognised as an interval");
        sym::check(d.start_value() == s, "interval start survives");
        sym::check(d.end_value() == e, "interval end survives");
        sym::reach("interval");
    }
    fn h_c01_instant() {
        let i = ids();
        let v = sym::range("time", 0, MAX_SINGLE);
        let raw = RawEvent::new_instant(StringId::new(i.kind), EventId::from_u64(i.id), i.thread, v);
        let d = through_bytes(&raw);
        same_ids(&d, &i);
        sym::check(d == raw, "decoded record equals the encoded one");
        sym::check(d.is_instant() && !d.is_integer(), "an instant is recognised as an instant");
        sym::check(d.start_value() == v, "instant time survives");
        sym::reach("instant");
    }
    fn h_c01_integer() {
        let i = ids();
        let v = sym::range("value", 0, MAX_SINGLE);
        let raw = RawEvent::new_integer(StringId::new(i.kind), EventId::from_u64(i.id), i.thread, v);
        let d = through_bytes(&raw);
        same_ids(&d, &i);
        sym::check(d == raw, "decoded record equals the encoded one");
        sym::check(d.is_integer() && !d.is_instant(), "an integer is recognised as an integer");
        sym::check(d.value() == v, "integer value survives");
        match EventPayload::from_raw_event(&d, at(7, 0)) {
            EventPayload::Integer(x) => sym::check(x == v, "reader sees the integer value"),
            _ => sym::check(false, "reader sees an integer"),
        }
        sym::reach("integer");
    }
    fn h_c01_layout() {
        // the record layout is part of the file format: little endian, 32 bytes
        let i = ids();
        let (s, e) = (sym::range("start", 0, MAX_INTERVAL), sym::range("end", 0, MAX_INTERVAL));
        sym::assume(s <= e);
        let raw = RawEvent::new_interval(StringId::new(i.kind), EventId::from_u64(i.id), i.thread, s, e);
        let mut buf = [0u8; 32];
        raw.serialize(&mut buf);
        let u = |o: usize| u64::from_le_bytes([buf[o], buf[o + 1], buf[o + 2], buf[o + 3], buf[o + 4], buf[o + 5], buf[o + 6], buf[o + 7]]);
        let w = |o: usize| u32::from_le_bytes([buf[o], buf[o + 1], buf[o + 2], buf[o + 3]]) as u64;
        sym::check(u(0) == i.kind, "bytes 0..8 hold the kind");
        sym::check(u(8) == i.id, "bytes 8..16 hold the id");
        sym::check(w(16) == i.thread as u64, "bytes 16..20 hold the thread");
        sym::check(w(20) | (w(28) >> 16) << 32 == s, "start is split over bytes 20..24 and 30..32");
        sym::check(w(24) | (w(28) & 0xffff) << 32 == e, "end is split over bytes 24..28 and 28..30");
        sym::reach("layout");
    }
    fn h_c02_interval() {
        let i = ids();
        let (s, e) = (sym::any_u64("start"), sym::any_u64("end"));
        sym::panic_iff(!(s <= e && e <= MAX_INTERVAL));
        let raw = RawEvent::new_interval(StringId::new(i.kind), EventId::from_u64(i.id), i.thread, s, e);
        sym::no_panic();
        let d = through_bytes(&raw);
        sym::check(!d.is_instant() && !d.is_integer(), "accepted intervals stay intervals");
        sym::check(d.start_value() == s && d.end_value() == e, "accepted interval is stored exactly");
        sym::reach("accepted");
    }
    fn h_c02_instant() {
        let i = ids();
        let v = sym::any_u64("time");
        sym::panic_iff(v > MAX_SINGLE);
        let raw = RawEvent::new_instant(StringId::new(i.kind), EventId::from_u64(i.id), i.thread, v);
        sym::no_panic();
        let d = through_bytes(&raw);
        sym::check(d.is_instant() && d.start_value() == v, "accepted instant is stored exactly");
        sym::reach("accepted");
    }
    fn h_c02_integer() {
        let i = ids();
        let v = sym::any_u64("value");
        sym::panic_iff(v > MAX_SINGLE);
        let raw = RawEvent::new_integer(StringId::new(i.kind), EventId::from_u64(i.id), i.thread, v);
        sym::no_panic();
        let d = through_bytes(&raw);
        sym::check(d.is_integer() && d.value() == v, "accepted integer is stored exactly");
        sym::reach("accepted");
    }
    fn h_c13_payload() {
        // offsets as (seconds, nanoseconds) so that calendar arithmetic stays linear
        let (bs, bn) = (sym::range("base_s", 0, 1 << 33), sym::range("base_n", 0, 999_999_999));
        let (s1, n1) = secs_nanos("start", MAX_INTERVAL);
        let (s2, n2) = secs_nanos("end", MAX_INTERVAL);
        let (s, e) = (s1 * 1_000_000_000 + n1, s2 * 1_000_000_000 + n2);
        sym::assume(s <= e && e <= MAX_INTERVAL);
        let base = at(bs, bn);
        let raw = RawEvent::new_interval(StringId::new(1u64), EventId::from_u64(2), 3, s, e);
        let p = EventPayload::from_raw_event(&raw, base);
        sym::check(p.is_interval() && !p.is_instant() && !p.is_integer(), "interval payload");
        sym::check(p.integer().is_none(), "an interval has no integer value");
        // reference: pairs (seconds, nanoseconds) with carry
        let add = |s: u64, n: u64| if bn + n >= 1_000_000_000 { (bs + s + 1, bn + n - 1_000_000_000) } else { (bs + s, bn + n) };
        let (as_, an) = add(s1, n1);
        let (es, en) = add(s2, n2);
        match p.timestamp() {
            Some(t @ Timestamp::Interval { start, end }) => {
                sym::check(start == at(as_, an), "start is base plus offset");
                sym::check(end == at(es, en), "end is base plus offset");
                sym::check(t.start() == start && t.end() == end, "accessors agree");
                sym::check(!t.is_instant(), "not an instant");
            }
            _ => sym::check(false, "interval timestamp"),
        }
        let (ds, dn) = if n2 >= n1 { (s2 - s1, n2 - n1) } else { (s2 - s1 - 1, n2 + 1_000_000_000 - n1) };
        sym::check(p.duration() == Some(Duration::new(ds, dn as u32)), "duration is end minus start");
        sym::reach("interval");
    }
    fn h_c13_instant() {
        let (bs, bn) = (sym::range("base_s", 0, 1 << 33), sym::range("base_n", 0, 999_999_999));
        let (s1, n1) = secs_nanos("time", MAX_SINGLE);
        let v = s1 * 1_000_000_000 + n1;
        sym::assume(v <= MAX_SINGLE);
        let p = EventPayload::from_raw_event(&RawEvent::new_instant(StringId::new(1u64), EventId::from_u64(2), 3, v), at(bs, bn));
        let (es, en) = if bn + n1 >= 1_000_000_000 { (bs + s1 + 1, bn + n1 - 1_000_000_000) } else { (bs + s1, bn + n1) };
        sym::check(p.is_instant() && !p.is_interval() && !p.is_integer(), "instant payload");
        sym::check(p.duration().is_none(), "instants have no duration");
        sym::check(p.integer().is_none(), "instants have no integer value");
        match p.timestamp() {
            Some(Timestamp::Instant(t)) => sym::check(t == at(es, en), "time is base plus offset"),
            _ => sym::check(false, "instant timestamp"),
        }
        let q = EventPayload::from_raw_event(&RawEvent::new_integer(StringId::new(1u64), EventId::from_u64(2), 3, v), at(bs, bn));
        sym::check(q.is_integer() && !q.is_interval() && !q.is_instant(), "integer payload");
        sym::check(q.duration().is_none() && q.timestamp().is_none(), "integers have no time");
        sym::check(q.integer() == Some(v), "integer value");
        sym::reach("instant");
    }
    fn h_c13_contains() {
        // two events of any payload form
        let mk = |name: &str, form: usize| {
            let s = (sym::range(&format!("{}_start_s", name), 0, 4), sym::range(&format!("{}_start_n", name), 0, 999_999_999));
            let e = (sym::range(&format!("{}_end_s", name), 0, 4), sym::range(&format!("{}_end_n", name), 0, 999_999_999));
            let (a, b) = (s.0 * 1_000_000_000 + s.1, e.0 * 1_000_000_000 + e.1);
            let raw = match form {
                0 => {
                    sym::assume(a <= b);
                    RawEvent::new_interval(StringId::new(1u64), EventId::from_u64(2), 3, a, b)
                }
                1 => RawEvent::new_instant(StringId::new(1u64), EventId::from_u64(2), 3, a),
                _ => RawEvent::new_integer(StringId::new(1u64), EventId::from_u64(2), 3, a),
            };
            (EventPayload::from_raw_event(&raw, at(100, 5)), a, if form == 0 { b } else { a })
        };
        let (f1, f2) = (sym::choice("form1", 3), sym::choice("form2", 3));
        let (p, ps, pe) = mk("outer", f1);
        let (q, qs, qe) = mk("inner", f2);
        let want = f1 == 0 && f2 != 2 && ps <= qs && qe <= pe;
        sym::check(p.contains(&q) == want, "containment is by closed range");
        sym::reach("contains");
    }
}
