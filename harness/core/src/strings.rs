//! C05, C06, C07: the string table.
use decodeme::stringtable::StringTable;
use measureme::stringtable::{FIRST_REGULAR_STRING_ID, METADATA_STRING_ID};
use measureme::{Addr, PageTag, SerializationSink, SerializationSinkBuilder, StringComponent, StringId, StringTableBuilder};
use std::borrow::Cow;
use std::sync::Arc;

pub struct Table {
    pub data: Arc<SerializationSink>,
    pub index: Arc<SerializationSink>,
    pub builder: StringTableBuilder,
}
pub fn table() -> Table {
    let b = SerializationSinkBuilder::new_in_memory();
    let data = Arc::new(b.new_sink(PageTag::StringData));
    let index = Arc::new(b.new_sink(PageTag::StringIndex));
    let builder = StringTableBuilder::new(data.clone(), index.clone()).unwrap();
    Table { data, index, builder }
}
impl Table {
    pub fn read(self) -> StringTable {
        drop(self.builder);
        let d = Arc::try_unwrap(self.data).unwrap().into_bytes();
        let i = Arc::try_unwrap(self.index).unwrap().into_bytes();
        match StringTable::new(d, i, None) {
            Ok(t) => t,
            Err(_) => {
                sym::check(false, "the table the writer produced is readable");
                loop {}
            }
        }
    }
}
/// One character of `width` bytes.
pub fn any_char(name: &str, width: usize) -> char {
    let c = match width {
        1 => sym::range(name, 0, 0x7f),
        2 => sym::range(name, 0x80, 0x7ff),
        3 => {
            let c = sym::range(name, 0x800, 0xffff);
            sym::assume(!(0xd800..=0xdfff).contains(&c));
            c
        }
        _ => sym::range(name, 0x10000, 0x10ffff),
    };
    unsafe { char::from_u32_unchecked(c as u32) }
}
/// `same` without stopping at the first difference
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn read_both(t: &StringTable, id: StringId, want: &[u8], what: &str) {
    let r = t.get(id);
    let c: Cow<str> = r.to_string();
    sym::check(c.len() == want.len(), &format!("{}: length of the text", what));
    sym::check(same(c.as_bytes(), want), &format!("{}: text", what));
    let mut s = String::from("<");
    r.write_to_string(&mut s);
    sym::check(s.len() == want.len() + 1 && s.as_bytes()[0] == b'<', &format!("{}: length of the appended text", what));
    sym::check(same(&s.as_bytes()[1..], want), &format!("{}: appended text", what));
}

/// Fixed texts of any length.
fn filler(n: usize) -> String {
    "f".repeat(n)
}
fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
fn ascii(name: &str, n: usize) -> Vec<u8> {
    (0..n).map(|i| sym::range(&format!("{}{}", name, i), 0, 0x7f) as u8).collect()
}

const MAX_USER: u64 = 100_000_000;

sym::harnesses! {
    fn h_c05_where() {
        // strings at any position of the table, over several pages
        sym::logmode(true);
        let t = table();
        let n = sym::choice("halves", 6) * 131_072 + sym::range("filler", 0, 131_071) as usize;
        let fill: &'static [u8] = sym::source("filldata", n);
        t.data.write_bytes_atomic(fill);
        let c = [sym::range("a", 0, 127) as u8, sym::range("b", 0, 127) as u8];
        let s = text(&c);
        let first = t.builder.alloc(s);
        let second = t.builder.alloc(&[StringComponent::Ref(first), StringComponent::Value("x"), StringComponent::Ref(first)]);
        let t = t.read();
        read_both(&t, first, &c, "literal");
        read_both(&t, second, &[c[0], c[1], b'x', c[0], c[1]], "composite");
        sym::reach("read");
    }
    fn h_c05_ref_bytes() {
        // positions whose ids contain the two marker bytes
        let t = table();
        // id = address + 100_000_003: low bytes 03 e1 f5 05
        let at = [0xfa, 0xfb, 0xfc, 0xfd, 0x1cfb, 0x1cfc, 0x1cfd, 0x1d00, 0x1dfc, 0x1dfd, 0x1dfb, 0x91dfb, 0x91dfc, 0xa1dfb, 0xa1efc];
        let pos = at[sym::choice("at", at.len())];
        let mut written = 8;
        while written < pos {
            // (at most one page at a time)
            let n = (pos - written).min(100_000);
            t.builder.alloc(&*filler(n - 1));
            written += n;
        }
        let c = ascii("c", 2);
        let first = t.builder.alloc(text(&c));
        sym::check(first.to_addr().0 as usize == pos, "the id of a string is its address");
        let shape = sym::choice("shape", 3);
        let second = match shape {
            0 => t.builder.alloc(&[StringComponent::Ref(first)]),
            1 => t.builder.alloc(&[StringComponent::Ref(first), StringComponent::Value("x"), StringComponent::Ref(first)]),
            _ => t.builder.alloc(&[StringComponent::Value("x"), StringComponent::Ref(first), StringComponent::Value("y")]),
        };
        let want: Vec<u8> = match shape {
            0 => vec![c[0], c[1]],
            1 => vec![c[0], c[1], b'x', c[0], c[1]],
            _ => vec![b'x', c[0], c[1], b'y'],
        };
        let third = t.builder.alloc(&[StringComponent::Ref(second)]);
        let t = t.read();
        read_both(&t, first, &c, "literal");
        read_both(&t, second, &want, "composite");
        read_both(&t, third, &want, "nested");
        sym::reach("read");
    }
    fn h_c05_nested() {
        // three strings of any components
        let t = table();
        let l0 = sym::choice("len0", 3);
        let mut texts: Vec<Vec<u8>> = vec![ascii("c0_", l0)];
        let mut ids = vec![t.builder.alloc(text(&texts[0]))];
        let most = if sym::deep() { [2, 3, 3] } else { [2, 2, 3] };
        for k in 1..3 {
            let n = sym::choice(&format!("comps{}", k), most[k] + 1);
            let mut parts = vec![];
            let mut want = vec![];
            let mut lits: Vec<Vec<u8>> = vec![];
            let mut what = vec![];
            for j in 0..n {
                let w = sym::choice(&format!("comp{}_{}", k, j), 2 + k);
                if w < 2 {
                    let l = ascii(&format!("c{}_{}_", k, j), w);
                    want.extend_from_slice(&l);
                    lits.push(l);
                } else {
                    want.extend_from_slice(&texts[w - 2]);
                    lits.push(vec![]);
                }
                what.push(w);
            }
            for j in 0..n {
                parts.push(if what[j] < 2 { StringComponent::Value(text(&lits[j])) } else { StringComponent::Ref(ids[what[j] - 2]) });
            }
            ids.push(t.builder.alloc(&parts[..]));
            texts.push(want);
        }
        t.builder.alloc("after");
        let t = t.read();
        for k in 0..3 {
            read_both(&t, ids[k], &texts[k], ["first", "second", "third"][k]);
        }
        sym::reach("read");
    }
    fn h_c05_sizes() {
        // a reference next to literals of any length, anywhere near the start of the table
        let t = table();
        let n = sym::choice("filler", if sym::deep() { 48 } else { 20 });
        t.builder.alloc(&*filler(n));
        let c = ascii("c", 1);
        let first = t.builder.alloc(text(&c));
        let m = sym::choice("tail", if sym::deep() { 80 } else { 40 });
        let mut tail = filler(m).into_bytes();
        if m > 0 {
            tail[m - 1] = sym::range("last", 0, 0x7f) as u8;
        }
        let second = t.builder.alloc(&[StringComponent::Ref(first), StringComponent::Value(text(&tail))]);
        let third = t.builder.alloc(&[StringComponent::Value(text(&tail)), StringComponent::Ref(first)]);
        let t = t.read();
        read_both(&t, first, &c, "literal");
        let mut want = c.clone();
        want.extend_from_slice(&tail);
        read_both(&t, second, &want, "reference then literal");
        tail.extend_from_slice(&c);
        read_both(&t, third, &tail, "literal then reference");
        sym::reach("read");
    }
    fn h_c05_unicode() {
        // any characters
        let t = table();
        let n = sym::choice("chars", if sym::deep() { 4 } else { 3 });
        let mut s = String::new();
        for i in 0..n {
            s.push(any_char(&format!("char{}", i), 1 + sym::choice(&format!("width{}", i), 4)));
        }
        let first = t.builder.alloc(&*s);
        let second = t.builder.alloc(&[StringComponent::Value(&s), StringComponent::Ref(first)]);
        let t = t.read();
        read_both(&t, first, s.as_bytes(), "literal");
        let mut want = s.clone().into_bytes();
        want.extend_from_slice(s.as_bytes());
        read_both(&t, second, &want, "composite");
        sym::reach("read");
    }
    fn h_c05_lengths() {
        // any first and last character, every length
        let n = sym::choice("len", if sym::deep() { 70 } else { 36 });
        let (w, v) = (1 + sym::choice("first_width", 4), 1 + sym::choice("last_width", 4));
        sym::assume(n >= w + v);
        let mut s = String::new();
        s.push(any_char("first", w));
        s.push_str(&filler(n - w - v));
        s.push(any_char("last", v));
        let t = table();
        let first = t.builder.alloc(&*s);
        let second = t.builder.alloc(&[StringComponent::Value(&s), StringComponent::Ref(first)]);
        let third = t.builder.alloc(&[StringComponent::Ref(first), StringComponent::Value(&s)]);
        let t = t.read();
        read_both(&t, first, s.as_bytes(), "literal");
        let want = [s.as_bytes(), s.as_bytes()].concat();
        read_both(&t, second, &want, "literal then reference");
        read_both(&t, third, &want, "reference then literal");
        sym::reach("read");
    }
    fn h_c05_long() {
        // pieces of the lengths around every size that means something to somebody
        let n = [127, 128, 255, 256, 4_095, 4_096, 4_097, 32_768, 65_535, 65_536, 131_072, 262_143, 262_144, 300_000][sym::choice("len", 14)];
        let t = table();
        let c = ascii("c", 3);
        let mut long = filler(n).into_bytes();
        long[0] = c[0];
        long[n - 1] = c[1];
        let first = t.builder.alloc(text(&long));
        let dot = t.builder.alloc(text(&c[2..]));
        let second = t.builder.alloc(&[StringComponent::Ref(dot), StringComponent::Value(text(&long)), StringComponent::Ref(dot)]);
        let third = t.builder.alloc(&[StringComponent::Value("<"), StringComponent::Ref(first), StringComponent::Ref(first)]);
        let t = t.read();
        let far = |id: StringId, want: &[&[u8]], what: &str| {
            let want = want.concat();
            let r = t.get(id);
            let got = r.to_string();
            sym::check(got.len() == want.len() && got.as_bytes() == &want[..], what);
            let mut s = String::new();
            r.write_to_string(&mut s);
            sym::check(s.len() == want.len() && s.as_bytes() == &want[..], what);
        };
        far(first, &[&long], "a long literal");
        far(second, &[&c[2..], &long, &c[2..]], "a long piece between references");
        far(third, &[b"<", &long, &long], "references to a long string");
        sym::reach("read");
    }
    fn h_c05_many() {
        // as many components as there are array forms, and one more level of nesting per string
        let t = table();
        let c = ascii("c", 1);
        let v = || StringComponent::Value(text(&c));
        let a = t.builder.alloc(text(&c));
        let r = || StringComponent::Ref(a);
        let ids = [
            t.builder.alloc(&[]),
            t.builder.alloc(&[r(), v(), r(), v(), r()]),
            t.builder.alloc(&[v(), v(), v(), v(), v(), v(), v(), v()]),
            t.builder.alloc(&[r(), r(), r(), r(), r(), r(), r(), r(), r(), r(), r(), r(), r(), r(), r(), r()]),
        ];
        let many: Vec<StringComponent> = (0..300).map(|k| if k % 3 == 0 { v() } else { r() }).collect();
        let many = t.builder.alloc(&many[..]);
        let mut chain = vec![a];
        for _ in 0..100 {
            let l = *chain.last().unwrap();
            chain.push(t.builder.alloc(&[v(), StringComponent::Ref(l)]));
        }
        let t = t.read();
        for (i, n) in [0, 5, 8, 16].iter().enumerate() {
            read_both(&t, ids[i], &vec![c[0]; *n], "many components");
        }
        read_both(&t, many, &vec![c[0]; 300], "very many components");
        read_both(&t, chain[100], &vec![c[0]; 101], "deeply nested");

        sym::reach("read");
    }
    fn h_c06_mapping() {
        // single and bulk mappings of distinct ids in any order, any id looked up, also through another string
        let ids = [0, 1, 255, 65_536, 12_345_678, 99_999_999, MAX_USER];
        let t = table();
        let t0 = [ascii("x", 1), ascii("y", 2), ascii("z", 0)];
        let strs: Vec<StringId> = t0.iter().map(|s| t.builder.alloc(text(s))).collect();
        let n = ids.len();
        let a = sym::choice("a", n);
        let b = sym::choice("b", n - 1);
        let b = (a + 1 + b) % n;
        let bulk = sym::choice("bulk", 4);
        let order = sym::choice("order", 4);
        // the bulk mapping takes the ids after `a`, except `b`
        let bulk_ids: Vec<usize> = (1..n).map(|k| (a + k) % n).filter(|i| *i != b).take(bulk).collect();
        for step in [[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1], [1, 3, 0, 2]][order] {
            match step {
                0 => t.builder.map_virtual_to_concrete_string(StringId::new_virtual(ids[a]), strs[0]),
                1 => t.builder.bulk_map_virtual_to_single_concrete_string(bulk_ids.iter().map(|i| StringId::new_virtual(ids[*i])), strs[1]),
                2 => t.builder.map_virtual_to_concrete_string(StringId::new_virtual(ids[b]), strs[2]),
                _ => t.builder.alloc_metadata("meta"),
            }
        }
        let q = sym::choice("query", n);
        let through = t.builder.alloc(&[StringComponent::Value("<"), StringComponent::Ref(StringId::new_virtual(ids[q]))]);
        let t = t.read();
        let want: &[u8] = if q == a { &t0[0] } else if q == b { &t0[2] } else if bulk_ids.contains(&q) { &t0[1] } else { b"<unknown>" };
        read_both(&t, StringId::new_virtual(ids[q]), want, "a virtual id");
        let mut w = vec![b'<'];
        w.extend_from_slice(want);
        read_both(&t, through, &w, "a virtual id inside a string");
        sym::check(t.get_metadata().to_string() == "meta", "the metadata stays");
        sym::reach("looked up");
    }
    fn h_c06_any_id() {
        let t = table();
        t.builder.alloc_metadata("meta");
        let c = ascii("x", 1);
        let x = t.builder.alloc(text(&c));
        let v = StringId::new_virtual(sym::range("id", 0, MAX_USER));
        if sym::choice("bulk", 2) == 0 {
            t.builder.map_virtual_to_concrete_string(v, x);
        } else {
            t.builder.bulk_map_virtual_to_single_concrete_string([v].iter().cloned(), x);
        }
        let t = t.read();
        read_both(&t, v, &c, "a virtual id");
        sym::reach("looked up");
    }
    fn h_c06_large_bulk() {
        // bulk mappings that take the buffered and the direct way into the file
        let t = table();
        let c = ascii("x", 1);
        let x = t.builder.alloc(text(&c));
        let y = t.builder.alloc("other");
        let n = [1, 7, 8, 9, 10, 40][sym::choice("n", 6)];
        let from = [0, 1_000, MAX_USER + 1 - n][sym::choice("from", 3)];
        t.builder.map_virtual_to_concrete_string(StringId::new_virtual(50_000u64), y);
        t.builder.bulk_map_virtual_to_single_concrete_string((from..from + n).map(|i| StringId::new_virtual(i)).collect::<Vec<_>>().into_iter(), x);
        t.builder.map_virtual_to_concrete_string(StringId::new_virtual(50_001u64), y);
        t.builder.alloc_metadata("meta");
        let t = t.read();
        for i in [from, from + n / 2, from + n - 1] {
            read_both(&t, StringId::new_virtual(i), &c, "a virtual id of the range");
        }
        for i in [from.wrapping_sub(1), from + n] {
            if i <= MAX_USER {
                read_both(&t, StringId::new_virtual(i), b"<unknown>", "a virtual id next to the range");
            }
        }
        for i in [50_000u64, 50_001] {
            read_both(&t, StringId::new_virtual(i), b"other", "another virtual id");
        }
        sym::check(t.get_metadata().to_string() == "meta", "the metadata stays");
        sym::reach("looked up");
    }
    fn h_c06_pages() {
        // a bulk mapping of more ids than go on a page of the file
        let t = table();
        let c = ascii("x", 1);
        let x = t.builder.alloc(text(&c));
        let y = t.builder.alloc("other");
        let n = 16_700u64;
        let from = [0, 1_000][sym::choice("from", 2)];
        t.builder.map_virtual_to_concrete_string(StringId::new_virtual(50_000u64), y);
        t.builder.bulk_map_virtual_to_single_concrete_string((from..from + n).map(|i| StringId::new_virtual(i)).collect::<Vec<_>>().into_iter(), x);
        t.builder.map_virtual_to_concrete_string(StringId::new_virtual(50_001u64), y);
        t.builder.alloc_metadata("meta");
        let t = t.read();
        for i in [from, from + 8_191, from + 8_192, from + 16_383, from + 16_384, from + n - 1] {
            read_both(&t, StringId::new_virtual(i), &c, "a virtual id of the range");
        }
        read_both(&t, StringId::new_virtual(from + n), b"<unknown>", "a virtual id next to the range");
        for i in [50_000u64, 50_001] {
            read_both(&t, StringId::new_virtual(i), b"other", "another virtual id");
        }
        sym::check(t.get_metadata().to_string() == "meta", "the metadata stays");
        sym::reach("looked up");
    }
    fn h_c06_refused() {
        let t = table();
        let x = t.builder.alloc("x");
        let id = sym::any_u64("id");
        match sym::choice("how", 4) {
            0 => {
                sym::panic_iff(id > MAX_USER);
                let v = StringId::new_virtual(id);
                sym::no_panic();
                sym::check(v.as_u64() == id && v.is_virtual(), "a virtual id has its number");
            }
            1 => {
                sym::panic_iff(id > MAX_USER);
                t.builder.map_virtual_to_concrete_string(StringId::new(id), x);
                sym::no_panic();
            }
            2 => {
                sym::panic_iff(id > MAX_USER);
                t.builder.bulk_map_virtual_to_single_concrete_string([StringId::new(7u64), StringId::new(id)].iter().cloned(), x);
                sym::no_panic();
            }
            _ => {
                // only strings of the table can be mapped to
                sym::panic_iff(id < FIRST_REGULAR_STRING_ID);
                t.builder.map_virtual_to_concrete_string(StringId::new(7u64), StringId::new(id));
                sym::no_panic();
            }
        }
        sym::reach("accepted");
    }
    fn h_c07_classes() {
        let id = sym::any_u64("id");
        let s = StringId::new(id);
        sym::check(s.as_u64() == id, "an id keeps its number");
        sym::check(s.is_virtual() == (id <= METADATA_STRING_ID), "virtual ids and the metadata id resolve through the index");
        sym::check(METADATA_STRING_ID == MAX_USER + 1, "the metadata id follows the virtual ids");
        sym::check(StringId::INVALID.as_u64() == METADATA_STRING_ID + 1, "the invalid id follows the metadata id");
        sym::check(FIRST_REGULAR_STRING_ID == METADATA_STRING_ID + 2, "addresses follow the invalid id");
        sym::check((s == StringId::INVALID) == (id == METADATA_STRING_ID + 1), "ids are equal exactly when their numbers are");
        sym::panic_iff(id < FIRST_REGULAR_STRING_ID);
        let a = s.to_addr();
        sym::no_panic();
        sym::check(!s.is_virtual() && s != StringId::INVALID, "an address id is in no other class");
        sym::check(a.0 == id - FIRST_REGULAR_STRING_ID, "addresses are consecutive");
        sym::check(StringId::from_addr(a) == s, "id to address and back");
        sym::reach("address");
    }
    fn h_c07_from_addr() {
        let a = sym::any_u64("addr");
        sym::panic_iff(a > u64::MAX - FIRST_REGULAR_STRING_ID);
        let s = StringId::from_addr(Addr(a));
        sym::no_panic();
        sym::check(s.to_addr() == Addr(a), "address to id and back");
        sym::check(!s.is_virtual() && s != StringId::INVALID, "an address never becomes an id of another class");
        sym::reach("address");
    }
    fn h_c07_stored() {
        // the bytes of a reference, and of an index entry
        let t = table();
        let id = sym::any_u64("id");
        t.builder.alloc(&[StringComponent::Ref(StringId::new(id))]);
        let v = sym::range("virtual", 0, MAX_USER);
        let to = sym::range("to", FIRST_REGULAR_STRING_ID, u64::MAX);
        t.builder.map_virtual_to_concrete_string(StringId::new(v), StringId::new(to));
        t.builder.bulk_map_virtual_to_single_concrete_string([StringId::new(v)].iter().cloned(), StringId::new(to));
        drop(t.builder);
        let d = Arc::try_unwrap(t.data).unwrap().into_bytes();
        let i = Arc::try_unwrap(t.index).unwrap().into_bytes();
        let u = |b: &[u8], o: usize| u64::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3], b[o + 4], b[o + 5], b[o + 6], b[o + 7]]);
        sym::check(d.len() == 8 + 10 && d[8] == 0xfe && d[17] == 0xff && u(&d, 9) == id, "a reference stores the id");
        sym::check(i.len() == 8 + 32, "index entries have 16 bytes");
        for k in 0..2 {
            sym::check(u(&i, 8 + 16 * k) == v && u(&i, 16 + 16 * k) == to - FIRST_REGULAR_STRING_ID, "an index entry stores id and address");
        }
        sym::reach("stored");
    }
    fn h_c07_decode() {
        // a reference to any id that names no stored string
        let t = table();
        let id = sym::range("id", 0, FIRST_REGULAR_STRING_ID - 1);
        sym::assume(id != METADATA_STRING_ID);
        let s = t.builder.alloc(&[StringComponent::Value("<"), StringComponent::Ref(StringId::new(id)), StringComponent::Value(">")]);
        let t = t.read();
        sym::check(t.get(s).to_string() == "<<unknown>>", "an id that names nothing is shown as unknown");
        sym::check(t.get(StringId::new(id)).to_string() == "<unknown>", "an id that names nothing is unknown");
        sym::reach("unknown");
    }
}
