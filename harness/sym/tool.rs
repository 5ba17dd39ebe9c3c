// Shared by the harnesses of the command line tools: writing profiles, running `main`.
use measureme::{PageTag, RawEvent, SerializationSinkBuilder, StringTableBuilder};
use std::sync::Arc;

pub const META: &str = r#"{ "start_time": 77000000005, "process_id": 321, "cmd": "cmd" }"#;

/// The three streams of a profile.
pub struct Parts(pub [Vec<u8>; 3]);
/// A page: tag, length, data.
pub fn page(file: &mut Vec<u8>, tag: u8, data: &[u8]) {
    if data.is_empty() {
        return;
    }
    file.push(tag);
    file.extend_from_slice(&(data.len() as u32).to_le_bytes());
    file.extend_from_slice(data);
}
pub fn top(version: u32) -> Vec<u8> {
    let mut v = b"MMPD".to_vec();
    v.extend_from_slice(&version.to_le_bytes());
    v
}
impl Parts {
    pub fn file(&self) -> Vec<u8> {
        let mut v = top(9);
        for k in 0..3 {
            page(&mut v, k as u8, &self.0[k]);
        }
        v
    }
}
/// Events and strings, written by the library.
pub fn record(meta: &str, f: impl FnOnce(&StringTableBuilder, &mut dyn FnMut(RawEvent))) -> Parts {
    let b = SerializationSinkBuilder::new_in_memory();
    let ev = b.new_sink(PageTag::Events);
    let d = Arc::new(b.new_sink(PageTag::StringData));
    let i = Arc::new(b.new_sink(PageTag::StringIndex));
    let t = StringTableBuilder::new(d.clone(), i.clone()).unwrap();
    measureme::file_header::write_file_header(&mut ev.as_std_write(), b"MMES").unwrap();
    t.alloc_metadata(meta);
    f(&t, &mut |e| {
        ev.write_atomic(std::mem::size_of::<RawEvent>(), |b| e.serialize(b));
    });
    drop(t);
    Parts([ev.into_bytes(), Arc::try_unwrap(d).unwrap().into_bytes(), Arc::try_unwrap(i).unwrap().into_bytes()])
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut eq = true;
    for i in 0..a.len() {
        eq &= a[i] == b[i];
    }
    eq
}
/// Any character of that width in bytes.
pub fn any_char(name: &str, width: usize) -> char {
    let c = match width {
        1 => sym::range(name, 0, 0x7f),
        2 => sym::range(name, 0x80, 0x7ff),
        3 => {
            let c = sym::range(name, 0x800, 0xffff);
            sym::assume(!(0xd800..=0xdfff).contains(&c));
            c
        }
        _ => sym::range(name, 0x10000, 0x10ffff),
    };
    unsafe { char::from_u32_unchecked(c as u32) }
}
/// Any character allowed in labels and arguments.
pub fn text_char(name: &str, width: usize) -> char {
    let c = any_char(name, width);
    if width == 1 {
        let b = c as u8;
        sym::assume((b >= 32 && b != 127) || (b >= 9 && b <= 13));
    }
    c
}
