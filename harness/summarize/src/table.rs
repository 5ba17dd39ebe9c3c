//! Reading printed tables, and the parts of the output.
pub type Rows = Vec<Vec<String>>;
/// The tables of a text, and the lines between them.
pub fn read(t: &[u8]) -> (Vec<Rows>, Vec<String>) {
    let t = std::str::from_utf8(t).unwrap();
    let (mut tables, mut other): (Vec<Rows>, Vec<String>) = (vec![], vec![]);
    let mut inside = false;
    for l in t.lines() {
        let l = l.trim();
        if l.starts_with('|') && l.ends_with('|') {
            if !inside {
                tables.push(vec![]);
                inside = true;
            }
            let cells = l[1..l.len() - 1].split('|').map(|c| c.trim().to_string()).collect();
            tables.last_mut().unwrap().push(cells);
        } else if l.starts_with('+') && l.ends_with('+') {
            if !inside {
                tables.push(vec![]);
                inside = true;
            }
        } else {
            inside = false;
            other.push(l.to_string());
        }
    }
    (tables, other)
}
pub type ByteRows<'a> = Vec<Vec<&'a [u8]>>;
/// The same without looking at the contents of the cells more than necessary.
pub fn read_bytes(t: &[u8]) -> (Vec<ByteRows>, usize) {
    let mut tables: Vec<ByteRows> = vec![];
    let (mut inside, mut other) = (false, 0);
    for l in t.split(|&b| b == b'\n') {
        if l.len() > 1 && l[0] == b'|' && l[l.len() - 1] == b'|' {
            if !inside {
                tables.push(vec![]);
                inside = true;
            }
            tables.last_mut().unwrap().push(l[1..l.len() - 1].split(|&b| b == b'|').map(trim).collect());
        } else if l.len() > 1 && l[0] == b'+' && l[l.len() - 1] == b'+' {
            if !inside {
                tables.push(vec![]);
                inside = true;
            }
        } else {
            inside = false;
            other += 1;
        }
    }
    (tables, other)
}
fn trim(mut c: &[u8]) -> &[u8] {
    while !c.is_empty() && c[0] == b' ' {
        c = &c[1..];
    }
    while !c.is_empty() && c[c.len() - 1] == b' ' {
        c = &c[..c.len() - 1];
    }
    c
}
