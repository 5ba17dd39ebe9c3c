// A small JSON reader: numbers are kept as text, strings are decoded.
#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(Vec<u8>),
    Str(Vec<u8>),
    Arr(Vec<J>),
    Obj(Vec<(Vec<u8>, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => {
                let mut found = None;
                for (n, x) in v {
                    if n.len() == k.len() && n == k.as_bytes() {
                        sym::check(found.is_none(), "a key occurs once");
                        found = Some(x);
                    }
                }
                found
            }
            _ => None,
        }
    }
    pub fn str(&self, k: &str) -> Option<&[u8]> {
        match self.get(k) {
            Some(J::Str(s)) => Some(s),
            _ => None,
        }
    }
    pub fn num(&self, k: &str) -> Option<&[u8]> {
        match self.get(k) {
            Some(J::Num(s)) => Some(s),
            _ => None,
        }
    }
    pub fn items(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
}
struct P<'a>(&'a [u8], usize);
/// The one value the text consists of, or nothing if it is not well-formed.
pub fn parse(t: &[u8]) -> Option<J> {
    let mut p = P(t, 0);
    let v = p.value()?;
    p.space();
    if p.1 == t.len() {
        Some(v)
    } else {
        None
    }
}
impl P<'_> {
    fn peek(&self) -> u8 {
        if self.1 < self.0.len() {
            self.0[self.1]
        } else {
            0
        }
    }
    fn space(&mut self) {
        while self.1 < self.0.len() && matches!(self.0[self.1], b' ' | b'\n' | b'\r' | b'\t') {
            self.1 += 1;
        }
    }
    fn eat(&mut self, t: &[u8]) -> Option<()> {
        if self.1 + t.len() > self.0.len() {
            return None;
        }
        for i in 0..t.len() {
            if self.0[self.1 + i] != t[i] {
                return None;
            }
        }
        self.1 += t.len();
        Some(())
    }
    fn value(&mut self) -> Option<J> {
        self.space();
        match self.peek() {
            b'n' => self.eat(b"null").map(|_| J::Null),
            b't' => self.eat(b"true").map(|_| J::Bool(true)),
            b'f' => self.eat(b"false").map(|_| J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.1 += 1;
                let mut v = vec![];
                self.space();
                if self.peek() == b']' {
                    self.1 += 1;
                    return Some(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.space();
                    match self.peek() {
                        b',' => self.1 += 1,
                        b']' => {
                            self.1 += 1;
                            return Some(J::Arr(v));
                        }
                        _ => return None,
                    }
                }
            }
            b'{' => {
                self.1 += 1;
                let mut v = vec![];
                self.space();
                if self.peek() == b'}' {
                    self.1 += 1;
                    return Some(J::Obj(v));
                }
                loop {
                    self.space();
                    let k = self.string()?;
                    self.space();
                    self.eat(b":")?;
                    v.push((k, self.value()?));
                    self.space();
                    match self.peek() {
                        b',' => self.1 += 1,
                        b'}' => {
                            self.1 += 1;
                            return Some(J::Obj(v));
                        }
                        _ => return None,
                    }
                }
            }
            _ => self.number().map(J::Num),
        }
    }
    fn number(&mut self) -> Option<Vec<u8>> {
        let start = self.1;
        while self.1 < self.0.len() && !matches!(self.0[self.1], b',' | b']' | b'}' | b' ' | b'\n') {
            if !matches!(self.0[self.1], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                return None;
            }
            self.1 += 1;
        }
        if self.1 == start {
            None
        } else {
            Some(self.0[start..self.1].to_vec())
        }
    }
    fn string(&mut self) -> Option<Vec<u8>> {
        self.eat(b"\"")?;
        let mut v = vec![];
        loop {
            if self.1 >= self.0.len() {
                return None;
            }
            let c = self.0[self.1];
            self.1 += 1;
            match c {
                b'"' => return Some(v),
                0..=31 => return None,
                b'\\' => {
                    let e = self.peek();
                    self.1 += 1;
                    v.push(match e {
                        b'"' | b'\\' | b'/' => e,
                        b'b' => 8,
                        b'f' => 12,
                        b'n' => 10,
                        b'r' => 13,
                        b't' => 9,
                        b'u' => {
                            // only what needs escaping: below 128
                            if self.1 + 4 > self.0.len() {
                                return None;
                            }
                            let mut x = 0u32;
                            for _ in 0..4 {
                                x = x * 16 + (self.0[self.1] as char).to_digit(16)?;
                                self.1 += 1;
                            }
                            if x >= 128 {
                                return None;
                            }
                            x as u8
                        }
                        _ => return None,
                    });
                }
                _ => v.push(c),
            }
        }
    }
}
