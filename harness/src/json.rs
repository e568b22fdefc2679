//! A small strict JSON reader (the oracle for repodata documents) and string escaping.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// the number exactly as written
    Num(String),
    Str(String),
    Arr(Vec<J>),
    /// pairs in written order, repeated keys kept
    Obj(Vec<(String, J)>),
    /// a string holding an escape of an unpaired surrogate: not a text
    BadStr,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || c == '\u{2028}' || c == '\u{2029}' || c == '\u{85}' => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn unesc(s: &str) -> String {
    match parse(s.as_bytes()) {
        Ok(J::Str(s)) => s,
        _ => s.to_string(),
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
}
/// Err(true): not JSON. Err(false): too deep for this reader (no verdict).
pub fn parse(b: &[u8]) -> Result<J, bool> {
    if std::str::from_utf8(b).is_err() {
        return Err(true);
    }
    let mut p = P { b, i: 0, depth: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != b.len() {
        return Err(true);
    }
    Ok(v)
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn lit(&mut self, s: &str, v: J) -> Result<J, bool> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(v)
        } else {
            Err(true)
        }
    }
    fn value(&mut self) -> Result<J, bool> {
        if self.depth > 100 {
            return Err(false);
        }
        match self.peek() {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => self.string(),
            b'[' => {
                self.i += 1;
                self.depth += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    self.depth -= 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value()?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            self.depth -= 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return Err(true),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                self.depth += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    self.depth -= 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.peek() != b'"' {
                        return Err(true);
                    }
                    let k = match self.string()? {
                        J::Str(s) => s,
                        _ => return Err(false),
                    };
                    self.ws();
                    if self.peek() != b':' {
                        return Err(true);
                    }
                    self.i += 1;
                    self.ws();
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            self.depth -= 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return Err(true),
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let s = self.i;
                if self.peek() == b'-' {
                    self.i += 1
                }
                match self.peek() {
                    b'0' => self.i += 1,
                    b'1'..=b'9' => self.digits(),
                    _ => return Err(true),
                }
                if self.peek() == b'.' {
                    self.i += 1;
                    if !self.peek().is_ascii_digit() {
                        return Err(true);
                    }
                    self.digits()
                }
                if matches!(self.peek(), b'e' | b'E') {
                    self.i += 1;
                    if matches!(self.peek(), b'+' | b'-') {
                        self.i += 1
                    }
                    if !self.peek().is_ascii_digit() {
                        return Err(true);
                    }
                    self.digits()
                }
                Ok(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
            }
            _ => Err(true),
        }
    }
    fn digits(&mut self) {
        while self.peek().is_ascii_digit() {
            self.i += 1
        }
    }
    fn hex4(&mut self) -> Result<u32, bool> {
        let mut v = 0;
        for _ in 0..4 {
            let d = (self.peek() as char).to_digit(16).ok_or(true)?;
            v = v * 16 + d;
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<J, bool> {
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        let mut bad = false;
        loop {
            if self.i >= self.b.len() {
                return Err(true);
            }
            let c = self.b[self.i];
            match c {
                b'"' => {
                    self.i += 1;
                    return Ok(if bad { J::BadStr } else { J::Str(String::from_utf8(o).map_err(|_| true)?) });
                }
                0..=0x1f => return Err(true),
                b'\\' => {
                    self.i += 1;
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => o.push(e),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'n' => o.push(10),
                        b'r' => o.push(13),
                        b't' => o.push(9),
                        b'u' => {
                            let a = self.hex4()?;
                            let cp = if (0xd800..0xdc00).contains(&a) && self.b[self.i..].starts_with(b"\\u") {
                                let save = self.i;
                                self.i += 2;
                                let z = self.hex4()?;
                                if (0xdc00..0xe000).contains(&z) {
                                    Some(0x10000 + ((a - 0xd800) << 10) + (z - 0xdc00))
                                } else {
                                    self.i = save;
                                    None
                                }
                            } else if (0xd800..0xe000).contains(&a) {
                                None
                            } else {
                                Some(a)
                            };
                            match cp.and_then(char::from_u32) {
                                Some(ch) => o.extend(ch.to_string().bytes()),
                                None => bad = true,
                            }
                        }
                        _ => return Err(true),
                    }
                }
                _ => {
                    o.push(c);
                    self.i += 1
                }
            }
        }
    }
}
