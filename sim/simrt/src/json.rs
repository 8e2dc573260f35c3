//! Minimal JSON writer/reader (integers, strings, arrays, objects, floats on output).
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    U(u64),
    F(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            J::Int(s) => Some(*s),
            J::U(s) => Some(*s as i64),
            _ => None,
        }
    }
    pub fn uint(&self) -> Option<u64> {
        match self {
            J::Int(s) => Some(*s as u64),
            J::U(s) => Some(*s),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(s) => Some(s),
            _ => None,
        }
    }
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn write(&self, out: &mut String, indent: usize) {
        use std::fmt::Write;
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => {
                let _ = write!(out, "{b}");
            }
            J::Int(i) => {
                let _ = write!(out, "{i}");
            }
            J::U(i) => {
                let _ = write!(out, "{i}");
            }
            J::F(f) => {
                let _ = write!(out, "{f:.3}");
            }
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 32 || c as u32 == 127 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(a) => {
                let flat = a.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_)));
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        out.push('\n');
                        out.extend(std::iter::repeat(' ').take(indent + 1));
                    }
                    x.write(out, indent + 1);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('\n');
                    out.extend(std::iter::repeat(' ').take(indent + 1));
                    J::Str(k.clone()).write(out, 0);
                    out.push_str(": ");
                    x.write(out, indent + 1);
                }
                out.push('}');
            }
        }
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }
    pub fn parse(s: &str) -> Option<J> {
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = val(&b, &mut i)?;
        Some(v)
    }
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}
fn val(b: &[char], i: &mut usize) -> Option<J> {
    ws(b, i);
    match b.get(*i)? {
        '{' => {
            *i += 1;
            let mut o = vec![];
            loop {
                ws(b, i);
                match b.get(*i)? {
                    '}' => {
                        *i += 1;
                        return Some(J::Obj(o));
                    }
                    ',' => {
                        *i += 1;
                    }
                    _ => {
                        let J::Str(k) = val(b, i)? else { return None };
                        ws(b, i);
                        if b.get(*i)? != &':' {
                            return None;
                        }
                        *i += 1;
                        o.push((k, val(b, i)?));
                    }
                }
            }
        }
        '[' => {
            *i += 1;
            let mut o = vec![];
            loop {
                ws(b, i);
                match b.get(*i)? {
                    ']' => {
                        *i += 1;
                        return Some(J::Arr(o));
                    }
                    ',' => {
                        *i += 1;
                    }
                    _ => o.push(val(b, i)?),
                }
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                let c = *b.get(*i)?;
                *i += 1;
                match c {
                    '"' => return Some(J::Str(s)),
                    '\\' => {
                        let e = *b.get(*i)?;
                        *i += 1;
                        match e {
                            'n' => s.push('\n'),
                            'r' => s.push('\r'),
                            't' => s.push('\t'),
                            'u' => {
                                let h: String = b.get(*i..*i + 4)?.iter().collect();
                                *i += 4;
                                s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            }
                            c => s.push(c),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        't' => {
            *i += 4;
            Some(J::Bool(true))
        }
        'f' => {
            *i += 5;
            Some(J::Bool(false))
        }
        'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i].is_ascii_digit() || "+-.eE".contains(b[*i])) {
                *i += 1;
            }
            let t: String = b[st..*i].iter().collect();
            if let Ok(x) = t.parse::<i64>() {
                Some(J::Int(x))
            } else if let Ok(x) = t.parse::<u64>() {
                Some(J::U(x))
            } else {
                t.parse::<f64>().ok().map(J::F)
            }
        }
    }
}
