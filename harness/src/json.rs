//! Just enough JSON.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(x: &str) -> J {
        J::Str(x.to_string())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        if let J::Obj(v) = self {
            return v.iter().find(|p| p.0 == k).map(|p| &p.1);
        }
        None
    }
    pub fn str(&self, k: &str) -> String {
        match self.get(k) {
            Some(J::Str(s)) => s.clone(),
            _ => String::new(),
        }
    }
    pub fn int(&self, k: &str) -> i64 {
        match self.get(k) {
            Some(J::Int(s)) => *s,
            Some(J::Num(s)) => *s as i64,
            _ => 0,
        }
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => {
                let _ = write!(o, "{}", b);
            }
            J::Num(n) => {
                let _ = write!(o, "{}", n);
            }
            J::Int(n) => {
                let _ = write!(o, "{}", n);
            }
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\t' => o.push_str("\\t"),
                        '\r' => o.push_str("\\r"),
                        c if (c as u32) < 32 || (c as u32) == 127 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(x.0.clone()).w(o);
                    o.push(':');
                    x.1.w(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let c: Vec<char> = s.chars().collect();
        let mut p = 0;
        let r = val(&c, &mut p)?;
        Some(r)
    }
}
fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && c[*p].is_ascii_whitespace() {
        *p += 1;
    }
}
fn val(c: &[char], p: &mut usize) -> Option<J> {
    ws(c, p);
    match c.get(*p)? {
        '{' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(c, p);
                if *c.get(*p)? == '}' {
                    *p += 1;
                    return Some(J::Obj(v));
                }
                if *c.get(*p)? == ',' {
                    *p += 1;
                    continue;
                }
                let k = match val(c, p)? {
                    J::Str(s) => s,
                    _ => return None,
                };
                ws(c, p);
                if *c.get(*p)? != ':' {
                    return None;
                }
                *p += 1;
                v.push((k, val(c, p)?));
            }
        }
        '[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(c, p);
                if *c.get(*p)? == ']' {
                    *p += 1;
                    return Some(J::Arr(v));
                }
                if *c.get(*p)? == ',' {
                    *p += 1;
                    continue;
                }
                v.push(val(c, p)?);
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                let ch = *c.get(*p)?;
                *p += 1;
                match ch {
                    '"' => return Some(J::Str(s)),
                    '\\' => {
                        let e = *c.get(*p)?;
                        *p += 1;
                        match e {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                let h: String = c.get(*p..*p + 4)?.iter().collect();
                                *p += 4;
                                s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            }
                            e => s.push(e),
                        }
                    }
                    ch => s.push(ch),
                }
            }
        }
        _ => {
            let st = *p;
            while *p < c.len() && !matches!(c[*p], ',' | '}' | ']') && !c[*p].is_ascii_whitespace()
            {
                *p += 1;
            }
            let w: String = c[st..*p].iter().collect();
            match &w[..] {
                "null" => Some(J::Null),
                "true" => Some(J::Bool(true)),
                "false" => Some(J::Bool(false)),
                _ => {
                    if let Ok(i) = w.parse::<i64>() {
                        Some(J::Int(i))
                    } else {
                        w.parse::<f64>().ok().map(J::Num)
                    }
                }
            }
        }
    }
}
