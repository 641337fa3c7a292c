//! A strict well-formedness parser for the XML that SVG files are made of.
use std::collections::HashSet;

#[derive(Debug, Clone, Default)]
pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
    /// Character data directly inside this element.
    pub text: String,
}

impl Node {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| &a.1[..])
    }
    pub fn num(&self, k: &str) -> Result<f64, String> {
        let v = self
            .attr(k)
            .ok_or_else(|| format!("<{}> has no attribute {}", self.name, k))?;
        let v = v.strip_suffix("px").unwrap_or(v);
        svg_number(v).ok_or_else(|| format!("<{}> {}={:?} is not a number", self.name, k, v))
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node, usize), depth: usize) {
        f(self, depth);
        for k in &self.kids {
            k.walk(f, depth + 1);
        }
    }
    pub fn find_all<'a>(&'a self, name: &str) -> Vec<&'a Node> {
        let mut v = Vec::new();
        self.walk(
            &mut |n, _| {
                if n.name == name {
                    v.push(n)
                }
            },
            0,
        );
        v
    }
}

/// Numbers that SVG attributes may hold (finite decimal numbers).
pub fn svg_number(s: &str) -> Option<f64> {
    let s = s.trim();
    if s.is_empty()
        || !s
            .chars()
            .all(|c| c.is_ascii_digit() || matches!(c, '+' | '-' | '.' | 'e' | 'E'))
    {
        return None;
    }
    s.parse::<f64>().ok().filter(|x| x.is_finite())
}

pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}
fn name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c == ':'
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_numeric() || c == '-' || c == '.'
}

struct P<'a> {
    c: &'a [char],
    i: usize,
}

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let a = self.i.saturating_sub(30);
        let b = (self.i + 30).min(self.c.len());
        let ctx: String = self.c[a..b].iter().collect();
        Err(format!("not well-formed XML: {} near {:?}", m, ctx))
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn starts(&self, s: &str) -> bool {
        let mut i = self.i;
        for ch in s.chars() {
            if self.c.get(i) != Some(&ch) {
                return false;
            }
            i += 1;
        }
        true
    }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > st
    }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        match self.peek() {
            Some(c) if name_start(c) => {}
            _ => return self.err("expected a name"),
        }
        while matches!(self.peek(), Some(c) if name_char(c)) {
            self.i += 1;
        }
        Ok(self.c[st..self.i].iter().collect())
    }
    fn entity(&mut self) -> Result<char, String> {
        // at '&'
        self.i += 1;
        let st = self.i;
        while matches!(self.peek(), Some(c) if c != ';' && self.i - st < 12) {
            self.i += 1;
        }
        if self.peek() != Some(';') {
            return self.err("bad entity reference");
        }
        let e: String = self.c[st..self.i].iter().collect();
        self.i += 1;
        let c = match &e[..] {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = e.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = e.strip_prefix('#') {
                    d.parse::<u32>().ok()
                } else {
                    None
                };
                match v.and_then(char::from_u32) {
                    Some(c) if is_xml_char(c) => c,
                    _ => return self.err("undefined entity"),
                }
            }
        };
        Ok(c)
    }
    fn attrs(&mut self, n: &mut Node) -> Result<(), String> {
        let mut seen = HashSet::new();
        loop {
            let had_ws = self.ws();
            match self.peek() {
                Some('>') | Some('/') | Some('?') => return Ok(()),
                None => return self.err("unterminated tag"),
                _ => {}
            }
            if !had_ws {
                return self.err("white space required before an attribute");
            }
            let k = self.name()?;
            self.ws();
            if self.peek() != Some('=') {
                return self.err("expected =");
            }
            self.i += 1;
            self.ws();
            let q = match self.peek() {
                Some(q @ ('"' | '\'')) => q,
                _ => return self.err("expected a quoted value"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("unterminated attribute"),
                    Some(c) if c == q => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return self.err("< in an attribute"),
                    Some('&') => v.push(self.entity()?),
                    Some(c) if !is_xml_char(c) => return self.err("illegal character"),
                    Some(c) => {
                        v.push(c);
                        self.i += 1;
                    }
                }
            }
            if !seen.insert(k.clone()) {
                return self.err("duplicate attribute");
            }
            n.attrs.push((k, v));
        }
    }
    fn element(&mut self) -> Result<Node, String> {
        // Iterative, so that the checker itself has no depth limit.
        let mut stack: Vec<Node> = Vec::new();
        loop {
            // At the start of a tag, or in content when stack is not empty.
            if self.peek() == Some('<') {
                if self.starts("<!--") {
                    self.comment()?;
                    continue;
                }
                if self.starts("</") {
                    self.i += 2;
                    let n = self.name()?;
                    self.ws();
                    if self.peek() != Some('>') {
                        return self.err("expected >");
                    }
                    self.i += 1;
                    let done = match stack.pop() {
                        Some(d) if d.name == n => d,
                        _ => return self.err("mismatched end tag"),
                    };
                    match stack.last_mut() {
                        Some(p) => p.kids.push(done),
                        None => return Ok(done),
                    }
                    continue;
                }
                self.i += 1;
                let mut n = Node {
                    name: self.name()?,
                    ..Node::default()
                };
                self.attrs(&mut n)?;
                if self.starts("/>") {
                    self.i += 2;
                    match stack.last_mut() {
                        Some(p) => p.kids.push(n),
                        None => return Ok(n),
                    }
                    continue;
                }
                if self.peek() != Some('>') {
                    return self.err("expected >");
                }
                self.i += 1;
                stack.push(n);
                continue;
            }
            let c = match self.peek() {
                None => return self.err("unexpected end of file"),
                Some('&') => self.entity()?,
                Some(c) if !is_xml_char(c) => return self.err("illegal character"),
                Some(c) => {
                    if self.starts("]]>") {
                        return self.err("]]> in character data");
                    }
                    self.i += 1;
                    c
                }
            };
            match stack.last_mut() {
                Some(p) => p.text.push(c),
                None => return self.err("character data outside the root"),
            }
        }
    }
    fn comment(&mut self) -> Result<(), String> {
        self.i += 4;
        loop {
            if self.starts("-->") {
                self.i += 3;
                return Ok(());
            }
            if self.starts("--") {
                return self.err("-- in a comment");
            }
            if self.peek().is_none() {
                return self.err("unterminated comment");
            }
            self.i += 1;
        }
    }
}

/// Parses a document; the error says where it is not well-formed.
pub fn parse(s: &str) -> Result<Node, String> {
    let c: Vec<char> = s.chars().collect();
    let mut p = P { c: &c, i: 0 };
    if p.starts("<?xml") {
        p.i += 5;
        let mut n = Node::default();
        p.attrs(&mut n)?;
        if !p.starts("?>") {
            return p.err("bad XML declaration");
        }
        p.i += 2;
    }
    loop {
        p.ws();
        if p.starts("<!--") {
            p.comment()?;
            continue;
        }
        break;
    }
    if p.peek() != Some('<') {
        return p.err("expected the root element");
    }
    let root = p.element()?;
    loop {
        p.ws();
        if p.starts("<!--") {
            p.comment()?;
            continue;
        }
        break;
    }
    if p.i != c.len() {
        return p.err("content after the root element");
    }
    Ok(root)
}
