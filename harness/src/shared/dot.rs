//! DOT programs: an abstract syntax of our own, a generator, a printer with
//! every lexical freedom of the language, and a reference parser that works on
//! tokens. Shares no code with the crate under test.
#![allow(dead_code)]
use vp::Tape;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// An identifier, by its meaning (unquoted, unescaped text).
    Id(String),
    Graph,
    Node,
    Edge,
    Digraph,
    Strict,
    Subgraph,
    Eq,
    Colon,
    Comma,
    Semi,
    Arrow,
    Line,
    LB,
    RB,
    LC,
    RC,
    /// Text that is no token of the language.
    Bad(&'static str),
}

pub type Attrs = Vec<(String, String)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Nid {
    pub name: String,
    pub port: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Node { id: Nid, attrs: Attrs },
    /// (target, is_arrow)
    Edge { from: Nid, to: Vec<(Nid, bool)>, attrs: Attrs },
    /// 0: graph, 1: node, 2: edge
    Attr { target: u8, attrs: Attrs },
    /// The name is None when the syntax gives none.
    Sub { name: Option<String>, list: Vec<St> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Prog {
    pub strict: bool,
    pub directed: bool,
    pub name: Option<String>,
    pub list: Vec<St>,
}

pub const KEYWORDS: [&str; 6] = ["graph", "node", "edge", "digraph", "strict", "subgraph"];

// ---------------------------------------------------------------- generator

#[derive(Clone)]
pub struct GenOpt {
    pub max_stmts: usize,
    pub max_depth: usize,
    /// Draw names from a pool of this many.
    pub names: usize,
    /// Arbitrary characters in identifiers.
    pub wild: bool,
}

pub fn wild_text(t: &mut Tape, max: usize) -> String {
    if t.chance(4) {
        // A long text: a short one, many times.
        let unit = short_text(t, 6);
        let k = *t.pick(&[10, 20, 40, 100, 250, 700]);
        return unit.repeat(k) + &short_text(t, 2);
    }
    short_text(t, max)
}

fn short_text(t: &mut Tape, max: usize) -> String {
    let n = t.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        let c = match t.below(12) {
            0..=4 => (b'a' + t.below(26) as u8) as char,
            5 => (b'0' + t.below(10) as u8) as char,
            6 => ' ',
            7 => *t.pick(&['"', '\\', '/', '*', '-', '>', '<', '{', '}', '[', ']', ';', ',', '=', ':', '|', '#', '&', '\'', '_', '.', '+', '$', '%']),
            8 => *t.pick(&['\n', '\t', '\r']),
            9 => *t.pick(&['é', 'ß', '☃', '中', '𝄞', '\u{a0}', 'א', '½', '\u{301}', '٣']),
            10 => *t.pick(&['\u{1}', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '\u{85}', '\u{fffe}', '\u{2028}', '\u{feff}']),
            _ => *t.pick(&['n', 'l', 'r', 'N', 'G']),
        };
        s.push(c);
    }
    s
}

pub fn gen_name(t: &mut Tape, o: &GenOpt) -> String {
    let k = t.below(o.names.max(1));
    if o.wild {
        match t.below(16) {
            0 => return wild_text(t, 12),
            1 => return KEYWORDS[t.below(6)].to_string(),
            3 if t.chance(60) => {
                let k = *t.pick(&[15, 20, 25, 32, 50, 64, 100, 128, 256, 500, 1200]) + t.below(5);
                let c = *t.pick(&["a", "Z9", "_", "7", "-7", "x_", "0", "7."]);
                return match c {
                    "-7" => format!("-{}", "7".repeat(k)),
                    "7." => format!("7.{}", "3".repeat(k)),
                    c => c.repeat(k),
                };
            }
            2 => return (*t.pick(&["_", "_x", "-1", "-2.5", "1.", "0", "3.14", "007", "Node", "A_b_9", "", "-0", "12", "a1"])).to_string(),
            _ => {}
        }
    }
    format!("n{}", k)
}

pub fn gen_attrs(t: &mut Tape, o: &GenOpt, max: usize) -> Attrs {
    let n = if t.chance(3) { t.below(80) } else { t.below(max + 1) };
    (0..n)
        .map(|_| {
            let k = if o.wild && t.chance(40) {
                wild_text(t, 8)
            } else {
                (*t.pick(&["label", "color", "shape", "style", "fontsize", "k", "x_1"])).to_string()
            };
            let v = if o.wild && t.chance(90) {
                wild_text(t, 14)
            } else {
                (*t.pick(&["a", "red", "box", "12", "-3", "1.5", "#00ff00", "two words", "dashed", ""])).to_string()
            };
            (k, v)
        })
        .collect()
}

fn gen_nid(t: &mut Tape, o: &GenOpt) -> Nid {
    let name = gen_name(t, o);
    let port = if t.chance(40) { Some(gen_name(t, o)) } else { None };
    Nid { name, port }
}

pub fn gen_stmt(t: &mut Tape, o: &GenOpt, depth: usize) -> St {
    let subs = if depth < o.max_depth { 2 } else { 0 };
    match t.weighted(&[5, 6, 2, 1, subs]) {
        0 => {
            let id = gen_nid(t, o);
            let attrs = gen_attrs(t, o, 3);
            St::Node { id, attrs }
        }
        1 => {
            let from = gen_nid(t, o);
            let n = 1 + if t.chance(3) { t.below(120) } else { t.weighted(&[6, 2, 1, 1]) };
            let to = (0..n)
                .map(|_| {
                    let id = gen_nid(t, o);
                    (id, !t.chance(80))
                })
                .collect();
            let attrs = gen_attrs(t, o, 3);
            St::Edge { from, to, attrs }
        }
        2 => {
            let target = t.below(3) as u8;
            let attrs = gen_attrs(t, o, 3);
            St::Attr { target, attrs }
        }
        3 => {
            let k = gen_name(t, o);
            let v = gen_name(t, o);
            St::Attr { target: 3, attrs: vec![(k, v)] }
        }
        _ => {
            let name = if t.chance(128) { Some(gen_name(t, o)) } else { None };
            let list = gen_list(t, o, depth + 1);
            St::Sub { name, list }
        }
    }
}

pub fn gen_list(t: &mut Tape, o: &GenOpt, depth: usize) -> Vec<St> {
    let n = t.below(if depth == 0 { o.max_stmts + 1 } else { 5 });
    (0..n).map(|_| gen_stmt(t, o, depth)).collect()
}

pub fn gen_prog(t: &mut Tape, o: &GenOpt) -> Prog {
    let strict = t.chance(30);
    let directed = !t.chance(60);
    let name = if t.chance(90) { Some(gen_name(t, o)) } else { None };
    let list = gen_list(t, o, 0);
    Prog { strict, directed, name, list }
}

// ------------------------------------------------------------------ printer

fn put_nid(out: &mut Vec<Tok>, n: &Nid) {
    out.push(Tok::Id(n.name.clone()));
    if let Some(p) = &n.port {
        out.push(Tok::Colon);
        out.push(Tok::Id(p.clone()));
    }
}

fn put_attrs(t: &mut Tape, out: &mut Vec<Tok>, a: &Attrs) {
    out.push(Tok::LB);
    for (k, v) in a {
        out.push(Tok::Id(k.clone()));
        out.push(Tok::Eq);
        out.push(Tok::Id(v.clone()));
        match t.below(3) {
            0 => {}
            1 => out.push(Tok::Comma),
            _ => out.push(Tok::Semi),
        }
    }
    out.push(Tok::RB);
}

fn put_list(t: &mut Tape, out: &mut Vec<Tok>, l: &[St]) {
    for s in l {
        match s {
            St::Node { id, attrs } => {
                put_nid(out, id);
                if !attrs.is_empty() || t.chance(30) {
                    put_attrs(t, out, attrs);
                }
            }
            St::Edge { from, to, attrs } => {
                put_nid(out, from);
                for (n, arrow) in to {
                    out.push(if *arrow { Tok::Arrow } else { Tok::Line });
                    put_nid(out, n);
                }
                if !attrs.is_empty() || t.chance(30) {
                    put_attrs(t, out, attrs);
                }
            }
            St::Attr { target: 3, attrs } => {
                out.push(Tok::Id(attrs[0].0.clone()));
                out.push(Tok::Eq);
                out.push(Tok::Id(attrs[0].1.clone()));
            }
            St::Attr { target, attrs } => {
                out.push([Tok::Graph, Tok::Node, Tok::Edge][*target as usize].clone());
                put_attrs(t, out, attrs);
            }
            St::Sub { name, list } => {
                if name.is_some() || t.chance(100) {
                    out.push(Tok::Subgraph);
                }
                if let Some(n) = name {
                    out.push(Tok::Id(n.clone()));
                }
                out.push(Tok::LC);
                put_list(t, out, list);
                out.push(Tok::RC);
            }
        }
        if t.chance(150) {
            out.push(Tok::Semi);
        }
    }
}

/// The tokens of a program. Optional separators are chosen by the tape.
pub fn tokens(t: &mut Tape, p: &Prog) -> Vec<Tok> {
    let mut out = Vec::new();
    if p.strict {
        out.push(Tok::Strict);
    }
    out.push(if p.directed { Tok::Digraph } else { Tok::Graph });
    if let Some(n) = &p.name {
        out.push(Tok::Id(n.clone()));
    }
    out.push(Tok::LC);
    put_list(t, &mut out, &p.list);
    out.push(Tok::RC);
    out
}

pub fn bare_ok(s: &str) -> bool {
    if KEYWORDS.contains(&s) {
        return false;
    }
    let mut cs = s.chars();
    let Some(c) = cs.next() else { return false };
    if c.is_ascii_alphabetic() || c == '_' {
        return s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
    }
    // -?[0-9]+(.[0-9]*)?
    let d = s.strip_prefix('-').unwrap_or(s);
    let (a, b) = match d.split_once('.') {
        Some((a, b)) => (a, b),
        None => (d, ""),
    };
    !a.is_empty() && a.chars().all(|c| c.is_ascii_digit()) && b.chars().all(|c| c.is_ascii_digit())
}

pub fn quote(t: &mut Tape, s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => match t.below(3) {
                0 => r.push_str("\\n"),
                1 => r.push('\n'),
                _ => r.push_str("\\l"),
            },
            c if c.is_ascii_punctuation() && t.chance(20) => {
                r.push('\\');
                r.push(c);
            }
            // A backslash before any other character stands for it.
            c if c != 'n' && c != 'l' && c != '\r' && t.chance(6) => {
                r.push('\\');
                r.push(c);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn is_word(t: &Tok) -> bool {
    matches!(
        t,
        Tok::Id(_) | Tok::Graph | Tok::Node | Tok::Edge | Tok::Digraph | Tok::Strict | Tok::Subgraph
    )
}

fn space(t: &mut Tape, must: bool, last: bool) -> String {
    let mut s = String::new();
    let n = if must { 1 + t.below(2) } else { t.weighted(&[6, 4, 1]) };
    for _ in 0..n {
        match t.weighted(&[10, 3, 1, 2, 2]) {
            0 => s.push(' '),
            1 => s.push('\n'),
            2 => s.push(*t.pick(&['\t', '\r', '\u{c}'])),
            3 => {
                s.push_str("/*");
                s.push_str(&comment_text(t, true));
                s.push_str("*/");
            }
            _ => {
                s.push_str("//");
                s.push_str(&comment_text(t, false));
                // A line comment may also end with the file.
                if !(last && t.chance(128)) {
                    s.push('\n');
                } else {
                    return s;
                }
            }
        }
    }
    s
}

fn comment_text(t: &mut Tape, block: bool) -> String {
    let n = t.below(8);
    let mut s = String::new();
    for _ in 0..n {
        let c = *t.pick(&['a', ' ', '*', '/', '"', '{', '}', '\t', 'é', '-', '>', ';', '\\', '[', '1', '\n']);
        if c == '\n' && !block {
            continue;
        }
        if block && c == '/' && s.ends_with('*') {
            continue;
        }
        s.push(c);
    }
    s
}

/// Concrete text of a token sequence.
pub fn print(t: &mut Tape, toks: &[Tok]) -> String {
    print_spans(t, toks, &mut Vec::new())
}

/// Also tells the first and the last byte of every token.
pub fn print_spans(t: &mut Tape, toks: &[Tok], spans: &mut Vec<(usize, usize)>) -> String {
    let mut s = space(t, false, false);
    for (i, k) in toks.iter().enumerate() {
        let mut bare_before = false;
        if i > 0 && is_word(&toks[i - 1]) {
            bare_before = !s.ends_with('"');
        }
        let txt = match k {
            Tok::Id(x) => {
                if bare_ok(x) && !t.chance(60) {
                    x.clone()
                } else {
                    quote(t, x)
                }
            }
            Tok::Graph => "graph".into(),
            Tok::Node => "node".into(),
            Tok::Edge => "edge".into(),
            Tok::Digraph => "digraph".into(),
            Tok::Strict => "strict".into(),
            Tok::Subgraph => "subgraph".into(),
            Tok::Eq => "=".into(),
            Tok::Colon => ":".into(),
            Tok::Comma => ",".into(),
            Tok::Semi => ";".into(),
            Tok::Arrow => "->".into(),
            Tok::Line => "--".into(),
            Tok::LB => "[".into(),
            Tok::RB => "]".into(),
            Tok::LC => "{".into(),
            Tok::RC => "}".into(),
            Tok::Bad(b) => b.to_string(),
        };
        if i > 0 {
            let bad = matches!(k, Tok::Bad(_)) || matches!(toks[i - 1], Tok::Bad(_));
            let must = bad || (bare_before && is_word(k) && !txt.starts_with('"'));
            if bad {
                // A comment must not touch it and change its meaning.
                s.push(' ');
            }
            s.push_str(&space(t, must, false));
            if bad {
                s.push(' ');
            }
        }
        spans.push((s.len(), s.len() + txt.len()));
        s.push_str(&txt);
    }
    if matches!(toks.last(), Some(Tok::Bad(_))) {
        s.push(' ');
    }
    s.push_str(&space(t, false, true));
    s
}

// --------------------------------------------------------- reference parser

pub enum Ref {
    Accept(Prog),
    Reject,
    /// The language definition and the implemented subset disagree here, or
    /// the construct is a tolerated extension: nothing is claimed.
    Unspecified,
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    unspec: bool,
}

type R<T> = Result<T, ()>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn eat(&mut self, k: &Tok) -> bool {
        if self.peek() == Some(k) {
            self.i += 1;
            return true;
        }
        false
    }
    fn need(&mut self, k: &Tok) -> R<()> {
        if self.eat(k) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn id(&mut self) -> R<String> {
        if let Some(Tok::Id(s)) = self.peek() {
            self.i += 1;
            return Ok(s.clone());
        }
        Err(())
    }
    fn nid(&mut self) -> R<Nid> {
        let name = self.id()?;
        let mut port = None;
        if self.eat(&Tok::Colon) {
            port = Some(self.id()?);
            if self.peek() == Some(&Tok::Colon) {
                // A compass point.
                self.unspec = true;
                return Err(());
            }
        }
        Ok(Nid { name, port })
    }
    fn attrs(&mut self) -> R<Attrs> {
        self.need(&Tok::LB)?;
        let mut v = Attrs::new();
        loop {
            if self.eat(&Tok::RB) {
                break;
            }
            let k = self.id()?;
            self.need(&Tok::Eq)?;
            let val = self.id()?;
            v.push((k, val));
            if self.eat(&Tok::Semi) {
                if self.peek() == Some(&Tok::Comma) {
                    self.unspec = true;
                    return Err(());
                }
            } else {
                self.eat(&Tok::Comma);
            }
        }
        if self.peek() == Some(&Tok::LB) {
            // A second list.
            self.unspec = true;
            return Err(());
        }
        Ok(v)
    }
    fn list(&mut self) -> R<Vec<St>> {
        let mut v = Vec::new();
        loop {
            if self.eat(&Tok::RC) {
                return Ok(v);
            }
            if self.peek() == Some(&Tok::Semi) {
                // An empty statement.
                self.unspec = true;
                return Err(());
            }
            let s = self.stmt()?;
            v.push(s);
            self.eat(&Tok::Semi);
        }
    }
    fn stmt(&mut self) -> R<St> {
        match self.peek() {
            Some(Tok::Id(_)) => {
                let id = self.nid()?;
                match self.peek() {
                    Some(Tok::Arrow) | Some(Tok::Line) => {
                        let mut to = Vec::new();
                        loop {
                            let arrow = match self.peek() {
                                Some(Tok::Arrow) => true,
                                Some(Tok::Line) => false,
                                _ => break,
                            };
                            self.i += 1;
                            if matches!(self.peek(), Some(Tok::LC) | Some(Tok::Subgraph)) {
                                // Edges to subgraphs.
                                self.unspec = true;
                                return Err(());
                            }
                            let n = self.nid()?;
                            to.push((n, arrow));
                        }
                        let mut attrs = Attrs::new();
                        if self.peek() == Some(&Tok::LB) {
                            attrs = self.attrs()?;
                        }
                        Ok(St::Edge { from: id, to, attrs })
                    }
                    Some(Tok::Eq) => {
                        if id.port.is_some() {
                            return Err(());
                        }
                        self.i += 1;
                        let v = self.id()?;
                        Ok(St::Attr { target: 0, attrs: vec![(id.name, v)] })
                    }
                    Some(Tok::LB) => {
                        let attrs = self.attrs()?;
                        Ok(St::Node { id, attrs })
                    }
                    _ => Ok(St::Node { id, attrs: Attrs::new() }),
                }
            }
            Some(Tok::Graph) => {
                self.i += 1;
                Ok(St::Attr { target: 0, attrs: self.attrs()? })
            }
            Some(Tok::Node) => {
                self.i += 1;
                Ok(St::Attr { target: 1, attrs: self.attrs()? })
            }
            Some(Tok::Edge) => {
                self.i += 1;
                Ok(St::Attr { target: 2, attrs: self.attrs()? })
            }
            Some(Tok::Subgraph) | Some(Tok::LC) => {
                let mut name = None;
                if self.eat(&Tok::Subgraph) {
                    if let Some(Tok::Id(_)) = self.peek() {
                        name = Some(self.id()?);
                    }
                }
                self.need(&Tok::LC)?;
                let list = self.list()?;
                if matches!(self.peek(), Some(Tok::Arrow) | Some(Tok::Line)) {
                    self.unspec = true;
                    return Err(());
                }
                Ok(St::Sub { name, list })
            }
            _ => Err(()),
        }
    }
    fn prog(&mut self) -> R<Prog> {
        let strict = self.eat(&Tok::Strict);
        let directed = match self.peek() {
            Some(Tok::Graph) => false,
            Some(Tok::Digraph) => true,
            Some(Tok::Subgraph) => {
                self.unspec = true;
                return Err(());
            }
            _ => return Err(()),
        };
        self.i += 1;
        let mut name = None;
        if let Some(Tok::Id(_)) = self.peek() {
            name = Some(self.id()?);
        }
        self.need(&Tok::LC)?;
        let list = self.list()?;
        if self.peek().is_some() {
            return Err(());
        }
        Ok(Prog { strict, directed, name, list })
    }
}

pub fn reference_parse(t: &[Tok]) -> Ref {
    let mut p = P { t, i: 0, unspec: false };
    match p.prog() {
        Ok(g) => Ref::Accept(g),
        Err(()) if p.unspec => Ref::Unspecified,
        Err(()) => Ref::Reject,
    }
}

/// The index of the token at which the program can't be right any more.
pub fn reference_error(t: &[Tok]) -> Option<usize> {
    let mut p = P { t, i: 0, unspec: false };
    match p.prog() {
        Err(()) if !p.unspec => Some(p.i),
        _ => None,
    }
}

/// Normal form: assignments are graph attributes.
pub fn normal(l: &[St]) -> Vec<St> {
    l.iter()
        .map(|s| match s {
            St::Attr { target: 3, attrs } => St::Attr { target: 0, attrs: attrs.clone() },
            St::Sub { name, list } => St::Sub { name: name.clone(), list: normal(list) },
            s => s.clone(),
        })
        .collect()
}
