//! Programs with scopes and defaults, and a model of what they mean.
#![allow(dead_code)]
use super::dot::{self, Nid, St};
use std::collections::BTreeMap;
use vp::Tape;

pub type Props = BTreeMap<String, String>;

pub struct MEdge {
    pub from: usize,
    pub to: usize,
    pub arrow: bool,
    pub ports: (Option<String>, Option<String>),
    pub props: Props,
}

/// What a program means.
#[derive(Default)]
pub struct Model {
    pub names: Vec<String>,
    pub nodes: Vec<Props>,
    pub edges: Vec<MEdge>,
    pub node_stack: Vec<Props>,
    pub edge_stack: Vec<Props>,
    pub graph: Props,
    pub inner: bool,
    pub redeclared: bool,
    pub shadowed: bool,
    /// Long chains of edges only, many of them.
    pub crowd: bool,
}

pub fn flat(s: &[Props]) -> Props {
    let mut m = Props::new();
    for x in s {
        m.extend(x.clone());
    }
    m
}

impl Model {
    pub fn mention(&mut self, n: &str) -> usize {
        if let Some(i) = self.names.iter().position(|x| x == n) {
            return i;
        }
        self.names.push(n.to_string());
        self.nodes.push(flat(&self.node_stack));
        self.names.len() - 1
    }
}

pub const COLORS: [(&str, u32); 9] = [
    ("red", 0xff0000ff),
    ("blue", 0x0000ffff),
    ("orange", 0xffa500ff),
    ("black", 0x000000ff),
    ("#12ab34", 0x12ab34ff),
    ("#12ab3480", 0x12ab3480),
    ("gold:green", 0xffd700ff),
    ("transparent", 0xffffffff),
    ("nosuchcolor", 0x000000ff),
];

pub fn label(t: &mut Tape) -> String {
    if t.chance(30) {
        // Empty, blank and long texts, and texts with blanks around them.
        let k = 1 + t.below(120);
        return match t.below(8) {
            0 | 1 => String::new(),
            2 => " ".repeat(1 + t.below(3)),
            3 => " x".into(),
            4 => "y ".into(),
            5 => "  a  b  ".into(),
            6 => "w".repeat(k),
            _ => "\tt\u{a0}".into(),
        };
    }
    if t.chance(60) {
        let n = 1 + t.weighted(&[8, 2, 1]) * t.below(30);
        return (0..n).map(|_| *t.pick(&['a', 'b', 'X', '7', ' ', 'é', '日', '&', ';', '#', '.', '-', '/', '"', '\'', '_', '=', ',', '(', ')', '\\', '[', '*'])).collect::<String>().trim().to_string() + "z";
    }
    t.pick(&LABELS).to_string()
}

pub fn paint(t: &mut Tape) -> String {
    if t.chance(60) {
        let v = t.u32();
        return if t.chance(128) { format!("#{:06x}", v >> 8) } else { format!("#{:08X}", v) };
    }
    t.pick(&COLORS).0.to_string()
}

pub fn count(t: &mut Tape) -> String {
    match t.weighted(&[12, 2, 1, 2]) {
        0 => t.below(22).to_string(),
        1 => t.range(22, 150).to_string(),
        2 => t.range(150, 2000).to_string(),
        _ => (*t.pick(&["abc", "", "1.5", "-3", "12pt", "007", "+4", " 5", "1e2", "0x10"])).to_string(),
    }
}

pub const LABELS: [&str; 8] = ["hello", "two words", "<a> A1|<b> B1|{<c> C1|D1}", "x|<p>y", "line one\nline 2", "q", "{<a> u|{<b>v|<c>w}}", "k9"];

pub fn node_attr(t: &mut Tape) -> (String, String) {
    let v = match t.below(8) {
        0 => ("label", label(t)),
        1 | 2 => ("shape", (*t.pick(&["box", "circle", "doublecircle", "record", "Mrecord", "ellipse"])).into()),
        3 => ("color", paint(t)),
        4 => ("fillcolor", paint(t)),
        5 => ("style", (*t.pick(&["filled", "bold", "solid"])).into()),
        6 => ("fontsize", size(t)),
        _ if t.chance(100) => ("width", count(t)),
        _ => (*t.pick(&["penwidth", "tooltip", "rankdir", "height", "Label", "colour", "fontcolor", "href"]), (*t.pick(&["7", "t", "LR"])).into()),
    };
    (v.0.to_string(), v.1)
}

pub fn size(t: &mut Tape) -> String {
    match t.weighted(&[8, 2, 1]) {
        0 => (*t.pick(&["8", "14", "20", "31", "abc"])).to_string(),
        1 => t.range(1, 120).to_string(),
        _ if t.chance(80) => t.range(120, 1200).to_string(),
        _ => (*t.pick(&["", "14.5", "-8", "large"])).to_string(),
    }
}

pub fn edge_attr(t: &mut Tape) -> (String, String) {
    let v = match t.below(7) {
        0 => ("label", label(t).replace(['|', '<', '>', '{', '}'], "/")),
        1 => ("label", (*t.pick(&["e1", "edge two", "", "a\nb", "e5"])).into()),
        2 | 3 => ("color", paint(t)),
        4 => ("style", (*t.pick(&["dashed", "solid", "bold"])).into()),
        5 => ("fontsize", size(t)),
        _ if t.chance(160) => ("penwidth", count(t)),
        _ => (*t.pick(&["width", "shape", "fillcolor", "Style", "labels", "weight"]), (*t.pick(&["9", "box", "red"])).into()),
    };
    (v.0.to_string(), v.1)
}

pub fn attrs(t: &mut Tape, f: fn(&mut Tape) -> (String, String), max: usize) -> dot::Attrs {
    let n = if t.chance(3) { t.below(40) } else { t.below(max + 1) };
    (0..n).map(|_| f(t)).collect()
}

pub fn nid(t: &mut Tape) -> Nid {
    let name = (*t.pick(&["a", "b", "c", "d", "e", "f", "node g", "8"])).to_string();
    let name = if t.chance(20) { format!("v{}", t.below(40)) } else { name };
    let port = if t.chance(50) { Some((*t.pick(&["a", "b", "c", "p", "zz"])).to_string()) } else { None };
    Nid { name, port }
}

pub fn gen(t: &mut Tape, m: &mut Model, depth: usize, max: usize) -> Vec<St> {
    let n = t.below(max + 1);
    let mut out = Vec::new();
    for _ in 0..n {
        match t.weighted(&[5, 6, 4, 4, 2, if depth < 3 { 3 } else { 0 }]) {
            0 => {
                let id = nid(t);
                let mut own = attrs(t, node_attr, 3);
                let defaults = flat(&m.node_stack);
                if let Some(i) = m.names.iter().position(|x| *x == id.name) {
                    m.redeclared = true;
                    // Whether the defaults in force apply again to a node that
                    // exists is not specified: then give the value explicitly.
                    for (k, v) in &defaults {
                        if m.nodes[i].get(k) != Some(v) && !own.iter().any(|x| x.0 == *k) {
                            let w = m.nodes[i].get(k).cloned().filter(|_| t.chance(128)).unwrap_or(v.clone());
                            own.push((k.clone(), w));
                        }
                    }
                }
                let i = m.mention(&id.name);
                m.nodes[i].extend(own.iter().cloned());
                out.push(St::Node { id, attrs: own });
            }
            1 => {
                // A long chain visits nodes of its own, one after the other.
                let long = m.crowd || t.chance(3);
                let first = t.below(40);
                let from = if long { Nid { name: format!("w{}", first), port: None } } else { nid(t) };
                let k = 1 + if m.crowd {
                    t.below(3)
                } else if long {
                    t.below(90)
                } else {
                    t.weighted(&[12, 4, 2, 1]) * if t.chance(16) { 4 } else { 1 }
                };
                let to: Vec<(Nid, bool)> = (0..k)
                    .map(|i| {
                        let x = if long { Nid { name: format!("w{}", first + i + 1), port: None } } else { nid(t) };
                        (x, !t.chance(80))
                    })
                    .collect();
                let own = attrs(t, edge_attr, 3);
                let mut props = flat(&m.edge_stack);
                props.extend(own.iter().cloned());
                let mut prev = (m.mention(&from.name), from.port.clone());
                for (x, arrow) in &to {
                    let i = m.mention(&x.name);
                    m.edges.push(MEdge { from: prev.0, to: i, arrow: *arrow, ports: (prev.1, x.port.clone()), props: props.clone() });
                    prev = (i, x.port.clone());
                }
                out.push(St::Edge { from, to, attrs: own });
            }
            2 => {
                let own = attrs(t, node_attr, 3);
                if depth > 0 {
                    m.shadowed |= !own.is_empty();
                }
                if let Some(s) = m.node_stack.last_mut() {
                    s.extend(own.iter().cloned());
                }
                out.push(St::Attr { target: 1, attrs: own });
            }
            3 => {
                let own = attrs(t, edge_attr, 3);
                if let Some(s) = m.edge_stack.last_mut() {
                    s.extend(own.iter().cloned());
                }
                out.push(St::Attr { target: 2, attrs: own });
            }
            4 => {
                let kv = *t.pick(&[("rankdir", "LR"), ("rankdir", "TB"), ("label", "title"), ("color", "red"), ("shape", "box"), ("fontsize", "50")]);
                let kv = (kv.0.to_string(), kv.1.to_string());
                if depth == 0 {
                    m.graph.insert(kv.0.clone(), kv.1.clone());
                }
                out.push(St::Attr { target: if t.chance(128) { 0 } else { 3 }, attrs: vec![kv] });
            }
            _ => {
                m.inner = true;
                m.node_stack.push(Props::new());
                m.edge_stack.push(Props::new());
                let list = gen(t, m, depth + 1, 5);
                m.node_stack.pop();
                m.edge_stack.pop();
                let name = if t.chance(128) { Some("sub".to_string()) } else { None };
                out.push(St::Sub { name, list });
            }
        }
    }
    out
}

