//! Graphs built through the API: descriptions, a generator and a builder.
//! Every node and edge has a line color of its own, which identifies what is
//! drawn for it.
#![allow(dead_code)]
use super::rec::{Op, Rec};
use layout::adt::dag::NodeHandle;
use layout::core::base::Orientation;
use layout::core::color::Color;
use layout::core::geometry::Point;
use layout::core::style::{LineStyleKind, StyleAttr};
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use vp::{no_panic, Tape};

#[derive(Clone, Debug)]
pub enum RecD {
    /// text, port
    Cell(String, Option<String>),
    Row(Vec<RecD>),
}

#[derive(Clone, Debug)]
pub enum Kind {
    Box(String),
    Circle(String),
    Double(String),
    Record(RecD),
    None,
}

#[derive(Clone, Debug)]
pub struct NodeD {
    pub kind: Kind,
    pub size: (f64, f64),
    pub font: usize,
    pub width: usize,
    pub fill: Option<u32>,
    pub rounded: usize,
    pub props: Option<String>,
}

#[derive(Clone, Debug)]
pub struct EdgeD {
    pub from: usize,
    pub to: usize,
    pub heads: (bool, bool),
    /// 0 normal, 1 dashed, 2 dotted, 3 none
    pub style: u8,
    pub text: String,
    pub font: usize,
    pub width: usize,
    pub ports: (Option<String>, Option<String>),
    pub props: Option<String>,
}

#[derive(Clone, Debug)]
pub struct GraphD {
    pub lr: bool,
    /// Create the shapes with the flipped orientation, as the DOT builder does.
    pub flip: bool,
    pub nodes: Vec<NodeD>,
    pub edges: Vec<EdgeD>,
    /// Drawn as this program.
    pub program: Option<String>,
}

#[derive(Clone)]
pub struct Opt {
    pub max_nodes: usize,
    pub max_edges: usize,
    pub labels: bool,
    pub records: bool,
    pub cycles: bool,
    pub self_loops: bool,
    pub invisible: bool,
    pub round_only: bool,
    pub max_size: usize,
    /// Larger graphs of a regular structure.
    pub family: bool,
    /// Written as programs; nodes have their natural sizes.
    pub programs: bool,
}

impl Opt {
    pub fn family(n: usize) -> Opt {
        let mut o = Opt::all(n, n);
        o.family = true;
        o
    }
    pub fn programs(n: usize, e: usize) -> Opt {
        let mut o = Opt::all(n, e);
        o.programs = true;
        o
    }
    pub fn all(n: usize, e: usize) -> Opt {
        Opt {
            max_nodes: n,
            max_edges: e,
            labels: true,
            records: true,
            cycles: true,
            self_loops: true,
            invisible: true,
            round_only: false,
            max_size: 200,
            family: false,
            programs: false,
        }
    }
}

/// XML attributes, as users pass them with a node or an edge.
fn gen_props(t: &mut Tape, name: &str) -> String {
    let k = t.below(10);
    match t.weighted(&[8, 1, 1, 1]) {
        0 => format!("{}=\"{}\"", name, k),
        1 => format!("{}=\"{}\"", name, "long value ".repeat(1 << k)),
        2 => format!("onclick='f({})' {}=\"x &lt; 'y'\"", k, name),
        _ => (0..k + 2).map(|i| format!(" {}{}=\"{}\" ", name, i, k)).collect(),
    }
}

pub fn text(t: &mut Tape) -> String {
    match t.below(8) {
        0..=3 => {
            let n = t.range(1, 6);
            (0..n).map(|_| (b'a' + t.below(26) as u8) as char).collect()
        }
        4 => "two words".into(),
        5 => {
            let k = t.range(2, 4);
            vec!["line"; k].join("\n")
        }
        6 => (*t.pick(&["é", "日本語", "<&>\"'", " ", "x\ny\n", "a|b{}", "]]>"])).to_string(),
        _ => match t.weighted(&[30, 1, 1]) {
            0 => {
                let n = t.range(10, 40);
                "w".repeat(n)
            }
            // Very long, and very many lines.
            1 => "l".repeat(t.range(41, 1200)),
            _ => vec!["v"; t.range(5, 60)].join("\n"),
        },
    }
}

/// A line width.
fn pen(t: &mut Tape) -> usize {
    match t.weighted(&[28, 3, 1]) {
        0 => t.below(4),
        1 => t.range(4, 12),
        _ => t.range(13, 300),
    }
}

/// `k` numbers the ports of the record.
pub fn gen_record(t: &mut Tape, depth: usize, k: &mut usize) -> RecD {
    // Some have many fields.
    let n = if *k < 40 && t.chance(4) { t.range(5, 40) } else { t.range(1, 4) };
    let mut v = Vec::new();
    for _ in 0..n {
        if depth > 0 && t.chance(70) {
            v.push(gen_record(t, depth - 1, k));
        } else {
            let i = *k;
            *k += 1;
            let port = if t.chance(140) { Some(port_name(t, i)) } else { None };
            // Cell texts are unique in the record.
            let txt = format!("{}{}", ["c", "cell ", "long cell text ", "m\n"][t.weighted(&[4, 3, 2, 1])], i);
            v.push(RecD::Cell(txt, port));
        }
    }
    RecD::Row(v)
}

/// Some names differ from each other only in letter case or in blanks.
fn port_name(t: &mut Tape, i: usize) -> String {
    if t.chance(8) {
        return format!("{}{}", t.pick(&["port_name_", "a b ", "é"]).repeat(1 + t.below(20)), i);
    }
    if t.chance(40) {
        let (a, b) = [("q", ""), ("Q", ""), ("q", " "), (" q", "")][i % 4];
        return format!("{}{}{}", a, i / 4, b);
    }
    format!("p{}", i)
}

pub fn ports(r: &RecD, out: &mut Vec<String>) {
    match r {
        RecD::Cell(_, Some(p)) => out.push(p.clone()),
        RecD::Cell(..) => {}
        RecD::Row(v) => v.iter().for_each(|x| ports(x, out)),
    }
}
/// (text, port) of the leaves, in order.
pub fn cells(r: &RecD, out: &mut Vec<(String, Option<String>)>) {
    match r {
        RecD::Cell(t, p) => out.push((t.clone(), p.clone())),
        RecD::Row(v) => v.iter().for_each(|x| cells(x, out)),
    }
}
pub fn count_boxes(r: &RecD) -> usize {
    match r {
        RecD::Cell(..) => 1,
        RecD::Row(v) => 1 + v.iter().map(count_boxes).sum::<usize>(),
    }
}

fn dim(t: &mut Tape, max: usize) -> f64 {
    match t.weighted(&[60, 20, 10, 10, if max >= 100 { 1 } else { 0 }]) {
        4 => t.range(max, 30_000) as f64,
        0 => t.range(10, 80) as f64,
        1 => t.range(1, max) as f64,
        2 => 1.,
        _ => t.range(1, max * 4) as f64 / 4. + 0.1,
    }
}

pub fn gen_node(t: &mut Tape, o: &Opt) -> NodeD {
    let mut rounded = 0;
    let kind = if o.round_only {
        Kind::Circle(text(t))
    } else {
        match t.weighted(&[5, 4, 2, if o.records { 3 } else { 0 }]) {
            0 => Kind::Box(text(t)),
            1 => Kind::Circle(text(t)),
            2 => Kind::Double(text(t)),
            _ => {
                let mut k = 0;
                if t.chance(100) {
                    rounded = 15;
                }
                let depth = [2, 5, 9][t.weighted(&[20, 2, 1])];
                Kind::Record(gen_record(t, depth, &mut k))
            }
        }
    };
    let mut size = (dim(t, o.max_size), dim(t, o.max_size));
    if matches!(kind, Kind::Double(_)) {
        // There must be room for the inner circle.
        size = (size.0.max(16.), size.1.max(16.));
    }
    NodeD {
        kind,
        size,
        font: if t.chance(8) { t.range(61, 400) } else { *t.pick(&[14usize, 15, 10, 1, 24, 60]) },
        width: pen(t),
        fill: if t.chance(60) { None } else { Some(0xfff00000u32 + t.below(4096) as u32 * 256 + 255) },
        rounded,
        props: if t.chance(30) { Some(gen_props(t, "data-p")) } else { None },
    }
}

fn port_for(t: &mut Tape, n: &NodeD) -> Option<String> {
    if let Kind::Record(r) = &n.kind {
        let mut v = Vec::new();
        ports(r, &mut v);
        if !v.is_empty() && t.chance(170) {
            let i = t.below(v.len());
            if t.chance(10) {
                // Almost a port of the record.
                let near = [format!("{} ", v[i]), v[i].to_uppercase(), v[i].trim().to_string(), v[i][..v[i].len() - 1].to_string()][t.below(4)].clone();
                if !v.contains(&near) {
                    return Some(near);
                }
            }
            return Some(v[i].clone());
        }
    }
    if t.chance(16) {
        return Some("nowhere".into());
    }
    None
}

/// Pairs of nodes that are connected.
pub fn gen_pairs(t: &mut Tape, n: usize, o: &Opt) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = Vec::new();
    if n == 0 {
        return v;
    }
    let m = t.below(o.max_edges + 1);
    match t.below(9) {
        // Anything.
        0..=2 => {
            for _ in 0..m {
                v.push((t.below(n), t.below(n)));
            }
        }
        // Only forwards.
        3 => {
            for _ in 0..m {
                let (a, b) = (t.below(n), t.below(n));
                v.push((a.min(b), a.max(b)));
            }
        }
        // A tree, and more.
        4 => {
            for i in 1..n {
                v.push((t.below(i), i));
            }
            for _ in 0..m / 4 {
                v.push((t.below(n), t.below(n)));
            }
        }
        // A chain with shortcuts.
        5 => {
            for i in 1..n {
                v.push((i - 1, i));
            }
            for _ in 0..m / 3 {
                let (a, b) = (t.below(n), t.below(n));
                v.push((a.min(b), a.max(b)));
            }
        }
        // Two or three full layers.
        6 => {
            let k = t.range(2, 3);
            for _ in 0..m {
                let a = t.below(n);
                let b = t.below(n);
                if b % k == a % k + 1 {
                    v.push((a, b));
                }
            }
        }
        // A cycle.
        7 => {
            for i in 0..n {
                v.push((i, (i + 1) % n));
            }
            for _ in 0..m / 4 {
                v.push((t.below(n), t.below(n)));
            }
        }
        // A few nodes with many parallel edges and loops.
        _ => {
            let k = n.min(3);
            for _ in 0..m {
                v.push((t.below(k), t.below(k)));
            }
        }
    }
    if t.chance(60) {
        // Another order of declaration.
        let l = v.len();
        for i in 1..l {
            let j = t.below(i + 1);
            v.swap(i, j);
        }
    }
    if !o.self_loops {
        v.retain(|e| e.0 != e.1);
    }
    if !o.cycles {
        // Make it acyclic: direct edges along a random permutation.
        let mut perm: Vec<usize> = (0..n).collect();
        if t.chance(128) {
            for i in 1..n {
                let j = t.below(i + 1);
                perm.swap(i, j);
            }
        }
        for e in v.iter_mut() {
            if perm[e.0] > perm[e.1] {
                *e = (e.1, e.0);
            }
        }
    }
    v.truncate(o.max_edges);
    v
}

pub fn gen_graph(t: &mut Tape, o: &Opt) -> GraphD {
    let mut g = if o.family { gen_family(t, o) } else { gen_random(t, o) };
    if o.programs {
        let s = program(t, &mut g);
        g.program = Some(s);
    }
    g
}

fn gen_random(t: &mut Tape, o: &Opt) -> GraphD {
    let lr = t.chance(110);
    let flip = t.chance(128);
    let n = 1 + t.below(o.max_nodes);
    let plain = t.chance(60);
    let nodes: Vec<NodeD> = (0..n)
        .map(|_| {
            if plain {
                NodeD { kind: if o.round_only { Kind::Circle("n".into()) } else { Kind::Box("n".into()) }, size: (40., 30.), font: 14, width: 1, fill: None, rounded: 0, props: None }
            } else {
                gen_node(t, o)
            }
        })
        .collect();
    let pairs = gen_pairs(t, n, o);
    let labels = if o.labels { [0, 60, 160][t.below(3)] } else { 0 };
    let edges = pairs
        .into_iter()
        .map(|(from, to)| EdgeD {
            from,
            to,
            heads: *t.pick(&[(false, true), (false, true), (false, false), (true, true), (true, false)]),
            style: if o.invisible && t.chance(10) { 3 } else { t.weighted(&[5, 1, 1]) as u8 },
            text: if labels > 0 && t.chance(labels) { text(t) } else { String::new() },
            font: if t.chance(8) { t.range(31, 200) } else { *t.pick(&[14usize, 15, 8, 30]) },
            width: pen(t),
            ports: (port_for(t, &nodes[from]), port_for(t, &nodes[to])),
            props: if t.chance(20) { Some(gen_props(t, "data-e")) } else { None },
        })
        .collect();
    GraphD { lr, flip, nodes, edges, program: None }
}

impl GraphD {
    pub fn describe(&self) -> String {
        if let Some(s) = &self.program {
            return s.clone();
        }
        let mut s = format!("{}{} ", if self.lr { "LR" } else { "TB" }, if self.flip { "/flipped shapes" } else { "" });
        for (i, n) in self.nodes.iter().enumerate() {
            s.push_str(&format!("n{}={:?} {}x{} font {} width {} fill {:x?}", i, n.kind, n.size.0, n.size.1, n.font, n.width, n.fill));
            if n.rounded > 0 {
                s.push_str(" rounded");
            }
            if let Some(p) = &n.props {
                s.push_str(p);
            }
            s.push_str("; ");
        }
        for e in &self.edges {
            s.push_str(&format!(
                "n{}{}->n{}{} heads {:?} style {} {:?} font {} width {}",
                e.from,
                e.ports.0.as_ref().map(|x| format!(":{}", x)).unwrap_or_default(),
                e.to,
                e.ports.1.as_ref().map(|x| format!(":{}", x)).unwrap_or_default(),
                e.heads,
                e.style,
                e.text,
                e.font,
                e.width
            ));
            if let Some(p) = &e.props {
                s.push_str(p);
            }
            s.push_str("; ");
        }
        s
    }
    pub fn has_labels(&self) -> bool {
        self.edges.iter().any(|e| !e.text.is_empty())
    }
    pub fn acyclic(&self) -> bool {
        !self.edges.iter().any(|e| e.from == e.to) && self.reversed().iter().all(|x| !x)
    }
    /// For each edge: does it close a cycle with the edges before it?
    pub fn reversed(&self) -> Vec<bool> {
        let n = self.nodes.len();
        let mut succ: Vec<Vec<usize>> = vec![Vec::new(); n];
        let mut out = Vec::new();
        for e in &self.edges {
            if e.from == e.to {
                out.push(false);
                continue;
            }
            let rev = reach(&succ, e.to, e.from);
            if rev {
                succ[e.to].push(e.from);
            } else {
                succ[e.from].push(e.to);
            }
            out.push(rev);
        }
        out
    }
}

pub fn reach(succ: &[Vec<usize>], a: usize, b: usize) -> bool {
    let mut seen = vec![false; succ.len()];
    let mut st = vec![a];
    while let Some(x) = st.pop() {
        if x == b {
            return true;
        }
        if seen[x] {
            continue;
        }
        seen[x] = true;
        st.extend(&succ[x]);
    }
    false
}

pub fn node_color(i: usize) -> u32 {
    ((0x10_0000 + i as u32) << 8) | 0xff
}
pub fn edge_color(i: usize) -> u32 {
    ((0x20_0000 + i as u32) << 8) | 0xff
}

pub fn rec_def(r: &RecD) -> RecordDef {
    match r {
        RecD::Cell(t, None) => RecordDef::new_text(t),
        RecD::Cell(t, Some(p)) => RecordDef::new_text_with_port(t, p),
        RecD::Row(v) => RecordDef::Array(v.iter().map(rec_def).collect()),
    }
}

pub fn shape(k: &Kind) -> ShapeKind {
    match k {
        Kind::Box(s) => ShapeKind::new_box(s),
        Kind::Circle(s) => ShapeKind::new_circle(s),
        Kind::Double(s) => ShapeKind::new_double_circle(s),
        Kind::Record(r) => ShapeKind::new_record(&rec_def(r)),
        Kind::None => ShapeKind::None,
    }
}

pub fn build(g: &GraphD) -> (VisualGraph, Vec<NodeHandle>) {
    let o = if g.lr { Orientation::LeftToRight } else { Orientation::TopToBottom };
    let so = if g.flip { o.flip() } else { o };
    let mut vg = VisualGraph::new(o);
    let mut h = Vec::new();
    for (i, n) in g.nodes.iter().enumerate() {
        let look = StyleAttr::new(Color::new(node_color(i)), n.width, n.fill.map(Color::new), n.rounded, n.font);
        let size = Point::new(n.size.0, n.size.1);
        let e = match &n.props {
            Some(p) => Element::create_with_properties(shape(&n.kind), look, so, size, p.clone()),
            None => Element::create(shape(&n.kind), look, so, size),
        };
        h.push(vg.add_node(e));
    }
    let end = |b: bool| if b { LineEndKind::Arrow } else { LineEndKind::None };
    for (i, e) in g.edges.iter().enumerate() {
        let look = StyleAttr::new(Color::new(edge_color(i)), e.width, None, 0, e.font);
        let st = [LineStyleKind::Normal, LineStyleKind::Dashed, LineStyleKind::Dotted, LineStyleKind::None][e.style as usize];
        // By whatever constructor can make it.
        let plain = e.ports.0.is_none() && e.ports.1.is_none();
        let a = match &e.props {
            _ if plain && e.style == 3 && e.text.is_empty() && e.heads == (false, false) && e.props.is_none() => Arrow { look, ..Arrow::invisible() },
            None if plain && i % 3 == 0 && e.style == 0 && e.heads == (false, true) => Arrow { look, text: e.text.clone(), ..Arrow::default() },
            None if plain && i % 3 == 1 && e.style == 0 && e.heads == (false, true) => Arrow { look, ..Arrow::simple(&e.text) },
            Some(p) if plain && i % 3 == 2 && e.style == 0 && e.heads == (false, true) => Arrow { look, ..Arrow::simple_with_properties(&e.text, p.clone()) },
            Some(p) => Arrow::with_properties(end(e.heads.0), end(e.heads.1), st, &e.text, &look, p.clone(), &e.ports.0, &e.ports.1),
            None => Arrow::new(end(e.heads.0), end(e.heads.1), st, &e.text, &look, &e.ports.0, &e.ports.1),
        };
        vg.add_edge(a, h[e.from], h[e.to]);
    }
    (vg, h)
}

fn quoted(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

fn record_label(r: &RecD) -> String {
    match r {
        RecD::Cell(t, None) => t.clone(),
        RecD::Cell(t, Some(p)) => format!("<{}> {}", p, t),
        RecD::Row(v) => {
            let v: Vec<String> = v
                .iter()
                .map(|x| match x {
                    RecD::Row(_) => format!("{{{}}}", record_label(x)),
                    x => record_label(x),
                })
                .collect();
            v.join("|")
        }
    }
}

/// A program for the graph, which is changed where programs can't say it.
pub fn program(t: &mut Tape, g: &mut GraphD) -> String {
    g.flip = true;
    for n in g.nodes.iter_mut() {
        n.props = None;
        if matches!(n.kind, Kind::None) {
            n.kind = Kind::Box("n".into());
        }
    }
    for e in g.edges.iter_mut() {
        e.props = None;
        e.heads.0 = false;
        e.style = (e.style == 1) as u8;
    }
    let mut nodes: Vec<String> = Vec::new();
    for (i, n) in g.nodes.iter().enumerate() {
        let (shape, label) = match &n.kind {
            Kind::Box(s) => ("box", s.clone()),
            Kind::Circle(s) => (*t.pick(&["circle", "ellipse", ""]), s.clone()),
            Kind::Double(s) => ("doublecircle", s.clone()),
            Kind::Record(r) => (if n.rounded > 0 { "Mrecord" } else { "record" }, record_label(r)),
            Kind::None => unreachable!(),
        };
        let mut s = format!("n{} [color=\"#{:08x}\" label={}", i, node_color(i), quoted(&label));
        if !shape.is_empty() {
            s.push_str(&format!(" shape={}", shape));
        }
        if n.font != 14 {
            s.push_str(&format!(" fontsize={}", n.font));
        }
        if n.width != 1 {
            s.push_str(&format!(" width={}", n.width));
        }
        if let Some(c) = n.fill {
            s.push_str(&format!(" fillcolor=\"#{:08x}\"", c));
        }
        s.push(']');
        nodes.push(s);
    }
    let mut edges: Vec<String> = Vec::new();
    for (i, e) in g.edges.iter().enumerate() {
        let port = |p: &Option<String>| p.as_ref().map(|x| format!(":{}", quoted(x))).unwrap_or_default();
        let mut s = format!(
            "n{}{} {} n{}{} [color=\"#{:08x}\"",
            e.from,
            port(&e.ports.0),
            if e.heads.1 { "->" } else { "--" },
            e.to,
            port(&e.ports.1),
            edge_color(i)
        );
        if !e.text.is_empty() {
            s.push_str(&format!(" label={}", quoted(&e.text)));
        }
        if e.font != 14 {
            s.push_str(&format!(" fontsize={}", e.font));
        }
        if e.width != 1 {
            s.push_str(&format!(" penwidth={}", e.width));
        }
        if e.style == 1 {
            s.push_str(" style=dashed");
        }
        s.push(']');
        edges.push(s);
    }
    // Nodes are declared before, between or after the edges.
    let mut list: Vec<String> = Vec::new();
    let mode = t.below(4);
    if mode == 0 {
        list.append(&mut nodes);
    }
    for e in edges {
        if mode == 2 && !nodes.is_empty() && t.chance(128) {
            let i = t.below(nodes.len());
            list.push(nodes.swap_remove(i));
        }
        list.push(e);
    }
    list.append(&mut nodes);
    let dir = if g.lr { "rankdir=LR".to_string() } else { String::new() };
    if g.lr {
        let at = t.below(list.len() + 1);
        list.insert(at, dir);
    }
    format!("digraph {{\n{}\n}}", list.join(";\n"))
}

fn parsed(g: &GraphD) -> Result<VisualGraph, String> {
    let s = g.program.as_deref().unwrap_or("");
    no_panic("reading", || {
        let p = layout::gv::DotParser::new(s).process().map_err(|e| format!("a valid program was rejected: {}", e))?;
        let mut b = layout::gv::GraphBuilder::new();
        b.visit_graph(&p);
        Ok(b.get())
    })?
}

/// The graph to draw; handles are returned if it is not made from a program.
pub fn make(g: &GraphD) -> Result<(VisualGraph, Vec<NodeHandle>), String> {
    Ok(if g.program.is_some() { (parsed(g)?, Vec::new()) } else { build(g) })
}

/// Lays the graph out and records the drawing.
pub fn draw(g: &GraphD, debug: bool, no_opt: bool, no_layout: bool) -> Result<Vec<Op>, String> {
    Ok(draw_vg(g, debug, no_opt, no_layout)?.0)
}

/// Also returns the graph after the layout.
#[allow(dead_code)]
pub fn draw_vg(g: &GraphD, debug: bool, no_opt: bool, no_layout: bool) -> Result<(Vec<Op>, VisualGraph, Vec<NodeHandle>), String> {
    let mut r = Rec::new();
    let (mut vg, handles) = make(g)?;
    no_panic("do_it", || vg.do_it(debug, no_opt, no_layout, &mut r))?;
    Ok((r.ops, vg, handles))
}

/// Larger graphs of a regular structure.
pub fn gen_family(t: &mut Tape, o: &Opt) -> GraphD {
    let max = if t.chance(16) { 3 * o.max_nodes } else { o.max_nodes };
    let n = t.range(max / 4 + 1, max);
    let mut v: Vec<(usize, usize)> = Vec::new();
    let mut nodes = n;
    match t.below(13) {
        // A chain.
        0 => v.extend((1..n).map(|i| (i - 1, i))),
        // A cycle, closed by its last or its first edge.
        1 => {
            v.extend((1..n).map(|i| (i - 1, i)));
            let at = if t.chance(128) { v.len() } else { 0 };
            v.insert(at, (n - 1, 0));
        }
        // Stars.
        2 => v.extend((1..n).map(|i| (0, i))),
        3 => v.extend((1..n).map(|i| (i, 0))),
        // Parallel edges.
        4 => {
            nodes = t.range(2, 4);
            let back = t.chance(60);
            v.extend((0..n).map(|i| if back && i % 7 == 6 { (nodes - 1, 0) } else { (0, nodes - 1) }));
        }
        // Loops.
        5 => {
            nodes = t.range(1, 5);
            v.extend((0..n / 2).map(|i| (i % nodes, i % nodes)));
            v.extend((1..nodes).map(|i| (i - 1, i)));
        }
        // A tree.
        6 => {
            let k = t.range(2, 4);
            v.extend((1..n).map(|i| ((i - 1) / k, i)));
        }
        // A tree that leads to the root.
        7 => {
            let k = t.range(2, 4);
            v.extend((1..n).map(|i| (i, (i - 1) / k)));
        }
        // No edges at all, or few.
        8 => v.extend((0..t.below(4)).map(|i| (i, n - 1 - i))),
        // All with all.
        9 => {
            let k = ((n as f64).sqrt() as usize).max(2);
            nodes = 2 * k;
            for a in 0..k {
                for b in 0..k {
                    v.push((a, k + b));
                }
            }
        }
        // Separate chains.
        10 => {
            let k = t.range(2, 9);
            v.extend((k..n).map(|i| (i - k, i)));
        }
        // A hub with spokes of two edges, some lead back.
        11 => {
            let k = if o.max_nodes > 100 && t.chance(100) { t.range(66, 100) } else { (n - 1) / 2 };
            nodes = 2 * k + 1;
            v.extend((1..=k).map(|i| (0, i)));
            v.extend((1..=k).map(|i| (i, k + i)));
            for _ in 0..t.below(4) {
                v.push((k + 1 + t.below(k.max(1)).min(k.saturating_sub(1)), 0));
            }
            if k == 0 {
                v.clear();
            }
        }
        // A chain with a long edge, and a diamond at its end.
        _ => {
            v.extend((1..n).map(|i| (i - 1, i)));
            v.push((0, n - 1));
            if n > 4 {
                v.push((n - 4, n - 2));
                v.push((1, n / 2));
            }
        }
    }
    for _ in 0..t.below(3) {
        let (a, b) = (t.below(nodes), t.below(nodes));
        v.push((a, b));
    }
    if t.chance(60) {
        v.reverse();
    }
    v.retain(|e| (o.self_loops || e.0 != e.1) && e.0 < nodes && e.1 < nodes);
    if !o.cycles {
        for e in v.iter_mut() {
            *e = (e.0.min(e.1), e.0.max(e.1));
        }
    }
    let mut small = o.clone();
    small.max_size = 90;
    let pool: Vec<NodeD> = (0..t.range(1, 3)).map(|_| gen_node(t, &small)).collect();
    let sparse = t.range(1, 5);
    let texts: Vec<String> = (0..3).map(|_| text(t)).collect();
    let label = if o.labels && t.chance(90) { t.range(1, 30) } else { 0 };
    let heads = *t.pick(&[(false, true), (true, true), (false, false)]);
    let invisible = if o.invisible && t.chance(30) { t.range(2, 9) } else { 0 };
    GraphD {
        lr: t.chance(100),
        flip: t.chance(128),
        nodes: (0..nodes).map(|i| pool[(i / sparse) % pool.len()].clone()).collect(),
        edges: v
            .into_iter()
            .enumerate()
            .map(|(i, (from, to))| EdgeD {
                from,
                to,
                heads,
                style: if invisible > 0 && i % invisible == 0 { 3 } else { (i % 3) as u8 },
                text: if label > 0 && i % label == 0 { texts[i % 3].clone() } else { String::new() },
                font: 14,
                width: 1 + i % 3,
                ports: (None, None),
                props: None,
            })
            .collect(),
        program: None,
    }
}
