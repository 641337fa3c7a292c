//! C04: attributes take effect in their scope, on what is created there.
#[path = "../shared/dot.rs"]
mod dot;
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/rec.rs"]
mod rec;
#[path = "../shared/scope.rs"]
mod scope;
use draw::{close_p, hull, on_ellipse, on_rect, op_box, Rect};
use layout::gv::{DotParser, GraphBuilder};
use rec::{Look, Op, Rec, P};
use scope::{gen, Model, Props, COLORS};
use vp::*;

fn color(p: &Props, k: &str, default: &str) -> String {
    let d = default.to_string();
    let v = p.get(k).unwrap_or(&d);
    let hex = |v: &str| match v.len() {
        7 => u32::from_str_radix(&v[1..], 16).ok().map(|x| x << 8 | 0xff),
        9 => u32::from_str_radix(&v[1..], 16).ok(),
        _ => None,
    };
    let c = COLORS.iter().find(|c| c.0 == v).map(|c| c.1).or(if v.starts_with('#') { hex(v) } else { None });
    draw::web(c.unwrap_or(match v.as_str() {
        "white" => 0xffffffff,
        "lightgray" => 0xd3d3d3ff,
        _ => 0xff,
    }))
}
fn number(p: &Props, k: &str, default: usize) -> usize {
    p.get(k).and_then(|x| x.parse().ok()).unwrap_or(default)
}

#[derive(Debug, PartialEq, Clone)]
enum Shape {
    Box(String),
    Circle(String),
    Double(String),
    Record(Vec<String>),
}

#[derive(Debug, Clone)]
struct MNode {
    shape: Shape,
    look: Look,
    cells: Vec<(String, Option<String>)>,
}

/// (text, port) of the cells of a record label.
fn rec_cells(label: &str) -> Vec<(String, Option<String>)> {
    label
        .split(['|', '{', '}'])
        .map(str::trim)
        .filter(|x| !x.is_empty())
        .map(|x| match x.strip_prefix('<').and_then(|y| y.split_once('>')) {
            Some((p, r)) => (r.trim().to_string(), Some(p.to_string())),
            None => (x.to_string(), None),
        })
        .collect()
}

fn meaning(name: &str, p: &Props) -> MNode {
    let label = p.get("label").cloned().unwrap_or_else(|| name.to_string());
    let mut rounded = 0;
    let mut cells = Vec::new();
    let shape = match p.get("shape").map(|x| x.as_str()) {
        Some("box") => Shape::Box(label),
        Some("doublecircle") => Shape::Double(label),
        Some(r @ ("record" | "Mrecord")) => {
            if r == "Mrecord" {
                rounded = 15;
            }
            cells = rec_cells(&label);
            let mut v: Vec<String> = cells.iter().map(|c| c.0.clone()).collect();
            v.sort();
            Shape::Record(v)
        }
        _ => Shape::Circle(label),
    };
    let filled = p.get("style").map(|s| s == "filled").unwrap_or(false);
    let look = Look {
        line: color(p, "color", "black"),
        width: number(p, "width", 1),
        fill: Some(color(p, "fillcolor", if filled { "lightgray" } else { "white" })),
        rounded,
        font: number(p, "fontsize", 14),
    };
    MNode { shape, look, cells }
}

/// A drawn shape with its texts.
#[derive(Debug, Clone)]
struct Group {
    b: Rect,
    shapes: Vec<Op>,
    texts: Vec<(P, String, Look)>,
}

fn inside(a: Rect, b: Rect) -> bool {
    let e = 1e-6 * (1. + b.1 .0.abs() + b.1 .1.abs());
    a.0 .0 >= b.0 .0 - e && a.0 .1 >= b.0 .1 - e && a.1 .0 <= b.1 .0 + e && a.1 .1 <= b.1 .1 + e
}

fn groups(ops: &[Op]) -> (Vec<Group>, Vec<(P, String, Look)>) {
    let mut gs: Vec<Group> = Vec::new();
    for o in ops {
        if let Some(b) = op_box(o) {
            match gs.iter_mut().find(|g| inside(b, g.b) || inside(g.b, b)) {
                Some(g) => {
                    g.b = hull(g.b, b);
                    g.shapes.push(o.clone());
                }
                None => gs.push(Group { b, shapes: vec![o.clone()], texts: Vec::new() }),
            }
        }
    }
    let mut labels = Vec::new();
    for o in ops {
        if let Op::Text { xy, text, look } = o {
            match gs.iter_mut().find(|g| inside((*xy, *xy), g.b)) {
                Some(g) => g.texts.push((*xy, text.clone(), look.clone())),
                None => labels.push((*xy, text.clone(), look.clone())),
            }
        }
    }
    (gs, labels)
}

/// None if the group is a drawing of the node.
fn differs(m: &MNode, g: &Group) -> Option<String> {
    let rects: Vec<&Op> = g.shapes.iter().filter(|o| matches!(o, Op::Rect { .. })).collect();
    let circles: Vec<&Op> = g.shapes.iter().filter(|o| matches!(o, Op::Circle { .. })).collect();
    let mut texts: Vec<String> = g.texts.iter().map(|t| t.1.clone()).collect();
    texts.sort();
    if matches!(m.shape, Shape::Record(_)) {
        texts.retain(|t| !t.is_empty());
    }
    let size = (g.b.1 .0 - g.b.0 .0, g.b.1 .1 - g.b.0 .1);
    let want = match &m.shape {
        Shape::Box(t) => (1, 0, vec![t.clone()]),
        Shape::Circle(t) => (0, 1, vec![t.clone()]),
        Shape::Double(t) => (0, 2, vec![t.clone()]),
        Shape::Record(v) => (usize::MAX, 0, v.clone()),
    };
    if circles.len() != want.1 || (want.0 != usize::MAX && rects.len() != want.0) || (want.0 == usize::MAX && rects.len() < 2) {
        return Some(format!("{} rectangles, {} circles", rects.len(), circles.len()));
    }
    if texts != want.2 {
        return Some(format!("texts {:?}", texts));
    }
    for t in &g.texts {
        if t.2.font != m.look.font || t.2.line != m.look.line {
            return Some(format!("text look {:?}", t.2));
        }
        let w = t.1.lines().map(|l| l.chars().count()).max().unwrap_or(0) * m.look.font;
        let h = t.1.lines().count() * m.look.font;
        if size.0 < w as f64 - 1e-6 || size.1 < h as f64 - 1e-6 {
            return Some(format!("size {:?}", size));
        }
    }
    if matches!(m.shape, Shape::Double(_)) && (size.0 - size.1).abs() > 1e-6 {
        return Some(format!("a double circle of size {:?}", size));
    }
    let mut outlines = 0;
    for o in &g.shapes {
        if let Op::Rect { look, .. } | Op::Circle { look, .. } = o {
            let mut w = m.look.clone();
            if want.0 == usize::MAX {
                if look.fill.is_none() {
                    w.fill = None;
                    outlines += 1;
                } else {
                    w.rounded = 0;
                }
            }
            if *look != w {
                return Some(format!("look {:?}", look));
            }
        }
    }
    if want.0 == usize::MAX && outlines == 0 {
        return Some("no outline".into());
    }
    None
}

fn at(m: &MNode, g: &Group, port: &Option<String>, p: P, tol: f64) -> bool {
    if matches!(m.shape, Shape::Circle(_) | Shape::Double(_)) {
        return on_ellipse(p, g.b, tol);
    }
    if let Some(port) = port {
        // Of several cells with the port any may be meant.
        let cs: Vec<&(String, Option<String>)> = m.cells.iter().filter(|c| c.1.as_ref() == Some(port)).collect();
        if !cs.is_empty() {
            return cs.iter().any(|c| {
                let Some(t) = g.texts.iter().find(|t| t.1 == c.0) else { return false };
                let mut best: Option<Rect> = None;
                for o in &g.shapes {
                    if let Some(r) = op_box(o) {
                        if close_p(draw::center(r), t.0) && best.map(|b| inside(r, b)).unwrap_or(true) {
                            best = Some(r);
                        }
                    }
                }
                best.is_some_and(|b| on_rect(p, b, tol))
            });
        }
    }
    on_rect(p, g.b, tol)
}

/// A perfect matching, or the index of an element of the left without one.
fn matching(adj: &[Vec<usize>], right: usize) -> Result<Vec<usize>, usize> {
    fn go(u: usize, adj: &[Vec<usize>], seen: &mut [bool], mate: &mut [Option<usize>]) -> bool {
        for &v in &adj[u] {
            if !seen[v] {
                seen[v] = true;
                if mate[v].is_none() || mate[v].is_some_and(|w| go(w, adj, seen, mate)) {
                    mate[v] = Some(u);
                    return true;
                }
            }
        }
        false
    }
    let mut mate = vec![None; right];
    for u in 0..adj.len() {
        let mut seen = vec![false; right];
        if !go(u, adj, &mut seen, &mut mate) {
            return Err(u);
        }
    }
    let mut r = vec![0; adj.len()];
    for (v, u) in mate.iter().enumerate() {
        if let Some(u) = u {
            r[*u] = v;
        }
    }
    Ok(r)
}

fn run(t: &mut Tape, c: &mut Case, max: usize, crowd: bool) -> Verdict {
    let mut m = Model { crowd, node_stack: vec![Props::new()], edge_stack: vec![Props::new()], ..Model::default() };
    let list = gen(t, &mut m, 0, max);
    let p = dot::Prog { strict: false, directed: t.chance(200), name: None, list };
    let toks = dot::tokens(t, &p);
    let s = dot::print(t, &toks);
    c.input(s.clone());
    c.nontrivial(!m.names.is_empty());
    c.label_if(m.inner, "inner scopes");
    c.label_if(m.shadowed, "defaults set in inner scopes");
    c.label_if(m.redeclared, "nodes declared again");
    c.label_if(!m.edges.is_empty(), "edges");
    let g = match no_panic("parsing", || DotParser::new(&s).process())? {
        Ok(g) => g,
        Err(e) => return Err(format!("a valid program was rejected: {}", e)),
    };
    let mut r = Rec::new();
    let lr = no_panic("drawing", || {
        let mut gb = GraphBuilder::new();
        gb.visit_graph(&g);
        let mut vg = gb.get();
        let lr = vg.orientation().is_left_right();
        vg.do_it(false, false, false, &mut r);
        lr
    })?;
    let want_lr = m.graph.get("rankdir").map(|x| x == "LR").unwrap_or(false);
    ensure!(lr == want_lr, "the graph grows {}", if lr { "to the right" } else { "down" });
    let nodes: Vec<MNode> = m.names.iter().zip(&m.nodes).map(|(n, p)| meaning(n, p)).collect();
    c.label_if(nodes.iter().any(|n| matches!(n.shape, Shape::Record(_))), "records");
    let (gs, mut labels) = groups(&r.ops);
    let show = |i: usize| format!("{:?} should be a {:?}", m.names[i], nodes[i]);
    ensure!(gs.len() == nodes.len(), "{} shapes are drawn for {} nodes", gs.len(), nodes.len());
    let fits: Vec<Vec<usize>> = nodes.iter().map(|n| (0..gs.len()).filter(|k| differs(n, &gs[*k]).is_none()).collect()).collect();
    if let Err(i) = matching(&fits, gs.len()) {
        let why: Vec<String> = gs.iter().filter_map(|g| differs(&nodes[i], g)).collect();
        return Err(format!("node {} but no shape left is like that; the shapes have {:?}", show(i), why));
    }
    // Edges.
    let mut arrows = Vec::new();
    for o in &r.ops {
        if let Op::Arrow { path, dashed, head, look, text, .. } = o {
            arrows.push((path, *dashed, *head, look));
            if !text.is_empty() {
                labels.push(((0., 0.), text.clone(), look.clone()));
            }
        }
    }
    ensure!(arrows.len() == m.edges.len(), "{} edges are drawn, {} declared", arrows.len(), m.edges.len());
    let mut adj = Vec::new();
    for e in &m.edges {
        let look = Look { line: color(&e.props, "color", "black"), width: number(&e.props, "penwidth", 1), fill: None, rounded: 0, font: number(&e.props, "fontsize", 14) };
        let dashed = e.props.get("style").map(|x| x == "dashed").unwrap_or(false);
        let v: Vec<usize> = (0..arrows.len())
            .filter(|k| {
                let (path, d, head, l) = &arrows[*k];
                if *d != dashed || **l != look {
                    return false;
                }
                let (a, b) = (path[0].0, path[path.len() - 1].1);
                let tol = 1e-6 * (1. + a.0.abs() + a.1.abs() + b.0.abs() + b.1.abs());
                let end = |n: usize, port: &Option<String>, p: P| fits[n].iter().any(|k| at(&nodes[n], &gs[*k], port, p, tol));
                let fwd = end(e.from, &e.ports.0, a) && end(e.to, &e.ports.1, b) && *head == (false, e.arrow);
                let bwd = end(e.from, &e.ports.0, b) && end(e.to, &e.ports.1, a) && *head == (e.arrow, false);
                fwd || bwd
            })
            .collect();
        adj.push(v);
    }
    if let Err(i) = matching(&adj, arrows.len()) {
        let e = &m.edges[i];
        return Err(format!(
            "edge {} (from {:?} to {:?}, ports {:?}, {}, {:?}) is not drawn like that; arrows: {:?}",
            i, m.names[e.from], m.names[e.to], e.ports, if e.arrow { "directed" } else { "undirected" }, e.props, arrows
        ));
    }
    let key = |text: &str, l: &Look| format!("{:?} {} {} {}", text, l.line, l.width, l.font);
    let mut got: Vec<String> = labels.iter().filter(|l| !l.1.is_empty()).map(|l| key(&l.1, &l.2)).collect();
    let mut want: Vec<String> = m
        .edges
        .iter()
        .filter_map(|e| {
            let text = e.props.get("label").filter(|x| !x.is_empty())?;
            let l = Look { line: color(&e.props, "color", "black"), width: number(&e.props, "penwidth", 1), fill: None, rounded: 0, font: number(&e.props, "fontsize", 14) };
            Some(key(text, &l))
        })
        .collect();
    c.label_if(!want.is_empty(), "edge labels");
    got.sort();
    want.sort();
    ensure!(got == want, "edge labels {:?}, expected {:?}", got, want);
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 6, false)
}
fn large(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 22, false)
}
/// Very many statements.
fn crowd(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 200, true)
}

fn main() {
    run_main(Check {
        id: "C04",
        rule: "Random programs with nested scopes, defaults for nodes and edges, declarations before and after use, chains, ports and all supported attributes are parsed, built, laid out and drawn on a recording backend; the shapes, arrows and labels drawn must be those of a model of the scoping rules (perfect matchings between model and drawing). Non-trivial: at least one node.",
        assumptions: &["only attributes and values that the crate supports, junk keys, and numbers and colors that can't be read; whether defaults apply again to a node that is declared again is not specified (there the value is given explicitly)"],
        subs: vec![
            Sub::new("small", small, 140_000, 3_000_000).guided(),
            Sub::new("large", large, 24_000, 500_000).tape(4000),
            Sub::new("crowd", crowd, 600, 12_000).tape(30_000),
        ],
    });
}
