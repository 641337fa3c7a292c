//! Interprets recorded drawings of graphs from gg.rs.
#![allow(dead_code)]
use super::gg::{self, GraphD, Kind};
use super::rec::{Op, P};

#[derive(Default, Clone, Debug)]
pub struct Items {
    pub ops: Vec<Op>,
}

#[derive(Default, Clone, Debug)]
pub struct Drawing {
    pub nodes: Vec<Items>,
    pub edges: Vec<Items>,
    pub clips: Vec<Op>,
    pub other: Vec<Op>,
}

pub type Rect = (P, P);

pub fn web(c: u32) -> String {
    format!("#{:08x}", c)
}

pub fn interpret(g: &GraphD, ops: &[Op]) -> Drawing {
    let mut d = Drawing {
        nodes: vec![Items::default(); g.nodes.len()],
        edges: vec![Items::default(); g.edges.len()],
        ..Default::default()
    };
    for o in ops {
        let look = match o {
            Op::Rect { look, .. } | Op::Line { look, .. } | Op::Circle { look, .. } | Op::Text { look, .. } | Op::Arrow { look, .. } => look,
            Op::Clip { .. } => {
                d.clips.push(o.clone());
                continue;
            }
        };
        let c = u32::from_str_radix(&look.line[1..], 16).unwrap_or(0) >> 8;
        let k = (c & 0xfffff) as usize;
        match c >> 20 {
            1 if k < g.nodes.len() => d.nodes[k].ops.push(o.clone()),
            2 if k < g.edges.len() => d.edges[k].ops.push(o.clone()),
            _ => d.other.push(o.clone()),
        }
    }
    d
}

pub fn op_box(o: &Op) -> Option<Rect> {
    match o {
        Op::Rect { xy, size, .. } => Some((*xy, (xy.0 + size.0, xy.1 + size.1))),
        Op::Circle { xy, size, .. } => Some(((xy.0 - size.0 / 2., xy.1 - size.1 / 2.), (xy.0 + size.0 / 2., xy.1 + size.1 / 2.))),
        _ => None,
    }
}

pub fn hull(a: Rect, b: Rect) -> Rect {
    (
        (a.0 .0.min(b.0 .0), a.0 .1.min(b.0 .1)),
        (a.1 .0.max(b.1 .0), a.1 .1.max(b.1 .1)),
    )
}

pub fn center(r: Rect) -> P {
    ((r.0 .0 + r.1 .0) / 2., (r.0 .1 + r.1 .1) / 2.)
}

/// The box of the drawn shape of a node.
pub fn node_box(it: &Items) -> Option<Rect> {
    it.ops.iter().filter_map(op_box).reduce(hull)
}

pub fn boxes(g: &GraphD, d: &Drawing) -> Result<Vec<Option<Rect>>, String> {
    let mut v = Vec::new();
    for (i, n) in d.nodes.iter().enumerate() {
        let b = node_box(n);
        if b.is_none() && !matches!(g.nodes[i].kind, Kind::None) {
            return Err(format!("node n{} is not drawn", i));
        }
        v.push(b);
    }
    Ok(v)
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * (1. + a.abs().max(b.abs()))
}
pub fn close_p(a: P, b: P) -> bool {
    close(a.0, b.0) && close(a.1, b.1)
}

/// Is the point on the border of the rectangle?
pub fn on_rect(p: P, r: Rect, tol: f64) -> bool {
    let inx = p.0 >= r.0 .0 - tol && p.0 <= r.1 .0 + tol;
    let iny = p.1 >= r.0 .1 - tol && p.1 <= r.1 .1 + tol;
    let onx = (p.0 - r.0 .0).abs() <= tol || (p.0 - r.1 .0).abs() <= tol;
    let ony = (p.1 - r.0 .1).abs() <= tol || (p.1 - r.1 .1).abs() <= tol;
    inx && iny && (onx || ony)
}

/// Is the point on the ellipse that the rectangle encloses?
pub fn on_ellipse(p: P, r: Rect, tol: f64) -> bool {
    let c = center(r);
    let a = (r.1 .0 - r.0 .0) / 2.;
    let b = (r.1 .1 - r.0 .1) / 2.;
    let x = (p.0 - c.0) / a;
    let y = (p.1 - c.1) / b;
    let d = (x * x + y * y).sqrt();
    (d - 1.).abs() * a.min(b) <= tol || (d - 1.).abs() < 1e-9
}

pub fn arrow(it: &Items) -> Option<(&Vec<(P, P)>, bool, (bool, bool))> {
    it.ops.iter().find_map(|o| match o {
        Op::Arrow { path, dashed, head, .. } => Some((path, *dashed, *head)),
        _ => None,
    })
}

/// Does the point lie where an edge may attach to the node (with the port)?
pub fn attached(g: &GraphD, d: &Drawing, n: usize, port: &Option<String>, p: P, tol: f64) -> bool {
    let b = match node_box(&d.nodes[n]) {
        Some(b) => b,
        None => return false,
    };
    match &g.nodes[n].kind {
        Kind::Circle(_) | Kind::Double(_) => on_ellipse(p, b, tol),
        Kind::Record(r) => {
            if let Some(port) = port {
                let mut cells = Vec::new();
                gg::cells(r, &mut cells);
                if let Some((txt, _)) = cells.iter().find(|c| c.1.as_ref() == Some(port)) {
                    return match cell_box(&d.nodes[n], txt) {
                        Some(c) => on_rect(p, c, tol),
                        None => false,
                    };
                }
            }
            on_rect(p, b, tol)
        }
        _ => on_rect(p, b, tol),
    }
}

/// The smallest box that is centered at the text.
pub fn cell_box(it: &Items, txt: &str) -> Option<Rect> {
    let at = it.ops.iter().find_map(|o| match o {
        Op::Text { xy, text, .. } if text == txt => Some(*xy),
        _ => None,
    })?;
    let mut best: Option<Rect> = None;
    for o in &it.ops {
        if let Op::Rect { look, .. } = o {
            // The outline of the record has no fill; a cell may have none too.
            let _ = look;
            let r = op_box(o)?;
            if close_p(center(r), at) {
                let area = |r: Rect| (r.1 .0 - r.0 .0) * (r.1 .1 - r.0 .1);
                if best.map(|b| area(r) < area(b)).unwrap_or(true) {
                    best = Some(r);
                }
            }
        }
    }
    best
}
