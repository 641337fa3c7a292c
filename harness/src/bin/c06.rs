//! C06: everything is drawn exactly once, with its own look.
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/rec.rs"]
mod rec;
use draw::*;
use layout::adt::dag::NodeHandle;
use layout::topo::layout::VisualGraph;
use gg::{GraphD, Kind, Opt};
use rec::{Look, Op};
use vp::*;

fn check_node(g: &GraphD, i: usize, it: &Items, clips: &[Op]) -> Verdict {
    let n = &g.nodes[i];
    let look = |fill: bool, rounded: usize| Look {
        line: web(gg::node_color(i)),
        width: n.width,
        fill: if fill { n.fill.map(web) } else { None },
        rounded,
        font: n.font,
    };
    let b = match node_box(it) {
        Some(b) => b,
        None => {
            ensure!(matches!(n.kind, Kind::None), "node n{} is not drawn", i);
            return Ok(());
        }
    };
    let size = (b.1 .0 - b.0 .0, b.1 .1 - b.0 .1);
    ensure!(close_p(size, n.size), "node n{} has size {:?}, expected {:?}", i, size, n.size);
    let mut rects = Vec::new();
    let mut circles = Vec::new();
    let mut texts = Vec::new();
    for o in &it.ops {
        match o {
            Op::Rect { look, props, .. } => rects.push((o, look, props)),
            Op::Circle { look, props, .. } => circles.push((o, look, props)),
            Op::Text { xy, text, look } => texts.push((*xy, text, look)),
            _ => return Err(format!("node n{}: unexpected {:?}", i, o)),
        }
    }
    let one_text = |t: &str| -> Verdict {
        ensure!(texts.len() == 1 && texts[0].1 == t, "node n{}: texts {:?}, expected {:?}", i, texts, t);
        ensure!(close_p(texts[0].0, center(b)), "node n{}: the text is not centered", i);
        ensure!(texts[0].2.font == n.font, "node n{}: font size {}, expected {}", i, texts[0].2.font, n.font);
        Ok(())
    };
    match &n.kind {
        Kind::None => return Err(format!("the empty shape n{} is drawn", i)),
        Kind::Box(t) => {
            ensure!(rects.len() == 1 && circles.is_empty(), "box n{} is drawn with {:?}", i, it.ops);
            ensure!(*rects[0].1 == look(true, n.rounded), "box n{} has look {:?}", i, rects[0].1);
            ensure!(*rects[0].2 == n.props, "box n{} has properties {:?}", i, rects[0].2);
            one_text(t)?;
        }
        Kind::Circle(t) => {
            ensure!(circles.len() == 1 && rects.is_empty(), "circle n{} is drawn with {:?}", i, it.ops);
            ensure!(*circles[0].1 == look(true, n.rounded), "circle n{} has look {:?}", i, circles[0].1);
            ensure!(*circles[0].2 == n.props, "circle n{} has properties {:?}", i, circles[0].2);
            one_text(t)?;
        }
        Kind::Double(t) => {
            ensure!(circles.len() == 2 && rects.is_empty(), "double circle n{} is drawn with {:?}", i, it.ops);
            for c in &circles {
                ensure!(*c.1 == look(true, n.rounded), "circle n{} has look {:?}", i, c.1);
                let cb = op_box(c.0).unwrap_or(b);
                ensure!(close_p(center(cb), center(b)), "double circle n{} is not concentric", i);
            }
            let np = circles.iter().filter(|c| *c.2 == n.props).count();
            ensure!(np >= 1, "double circle n{} lost its properties", i);
            one_text(t)?;
        }
        Kind::Record(r) => {
            let nb = gg::count_boxes(r);
            ensure!(circles.is_empty(), "record n{} is drawn with circles", i);
            let mut outline = 0;
            let mut filled = 0;
            for x in &rects {
                if *x.1 == look(false, n.rounded) && op_box(x.0).is_some_and(|r| close_p(r.0, b.0) && close_p(r.1, b.1)) {
                    outline += 1;
                }
                if *x.1 == look(true, 0) {
                    filled += 1;
                }
            }
            ensure!(outline >= 1, "record n{} has no outline", i);
            ensure!(filled >= nb, "record n{} has {} of {} boxes", i, filled, nb);
            ensure!(rects.len() == nb + 1, "record n{} has {} rectangles, expected {}", i, rects.len(), nb + 1);
            let mut cells = Vec::new();
            gg::cells(r, &mut cells);
            ensure!(texts.len() == cells.len(), "record n{} shows {} texts of {}", i, texts.len(), cells.len());
            for c in &cells {
                let k = texts.iter().filter(|t| *t.1 == c.0).count();
                ensure!(k == 1, "record n{} shows cell {:?} {} times", i, c.0, k);
            }
            for t in &texts {
                ensure!(t.2.font == n.font, "record n{}: font size {}", i, t.2.font);
            }
            if n.rounded > 0 {
                let k = clips
                    .iter()
                    .filter(|c| matches!(c, Op::Clip{xy, size, ..} if close_p(*xy, b.0) && close_p(*size, n.size)))
                    .count();
                ensure!(k >= 1, "the rounded record n{} has no clip region", i);
            }
        }
    }
    Ok(())
}

fn check_edge(g: &GraphD, i: usize, it: &Items) -> Verdict {
    let e = &g.edges[i];
    let name = format!("edge {} (n{}->n{})", i, e.from, e.to);
    let look = Look { line: web(gg::edge_color(i)), width: e.width, fill: None, rounded: 0, font: e.font };
    let mut arrows = 0;
    let mut labels = 0;
    for o in &it.ops {
        match o {
            Op::Arrow { dashed, look: l, text, props, path, .. } => {
                arrows += 1;
                ensure!(*dashed == (e.style == 1 || e.style == 2), "{}: dashed = {}", name, dashed);
                ensure!(*l == look, "{}: look {:?}, expected {:?}", name, l, look);
                ensure!(*props == e.props, "{}: properties {:?}, expected {:?}", name, props, e.props);
                ensure!(path.len() >= 2, "{}: route of {} points", name, path.len());
                if !text.is_empty() {
                    ensure!(*text == e.text, "{}: text {:?}, expected {:?}", name, text, e.text);
                    labels += 1;
                }
            }
            Op::Text { text, look: l, .. } => {
                if text.is_empty() {
                    continue;
                }
                labels += 1;
                ensure!(*text == e.text, "{}: label {:?}, expected {:?}", name, text, e.text);
                ensure!(l.font == e.font, "{}: the label has font size {}, expected {}", name, l.font, e.font);
            }
            _ => return Err(format!("{}: unexpected {:?}", name, o)),
        }
    }
    if e.style == 3 {
        ensure!(arrows == 0, "{} is invisible, but drawn", name);
        return Ok(());
    }
    ensure!(arrows == 1, "{} is drawn {} times", name, arrows);
    let want = if e.text.is_empty() { 0 } else { 1 };
    ensure!(labels == want, "{}: the label {:?} is drawn {} times", name, e.text, labels);
    Ok(())
}

/// The graph that is left after the layout: each edge between two nodes is a
/// chain of helper elements through consecutive rows.
fn check_structure(g: &GraphD, vg: &VisualGraph, handles: &[NodeHandle]) -> Verdict {
    if g.nodes.is_empty() {
        return Ok(());
    }
    let n = vg.num_nodes();
    let mut level = vec![usize::MAX; n];
    for l in 0..vg.dag.num_levels() {
        for h in vg.dag.row(l) {
            ensure!(h.get_index() < n && level[h.get_index()] == usize::MAX, "element {} is in two rows", h.get_index());
            level[h.get_index()] = l;
        }
    }
    let node_of: std::collections::HashMap<usize, usize> = handles.iter().enumerate().map(|(i, h)| (h.get_index(), i)).collect();
    for h in vg.iter_nodes() {
        ensure!(level[h.get_index()] < usize::MAX, "element {} is in no row", h.get_index());
        for s in vg.succ(h) {
            ensure!(
                level[s.get_index()] == level[h.get_index()] + 1,
                "an edge leads from row {} to row {}",
                level[h.get_index()],
                level[s.get_index()]
            );
        }
        if !node_of.contains_key(&h.get_index()) {
            let k = (vg.preds(h).len(), vg.succ(h).len());
            ensure!(k == (1, 1) || k == (0, 0), "a helper element has {} predecessors and {} successors", k.0, k.1);
        }
    }
    let mut chains = Vec::new();
    for (i, h) in handles.iter().enumerate() {
        for s in vg.succ(*h) {
            let mut x = *s;
            // Each step leads down one row.
            while !node_of.contains_key(&x.get_index()) {
                match vg.succ(x).first() {
                    Some(y) => x = *y,
                    None => return Err(format!("an edge from n{} ends nowhere", i)),
                }
            }
            chains.push((i, node_of[&x.get_index()]));
        }
    }
    let mut want: Vec<_> = g
        .edges
        .iter()
        .zip(g.reversed())
        .filter(|(e, _)| e.from != e.to)
        .map(|(e, r)| if r { (e.to, e.from) } else { (e.from, e.to) })
        .collect();
    chains.sort_unstable();
    want.sort_unstable();
    ensure!(chains == want, "the graph connects {:?} after the layout, expected {:?}", chains, want);
    Ok(())
}

fn run(t: &mut Tape, c: &mut Case, o: &Opt) -> Verdict {
    let g = gg::gen_graph(t, o);
    let (no_opt, no_layout) = (t.chance(60), t.chance(60));
    c.input(format!("no_opt {} no_layout {}: {}", no_opt, no_layout, g.describe()));
    c.nontrivial(!g.edges.is_empty());
    c.label_if(g.has_labels(), "labelled edges");
    c.label_if(g.edges.iter().any(|e| e.from == e.to), "self edges");
    c.label_if(!g.acyclic(), "cycles");
    c.label_if(g.nodes.iter().any(|n| matches!(n.kind, Kind::Record(_))), "records");
    c.label_if(g.lr, "left to right");
    c.label_if(no_opt, "no optimizations");
    c.label_if(no_layout, "no layout");
    let (ops, vg, handles) = gg::draw_vg(&g, false, no_opt, no_layout)?;
    let d = interpret(&g, &ops);
    ensure!(d.other.is_empty(), "drawn, but of no node or edge: {:?}", d.other.first());
    for i in 0..g.nodes.len() {
        check_node(&g, i, &d.nodes[i], &d.clips)?;
    }
    for i in 0..g.edges.len() {
        check_edge(&g, i, &d.edges[i])?;
    }
    check_structure(&g, &vg, &handles)
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(5, 8))
}
fn medium(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(14, 24))
}
fn large(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(45, 50))
}
/// Long chains, wide rows, many parallel edges and the like.
fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::family(110))
}

fn main() {
    run_main(Check {
        id: "C06",
        rule: "Random graphs (five shapes, nested records, labels, loops, parallel edges, cycles; both orientations; with and without optimizations and layout) are laid out and drawn on a recording backend; every node and edge has a color of its own. Non-trivial: at least one edge.",
        assumptions: &["sizes of nodes 1 to 200 (16 to 200 for double circles), font sizes up to 60, no empty arrays in records; nothing is claimed about the properties of records and about labels of invisible edges"],
        subs: vec![
            Sub::new("small", small, 240_000, 2_000_000).guided(),
            Sub::new("medium", medium, 48_000, 500_000),
            Sub::new("large", large, 1_200, 15_000).fuel(60_000_000_000),
            Sub::new("families", families, 1_000, 8_000).fuel(60_000_000_000),
        ],
    });
}
