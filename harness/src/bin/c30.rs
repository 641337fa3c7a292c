//! C30: no space is wasted, and chains are straight.
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/rec.rs"]
mod rec;
use draw::*;
use gg::{GraphD, Kind, Opt};
use layout::backends::svg::SVGWriter;
use rec::{Op, P};
use vp::*;

/// The room for a text: (along, across) the direction of the graph.
fn room(text: &str, font: usize, lr: bool) -> (f64, f64) {
    let lines = (text.lines().count().max(1) * font) as f64;
    let cols = (text.lines().map(|l| l.chars().count()).max().unwrap_or(0).max(1) * font) as f64;
    if lr {
        (cols, lines)
    } else {
        (lines, cols)
    }
}

fn run(t: &mut Tape, c: &mut Case, o: &Opt) -> Verdict {
    let g = gg::gen_graph(t, o);
    let (no_opt, no_layout) = (t.chance(90), t.chance(90));
    judge(c, &g, no_opt, no_layout)
}

fn judge(c: &mut Case, g: &GraphD, no_opt: bool, no_layout: bool) -> Verdict {
    c.input(format!("no_opt {} no_layout {}: {}", no_opt, no_layout, g.describe()));
    let ops = gg::draw(g, false, no_opt, no_layout)?;
    let d = interpret(g, &ops);
    if g.nodes.iter().any(|n| matches!(n.kind, Kind::None)) {
        c.label("nodes that are not drawn");
        return Ok(());
    }
    c.nontrivial(g.nodes.len() > 1);
    c.label_if(g.lr, "left to right");
    c.label_if(g.has_labels(), "labels");
    c.label_if(no_layout, "no layout");
    // From here on the graph grows down.
    let turn = |p: P| if g.lr { (p.1, p.0) } else { p };
    let bs: Vec<Rect> = boxes(g, &d)?.into_iter().flatten().map(|b| (turn(b.0), turn(b.1))).collect();

    // Rows follow each other: only labels come in between.
    let labels: f64 = g.edges.iter().filter(|e| !e.text.is_empty()).map(|e| room(&e.text, e.font, g.lr).0 + 20.).sum();
    let mut rows: Vec<Vec<Rect>> = Vec::new();
    let mut v = bs.clone();
    v.sort_by(|a, b| center(*a).1.total_cmp(&center(*b).1));
    for b in v {
        match rows.last_mut() {
            Some(r) if close(center(r[0]).1, center(b).1) => r.push(b),
            _ => rows.push(vec![b]),
        }
    }
    let top = |r: &Vec<Rect>| r.iter().map(|b| b.0 .1).fold(f64::INFINITY, f64::min);
    let end = |r: &Vec<Rect>| r.iter().map(|b| b.1 .1).fold(f64::NEG_INFINITY, f64::max);
    for w in rows.windows(2) {
        let gap = top(&w[1]) - end(&w[0]);
        ensure!(gap <= 60. + labels + 1e-6 * (1. + gap), "a row ends at {} and the next one starts at {}, labels need {}", end(&w[0]), top(&w[1]), labels);
    }
    c.label_if(rows.len() > 1, "several rows");
    c.label_if(rows.iter().any(|r| r.len() > 1), "nodes side by side");

    // What is needed side by side.
    let n_rows = rows.len() + g.edges.iter().filter(|e| !e.text.is_empty()).count();
    let one = |e: &gg::EdgeD| if e.text.is_empty() { 11.1 } else { room(&e.text, e.font, g.lr).1 + 20.1 };
    let nodes: f64 = bs.iter().map(|b| b.1 .0 - b.0 .0 + 60.1).sum();
    let edges: f64 = g.edges.iter().map(|e| one(e) + 11.1 * n_rows as f64).sum();
    let left = bs.iter().map(|b| b.0 .0).fold(f64::INFINITY, f64::min);
    let right = bs.iter().map(|b| b.1 .0).fold(f64::NEG_INFINITY, f64::max);
    ensure!(right <= nodes + edges, "nodes are drawn up to {}, side by side all need {}", right, nodes + edges);
    // Bends and labels may lie left of all nodes.
    let mut far_left = left - 30.;
    for o in d.edges.iter().flat_map(|e| &e.ops) {
        match o {
            Op::Arrow { path, .. } => path[1..path.len() - 1].iter().for_each(|p| far_left = far_left.min(turn(p.1).0 - 5.)),
            Op::Text { xy, text, look } => far_left = far_left.min(turn(*xy).0 - room(text, look.font, g.lr).1 / 2. - 5.),
            _ => {}
        }
    }
    let unseen = g.edges.iter().any(|e| e.style == 3);
    ensure!(unseen || far_left <= 10. + 1e-6 * (1. + right), "the drawing starts at {}", far_left);
    let first = rows.first().map(top).unwrap_or(0.);
    ensure!(first <= 30.1 + labels, "the first row starts at {}, labels need {}", first, labels);
    if no_layout {
        let edges: f64 = g.edges.iter().map(one).sum();
        for r in &mut rows {
            r.sort_by(|a, b| a.0 .0.total_cmp(&b.0 .0));
            ensure!(r[0].0 .0 <= 30.1 + edges, "a row starts at {}, edges need {}", r[0].0 .0, edges);
            for w in r.windows(2) {
                let gap = w[1].0 .0 - w[0].1 .0;
                ensure!(gap <= 60.1 + edges, "a node ends at {} and the next of its row starts at {}, edges need {}", w[0].1 .0, w[1].0 .0, edges);
            }
        }
    }

    // The canvas ends where the drawing ends.
    let mut far = (0f64, 0f64);
    let mut reach = |x: f64, y: f64| far = (far.0.max(x), far.1.max(y));
    for o in &ops {
        match o {
            Op::Rect { xy, size, .. } | Op::Circle { xy, size, .. } => reach(xy.0 + size.0, xy.1 + size.1),
            Op::Line { .. } | Op::Clip { .. } => {}
            Op::Text { xy, text, look } => {
                let (a, b) = room(text, look.font, true);
                reach(xy.0 + a / 2., xy.1 + b / 2.)
            }
            Op::Arrow { path, .. } => path.iter().for_each(|p| {
                reach(p.0 .0, p.0 .1);
                reach(p.1 .0, p.1 .1)
            }),
        }
    }
    let mut vg = gg::make(g)?.0;
    let svg = no_panic("drawing as SVG", || {
        let mut w = SVGWriter::new();
        vg.do_it(false, no_opt, no_layout, &mut w);
        w.finalize()
    })?;
    let x = xml::parse(&svg).map_err(|e| format!("not well-formed: {}", e))?;
    let (w, h) = (x.num("width")?, x.num("height")?);
    let slack = 20. + 1e-6 * (w + h);
    ensure!(w <= far.0 + slack && h <= far.1 + slack, "the canvas is {} x {}, the drawing ends at {:?}", w, h, far);
    Ok(())
}

/// A chain is a straight line.
fn chain(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = t.range(2, 12);
    let mut o = Opt::all(2, 2);
    o.labels = t.chance(128);
    o.self_loops = false;
    o.records = t.chance(128);
    let mut g = gg::gen_graph(t, &o);
    g.nodes.clear();
    g.edges.clear();
    let up = t.chance(60);
    for i in 0..n {
        let mut nd = gg::gen_node(t, &o);
        if matches!(nd.kind, Kind::None) {
            nd.kind = Kind::Box("b".into());
        }
        g.nodes.push(nd);
        if i > 0 {
            let mut h = gg::gen_graph(t, &o);
            while h.edges.is_empty() {
                if t.exhausted() {
                    return Ok(());
                }
                h = gg::gen_graph(t, &o);
            }
            let mut e = h.edges.remove(0);
            (e.from, e.to) = if up { (i, i - 1) } else { (i - 1, i) };
            e.ports = (None, None);
            g.edges.push(e);
        }
    }
    // Nodes without edges don't matter.
    let loose = if t.chance(150) { t.range(1, 3) } else { 0 };
    for _ in 0..loose {
        let mut nd = gg::gen_node(t, &o);
        if matches!(nd.kind, Kind::None) {
            nd.kind = Kind::Box("b".into());
        }
        let i = t.below(g.nodes.len() + 1);
        g.nodes.insert(i, nd);
        for e in &mut g.edges {
            for end in [&mut e.from, &mut e.to] {
                if *end >= i {
                    *end += 1;
                }
            }
        }
    }
    c.label_if(loose > 0, "nodes without edges");
    // Neither do edges from a node to itself, nor edges given again.
    let mut more: Vec<gg::EdgeD> = Vec::new();
    for e in &g.edges {
        if t.chance(30) {
            let mut e = e.clone();
            e.to = e.from;
            more.push(e);
        }
        if t.chance(30) && e.text.is_empty() {
            more.push(e.clone());
        }
    }
    c.label_if(!more.is_empty(), "edges to the node itself, or again");
    g.edges.extend(more);
    // The order in which edges are added does not matter.
    if t.chance(100) {
        g.edges.reverse();
    }
    let no_opt = t.chance(90);
    c.input(format!("no_opt {}: {}", no_opt, g.describe()));
    c.nontrivial(true);
    c.label_if(n > 6, "more than six nodes");
    c.label_if(g.lr, "left to right");
    c.label_if(g.has_labels(), "labels");
    let ops = gg::draw(&g, false, no_opt, false)?;
    let d = interpret(&g, &ops);
    let bs = boxes(&g, &d)?;
    let at = |i: usize| bs[i].map(|b| if g.lr { center(b).1 } else { center(b).0 }).unwrap_or(0.);
    for e in &g.edges {
        ensure!(close(at(e.from), at(e.to)), "n{} is at {} and n{}, next to it in a chain, at {}", e.from, at(e.from), e.to, at(e.to));
    }
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(5, 7))
}
fn bare(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut o = Opt::all(8, 10);
    o.labels = false;
    run(t, c, &o)
}
fn medium(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(14, 24))
}
fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::family(40))
}
fn programs(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::programs(8, 10))
}

fn main() {
    run_main(Check {
        id: "C30",
        rule: "Random graphs and programs are drawn with random options: the gap between consecutive rows of nodes is at most the spacing of 60 and the room of the labels, the first row and the leftmost node start at the margin (apart from the room of edges), all nodes lie within what all elements need side by side, without the layout pass also each node next to its neighbor, and the canvas ends with the drawing. The nodes of a chain lie on a straight line. Non-trivial: at least two nodes.",
        assumptions: &["sizes of nodes 1 to 30000, font sizes up to 400; the room of a text is the layout's estimate: one font size per column and per line"],
        subs: vec![
            Sub::new("small", small, 150_000, 4_000_000).guided(),
            Sub::new("bare", bare, 100_000, 3_000_000),
            Sub::new("medium", medium, 20_000, 500_000).tape(6000),
            Sub::new("families", families, 800, 20_000).fuel(60_000_000_000),
            Sub::new("programs", programs, 30_000, 1_000_000),
            Sub::new("chain", chain, 60_000, 2_000_000).tape(2500),
        ],
    });
}
