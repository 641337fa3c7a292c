//! C13: the canvas shows the whole drawing.
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/rec.rs"]
mod rec;
use gg::Opt;
use layout::backends::svg::SVGWriter;
use rec::Op;
use vp::*;

/// Debug markers have no color of an element.
fn is_marker(o: &Op) -> bool {
    match o {
        Op::Rect { look, .. } | Op::Line { look, .. } | Op::Circle { look, .. } | Op::Text { look, .. } | Op::Arrow { look, .. } => {
            look.line == "#000000ff"
        }
        Op::Clip { .. } => true,
    }
}

fn run(t: &mut Tape, c: &mut Case, o: &Opt) -> Verdict {
    let g = gg::gen_graph(t, o);
    let (debug, no_opt, no_layout) = (t.chance(40), t.chance(60), t.chance(60));
    c.input(format!("debug {} no_opt {} no_layout {}: {}", debug, no_opt, no_layout, g.describe()));
    c.nontrivial(!g.edges.is_empty() || g.nodes.len() > 1);
    c.label_if(g.has_labels(), "labels");
    c.label_if(g.edges.iter().any(|e| e.from == e.to), "self edges");
    c.label_if(g.lr, "left to right");
    let ops = gg::draw(&g, debug, no_opt, no_layout)?;
    let mut vg = gg::make(&g)?.0;
    let svg = no_panic("drawing as SVG", || {
        let mut w = SVGWriter::new();
        vg.do_it(debug, no_opt, no_layout, &mut w);
        w.finalize()
    })?;
    let x = xml::parse(&svg).map_err(|e| format!("not well-formed: {}", e))?;
    let vb: Vec<f64> = x
        .attr("viewBox")
        .unwrap_or("")
        .split_whitespace()
        .filter_map(xml::svg_number)
        .collect();
    ensure!(vb.len() == 4, "view box {:?}", x.attr("viewBox"));
    let (w, h) = (x.num("width")?, x.num("height")?);
    ensure!(w > 0. && h > 0. && w.is_finite() && h.is_finite(), "size {} x {}", w, h);
    ensure!(vb[2] == w && vb[3] == h, "the view box {:?} is not {} x {}", vb, w, h);
    let tol = 1e-6 * (1. + w.max(h));
    let inside = |what: &str, lo: (f64, f64), hi: (f64, f64)| -> Verdict {
        ensure!(
            lo.0 >= vb[0] - tol && lo.1 >= vb[1] - tol && hi.0 <= vb[0] + vb[2] + tol && hi.1 <= vb[1] + vb[3] + tol,
            "{} at {:?}..{:?} is not on the canvas {:?}",
            what,
            lo,
            hi,
            vb
        );
        Ok(())
    };
    for o in &ops {
        for v in rec::coords(o) {
            ensure!(v.is_finite(), "coordinate {} in {:?}", v, o);
        }
        if debug && is_marker(o) {
            continue;
        }
        match o {
            Op::Rect { .. } | Op::Circle { .. } => {
                if let Some(b) = draw::op_box(o) {
                    inside("a shape", b.0, b.1)?;
                }
            }
            Op::Text { xy, .. } => inside("the center of a text", *xy, *xy)?,
            Op::Arrow { path, .. } => {
                inside("the start of a route", path[0].0, path[0].0)?;
                for p in &path[1..] {
                    inside("a point of a route", p.1, p.1)?;
                }
            }
            _ => {}
        }
    }
    // The labels of edges, with the room that the layout estimates for them.
    let d = draw::interpret(&g, &ops);
    for e in &d.edges {
        for o in &e.ops {
            if let Op::Text { xy, text, look } = o {
                let w = text.lines().map(|l| l.chars().count()).max().unwrap_or(0).max(1) * look.font;
                let h = text.lines().count().max(1) * look.font;
                let (w, h) = (w as f64 / 2., h as f64 / 2.);
                inside(&format!("the label {:?}", text), (xy.0 - w, xy.1 - h), (xy.0 + w, xy.1 + h))?;
            }
        }
    }
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(6, 10))
}
fn medium(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(14, 24))
}
fn loops(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut o = Opt::all(3, 14);
    o.max_size = 600;
    run(t, c, &o)
}
/// Long chains, wide rows, many parallel edges and the like.
fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::family(80))
}

/// The same for programs.
fn programs(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::programs(12, 18))
}

fn main() {
    run_main(Check {
        id: "C13",
        rule: "Random graphs are drawn on the SVG backend and on a recording backend with the same options; every coordinate must be finite, and shapes, the labels of edges, the centers of texts, and the points that routes pass through must be inside of the view box of the SVG document. Non-trivial: two nodes or an edge.",
        assumptions: &["sizes of nodes 1 to 30000, font sizes up to 400; labels take the room that the layout estimates for them"],
        subs: vec![
            Sub::new("small", small, 60_000, 2_000_000).guided(),
            Sub::new("medium", medium, 10_000, 400_000),
            Sub::new("loops", loops, 40_000, 1_500_000),
            Sub::new("families", families, 1_000, 8_000).fuel(60_000_000_000),
            Sub::new("programs", programs, 10_000, 300_000),
        ],
    });
}
