//! C08: shapes do not overlap.
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/rec.rs"]
mod rec;
use draw::*;
use gg::Opt;
use rec::Op;
use vp::*;

const GAP: f64 = 60.;

fn run(t: &mut Tape, c: &mut Case, o: &Opt) -> Verdict {
    let g = gg::gen_graph(t, o);
    let (no_opt, no_layout) = (t.chance(60), t.chance(60));
    c.input(format!("no_opt {} no_layout {}: {}", no_opt, no_layout, g.describe()));
    c.nontrivial(g.nodes.len() > 1);
    c.label_if(g.has_labels(), "labels");
    c.label_if(g.edges.iter().any(|e| e.from == e.to), "self edges");
    c.label_if(g.lr, "left to right");
    c.label_if(no_layout, "no layout");
    let ops = gg::draw(&g, false, no_opt, no_layout)?;
    let d = interpret(&g, &ops);
    let bs = boxes(&g, &d)?;
    let mut rows = 0;
    for i in 0..bs.len() {
        for j in 0..i {
            let (Some(a), Some(b)) = (bs[i], bs[j]) else { continue };
            let dx = (a.0 .0 - b.1 .0).max(b.0 .0 - a.1 .0);
            let dy = (a.0 .1 - b.1 .1).max(b.0 .1 - a.1 .1);
            let tol = 1e-6 * (1. + a.1 .0.max(a.1 .1).max(b.1 .0).max(b.1 .1));
            if dy < 0. {
                rows += 1;
            }
            ensure!(
                dx.max(dy) >= GAP - tol,
                "n{} {:?} and n{} {:?} are {:.3} apart, less than {}",
                j,
                b,
                i,
                a,
                dx.max(dy),
                GAP
            );
        }
    }
    c.label_if(rows > 0, "several nodes in a row");
    {
        // Labels don't overlap either.
        let mut all: Vec<(String, Rect)> = Vec::new();
        for (i, b) in bs.iter().enumerate() {
            if let Some(b) = b {
                all.push((format!("n{}", i), *b));
            }
        }
        for (i, e) in d.edges.iter().enumerate() {
            for o in &e.ops {
                if let Op::Text { xy, text, look } = o {
                    let w = text.lines().map(|l| l.chars().count()).max().unwrap_or(0).max(1) * look.font;
                    let h = text.lines().count().max(1) * look.font;
                    let (w, h) = (w as f64 / 2., h as f64 / 2.);
                    all.push((format!("the label of edge {}", i), ((xy.0 - w, xy.1 - h), (xy.0 + w, xy.1 + h))));
                }
            }
        }
        for i in 0..all.len() {
            for j in 0..i {
                let (a, b) = (all[i].1, all[j].1);
                let dx = (a.0 .0 - b.1 .0).max(b.0 .0 - a.1 .0);
                let dy = (a.0 .1 - b.1 .1).max(b.0 .1 - a.1 .1);
                ensure!(dx.max(dy) > 0., "{} {:?} and {} {:?} overlap", all[j].0, b, all[i].0, a);
            }
        }
    }
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(6, 10))
}
fn medium(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(16, 26))
}
fn large(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(45, 60))
}
/// Many labels and dummies compete for the rows.
fn crowded(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut o = Opt::all(9, 30);
    o.max_size = 600;
    run(t, c, &o)
}
/// Long chains, wide rows, many parallel edges and the like.
fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::family(110))
}

/// The same for programs.
fn programs(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::programs(12, 18))
}

fn main() {
    run_main(Check {
        id: "C08",
        rule: "Random graphs (all shapes and sizes, labels, loops, parallel edges, cycles, isolated nodes; both orientations; all options) are drawn on a recording backend; the boxes of any two nodes must be at least 60 apart on one axis, and no label may overlap a node or another label. Non-trivial: at least two nodes.",
        assumptions: &["sizes of nodes 1 to 30000, font sizes up to 400; labels take the room that the layout estimates for them"],
        subs: vec![
            Sub::new("small", small, 80_000, 2_500_000).guided(),
            Sub::new("medium", medium, 15_000, 600_000),
            Sub::new("crowded", crowded, 15_000, 600_000),
            Sub::new("large", large, 300, 15_000).fuel(60_000_000_000),
            Sub::new("families", families, 1_000, 8_000).fuel(60_000_000_000),
            Sub::new("programs", programs, 10_000, 300_000),
        ],
    });
}
