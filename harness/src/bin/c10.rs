//! C10: left-to-right layout is the transposed top-to-bottom layout.
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/rec.rs"]
mod rec;
use draw::*;
use gg::{GraphD, Opt};
use rec::P;
use vp::*;

fn tr(p: P) -> P {
    (p.1, p.0)
}

fn transposed(g: &GraphD) -> GraphD {
    let mut h = g.clone();
    h.lr = !g.lr;
    for n in h.nodes.iter_mut() {
        n.size = tr(n.size);
    }
    h
}

fn run(t: &mut Tape, c: &mut Case, o: &Opt) -> Verdict {
    let mut g = gg::gen_graph(t, o);
    g.lr = false;
    let (no_opt, no_layout) = (t.chance(60), t.chance(60));
    c.input(format!("no_opt {} no_layout {}: {}", no_opt, no_layout, g.describe()));
    c.nontrivial(g.edges.iter().any(|e| e.from != e.to));
    c.label_if(g.edges.iter().any(|e| e.from == e.to), "self edges");
    c.label_if(!g.acyclic(), "cycles");
    let h = transposed(&g);
    let a = interpret(&g, &gg::draw(&g, false, no_opt, no_layout)?);
    let b = interpret(&h, &gg::draw(&h, false, no_opt, no_layout)?);
    let ba = boxes(&g, &a)?;
    let bb = boxes(&h, &b)?;
    for i in 0..ba.len() {
        if let (Some(x), Some(y)) = (ba[i], bb[i]) {
            ensure!(
                close_p(x.0, tr(y.0)) && close_p(x.1, tr(y.1)),
                "n{} is at {:?} top to bottom and at {:?} left to right",
                i,
                x,
                y
            );
        }
    }
    if o.round_only {
        // Round shapes attach edges alike in both directions.
        for i in 0..g.edges.len() {
            if g.edges[i].from == g.edges[i].to {
                continue;
            }
            match (arrow(&a.edges[i]), arrow(&b.edges[i])) {
                (Some(x), Some(y)) => {
                    ensure!(x.2 == y.2, "edge {}: heads {:?} and {:?}", i, x.2, y.2);
                    ensure!(x.0.len() == y.0.len(), "edge {}: routes of {} and {} points", i, x.0.len(), y.0.len());
                    for (p, q) in x.0.iter().zip(y.0) {
                        ensure!(
                            close_p(p.0, tr(q.0)) && close_p(p.1, tr(q.1)),
                            "edge {}: route {:?} top to bottom, {:?} left to right",
                            i,
                            x.0,
                            y.0
                        );
                    }
                }
                (None, None) => {}
                _ => return Err(format!("edge {} is drawn in one direction only", i)),
            }
        }
    }
    Ok(())
}

fn all(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut o = Opt::all(10, 18);
    o.labels = false;
    run(t, c, &o)
}
fn round(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut o = Opt::all(8, 14);
    o.labels = false;
    o.round_only = true;
    run(t, c, &o)
}
/// Long chains, wide rows, many parallel edges and the like.
fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut o = Opt::family(60);
    o.labels = false;
    o.round_only = t.chance(128);
    run(t, c, &o)
}

fn main() {
    run_main(Check {
        id: "C10",
        rule: "A random graph without edge labels is drawn top to bottom, and, with the sizes of its nodes transposed, left to right; the boxes of all the nodes must be the transposed ones, and for round shapes the routes too. Non-trivial: at least one edge between two nodes.",
        assumptions: &["sizes of nodes 1 to 30000; routes of self edges and of edges at boxes are not compared, because boxes prefer their left and right halves"],
        subs: vec![
            Sub::new("all", all, 40_000, 1_500_000).guided(),
            Sub::new("round", round, 40_000, 1_500_000),
            Sub::new("families", families, 1_000, 8_000).fuel(60_000_000_000),
        ],
    });
}
