//! C23: options change what they are for, and nothing else.
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/rec.rs"]
mod rec;
use draw::*;
use gg::{GraphD, Opt};
use rec::Op;
use vp::*;

fn remove(all: &mut Vec<Op>, o: &Op) -> bool {
    match all.iter().position(|x| x == o) {
        Some(i) => {
            all.swap_remove(i);
            true
        }
        None => false,
    }
}

/// What is drawn, without where.
fn content(ops: &[Op]) -> Vec<String> {
    let mut v: Vec<String> = ops
        .iter()
        .map(|o| match o {
            Op::Rect { size, look, props, clip, .. } => {
                format!("rect {:.4} {:.4} {:?} {:?} {}", size.0, size.1, look, props, clip.is_some())
            }
            Op::Circle { size, look, props, .. } => format!("circle {:.4} {:.4} {:?} {:?}", size.0, size.1, look, props),
            Op::Text { text, look, .. } => format!("text {:?} {:?}", text, look),
            Op::Arrow { dashed, head, look, props, text, .. } => {
                let mut h = [head.0, head.1];
                h.sort();
                format!("arrow {} {:?} {:?} {:?} {:?}", dashed, h, look, props, text)
            }
            Op::Clip { size, rounded, .. } => format!("clip {:.4} {:.4} {}", size.0, size.1, rounded),
            Op::Line { look, props, .. } => format!("line {:?} {:?}", look, props),
        })
        .collect();
    v.sort();
    v
}

fn debug_only_adds(g: &GraphD, no_opt: bool, no_layout: bool) -> Verdict {
    let plain = gg::draw(g, false, no_opt, no_layout)?;
    let mut dbg = gg::draw(g, true, no_opt, no_layout)?;
    // In the same order.
    let mut at = 0;
    for o in &plain {
        match dbg[at..].iter().position(|x| x == o) {
            Some(k) => at += k + 1,
            None => return Err(format!("debug mode (no_opt {} no_layout {}) loses, moves or draws in another order: {:?}", no_opt, no_layout, o)),
        }
    }
    for o in &plain {
        ensure!(remove(&mut dbg, o), "debug mode (no_opt {} no_layout {}) loses or moves {:?}", no_opt, no_layout, o);
    }
    // What remains belongs to no node or edge.
    let d = interpret(g, &dbg);
    for x in d.nodes.iter().chain(d.edges.iter()) {
        ensure!(x.ops.is_empty(), "debug mode adds {:?} in the color of an element", x.ops[0]);
    }
    Ok(())
}

fn run(t: &mut Tape, c: &mut Case, o: &Opt) -> Verdict {
    let g = gg::gen_graph(t, o);
    c.input(g.describe());
    c.nontrivial(!g.edges.is_empty());
    let (a, b) = (t.chance(128), t.chance(128));
    debug_only_adds(&g, a, b)?;
    let base = content(&gg::draw(&g, false, false, false)?);
    for k in 1..4 {
        let other = content(&gg::draw(&g, false, k & 1 > 0, k & 2 > 0)?);
        if base != other {
            let x = base.iter().find(|x| !other.contains(x));
            let y = other.iter().find(|x| !base.contains(x));
            return Err(format!("no_opt {} no_layout {} changes what is drawn: {:?} becomes {:?}", k & 1 > 0, k & 2 > 0, x, y));
        }
    }
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(6, 10))
}
fn medium(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(12, 20))
}
/// Long chains, wide rows, many parallel edges and the like.
fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::family(80))
}

/// The same for programs.
fn programs(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::programs(12, 18))
}

fn main() {
    run_main(Check {
        id: "C23",
        rule: "A random graph is drawn with and without debug markers, and with every combination of the two other options; debug mode may only add operations, and the other options may only move things. Non-trivial: at least one edge.",
        assumptions: &["sizes of nodes 1 to 30000, font sizes up to 400; sizes of cells are compared to 4 decimals"],
        subs: vec![
            Sub::new("small", small, 30_000, 1_000_000).guided(),
            Sub::new("medium", medium, 5_000, 200_000),
            Sub::new("families", families, 400, 4_000).fuel(60_000_000_000),
            Sub::new("programs", programs, 6_000, 200_000),
        ],
    });
}
