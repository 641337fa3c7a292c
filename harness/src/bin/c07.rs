//! C07: edges attach to the shapes (and cells) that they connect.
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/rec.rs"]
mod rec;
use draw::*;
use gg::{GraphD, Kind, Opt};
use rec::{Op, P};
use vp::*;

fn check_edge(g: &GraphD, d: &Drawing, i: usize) -> Verdict {
    let e = &g.edges[i];
    let Some((path, _, head)) = arrow(&d.edges[i]) else {
        ensure!(e.style == 3, "edge {} is not drawn", i);
        return Ok(());
    };
    let name = format!("edge {} (n{}->n{})", i, e.from, e.to);
    let first = path[0].0;
    let last = path[path.len() - 1].1;
    let tol = 1e-6 * (1. + first.0.abs() + first.1.abs() + last.0.abs() + last.1.abs());
    let at = |n: usize, port: &Option<String>, p: P| attached(g, d, n, port, p, tol);
    let fwd = at(e.from, &e.ports.0, first) && at(e.to, &e.ports.1, last);
    let bwd = at(e.to, &e.ports.1, first) && at(e.from, &e.ports.0, last);
    ensure!(
        fwd || bwd,
        "{} runs from {:?} to {:?}, which are not on the borders of its ends (heads {:?}, boxes {:?} and {:?})",
        name,
        first,
        last,
        head,
        node_box(&d.nodes[e.from]),
        node_box(&d.nodes[e.to])
    );
    let ok = (fwd && head == e.heads) || (bwd && head == (e.heads.1, e.heads.0));
    ensure!(ok, "{}: arrow heads {:?}, declared {:?} (drawn {})", name, head, e.heads, if fwd { "forwards" } else { "backwards" });
    // The route passes its label.
    for o in &d.edges[i].ops {
        if let Op::Text { xy, text, look } = o {
            let w = text.lines().map(|l| l.chars().count()).max().unwrap_or(0).max(1) * look.font;
            let h = text.lines().count().max(1) * look.font;
            let (w, h) = (w as f64 / 2. + 5., h as f64 / 2. + 5.);
            let near = path.iter().any(|p| (p.1 .0 - xy.0).abs() <= w + tol && (p.1 .1 - xy.1).abs() <= h + tol);
            ensure!(near, "{}: the label is at {:?}, the route {:?} does not pass it", name, xy, path);
            // It turns beside the text, not in it.
            let through = path[1..path.len() - 1].iter().find(|p| (p.1 .0 - xy.0).abs() < w - 5. - tol && (p.1 .1 - xy.1).abs() < h - 5. - tol);
            ensure!(through.is_none(), "{}: the label {:?} is at {:?}, and the route bends within it, at {:?}", name, text, xy, through);
        }
    }
    Ok(())
}

fn run(t: &mut Tape, c: &mut Case, o: &Opt) -> Verdict {
    let g = gg::gen_graph(t, o);
    let (no_opt, no_layout) = (t.chance(60), t.chance(60));
    c.input(format!("no_opt {} no_layout {}: {}", no_opt, no_layout, g.describe()));
    c.nontrivial(g.edges.iter().any(|e| e.style != 3));
    c.label_if(g.reversed().iter().any(|x| *x), "reversed edges");
    c.label_if(g.edges.iter().any(|e| e.ports.0.is_some() || e.ports.1.is_some()), "ports");
    c.label_if(g.edges.iter().any(|e| e.from == e.to), "self edges");
    c.label_if(g.has_labels(), "labels");
    c.label_if(g.nodes.iter().any(|n| matches!(n.kind, Kind::Circle(_) | Kind::Double(_))), "round shapes");
    c.label_if(g.lr, "left to right");
    let ops = gg::draw(&g, false, no_opt, no_layout)?;
    let d = interpret(&g, &ops);
    for i in 0..g.edges.len() {
        check_edge(&g, &d, i)?;
    }
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(5, 8))
}
fn medium(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(14, 24))
}
fn records(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut o = Opt::all(6, 12);
    o.max_size = 800;
    run(t, c, &o)
}
/// Long chains, wide rows, many parallel edges and the like.
fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::family(110))
}

/// The same for programs.
fn programs(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::programs(12, 18))
}

fn main() {
    run_main(Check {
        id: "C07",
        rule: "Random graphs (all shapes, ports of nested records, labels, loops, parallel edges, cycles; both orientations; all options) are drawn on a recording backend; for every edge the ends of its route must be on the border of the shapes (or port cells) that it connects, with the arrow heads at the declared ends. Non-trivial: at least one visible edge.",
        assumptions: &["sizes of nodes 1 to 30000, font sizes up to 400; the names of ports are unique in their record"],
        subs: vec![
            Sub::new("small", small, 320_000, 2_500_000).guided(),
            Sub::new("medium", medium, 60_000, 600_000),
            Sub::new("records", records, 160_000, 1_500_000),
            Sub::new("families", families, 1_000, 8_000).fuel(60_000_000_000),
            Sub::new("programs", programs, 30_000, 400_000),
        ],
    });
}
