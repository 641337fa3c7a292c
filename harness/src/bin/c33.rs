//! C33: routes lead from row to row, between the shapes.
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/rec.rs"]
mod rec;
use draw::*;
use gg::{GraphD, Opt};
use rec::{Op, P};
use vp::*;

/// Points of a route between its ends, along the direction of the rows.
struct Route {
    mids: Vec<P>,
    label: Option<P>,
    path: Vec<(P, P)>,
}

fn routes(g: &GraphD, d: &Drawing) -> Vec<Option<Route>> {
    let turn = |p: P| if g.lr { (p.1, p.0) } else { p };
    (0..g.edges.len())
        .map(|i| {
            let (path, _, _) = arrow(&d.edges[i])?;
            let path: Vec<(P, P)> = path.iter().map(|p| (turn(p.0), turn(p.1))).collect();
            let mids = path[1..path.len() - 1].iter().map(|p| p.1).collect();
            let label = d.edges[i].ops.iter().find_map(|o| if let Op::Text { xy, .. } = o { Some(turn(*xy)) } else { None });
            Some(Route { mids, label, path })
        })
        .collect()
}

fn run(t: &mut Tape, c: &mut Case, o: &Opt) -> Verdict {
    let g = gg::gen_graph(t, o);
    let no_opt = t.chance(60);
    c.input(format!("no_opt {}: {}", no_opt, g.describe()));
    c.label_if(g.lr, "left to right");
    c.label_if(g.has_labels(), "labels");
    let turn = |p: P| if g.lr { (p.1, p.0) } else { p };
    let mut seen = Vec::new();
    for no_layout in [true, false] {
        let d = interpret(&g, &gg::draw(&g, false, no_opt, no_layout)?);
        let bx: Vec<Option<Rect>> = boxes(&g, &d)?.into_iter().map(|b| b.map(|b| (turn(b.0), turn(b.1)))).collect();
        let rs = routes(&g, &d);
        for (i, e) in g.edges.iter().enumerate() {
            let (Some(r), Some(a), Some(b)) = (&rs[i], bx[e.from], bx[e.to]) else { continue };
            c.nontrivial(!r.mids.is_empty() && e.from != e.to);
            let name = format!("the route of edge {} (n{}->n{}, no_layout {})", i, e.from, e.to, no_layout);
            for p in &r.mids {
                for (k, x) in bx.iter().enumerate() {
                    let Some(x) = x else { continue };
                    let s = 1e-6 * (1. + p.0.abs() + p.1.abs());
                    let inside = p.0 > x.0 .0 + s && p.0 < x.1 .0 - s && p.1 > x.0 .1 + s && p.1 < x.1 .1 - s;
                    ensure!(!inside, "{} leads through n{}: it passes {:?}, and the shape is {:?}", name, k, p, x);
                }
            }
            if e.from == e.to {
                continue;
            }
            // From the upper node to the lower one.
            let flip = center(a).1 > center(b).1;
            let (up, down) = if flip { (b, a) } else { (a, b) };
            if no_layout {
                let mut ys: Vec<f64> = r.mids.iter().map(|p| p.1).collect();
                if ys.len() > 1 && ys[0] > ys[ys.len() - 1] {
                    ys.reverse();
                }
                ys.insert(0, up.1 .1);
                ys.push(down.0 .1);
                ensure!(ys.windows(2).all(|w| w[0] < w[1]), "{} leads back and forth: between {:?} and {:?} it passes {:?}", name, up, down, r.mids);
                if let Some(p) = r.label {
                    ensure!(p.1 > up.1 .1 && p.1 < down.0 .1, "the label of edge {} is at {:?}, not between the ends {:?} and {:?}", i, p, up, down);
                }
            }
            // Right below each other: straight.
            if r.path.len() == 2 && close(center(a).0, center(b).0) && e.ports.0.is_none() && e.ports.1.is_none() {
                c.label("aligned ends");
                let x = center(a).0;
                ensure!(r.path.iter().all(|p| close(p.0 .0, x) && close(p.1 .0, x)), "{} is not straight, but its ends are aligned: {:?}", name, r.path);
            }
        }
        seen.push((bx, rs));
    }
    // The layout pass moves shapes within their rows.
    let (x, y) = (&seen[0], &seen[1]);
    for (k, b) in x.0.iter().enumerate() {
        if let (Some(b), Some(b2)) = (b, y.0[k]) {
            ensure!(close(b.0 .1, b2.0 .1) && close(b.1 .1, b2.1 .1), "the layout pass moves n{} out of its row: {:?} becomes {:?}", k, b, b2);
        }
    }
    for i in 0..g.edges.len() {
        if let (Some(r), Some(r2)) = (&x.1[i], &y.1[i]) {
            ensure!(r.mids.len() == r2.mids.len(), "edge {} passes {} points, with the layout pass {}", i, r.mids.len(), r2.mids.len());
            for (p, q) in r.mids.iter().zip(&r2.mids) {
                c.label_if(!close(p.1, q.1), "moved out of the row");
                ensure!((p.1 - q.1).abs() <= 100., "the layout pass moves the point {:?} of edge {} to {:?}", p, i, q);
            }
        }
    }
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(6, 8))
}
fn medium(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(16, 24))
}
fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::family(110))
}
fn programs(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::programs(10, 14))
}

fn main() {
    run_main(Check {
        id: "C33",
        rule: "Random graphs and programs are drawn without and with the layout pass. No bend of a route may lie inside of a shape; without the pass the bends of a route must lie between its ends, in order, and so must its label; an edge without bends whose ends are aligned must be straight; the pass must keep the rows of shapes, and move bends by at most 100 units out of the row. Non-trivial: some edge that is no loop has a bend.",
        assumptions: &["curves between bends are not followed"],
        subs: vec![
            Sub::new("small", small, 60_000, 2_000_000).guided(),
            Sub::new("medium", medium, 12_000, 400_000).tape(6000),
            Sub::new("families", families, 600, 20_000).fuel(60_000_000_000),
            Sub::new("programs", programs, 16_000, 1_000_000),
        ],
    });
}
