//! C09: the hierarchy follows the edges.
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/rec.rs"]
mod rec;
use draw::*;
use gg::{GraphD, Opt};
use vp::*;

/// Longest path from a source; an edge with a label spans two levels.
fn ranks(g: &GraphD, rev: &[bool]) -> Vec<usize> {
    let n = g.nodes.len();
    let mut r = vec![0usize; n];
    // Relaxation; the graph is acyclic.
    for _ in 0..n + 1 {
        for (i, e) in g.edges.iter().enumerate() {
            if e.from == e.to {
                continue;
            }
            let (a, b) = if rev[i] { (e.to, e.from) } else { (e.from, e.to) };
            let w = if e.text.is_empty() { 1 } else { 2 };
            r[b] = r[b].max(r[a] + w);
        }
    }
    r
}

fn run(t: &mut Tape, c: &mut Case, o: &Opt) -> Verdict {
    let g = gg::gen_graph(t, o);
    let (no_opt, no_layout) = (t.chance(90), t.chance(60));
    c.input(format!("no_opt {} no_layout {}: {}", no_opt, no_layout, g.describe()));
    let ops = gg::draw(&g, false, no_opt, no_layout)?;
    let d = interpret(&g, &ops);
    let bs = boxes(&g, &d)?;
    // The position along the direction of the graph.
    let lo = |i: usize| bs[i].map(|b| if g.lr { b.0 .0 } else { b.0 .1 }).unwrap_or(0.);
    let hi = |i: usize| bs[i].map(|b| if g.lr { b.1 .0 } else { b.1 .1 }).unwrap_or(0.);
    let mid = |i: usize| (lo(i) + hi(i)) / 2.;
    let rev = g.reversed();
    c.label_if(rev.iter().any(|x| *x), "cyclic");
    c.label_if(g.lr, "left to right");
    c.label_if(no_opt, "no optimizations");
    let mut long = false;
    for (i, e) in g.edges.iter().enumerate() {
        if e.from == e.to {
            continue;
        }
        c.nontrivial(true);
        let (a, b) = if rev[i] { (e.to, e.from) } else { (e.from, e.to) };
        ensure!(
            hi(a) < lo(b),
            "edge {}: n{}->n{}{}, but n{} spans {}..{} and n{} spans {}..{}",
            i,
            e.from,
            e.to,
            if rev[i] { " (closes a cycle)" } else { "" },
            a,
            lo(a),
            hi(a),
            b,
            lo(b),
            hi(b)
        );
    }
    // Nodes are arranged in rows that share a center line.
    let n = g.nodes.len();
    for i in 0..n {
        for j in 0..i {
            let same = close(mid(i), mid(j));
            let apart = hi(i) < lo(j) || hi(j) < lo(i);
            ensure!(same || apart, "n{} ({}..{}) and n{} ({}..{}) are neither in one row nor in separate rows", j, lo(j), hi(j), i, lo(i), hi(i));
        }
    }
    // The label of an edge is placed in a row in between (the layout pass may
    // then nudge it out of the way of other edges).
    for (k, e) in d.edges.iter().enumerate() {
        let (from, to) = (g.edges[k].from, g.edges[k].to);
        let (a, b) = if rev[k] { (to, from) } else { (from, to) };
        for o in &e.ops {
            let rec::Op::Text { xy, text, look } = o else { continue };
            if !no_layout || from == to || bs[a].is_none() || bs[b].is_none() {
                continue;
            }
            let lines = text.lines().count().max(1);
            let cols = text.lines().map(|l| l.chars().count()).max().unwrap_or(0).max(1);
            let half = (if g.lr { cols } else { lines } * look.font) as f64 / 2.;
            let at = if g.lr { xy.0 } else { xy.1 };
            c.label("labels of edges");
            ensure!(
                hi(a) < at - half && at + half < lo(b),
                "the label of edge {} ({}..{}) is not between n{} (ends at {}) and n{} (starts at {})",
                k,
                at - half,
                at + half,
                a,
                hi(a),
                b,
                lo(b)
            );
        }
    }
    // Loops stay beside their node.
    for (k, e) in d.edges.iter().enumerate() {
        let v = g.edges[k].from;
        let (Some((path, _, _)), Some(b)) = (arrow(e), bs[v]) else { continue };
        if v != g.edges[k].to || path.len() < 3 {
            continue;
        }
        let at = |p: rec::P| if g.lr { p.1 } else { p.0 };
        let (far, home) = (at(path[1].1), at(center(b)));
        c.label("loops");
        for (j, o) in bs.iter().enumerate() {
            let Some(o) = o else { continue };
            let x = at(center(*o));
            ensure!(
                j == v || !close(mid(j), mid(v)) || x <= home.min(far) || x >= home.max(far),
                "the loop {} of n{} (at {}) goes to {}, past n{} (at {}) in the same row",
                k,
                v,
                home,
                far,
                j,
                x
            );
        }
    }
    if no_opt {
        let r = ranks(&g, &rev);
        for i in 0..n {
            for j in 0..i {
                let ok = match r[i].cmp(&r[j]) {
                    std::cmp::Ordering::Equal => close(mid(i), mid(j)),
                    std::cmp::Ordering::Less => hi(i) < lo(j),
                    std::cmp::Ordering::Greater => hi(j) < lo(i),
                };
                long |= r[i] > r[j] + 1;
                ensure!(
                    ok,
                    "n{} has rank {} at {}..{}, n{} has rank {} at {}..{}",
                    j,
                    r[j],
                    lo(j),
                    hi(j),
                    i,
                    r[i],
                    lo(i),
                    hi(i)
                );
            }
        }
    }
    c.label_if(long, "three ranks");
    Ok(())
}

fn dag(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut o = Opt::all(10, 20);
    o.cycles = false;
    run(t, c, &o)
}
fn cyclic(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(8, 14))
}
fn large(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(45, 60))
}
/// Long chains, wide rows, many parallel edges and the like.
fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::family(110))
}

/// The same for programs.
fn programs(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::programs(12, 18))
}

fn main() {
    run_main(Check {
        id: "C09",
        rule: "Random graphs (acyclic ones, and ones with cycles) are drawn with all options in both orientations; an edge that closes no cycle with the edges declared before it must lead strictly down (right), one that does strictly up (left); nodes are arranged in rows that share a center line; loops go past no other node of their row; without optimizations the rows are the longest-path ranks of an independent model. Non-trivial: at least one edge between two nodes.",
        assumptions: &["sizes of nodes 1 to 30000, font sizes up to 400"],
        subs: vec![
            Sub::new("dag", dag, 40_000, 1_500_000),
            Sub::new("cyclic", cyclic, 40_000, 1_500_000).guided(),
            Sub::new("large", large, 300, 15_000).fuel(60_000_000_000),
            Sub::new("families", families, 1_000, 8_000).fuel(60_000_000_000),
            Sub::new("programs", programs, 20_000, 400_000),
        ],
    });
}
