//! C17: the optimizer of edge crossings.
use layout::adt::dag::{NodeHandle, DAG};
use layout::topo::optimizer::EdgeCrossOptimizer;
use vp::*;

fn h(i: usize) -> NodeHandle {
    NodeHandle::new(i)
}

/// Crossings of edges between adjacent rows (parallel edges count once).
fn crossings(rows: &[Vec<usize>], edges: &[(usize, usize)]) -> usize {
    let mut sum = 0;
    for k in 1..rows.len() {
        let mut e: Vec<(usize, usize)> = Vec::new();
        for (a, b) in edges {
            let (x, y) = (rows[k - 1].iter().position(|v| v == a), rows[k].iter().position(|v| v == b));
            if let (Some(x), Some(y)) = (x, y) {
                if !e.contains(&(x, y)) {
                    e.push((x, y));
                }
            }
        }
        for i in 0..e.len() {
            for j in 0..i {
                if (e[i].0 < e[j].0 && e[i].1 > e[j].1) || (e[i].0 > e[j].0 && e[i].1 < e[j].1) {
                    sum += 1;
                }
            }
        }
    }
    sum
}

fn rows(d: &DAG) -> Vec<Vec<usize>> {
    d.ranks().iter().map(|r| r.iter().map(|x| x.get_index()).collect()).collect()
}

fn check(d: &mut DAG, edges: &[(usize, usize)], c: &mut Case, zero: bool) -> Verdict {
    let before = rows(d);
    let x0 = crossings(&before, edges);
    no_panic("the crossing optimizer", || EdgeCrossOptimizer::new(d).optimize())?;
    let after = rows(d);
    let x1 = crossings(&after, edges);
    c.label_if(x1 < x0, "fewer crossings");
    c.label_if(x0 > 0, "crossings at first");
    ensure!(x1 <= x0, "{} crossings became {}: {:?} became {:?}", x0, x1, before, after);
    ensure!(after.len() == before.len(), "{} rows became {}", before.len(), after.len());
    for k in 0..after.len() {
        let (mut a, mut b) = (before[k].clone(), after[k].clone());
        a.sort();
        b.sort();
        ensure!(a == b, "row {} held {:?}, now {:?}", k, a, b);
    }
    if zero {
        ensure!(x1 == 0, "{} crossings remain of {} in a graph that can be drawn without by swapping neighbors", x1, x0);
    }
    Ok(())
}

fn dag(t: &mut Tape, c: &mut Case, max_n: usize, max_e: usize) -> Verdict {
    let n = t.range(1, max_n);
    let m = t.below(max_e + 1);
    let layered = t.chance(128);
    let k = t.range(2, 4);
    let mut edges = Vec::new();
    for _ in 0..m {
        let (a, b) = (t.below(n), t.below(n));
        if a == b || (layered && b % k != a % k + 1) {
            continue;
        }
        edges.push(if layered { (a, b) } else { (a.min(b), a.max(b)) });
    }
    c.input(format!("{} nodes, edges {:?}", n, edges));
    c.nontrivial(edges.len() > 1);
    let mut d = DAG::new();
    d.new_nodes(n);
    for (a, b) in &edges {
        d.add_edge(h(*a), h(*b));
    }
    d.recompute_node_ranks();
    // Any order within the rows.
    if t.chance(128) {
        for r in 0..d.num_levels() {
            let l = d.row(r).len();
            for i in 1..l {
                let j = t.below(i + 1);
                d.row_mut(r).swap(i, j);
            }
        }
    }
    check(&mut d, &edges, c, false)
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    dag(t, c, 9, 18)
}
fn large(t: &mut Tape, c: &mut Case) -> Verdict {
    dag(t, c, 30, 70)
}

/// Few rows with many edges in between.
fn dense(t: &mut Tape, c: &mut Case) -> Verdict {
    let (k, w) = (t.range(2, 4), t.range(5, 18));
    let mut edges = Vec::new();
    for r in 1..k {
        // Each node has a predecessor, so the rows are as planned.
        edges.extend((0..w).map(|i| ((r - 1) * w + i, r * w + i)));
        let m = t.below(5 * w) * t.below(5) / 4;
        for _ in 0..m {
            let e = ((r - 1) * w + t.below(w), r * w + t.below(w));
            if !edges.contains(&e) {
                edges.push(e);
            }
        }
    }
    let n = k * w;
    c.input(format!("{} nodes in {} rows, edges {:?}", n, k, edges));
    c.nontrivial(true);
    let mut d = DAG::new();
    d.new_nodes(n);
    for (a, b) in &edges {
        d.add_edge(h(*a), h(*b));
    }
    d.recompute_node_ranks();
    if t.chance(100) {
        for r in 0..d.num_levels() {
            for i in 1..d.row(r).len() {
                let j = t.below(i + 1);
                d.row_mut(r).swap(i, j);
            }
        }
    }
    c.label_if(crossings(&rows(&d), &edges) > 500, "more than 500 crossings at first");
    check(&mut d, &edges, c, false)
}

/// Many rows.
fn tall(t: &mut Tape, c: &mut Case) -> Verdict {
    let (k, w) = (t.range(20, 150), t.range(2, 5));
    let mut edges: Vec<(usize, usize)> = Vec::new();
    for r in 1..k {
        edges.extend((0..w).map(|i| ((r - 1) * w + i, r * w + i)));
    }
    let m = t.below(k);
    for _ in 0..m {
        let r = t.range(1, k - 1);
        edges.push(((r - 1) * w + t.below(w), r * w + t.below(w)));
    }
    c.input(format!("{} rows of {} nodes, edges {:?}", k, w, edges));
    c.nontrivial(true);
    let mut d = DAG::new();
    d.new_nodes(k * w);
    for (a, b) in &edges {
        d.add_edge(h(*a), h(*b));
    }
    d.recompute_node_ranks();
    for _ in 0..t.below(2 * k) {
        let (r, i, j) = (t.below(k), t.below(w), t.below(w));
        d.row_mut(r).swap(i, j);
    }
    c.label_if(k > 64, "more than 64 rows");
    check(&mut d, &edges, c, false)
}

/// Two rows and a matching: swapping neighbors finds a drawing without
/// crossings.
fn matching(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = t.range(2, 12);
    matched(t, c, n)
}
/// The same with long rows.
fn long_rows(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = t.range(13, 130);
    matched(t, c, n)
}
fn matched(t: &mut Tape, c: &mut Case, n: usize) -> Verdict {
    let mut perm: Vec<usize> = (0..n).collect();
    for i in 1..n {
        let j = t.below(i + 1);
        perm.swap(i, j);
    }
    let edges: Vec<(usize, usize)> = (0..n).map(|i| (i, n + perm[i])).collect();
    c.input(format!("matching {:?}", edges));
    c.nontrivial(perm.windows(2).any(|w| w[0] > w[1]));
    let mut d = DAG::new();
    d.new_nodes(2 * n);
    for (a, b) in &edges {
        d.add_edge(h(*a), h(*b));
    }
    d.recompute_node_ranks();
    check(&mut d, &edges, c, true)
}

fn main() {
    run_main(Check {
        id: "C17",
        rule: "Random ranked graphs, with any order within the rows, are given to the crossing optimizer; the number of crossings between adjacent rows, counted independently, must not grow, rows must keep their nodes, and matchings of two rows must end without crossings. Non-trivial: at least two edges (matchings: at least one crossing at first).",
        assumptions: &["no row is empty; parallel edges count once"],
        subs: vec![
            Sub::new("small", small, 180_000, 2_000_000).guided(),
            Sub::new("large", large, 12_000, 160_000),
            Sub::new("dense", dense, 1_600, 20_000).fuel(60_000_000_000),
            Sub::new("tall", tall, 480, 20_000).fuel(60_000_000_000).tape(1500),
            Sub::new("matching", matching, 90_000, 1_000_000),
            Sub::new("long_rows", long_rows, 64, 2000).fuel(400_000_000_000).tape(600),
        ],
    });
}
