//! C16: ranking, and the optimizer that sinks nodes.
use layout::adt::dag::{NodeHandle, DAG};
use layout::topo::optimizer::RankOptimizer;
use vp::*;

fn h(i: usize) -> NodeHandle {
    NodeHandle::new(i)
}

fn run(t: &mut Tape, c: &mut Case, max_n: usize, max_e: usize) -> Verdict {
    let n = t.range(1, max_n);
    let mut perm: Vec<usize> = (0..n).collect();
    if t.chance(128) {
        for i in 1..n {
            let j = t.below(i + 1);
            perm.swap(i, j);
        }
    }
    let mut edges = Vec::new();
    let m = t.below(max_e + 1);
    let shape = t.below(10);
    match shape {
        // Many in, many out.
        3 => edges.extend((1..n).map(|i| (perm[0], perm[i]))),
        4 => edges.extend((1..n).map(|i| (perm[i - 1], perm[n - 1]))),
        // A center with many neighbors, all of which are part of a chain.
        6 => {
            let mid = t.below(n);
            edges.extend((1..n).filter(|i| i % 3 > 0).map(|i| (perm[i - 1], perm[i])));
            edges.extend((0..mid).map(|i| (perm[i], perm[mid])));
            edges.extend((mid + 1..n).rev().map(|i| (perm[mid], perm[i])));
        }
        // A spine, and chains beside it that hang between two of its nodes:
        // each node can sink only after the next one has.
        7 => {
            let spine = n.div_ceil(2);
            edges.extend((1..spine).map(|i| (perm[i - 1], perm[i])));
            let mut i = spine;
            while i < n {
                let end = (i + 1 + t.below(n)).min(n);
                edges.extend((i + 1..end).map(|j| (perm[j - 1], perm[j])));
                let from = t.below(spine);
                if end - i + from < spine {
                    if t.chance(128) {
                        edges.push((perm[from], perm[i]));
                    }
                    edges.push((perm[end - 1], perm[spine - 1 - t.below(spine - (end - i + from))]));
                }
                i = end;
            }
        }
        // Centers with many neighbors below a spine: each neighbor has a row of
        // its own choice, so that the centers can sink towards the nearest one.
        8 | 9 => {
            let spine = 2 + t.below(n.div_ceil(4));
            let hubs = 1 + t.below(3);
            edges.extend((1..spine.min(n)).map(|i| (perm[i - 1], perm[i])));
            let deep = t.below(spine);
            for i in spine + hubs..n {
                let from = if t.chance(230) { deep.max(t.below(spine)) } else { t.below(spine) };
                edges.push((perm[from], perm[i]));
                for k in 0..hubs {
                    if k == 0 || t.chance(100) {
                        edges.push((perm[spine + k], perm[i]));
                    }
                }
            }
            if spine + hubs < n && t.chance(128) {
                edges.push((perm[t.below(spine)], perm[spine]));
            }
        }
        5 => edges.extend((1..n).map(|i| (perm[(i - 1) / 2], perm[i]))),
        _ => {}
    }
    if shape == 1 {
        for i in 1..n {
            edges.push((perm[i - 1], perm[i]));
        }
    }
    for _ in 0..m {
        let (a, b) = (t.below(n), t.below(n));
        if a == b {
            continue;
        }
        if shape >= 3 && (t.chance(200) || shape >= 7) {
            continue;
        }
        if shape == 2 && a.abs_diff(b) > 3 {
            continue;
        }
        edges.push((perm[a.min(b)], perm[a.max(b)]));
    }
    // The edges of a node in any order.
    if t.chance(100) {
        for i in 1..edges.len() {
            let j = t.below(i + 1);
            edges.swap(i, j);
        }
    }
    c.input(format!("{} nodes, edges {:?}", n, edges));
    c.nontrivial(edges.len() > 1);
    let mut d = DAG::new();
    d.new_nodes(n);
    for (a, b) in &edges {
        d.add_edge(h(*a), h(*b));
    }
    no_panic("recompute_node_ranks", || d.recompute_node_ranks())?;
    let mut want = vec![0usize; n];
    for _ in 0..n {
        for (a, b) in &edges {
            want[*b] = want[*b].max(want[*a] + 1);
        }
    }
    let before: Vec<usize> = (0..n).map(|i| d.level(h(i))).collect();
    ensure!(before == want, "levels {:?}, the longest paths have {:?}", before, want);
    let rows = d.num_levels();
    no_panic("the rank optimizer", || RankOptimizer::new(&mut d).optimize())?;
    let mut seen = vec![0; n];
    for r in d.ranks() {
        for x in r {
            seen[x.get_index()] += 1;
        }
    }
    ensure!(seen.iter().all(|x| *x == 1), "nodes are in {:?} rows each", seen);
    let after: Vec<usize> = (0..n).map(|i| d.level(h(i))).collect();
    ensure!(d.num_levels() == rows, "{} rows became {}", rows, d.num_levels());
    let len = |l: &Vec<usize>| edges.iter().map(|(a, b)| l[*b] as i64 - l[*a] as i64).sum::<i64>();
    for (a, b) in &edges {
        ensure!(after[*a] < after[*b], "edge {}->{} leads from row {} to row {}", a, b, after[*a], after[*b]);
    }
    ensure!(len(&after) <= len(&before), "the edges span {} rows, {} before the optimization", len(&after), len(&before));
    for i in 0..n {
        ensure!(after[i] >= before[i], "node {} rose from row {} to row {}", i, before[i], after[i]);
        let s: Vec<usize> = edges.iter().filter(|e| e.0 == i).map(|e| after[e.1]).collect();
        let p = edges.iter().filter(|e| e.1 == i).count();
        if !s.is_empty() && s.len() >= p {
            let near = *s.iter().min().unwrap_or(&0);
            ensure!(near == after[i] + 1, "node {} ({} in, {} out) stays in row {}, its nearest successor is in row {}", i, p, s.len(), after[i], near);
        }
    }
    c.label_if(after != before, "some node sinks");
    // The graph itself is untouched.
    for i in 0..n {
        let mut s: Vec<usize> = d.successors(h(i)).iter().map(|x| x.get_index()).collect();
        let mut w: Vec<usize> = edges.iter().filter(|e| e.0 == i).map(|e| e.1).collect();
        s.sort();
        w.sort();
        ensure!(s == w, "the successors of {} changed", i);
    }
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 7, 14)
}
fn large(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 40, 80)
}
fn huge(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 200, 300)
}

fn main() {
    run_main(Check {
        id: "C16",
        rule: "Random acyclic graphs are ranked and optimized; the ranks must be the longest paths from a source, and the optimizer must keep every edge pointing down and every node in one row, only sink nodes, not add rows, not lengthen the edges in total, and leave no node that it should have sunk. Non-trivial: at least two edges.",
        assumptions: &[],
        subs: vec![
            Sub::new("small", small, 1_000_000, 6_000_000).guided(),
            Sub::new("large", large, 100_000, 1_000_000),
            Sub::new("huge", huge, 8_000, 100_000),
        ],
    });
}
