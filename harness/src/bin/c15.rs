//! C15: the ranked DAG against a model.
use layout::adt::dag::{NodeHandle, DAG};
use vp::*;

#[derive(Clone, Default)]
struct Model {
    succ: Vec<Vec<usize>>,
    pred: Vec<Vec<usize>>,
    rows: Vec<Vec<usize>>,
}

impl Model {
    fn n(&self) -> usize {
        self.succ.len()
    }
    fn reach(&self, a: usize, b: usize) -> bool {
        let mut seen = vec![false; self.n()];
        let mut st = vec![a];
        while let Some(x) = st.pop() {
            if x == b {
                return true;
            }
            if !seen[x] {
                seen[x] = true;
                st.extend(&self.succ[x]);
            }
        }
        false
    }
    /// A cycle of two or more nodes.
    fn cyclic(&self) -> bool {
        (0..self.n()).any(|a| self.succ[a].iter().any(|b| *b != a && self.reach(*b, a)))
    }
    fn level(&self, x: usize) -> Option<usize> {
        self.rows.iter().position(|r| r.contains(&x))
    }
    fn longest(&self) -> Vec<usize> {
        let mut l = vec![0; self.n()];
        for _ in 0..self.n() {
            for a in 0..self.n() {
                for b in &self.succ[a] {
                    if *b != a {
                        l[*b] = l[*b].max(l[a] + 1);
                    }
                }
            }
        }
        l
    }
}

fn h(i: usize) -> NodeHandle {
    NodeHandle::new(i)
}
fn ix(v: &[NodeHandle]) -> Vec<usize> {
    v.iter().map(|x| x.get_index()).collect()
}
fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v
}

fn compare(d: &DAG, m: &Model) -> Verdict {
    ensure!(d.len() == m.n(), "{} nodes, expected {}", d.len(), m.n());
    ensure!(d.is_empty() == (m.n() == 0), "is_empty of {} nodes", m.n());
    ensure!(d.iter().map(|x| x.get_index()).eq(0..m.n()), "the iterator does not visit all nodes");
    for i in 0..m.n() {
        let s = ix(d.successors(h(i)));
        ensure!(sorted(s.clone()) == sorted(m.succ[i].clone()), "successors of {}: {:?}, expected {:?}", i, s, m.succ[i]);
        let p = ix(d.predecessors(h(i)));
        ensure!(sorted(p.clone()) == sorted(m.pred[i].clone()), "predecessors of {}: {:?}, expected {:?}", i, p, m.pred[i]);
        let one = |v: &Vec<usize>| if v.len() == 1 { Some(v[0]) } else { None };
        ensure!(d.single_succ(h(i)).map(|x| x.get_index()) == one(&m.succ[i]), "single successor of {}", i);
        ensure!(d.single_pred(h(i)).map(|x| x.get_index()) == one(&m.pred[i]), "single predecessor of {}", i);
        let l = d.level(h(i));
        ensure!(Some(l) == m.level(i), "level of {}: {}, expected {:?}", i, l, m.level(i));
    }
    ensure!(d.num_levels() == m.rows.len(), "{} levels, expected {}", d.num_levels(), m.rows.len());
    for (k, r) in m.rows.iter().enumerate() {
        ensure!(ix(d.row(k)) == *r, "row {}: {:?}, expected {:?}", k, ix(d.row(k)), r);
        ensure!(ix(&d.ranks()[k]) == *r, "ranks row {}", k);
        for i in 0..m.n() {
            ensure!(d.is_first_in_row(h(i), k) == (r.first() == Some(&i)), "is {} the first of row {} {:?}", i, k, r);
            ensure!(d.is_last_in_row(h(i), k) == (r.last() == Some(&i)), "is {} the last of row {} {:?}", i, k, r);
        }
    }
    Ok(())
}

/// A large graph to start with.
fn start(t: &mut Tape, d: &mut DAG, m: &mut Model, log: &mut String) -> usize {
    let n = t.range(10, 180);
    d.new_nodes(n);
    m.succ = vec![vec![]; n];
    m.pred = vec![vec![]; n];
    m.rows = vec![(0..n).collect()];
    let mut v: Vec<(usize, usize)> = match t.below(6) {
        0 => (1..n).map(|i| (i - 1, i)).collect(),
        1 => (1..n).map(|i| (i, i - 1)).collect(),
        2 => (1..n).map(|i| (0, i)).collect(),
        3 => (1..n).map(|i| (i, 0)).collect(),
        4 => (1..n).map(|i| ((i - 1) / 2, i)).collect(),
        // Diamonds: very many paths.
        _ => (0..n.saturating_sub(3) / 3).flat_map(|i| [(3 * i, 3 * i + 1), (3 * i, 3 * i + 2), (3 * i + 1, 3 * i + 3), (3 * i + 2, 3 * i + 3)]).collect(),
    };
    for _ in 0..t.below(5) {
        let (a, b) = (t.below(n), t.below(n));
        v.push(if a > b && t.chance(200) { (b, a) } else { (a, b) });
    }
    if t.chance(100) {
        v.reverse();
    }
    log.push_str(&format!("{} nodes, {:?}; ", n, v));
    for (a, b) in &v {
        d.add_edge(h(*a), h(*b));
        m.succ[*a].push(*b);
        m.pred[*b].push(*a);
    }
    v.len()
}

fn history(t: &mut Tape, c: &mut Case, max: usize, big: bool) -> Verdict {
    let mut d = DAG::new();
    let mut m = Model::default();
    let mut log = String::new();
    let first = if big { start(t, &mut d, &mut m, &mut log) } else { 0 };
    let steps = t.range(1, max);
    let acyclic_only = t.chance(140);
    let (mut edges, mut moved) = (first, 0);
    for _ in 0..steps {
        let n = m.n();
        let op = if n == 0 { t.below(2) } else { t.weighted(&[4, 1, 10, 4, 3, 3, 5, 1, 2]) };
        match op {
            0 => {
                log.push_str("new; ");
                let x = no_panic("new_node", || d.new_node())?;
                ensure!(x.get_index() == n, "the handle of node {} is {}", n, x.get_index());
                m.succ.push(vec![]);
                m.pred.push(vec![]);
                if m.rows.is_empty() {
                    m.rows.push(vec![]);
                }
                m.rows[0].push(n);
            }
            1 => {
                if m.cyclic() {
                    continue;
                }
                let k = t.below(5);
                log.push_str(&format!("new {}; ", k));
                no_panic("new_nodes", || d.new_nodes(k))?;
                for i in n..n + k {
                    m.succ.push(vec![]);
                    m.pred.push(vec![]);
                    if m.rows.is_empty() {
                        m.rows.push(vec![]);
                    }
                    m.rows[0].push(i);
                }
            }
            2 => {
                let (mut a, mut b) = (t.below(n), t.below(n));
                if acyclic_only && a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                log.push_str(&format!("{}->{}; ", a, b));
                no_panic("add_edge", || d.add_edge(h(a), h(b)))?;
                m.succ[a].push(b);
                m.pred[b].push(a);
                edges += 1;
            }
            3 => {
                let (a, b) = (t.below(n), t.below(n));
                log.push_str(&format!("remove {}->{}; ", a, b));
                let got = no_panic("remove_edge", || d.remove_edge(h(a), h(b)))?;
                let want = m.succ[a].iter().position(|x| *x == b);
                ensure!(got == want.is_some(), "remove_edge({}, {}) returned {} [{}]", a, b, got, log);
                if let Some(i) = want {
                    m.succ[a].remove(i);
                    let j = m.pred[b].iter().position(|x| *x == a).unwrap_or(0);
                    m.pred[b].remove(j);
                }
            }
            4 => {
                let (a, b) = (t.below(n), t.below(n));
                let got = no_panic("is_reachable", || d.is_reachable(h(a), h(b)))?;
                ensure!(got == m.reach(a, b), "is_reachable({}, {}) = {} [{}]", a, b, got, log);
            }
            5 => {
                if m.cyclic() {
                    continue;
                }
                log.push_str("rank; ");
                no_panic("recompute_node_ranks", || d.recompute_node_ranks())?;
                let l = m.longest();
                let top = l.iter().max().copied().unwrap_or(0);
                ensure!(d.num_levels() == top + 1, "{} levels, expected {} [{}]", d.num_levels(), top + 1, log);
                m.rows = (0..=top).map(|k| ix(d.row(k))).collect();
                let mut seen = vec![0; n];
                for (k, r) in m.rows.iter().enumerate() {
                    for x in r {
                        ensure!(*x < n, "unknown node in row {}", k);
                        seen[*x] += 1;
                        ensure!(l[*x] == k, "node {} is in row {}, its longest path has length {} [{}]", x, k, l[*x], log);
                    }
                }
                ensure!(seen.iter().all(|x| *x == 1), "a node is not in exactly one row [{}]", log);
            }
            6 => {
                let a = t.below(n);
                let level = t.below(m.rows.len() + 3);
                // The marker must be in the row, and be another node.
                let cand: Vec<usize> = m.rows.get(level).map(|r| r.iter().copied().filter(|x| *x != a).collect()).unwrap_or_default();
                let before = if !cand.is_empty() && t.chance(128) { Some(cand[t.below(cand.len())]) } else { None };
                log.push_str(&format!("move {} to {} before {:?}; ", a, level, before));
                no_panic("update_node_rank_level", || d.update_node_rank_level(h(a), level, before.map(h)))?;
                for r in m.rows.iter_mut() {
                    r.retain(|x| *x != a);
                }
                while m.rows.len() < level + 1 {
                    m.rows.push(vec![]);
                }
                match before {
                    None => m.rows[level].push(a),
                    Some(b) => {
                        let i = m.rows[level].iter().position(|x| *x == b).unwrap_or(0);
                        m.rows[level].insert(i, a);
                    }
                }
                moved += 1;
            }
            7 => {
                log.push_str("clear; ");
                no_panic("clear", || d.clear())?;
                m = Model::default();
            }
            _ => {
                let r = no_panic("verify", || d.verify());
                ensure!(r.is_ok() != m.cyclic(), "verify() {} a graph that is {}cyclic [{}]", if r.is_ok() { "accepts" } else { "rejects" }, if m.cyclic() { "" } else { "a" }, log);
            }
        }
        c.input(log.clone());
        compare(&d, &m).map_err(|e| format!("{} [{}]", e, log))?;
    }
    c.nontrivial(edges > 1 && m.n() > 1);
    c.label_if(m.cyclic(), "cyclic");
    c.label_if(moved > 0, "moved nodes");
    Ok(())
}

fn short(t: &mut Tape, c: &mut Case) -> Verdict {
    history(t, c, 16, false)
}
fn long(t: &mut Tape, c: &mut Case) -> Verdict {
    history(t, c, 80, false)
}
fn big(t: &mut Tape, c: &mut Case) -> Verdict {
    history(t, c, 12, true)
}

/// Very long paths.
fn deep(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = *t.pick(&[500, 3000, 20_000, 200_000]) + t.below(100);
    // The i-th node of the path.
    let by = *t.pick(&[1, n - 1, 7919]);
    let at = |i: usize| if by == 7919 && n % 7919 == 0 { i } else { (i * by) % n };
    let mut d = DAG::new();
    d.new_nodes(n);
    for i in 1..n {
        d.add_edge(h(at(i - 1)), h(at(i)));
    }
    // Some edges that skip a few nodes.
    for _ in 0..t.below(4) {
        let i = t.below(n - 10);
        d.add_edge(h(at(i)), h(at(i + 1 + t.below(9))));
    }
    c.input(format!("a path of {} nodes, by {}", n, by));
    c.nontrivial(true);
    for _ in 0..6 {
        let (a, b) = if t.chance(128) { (0, n - 1) } else { (t.below(n), t.below(n)) };
        let (a, b) = if t.chance(100) { (b, a) } else { (a, b) };
        let got = no_panic("is_reachable", || d.is_reachable(h(at(a)), h(at(b))))?;
        ensure!(got == (a <= b), "is_reachable from the node {} of a path to the node {} is {}", a, b, got);
    }
    no_panic("recompute_node_ranks", || d.recompute_node_ranks())?;
    ensure!(d.num_levels() == n, "{} levels for a path of {} nodes", d.num_levels(), n);
    for i in 0..n {
        ensure!(ix(d.row(i)) == [at(i)], "row {} is {:?}, expected {}", i, ix(d.row(i)), at(i));
    }
    let cut = t.below(n - 1);
    let mut more = true;
    let mut edges = 0;
    while more {
        more = d.remove_edge(h(at(cut)), h(at(cut + 1)));
        edges += more as usize;
    }
    ensure!(edges >= 1, "no edge to remove");
    if n < 1000 {
        let cycle = t.chance(128);
        if cycle {
            d.add_edge(h(at(cut)), h(at(cut + 1)));
            d.add_edge(h(at(n - 1)), h(at(0)));
        }
        let r = no_panic("verify", || d.verify());
        ensure!(r.is_err() == cycle, "verify() is wrong about a {} of {} nodes", if cycle { "cycle" } else { "path" }, n);
    }
    Ok(())
}

/// Cycles through nodes that have many successors.
fn hubs(t: &mut Tape, c: &mut Case) -> Verdict {
    let k = t.range(2, 4);
    let w = t.range(2, 70);
    let mut d = DAG::new();
    d.new_nodes(k * (w + 1));
    // The hubs are a path or a cycle, each has w more successors.
    let cycle = t.chance(128);
    let mut m = vec![0; k];
    for (i, m) in m.iter_mut().enumerate() {
        *m = if t.chance(128) { w } else { t.below(w + 1) };
        for j in 0..=w {
            if j == *m && (cycle || i + 1 < k) {
                d.add_edge(h(i), h((i + 1) % k));
            }
            if j < w {
                d.add_edge(h(i), h(k + i * w + j));
            }
        }
    }
    c.input(format!("{} nodes with {} successors, the links at {:?}, {}", k, w, m, if cycle { "a cycle" } else { "a path" }));
    c.nontrivial(true);
    c.label_if(cycle, "cyclic");
    for a in 0..k {
        for b in 0..k {
            let got = no_panic("is_reachable", || d.is_reachable(h(a), h(b)))?;
            ensure!(got == (cycle || a <= b), "is_reachable({}, {}) = {}", a, b, got);
        }
    }
    let r = no_panic("verify", || d.verify());
    ensure!(r.is_err() == cycle, "verify() {} the graph", if cycle { "accepts" } else { "rejects" });
    if !cycle {
        no_panic("recompute_node_ranks", || d.recompute_node_ranks())?;
        for i in 0..k {
            ensure!(d.level(h(i)) == i, "node {} has rank {}", i, d.level(h(i)));
            for j in 0..w {
                ensure!(d.level(h(k + i * w + j)) == i + 1, "a successor of node {} has rank {}", i, d.level(h(k + i * w + j)));
            }
        }
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C15",
        rule: "Random histories of operations on the ranked DAG (new nodes, edges, removals, reachability, ranking, moves, clear, verification) are compared with a model after every step. Non-trivial: at least two edges and two nodes.",
        assumptions: &["ranks are recomputed only for acyclic graphs; the marker of a move is another node of the row"],
        subs: vec![
            Sub::new("short", short, 750_000, 5_000_000).guided(),
            Sub::new("long", long, 100_000, 800_000),
            Sub::new("big", big, 8_000, 100_000),
            Sub::new("hubs", hubs, 4_000, 40_000),
            Sub::new("deep", deep, 250, 2_000),
        ],
    });
}
