//! C31: the order of declaration shows in the drawing.
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/rec.rs"]
mod rec;
use draw::*;
use gg::{GraphD, Kind, Opt};
use layout::gv::parser::ast;
use vp::*;

/// The nodes in the order in which they are first mentioned.
fn order(g: &GraphD) -> Result<Vec<usize>, String> {
    let n = g.nodes.len();
    let s = match &g.program {
        None => return Ok((0..n).collect()),
        Some(s) => s,
    };
    let p = no_panic("reading", || layout::gv::DotParser::new(s).process())?.map_err(|e| format!("a valid program was rejected: {}", e))?;
    let mut out: Vec<usize> = Vec::new();
    let mut see = |name: &str| {
        if let Ok(i) = name[1..].parse::<usize>() {
            if !out.contains(&i) {
                out.push(i);
            }
        }
    };
    for x in &p.list.list {
        match x {
            ast::Stmt::Node(x) => see(&x.id.name),
            ast::Stmt::Edge(e) => {
                see(&e.from.name);
                e.to.iter().for_each(|x| see(&x.0.name));
            }
            _ => {}
        }
    }
    Ok(out)
}

/// The rows of a drawing, each from its first node to its last.
fn rows(g: &GraphD, ops: &[rec::Op]) -> Result<Vec<Vec<usize>>, String> {
    let d = interpret(g, ops);
    let turn = |p: rec::P| if g.lr { (p.1, p.0) } else { p };
    let mut v: Vec<(usize, rec::P)> = boxes(g, &d)?.into_iter().enumerate().filter_map(|(i, b)| b.map(|b| (i, turn(center(b))))).collect();
    v.sort_by(|a, b| a.1 .1.total_cmp(&b.1 .1));
    let mut rows: Vec<Vec<(usize, rec::P)>> = Vec::new();
    for x in v {
        match rows.last_mut() {
            Some(r) if close(r[0].1 .1, x.1 .1) => r.push(x),
            _ => rows.push(vec![x]),
        }
    }
    Ok(rows
        .into_iter()
        .map(|mut r| {
            r.sort_by(|a, b| a.1 .0.total_cmp(&b.1 .0));
            r.into_iter().map(|x| x.0).collect()
        })
        .collect())
}

/// Without optimizations each row is in the order of declaration.
fn run(t: &mut Tape, c: &mut Case, o: &Opt) -> Verdict {
    let g = gg::gen_graph(t, o);
    let no_layout = t.chance(90);
    c.input(format!("no_layout {}: {}", no_layout, g.describe()));
    let order = order(&g)?;
    let ops = gg::draw(&g, false, true, no_layout)?;
    let pos = |i: &usize| order.iter().position(|x| x == i);
    let mut many = false;
    for r in rows(&g, &ops)? {
        many |= r.len() > 2;
        for w in r.windows(2) {
            ensure!(pos(&w[0]) < pos(&w[1]), "n{} is drawn before n{} in the row {:?}, but is declared after it", w[0], w[1], r);
        }
    }
    c.nontrivial(many);
    c.label_if(g.lr, "left to right");
    c.label_if(g.program.is_some(), "program");
    c.label_if(g.has_labels(), "labels");
    Ok(())
}

/// Crossings of edges between adjacent rows.
fn crossings(rows: &[Vec<usize>], edges: &[(usize, usize)]) -> usize {
    let mut sum = 0;
    for k in 1..rows.len() {
        let e: Vec<(usize, usize)> = edges
            .iter()
            .filter_map(|(a, b)| Some((rows[k - 1].iter().position(|v| v == a)?, rows[k].iter().position(|v| v == b)?)))
            .collect();
        for i in 0..e.len() {
            for j in 0..i {
                if (e[i].0 < e[j].0 && e[i].1 > e[j].1) || (e[i].0 > e[j].0 && e[i].1 < e[j].1) {
                    sum += 1;
                }
            }
        }
    }
    sum
}

/// Edges between adjacent rows only: no node can move to another row.
fn layered(t: &mut Tape, c: &mut Case, max_rows: usize, max_width: usize, block: bool) -> Verdict {
    let o = Opt::all(2, 2);
    let mut g = gg::gen_graph(t, &o);
    let sample = loop {
        let h = gg::gen_graph(t, &o);
        if let Some(e) = h.edges.into_iter().next() {
            break e;
        }
        if t.exhausted() {
            return Ok(());
        }
    };
    g.nodes.clear();
    g.edges.clear();
    let mut widths: Vec<usize> = (0..t.range(1, max_rows)).map(|_| t.range(1, max_width)).collect();
    if block {
        // A few wide rows between rows of one node.
        let mut v = vec![1; *t.pick(&[0, 0, 1, 2, 7, 12, 20, 30])];
        v.append(&mut widths);
        v.extend(vec![1; *t.pick(&[0, 0, 1, 2, 7, 12, 20, 30])]);
        widths = v;
    }
    let n: usize = widths.iter().sum();
    let plain = t.chance(100);
    for _ in 0..n {
        let mut nd = gg::gen_node(t, &o);
        if plain || matches!(nd.kind, Kind::None) {
            nd.kind = Kind::Box("b".into());
        }
        g.nodes.push(nd);
    }
    let mut perm: Vec<usize> = (0..n).collect();
    if t.chance(128) {
        for i in 1..n {
            let j = t.below(i + 1);
            perm.swap(i, j);
        }
    }
    let few = t.chance(140);
    let mut edges: Vec<(usize, usize)> = Vec::new();
    let mut rows0: Vec<Vec<usize>> = Vec::new();
    let mut first = 0;
    for (k, w) in widths.iter().enumerate() {
        let mut row: Vec<usize> = perm[first..first + w].to_vec();
        first += w;
        row.sort();
        if k > 0 {
            let prev = &rows0[k - 1];
            let mut at = 0;
            for x in &row {
                // In order, or anywhere.
                let j = if few { t.range(at, prev.len() - 1) } else { t.below(prev.len()) };
                at = j;
                edges.push((prev[j], *x));
                if t.chance(if few { 20 } else { 90 }) {
                    let e = (*t.pick(prev), *x);
                    if !edges.contains(&e) {
                        edges.push(e);
                    }
                }
            }
        }
        rows0.push(row);
    }
    if t.chance(128) {
        for i in 1..edges.len() {
            let j = t.below(i + 1);
            edges.swap(i, j);
        }
    }
    for e in &edges {
        let mut x = sample.clone();
        (x.from, x.to) = *e;
        x.text.clear();
        x.ports = (None, None);
        g.edges.push(x);
    }
    // A loop stays with its node.
    if t.chance(60) {
        let mut x = sample.clone();
        x.from = t.below(n);
        x.to = x.from;
        x.text.clear();
        x.ports = (None, None);
        g.edges.insert(t.below(g.edges.len() + 1), x);
    }
    let no_layout = t.chance(60);
    let x0 = crossings(&rows0, &edges);
    c.input(format!("no_layout {}, rows {:?}: {}", no_layout, rows0, g.describe()));
    c.nontrivial(edges.len() > 2);
    c.label(if x0 > 0 { "crossings in the order of declaration" } else { "no crossings in the order of declaration" });
    let got = rows(&g, &gg::draw(&g, false, false, no_layout)?)?;
    if x0 == 0 {
        ensure!(got == rows0, "no edges cross in the order of declaration {:?}, but rows are drawn as {:?}", rows0, got);
    }
    let x1 = crossings(&got, &edges);
    c.label_if(x1 < x0, "fewer crossings");
    ensure!(x1 <= x0, "{} edges cross in the order of declaration {:?}, {} in the drawing {:?}", x0, rows0, x1, got);
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(6, 6))
}
fn medium(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::all(16, 16))
}
fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::family(40))
}
fn programs(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &Opt::programs(10, 10))
}
fn layers(t: &mut Tape, c: &mut Case) -> Verdict {
    layered(t, c, 4, 4, false)
}
fn wide(t: &mut Tape, c: &mut Case) -> Verdict {
    layered(t, c, 3, 24, false)
}
fn tall(t: &mut Tape, c: &mut Case) -> Verdict {
    layered(t, c, 24, 3, false)
}
fn block(t: &mut Tape, c: &mut Case) -> Verdict {
    layered(t, c, 4, 6, true)
}

fn main() {
    run_main(Check {
        id: "C31",
        rule: "Random graphs and programs are drawn without optimizations: the nodes of each row must be in the order in which they are declared. Graphs in which all edges connect adjacent rows are drawn with optimizations: if no edges cross in the order of declaration, that order must be kept, else no more edges may cross than in that order. Non-trivial: a row of at least three nodes, or at least three edges.",
        assumptions: &["rows are recognized by the center lines of their nodes"],
        subs: vec![
            Sub::new("small", small, 120_000, 3_000_000).guided(),
            Sub::new("medium", medium, 16_000, 400_000).tape(6000),
            Sub::new("families", families, 600, 20_000).fuel(60_000_000_000),
            Sub::new("programs", programs, 24_000, 1_000_000),
            Sub::new("layers", layers, 60_000, 2_000_000).tape(2500),
            Sub::new("block", block, 8_000, 200_000).tape(6000).fuel(60_000_000_000),
            Sub::new("wide", wide, 2_000, 60_000).tape(6000).fuel(60_000_000_000),
            Sub::new("tall", tall, 3_000, 60_000).tape(6000).fuel(60_000_000_000),
        ],
    });
}
