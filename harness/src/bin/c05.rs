//! C05: every accepted program becomes a well-formed drawing.
#[path = "../shared/dot.rs"]
mod dot;
#[path = "../shared/progs.rs"]
mod progs;
#[path = "../shared/svgdoc.rs"]
mod svgdoc;
use layout::backends::svg::SVGWriter;
use layout::gv::parser::ast;
use layout::gv::{DotParser, GraphBuilder};
use vp::*;

fn count(l: &ast::StmtList, nodes: &mut std::collections::BTreeSet<String>) -> usize {
    l.list
        .iter()
        .map(|s| match s {
            ast::Stmt::Edge(e) => {
                nodes.insert(e.from.name.clone());
                for x in &e.to {
                    nodes.insert(x.0.name.clone());
                }
                e.to.len()
            }
            ast::Stmt::SubGraph(g) => count(&g.list, nodes),
            ast::Stmt::Node(n) => {
                nodes.insert(n.id.name.clone());
                0
            }
            ast::Stmt::Attribute(_) => 0,
        })
        .sum()
}

/// Renders the program with every combination of `opts`.
fn drive(text: &str, c: &mut Case, opts: &[(bool, bool, bool)]) -> Verdict {
    let g = match no_panic("parsing", || DotParser::new(text).process())? {
        Ok(g) => g,
        Err(_) => {
            c.label("rejected");
            return Ok(());
        }
    };
    let mut nodes = Default::default();
    let edges = count(&g.list, &mut nodes);
    c.nontrivial(!nodes.is_empty());
    c.label_if(edges > 0, "edges");
    for (debug, no_opt, no_layout) in opts {
        let what = format!("rendering (debug {}, no_opt {}, no_layout {})", debug, no_opt, no_layout);
        let svg = no_panic(&what, || {
            let mut gb = GraphBuilder::new();
            gb.visit_graph(&g);
            let mut vg = gb.get();
            let mut w = SVGWriter::new();
            vg.do_it(*debug, *no_opt, *no_layout, &mut w);
            w.finalize()
        })?;
        let x = svgdoc::check(&svg).map_err(|e| format!("{}: {}", what, e))?;
        let paths = x.find_all("path").len();
        ensure!(paths == edges, "{}: {} edges are drawn, {} declared", what, paths, edges);
        let shapes = x.find_all("ellipse").len() + x.find_all("rect").len();
        ensure!(shapes >= nodes.len(), "{}: {} shapes are drawn for {} nodes", what, shapes, nodes.len());
    }
    Ok(())
}

fn all() -> Vec<(bool, bool, bool)> {
    (0..8).map(|i| (i & 1 > 0, i & 2 > 0, i & 4 > 0)).collect()
}
fn some(t: &mut Tape) -> Vec<(bool, bool, bool)> {
    let k = t.weighted(&[4, 1, 1, 1, 1, 1, 1, 1]);
    vec![(k & 1 > 0, k & 2 > 0, k & 4 > 0)]
}

fn programs(t: &mut Tape, c: &mut Case, k: usize, max: usize) -> Verdict {
    let opts = if t.chance(50) { all() } else { some(t) };
    let p = dot::Prog { strict: t.chance(20), directed: !t.chance(60), name: None, list: progs::list(t, k, max, 0) };
    let toks = dot::tokens(t, &p);
    let s = dot::print(t, &toks);
    c.input(format!("options {:?}: {}", opts, s));
    drive(&s, c, &opts)
}
fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    programs(t, c, 4, 6)
}
fn medium(t: &mut Tape, c: &mut Case) -> Verdict {
    programs(t, c, 12, 24)
}

/// Damaged programs that are still accepted.
fn text(t: &mut Tape, c: &mut Case) -> Verdict {
    let p = dot::Prog { strict: false, directed: true, name: None, list: progs::list(t, 4, 6, 0) };
    let toks = dot::tokens(t, &p);
    let mut cs: Vec<char> = dot::print(t, &toks).chars().collect();
    for _ in 0..t.below(3) + 1 {
        let i = t.below(cs.len());
        match t.below(4) {
            0 => {
                cs.remove(i);
            }
            1 => {
                let x = *t.pick(&['"', '{', '}', '[', ']', '/', '-', '>', '\\', '=', ';', ':', 'a', '0', '|', '<', '\u{1}']);
                cs.insert(i, x);
            }
            2 => {
                let j = t.below(cs.len());
                cs.swap(i, j);
            }
            _ => {
                let j = (i + t.below(20)).min(cs.len());
                let part: Vec<char> = cs[i..j].to_vec();
                cs.splice(i..i, part);
            }
        }
        if cs.is_empty() {
            break;
        }
    }
    let s: String = cs.into_iter().collect();
    c.input(s.clone());
    let o = some(t);
    drive(&s, c, &o)
}

/// Families of graphs at a larger scale.
fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = t.range(2, 40);
    let label = t.chance(100);
    let lr = t.chance(100);
    let fam = t.below(11);
    let mut e: Vec<(usize, usize)> = Vec::new();
    match fam {
        0 => (1..n).for_each(|i| e.push((i - 1, i))),
        1 => (0..n).for_each(|i| e.push((i, (i + 1) % n))),
        2 => {
            for i in 0..n.min(9) {
                for j in 0..n.min(9) {
                    if i < j || (i > j && t.chance(60)) {
                        e.push((i, j));
                    }
                }
            }
        }
        3 => (1..n).for_each(|i| e.push((i / 2, i))),
        4 => (1..n).for_each(|i| e.push((0, i))),
        5 => (1..n).for_each(|i| e.push((i, 0))),
        6 => {
            for i in 0..n.min(8) {
                for j in 0..n.min(8) {
                    e.push((i, 100 + j));
                }
            }
        }
        7 => {
            for i in 1..n.min(25) {
                e.push((i - 1, i));
                e.push((0, i));
            }
        }
        8 => {
            for i in 0..n.min(25) {
                e.push((i, i));
                e.push((i, i + 1));
                e.push((i + 1, i));
            }
        }
        9 => {
            let w = t.range(2, 5);
            for i in 0..n {
                if (i + 1) % w > 0 {
                    e.push((i, i + 1));
                }
                e.push((i, i + w));
            }
        }
        _ => {
            for _ in 0..n {
                e.push((0, 1));
            }
            e.push((1, 0));
        }
    }
    let mut s = String::from("digraph {");
    if lr {
        s.push_str("rankdir=LR;");
    }
    s.push_str(t.pick(&["", "node [shape=box];", "node [shape=record, label=\"a|<p>b|{c|d}\"];", "node[fontsize=40];"]));
    for (a, b) in &e {
        let port = if t.chance(20) { ":p" } else { "" };
        s.push_str(&format!("{}{} -> {}{}", a, port, b, if label && t.chance(128) { " [label=\"a label\"]" } else { "" }));
        s.push(';');
    }
    for i in 0..t.below(4) {
        s.push_str(&format!("alone{};", i));
    }
    s.push('}');
    c.input(s.clone());
    c.label(["chain", "cycle", "dense", "tree", "star", "inverse star", "bipartite", "fan", "loops", "grid", "parallel"][fam]);
    let o = some(t);
    drive(&s, c, &o)
}

/// Deep scopes and records, long chains, many of everything.
fn deep(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = if t.chance(60) { t.range(120, 400) } else { t.range(1, 120) };
    let each = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    let s = match t.below(10) {
        6 => format!("digraph {{ {} }}", each(&|i| format!("n{0} [fontsize={0}, label=\"x{0}\"]; ", i))),
        7 => format!("digraph {{ {} }}", each(&|i| format!("a -> b [label=\"x{0}\", fontsize={0}]; ", i))),
        8 => format!("digraph {{ {} }}", each(&|i| format!("m{} [shape=Mrecord, label=\"a|<p>b\", fontsize={}]; ", i, 5 + i / 2))),
        9 => format!("digraph {{ rankdir=LR; {} }}", each(&|i| format!("h -> k{}:p [color=\"#{:06x}\"]; ", i, i * 1000))),
        0 => format!("digraph {{ {} a -> b {} }}", "{".repeat(n), "}".repeat(n)),
        1 => format!("digraph {{ {} a -> b {} }}", "subgraph s {node[shape=box] ".repeat(n), "}".repeat(n)),
        2 => format!("digraph {{ a [shape=record, label=\"{}x|<p>y{}\"]; a:p -> b }}", "{".repeat(n.min(100)), "}".repeat(n.min(100))),
        3 => format!("digraph {{ a [shape=Mrecord, label=\"{}\"]; b -> a:p9 }}", (0..n).map(|i| format!("<p{}>{}|", i, i)).collect::<String>()),
        4 => format!("digraph {{ {} z }}", (0..n).map(|i| format!("a{} -> ", i)).collect::<String>()),
        _ => format!("digraph {{ {} }}", (0..n).map(|i| format!("n{}; ", i)).collect::<String>()),
    };
    c.label_if(n > 256, "more than 256 of a kind");
    c.input(s.clone());
    let o = some(t);
    drive(&s, c, &o)
}

fn main() {
    run_main(Check {
        id: "C05",
        rule: "Random programs (wild texts, all attributes with valid and broken values, ports, scopes), damaged programs, and families of larger graphs are parsed, built, laid out and written as SVG with random or all combinations of the debug, optimization and layout options. No step may panic, and the file must be a well-formed SVG document with finite numbers, unique ids, references and classes that exist, a path per edge and a shape per node. Non-trivial: an accepted program with at least one node.",
        assumptions: &["font sizes up to 999999, records nested up to 100 deep, stack of 8 MiB"],
        subs: vec![
            Sub::new("small", small, 40_000, 2_500_000).guided(),
            Sub::new("medium", medium, 10_000, 400_000).tape(6000),
            Sub::new("text", text, 30_000, 1_000_000).guided(),
            Sub::new("families", families, 1_500, 80_000).fuel(60_000_000_000),
            Sub::new("deep", deep, 2_000, 40_000).fuel(60_000_000_000),
        ],
    });
}
