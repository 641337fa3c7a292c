//! C24: the work is bounded by a polynomial of the size of the program.
#[path = "../shared/dot.rs"]
mod dot;
#[path = "../shared/progs.rs"]
mod progs;
use layout::backends::svg::SVGWriter;
use layout::gv::parser::ast;
use layout::gv::{DotParser, GraphBuilder};
use vp::*;

/// About n edges of a family.
fn graph(fam: usize, n: usize, seed: u64) -> Vec<(usize, usize)> {
    let mut e = Vec::new();
    let mut r = vp::tape::Rng::new(seed);
    match fam {
        // Diamonds in a row.
        0 => {
            for i in 0..n / 4 {
                let b = 3 * i;
                e.extend([(b, b + 1), (b, b + 2), (b + 1, b + 3), (b + 2, b + 3)]);
            }
        }
        // Complete layers of three.
        1 => {
            for i in 0..n / 9 {
                for a in 0..3 {
                    for b in 0..3 {
                        e.push((3 * i + a, 3 * i + 3 + b));
                    }
                }
            }
        }
        2 => (0..n).for_each(|i| e.push((i, i + 1))),
        3 => (0..n).for_each(|i| e.push((i, (i + 1) % n))),
        4 => (0..n).for_each(|i| e.push((i / 2, i + 1))),
        5 => (0..n).for_each(|i| e.push((0, i + 1))),
        // Ladder with all the shortcuts of two.
        6 => (0..n / 2).for_each(|i| e.extend([(i, i + 1), (i, i + 2)])),
        7 => {
            for _ in 0..n {
                let a = r.below(n);
                let b = r.below(n);
                e.push((a.min(b), a.max(b) + 1));
            }
        }
        8 => {
            for _ in 0..n {
                e.push((r.below(n / 2 + 1), r.below(n / 2 + 1)));
            }
        }
        // Tournament.
        9 => {
            let k = (2. * n as f64).sqrt() as usize;
            for i in 0..k {
                for j in 0..i {
                    e.push((j, i));
                }
            }
        }
        // Cycles back to the start.
        10 => (0..n / 2).for_each(|i| e.extend([(i, i + 1), (i + 1, 0)])),
        // Both directions.
        11 => (0..n / 2).for_each(|i| e.extend([(i, i + 1), (i + 1, i)])),
        // Long edges over a chain.
        12 => (0..n / 2).for_each(|i| e.extend([(i, i + 1), (0, i + 1)])),
        13 => (0..n).for_each(|i| e.push((i, i))),
        14 => (0..n).for_each(|_| e.push((0, 1))),
        _ => {
            let k = (n as f64).sqrt() as usize;
            for i in 0..k {
                for j in 0..k {
                    e.push((i, 1000 + j));
                }
            }
        }
    }
    e
}

const FAMILIES: [&str; 16] = [
    "diamonds", "layers", "chain", "cycle", "tree", "star", "ladder", "random dag", "random", "tournament",
    "cycles to the start", "both directions", "shortcuts", "self edges", "parallel", "bipartite",
];

/// The connections of all edge statements.
fn connections(list: &[ast::Stmt]) -> u64 {
    let mut n = 0;
    for x in list {
        match x {
            ast::Stmt::Edge(e) => n += e.to.len() as u64,
            ast::Stmt::SubGraph(g) => n += connections(&g.list.list),
            _ => {}
        }
    }
    n
}

/// Parses, builds and draws; checks the steps of each phase.
fn measure(s: &str, c: &mut Case, opt: (bool, bool, bool)) -> Verdict {
    let chars = s.chars().count() as u64;
    let t0 = cov::work();
    let g = no_panic("parsing", || DotParser::new(s).process())?;
    let parse = cov::work() - t0;
    ensure!(
        parse <= 4000 + 150 * chars,
        "parsing {} characters takes {} steps, more than 150 for each",
        chars,
        parse
    );
    let g = match g {
        Ok(g) => g,
        Err(_) => {
            c.label("rejected");
            return Ok(());
        }
    };
    let t0 = cov::work();
    let mut vg = no_panic("building", || {
        let mut gb = GraphBuilder::new();
        gb.visit_graph(&g);
        gb.get()
    })?;
    let build = cov::work() - t0;
    ensure!(
        build <= 20_000 + 1500 * chars + 3 * chars * chars,
        "building the graph of {} characters takes {} steps",
        chars,
        build
    );
    let nodes = vg.num_nodes() as u64;
    let edges = connections(&g.list.list);
    let t0 = cov::work();
    no_panic("drawing", || {
        let mut w = SVGWriter::new();
        vg.do_it(opt.0, opt.1, opt.2, &mut w);
        w.finalize()
    })?;
    let draw = cov::work() - t0;
    // Including the invisible elements of long edges.
    let all = vg.num_nodes() as u64 + 4;
    let n = all + edges;
    ensure!(
        draw <= 300_000 + 400 * chars + 10_000 * n * n + 100 * n * n * n,
        "drawing {} nodes ({} elements with those of long edges) and {} edges of {} characters takes {} steps",
        nodes,
        all - 4,
        edges,
        chars,
        draw
    );
    c.nontrivial(all > 8);
    if let Ok(p) = std::env::var("VP_MEASURE") {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(p).expect("log");
        let _ = f.write_all(format!("{} {} {} {} {} {}\n", chars, all, parse, build, draw, s.len().min(40)).as_bytes());
    }
    Ok(())
}

fn opts(t: &mut Tape) -> (bool, bool, bool) {
    let k = t.weighted(&[5, 1, 1, 1, 1]);
    (k & 1 > 0, k & 2 > 0, k & 4 > 0)
}

fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    let fam = t.below(FAMILIES.len());
    // The families with long edges grow faster.
    let most = if matches!(fam, 7..=10 | 12) { 36 } else { 160 };
    let n = 2 + t.below(most) * t.below(most) / most;
    let e = graph(fam, n, t.u64());
    let sub = t.chance(40);
    let head = *t.pick(&["", "rankdir=LR;", "node [shape=record, label=\"a|{b|c}|<p>d\"];", "edge [label=\"some text\"];", "node [shape=box];"]);
    let mut s = format!("digraph {{ {}", head);
    for (a, b) in &e {
        // Backwards too, to make the first node the last one.
        if sub {
            s.push_str(&format!("n{} -> n{};", b, a));
        } else {
            s.push_str(&format!("n{} -> n{};", a, b));
        }
    }
    s.push('}');
    let o = opts(t);
    c.input(format!("{:?} {} of {} edges: {}", o, FAMILIES[fam], e.len(), s));
    c.label(FAMILIES[fam]);
    measure(&s, c, o)
}

/// Several diamonds, layers and random parts, one after the other.
fn mixed(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut base = 0;
    let mut s = String::from("digraph {");
    let mut fams = Vec::new();
    for _ in 0..1 + t.below(4) {
        let fam = *t.pick(&[0usize, 1, 0, 1, 6, 2, 11, 3, 4]);
        let n = 1 + t.below(36);
        let e = graph(fam, n, t.u64());
        fams.push(FAMILIES[fam]);
        let mut top = base;
        for (a, b) in &e {
            s.push_str(&format!("n{} -> n{};", base + a, base + b));
            top = top.max(base + a.max(b));
        }
        base = if t.chance(64) { top + 1 } else { top };
    }
    s.push('}');
    let o = opts(t);
    c.input(format!("{:?} {:?}: {}", o, fams, s));
    measure(&s, c, o)
}

/// Programs with a part that is repeated many times.
fn text(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = 1 + t.below(4000) * t.below(256) / 256;
    let k = t.below(26);
    // Numbered: each repetition of "#" is another name.
    let count = t.chance(128);
    let rep = |x: &str, n: usize| if count { (0..n).map(|i| x.replace('#', &i.to_string())).collect() } else { x.replace('#', "").repeat(n) };
    let r = |x: &str| rep(x, n);
    let few = n.min(150);
    let s = match k {
        0 => format!("digraph {{ a [label=\"{}\"] }}", r("word ")),
        1 => format!("digraph {{ a [label=\"{}\"] }}", r("\\n")),
        2 => format!("digraph {{ a [label=\"{}\"] }}", r("<&>")),
        3 => format!("digraph {{ {} }}", r(" \n")),
        4 => format!("digraph {{ /* {} */ a }}", r("* /")),
        5 => format!("digraph {{ {} a }}", r("/**/")),
        6 => format!("digraph {{ {} a }}", r("// comment #\n")),
        7 => format!("digraph {{ {} }}", r("x")),
        8 => format!("digraph {{ {} }}", r("1")),
        9 => format!("digraph {{ a [{}] }}", r("k#=v#,")),
        10 => format!("digraph {{ {} }}", r("k#=v ")),
        11 => format!("digraph {{ a [shape=record, label=\"{}\"] }}", rep("a#|", few)),
        12 => format!("digraph {{ a [shape=record, label=\"{}x{}\"] }}", "{".repeat(few / 2), "}".repeat(few / 2)),
        13 => format!("digraph {{ a [shape=record, label=\"{}\"] }}", rep("<p#>x|", few)),
        14 => format!("digraph {{ {} a {} }}", "{".repeat(few), "}".repeat(few)),
        15 => format!("digraph {{ {} a }}", "{ } ".repeat(n)),
        16 => format!("digraph {{ {} }}", r("a -> a; ").chars().take(2000).collect::<String>()),
        17 => format!("digraph {{ {} }}", rep("a#; ", n.min(1000))),
        18 => format!("digraph {{ {} a }}", rep("node [shape=box, c#=red];", n.min(1000))),
        19 => format!("digraph {{ {} a {} }}", rep("subgraph s# { node [x#=y] ", few), "}".repeat(few)),
        20 => format!("digraph {{ a -> b [label=\"{}\"] }}", r("text\n")),
        21 => format!("digraph {{ {} }}", "[".repeat(n)),
        22 => format!("digraph {{ \"{}\" -> b:\"{}\" }}", r("é"), r("\\\"")),
        23 => format!("graph {{ {} }}", rep("{ node [a#=x] b# } ", n.min(600))),
        24 => format!("graph {{ a{} }}", rep(" -- b#", n.min(300))),
        _ => format!("digraph {{ {} }}", (0..few).map(|i| format!("node [a{}=x]; n{} ", i, i)).collect::<String>()),
    };
    c.nontrivial(n > 20);
    c.input(format!("kind {} times {}: {}", k, n, s.chars().take(200).collect::<String>()));
    let o = opts(t);
    measure(&s, c, o)
}

fn programs(t: &mut Tape, c: &mut Case) -> Verdict {
    let p = dot::Prog { strict: false, directed: true, name: None, list: progs::list(t, 10, 20, 0) };
    let toks = dot::tokens(t, &p);
    let s = dot::print(t, &toks);
    c.input(s.clone());
    let o = opts(t);
    measure(&s, c, o)
}

fn main() {
    run_main(Check {
        id: "C24",
        rule: "Graphs of sixteen families (diamonds, complete layers, tournaments, long edges, cycles, ...), mixtures of them, programs that repeat a part many times, and random programs are parsed, built and drawn; the executed basic-block edges of the crate are counted (a deterministic measure of work) and must stay below 150 per character for parsing, a quadratic polynomial of the length for building, and 10000 per square plus 100 per cube of the number of elements (nodes, connections, and the invisible elements of long edges) for drawing. Non-trivial: more than four elements, or more than twenty repetitions.",
        assumptions: &["work inside the standard library is not counted", "the number of elements of long edges is taken from the graph, and is itself at most nodes plus edges times ranks"],
        subs: vec![
            Sub::new("families", families, 2_500, 100_000).fuel(60_000_000_000).tape(128),
            Sub::new("mixed", mixed, 2_500, 100_000).fuel(60_000_000_000).tape(128),
            Sub::new("text", text, 4_000, 100_000).fuel(60_000_000_000).tape(128),
            Sub::new("programs", programs, 8_000, 200_000).fuel(60_000_000_000),
        ],
    });
}
