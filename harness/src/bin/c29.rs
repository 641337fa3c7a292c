//! C29: shorthand draws as the plain program that it stands for.
#[path = "../shared/dot.rs"]
mod dot;
#[path = "../shared/scope.rs"]
mod scope;
use dot::{Nid, St};
use layout::backends::svg::SVGWriter;
use layout::gv::{DotParser, GraphBuilder};
use scope::{Model, Props};
use vp::*;

fn draw(s: &str, o: (bool, bool, bool)) -> Result<String, String> {
    let g = match no_panic("parsing", || DotParser::new(s).process())? {
        Ok(g) => g,
        Err(e) => return Err(format!("a valid program was rejected: {}", e)),
    };
    no_panic("drawing", || {
        let mut gb = GraphBuilder::new();
        gb.visit_graph(&g);
        let mut vg = gb.get();
        let mut w = SVGWriter::new();
        vg.do_it(o.0, o.1, o.2, &mut w);
        w.finalize()
    })
}

fn attrs(p: &Props) -> dot::Attrs {
    p.iter().map(|x| (x.0.clone(), x.1.clone())).collect()
}

/// One statement for each node, then one for each connection.
fn plain(m: &Model) -> Vec<St> {
    let mut v = Vec::new();
    if !m.graph.is_empty() {
        v.push(St::Attr { target: 0, attrs: attrs(&m.graph) });
    }
    for (n, p) in m.names.iter().zip(&m.nodes) {
        v.push(St::Node { id: Nid { name: n.clone(), port: None }, attrs: attrs(p) });
    }
    for e in &m.edges {
        let from = Nid { name: m.names[e.from].clone(), port: e.ports.0.clone() };
        let to = Nid { name: m.names[e.to].clone(), port: e.ports.1.clone() };
        v.push(St::Edge { from, to: vec![(to, e.arrow)], attrs: attrs(&e.props) });
    }
    v
}

fn run(t: &mut Tape, c: &mut Case, max: usize) -> Verdict {
    let mut m = Model { node_stack: vec![Props::new()], edge_stack: vec![Props::new()], ..Model::default() };
    let list = scope::gen(t, &mut m, 0, max);
    let chains = list.iter().any(|s| matches!(s, St::Edge { to, .. } if to.len() > 1));
    let defaults = list.iter().any(|s| matches!(s, St::Attr { target: 1 | 2, attrs } if !attrs.is_empty()));
    let p = dot::Prog { strict: false, directed: true, name: None, list };
    let toks = dot::tokens(t, &p);
    let s = dot::print(t, &toks);
    let q = dot::Prog { list: plain(&m), ..p };
    let toks = dot::tokens(t, &q);
    let r = dot::print(t, &toks);
    let o = (t.chance(40), t.chance(50), t.chance(50));
    c.input(format!("debug {}, no_opt {}, no_layout {}: {}\n--- stands for ---\n{}", o.0, o.1, o.2, s, r));
    c.nontrivial(!m.edges.is_empty() || m.names.len() > 1);
    c.label_if(m.inner, "inner scopes");
    c.label_if(m.redeclared, "nodes declared again");
    c.label_if(chains, "chains");
    c.label_if(defaults, "defaults");
    let a = draw(&s, o)?;
    let b = draw(&r, o)?;
    if a != b {
        let i = a.bytes().zip(b.bytes()).take_while(|x| x.0 == x.1).count();
        let at = |x: &str| String::from_utf8_lossy(&x.as_bytes()[i.saturating_sub(40).min(x.len())..(i + 80).min(x.len())]).into_owned();
        return Err(format!("the documents differ: {:?} and, for the plain program, {:?}", at(&a), at(&b)));
    }
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 6)
}
fn large(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 25)
}

fn main() {
    run_main(Check {
        id: "C29",
        rule: "Random programs with nested scopes, defaults, chains, ports, repeated attributes and repeated declarations are drawn with random options, and so are the plain programs that a model of the language makes of them (each node declared once, in the order of first mention; one statement for each connection); the documents must be the same byte for byte. Non-trivial: an edge, or two nodes.",
        assumptions: &["whether defaults apply again to a node that is declared again is not specified (there the value is given explicitly)"],
        subs: vec![
            Sub::new("small", small, 60_000, 1_500_000).guided(),
            Sub::new("large", large, 5_000, 150_000).tape(5000),
        ],
    });
}
