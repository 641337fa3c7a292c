//! C11: the drawing is a function of the program's meaning.
#[path = "../shared/dot.rs"]
mod dot;
#[path = "../shared/progs.rs"]
mod progs;
use dot::{Prog, St};
use layout::backends::svg::SVGWriter;
use layout::gv::{DotParser, GraphBuilder};
use vp::*;

fn render(text: &str, o: (bool, bool, bool)) -> Result<String, String> {
    no_panic("rendering", || {
        let g = DotParser::new(text).process().map_err(|e| format!("a valid program was rejected: {}", e))?;
        let mut gb = GraphBuilder::new();
        gb.visit_graph(&g);
        let mut vg = gb.get();
        let mut w = SVGWriter::new();
        vg.do_it(o.0, o.1, o.2, &mut w);
        let a = w.finalize();
        if a != w.finalize() {
            return Err("the same writer gives two different documents".to_string());
        }
        Ok(a)
    })?
}

fn differ(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(60)..(i + 60).min(s.len())]).into_owned();
    format!("first difference: {:?} and {:?}", cut(a), cut(b))
}

/// Gives every node that is mentioned an explicit label.
fn label_all(l: &mut Vec<St>) {
    fn collect(l: &[St], v: &mut Vec<String>) {
        for s in l {
            match s {
                St::Node { id, .. } => v.push(id.name.clone()),
                St::Edge { from, to, .. } => {
                    v.push(from.name.clone());
                    v.extend(to.iter().map(|x| x.0.name.clone()));
                }
                St::Sub { list, .. } => collect(list, v),
                _ => {}
            }
        }
    }
    let mut v = Vec::new();
    collect(l, &mut v);
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    for (i, n) in v.iter().enumerate() {
        let id = dot::Nid { name: n.clone(), port: None };
        l.push(St::Node { id, attrs: vec![("label".into(), format!("label {}", i))] });
    }
}

fn rename(l: &mut [St], f: &dyn Fn(&str) -> String) {
    for s in l {
        match s {
            St::Node { id, .. } => id.name = f(&id.name),
            St::Edge { from, to, .. } => {
                from.name = f(&from.name);
                for x in to {
                    x.0.name = f(&x.0.name);
                }
            }
            St::Sub { list, .. } => rename(list, f),
            _ => {}
        }
    }
}

/// Reorders the attributes of every list, if their keys differ.
fn shuffle(t: &mut Tape, l: &mut [St]) {
    for s in l {
        match s {
            St::Node { attrs, .. } | St::Edge { attrs, .. } | St::Attr { attrs, .. } => {
                let keys: std::collections::BTreeSet<&String> = attrs.iter().map(|a| &a.0).collect();
                if keys.len() == attrs.len() {
                    for i in 1..attrs.len() {
                        let j = t.below(i + 1);
                        attrs.swap(i, j);
                    }
                }
            }
            St::Sub { list, .. } => shuffle(t, list),
        }
    }
}

fn opts(t: &mut Tape) -> (bool, bool, bool) {
    let k = t.weighted(&[4, 1, 1, 1, 1]);
    (k & 1 > 0, k & 2 > 0, k & 4 > 0)
}

fn gen(t: &mut Tape, k: usize, max: usize) -> Prog {
    Prog { strict: false, directed: true, name: None, list: progs::list(t, k, max, 0) }
}

fn repeat(t: &mut Tape, c: &mut Case) -> Verdict {
    let o = opts(t);
    let (k, max) = *t.pick(&[(4, 6), (8, 14), (12, 20)]);
    let p = gen(t, k, max);
    let toks = dot::tokens(t, &p);
    let s = dot::print(t, &toks);
    c.input(format!("{:?} {}", o, s));
    let a = render(&s, o)?;
    c.nontrivial(a.matches("<tspan").count() > 1);
    // Something else is drawn in between.
    let other = gen(t, 3, 3);
    let toks = dot::tokens(t, &other);
    let between = dot::print(t, &toks);
    render(&between, o)?;
    for _ in 0..2 {
        let b = render(&s, o)?;
        ensure!(a == b, "the same program is drawn in two ways; {}", differ(&a, &b));
    }
    Ok(())
}

fn writing(t: &mut Tape, c: &mut Case) -> Verdict {
    let o = opts(t);
    let p = gen(t, 6, 10);
    let toks = dot::tokens(t, &p);
    let s = dot::print(t, &toks);
    let mut q = Prog { list: p.list.clone(), name: Some("another name".into()), ..p.clone() };
    shuffle(t, &mut q.list);
    let toks = dot::tokens(t, &q);
    let s2 = dot::print(t, &toks);
    c.input(format!("{:?} {}\n---\n{}", o, s, s2));
    let (a, b) = (render(&s, o)?, render(&s2, o)?);
    c.nontrivial(a.matches("<tspan").count() > 1 && s != s2);
    ensure!(a == b, "two ways of writing the program down are drawn differently; {}", differ(&a, &b));
    Ok(())
}

fn naming(t: &mut Tape, c: &mut Case) -> Verdict {
    let o = opts(t);
    let mut p = gen(t, 6, 10);
    label_all(&mut p.list);
    let toks = dot::tokens(t, &p);
    let s = dot::print(t, &toks);
    let mut q = p.clone();
    let k = t.below(4);
    rename(&mut q.list, &|n| match k {
        0 => format!("x{}", n),
        1 => n.chars().rev().collect::<String>() + "_",
        2 => {
            // Another order of the names.
            let h = n.bytes().fold(7u64, |h, b| h.wrapping_mul(1099511628211).wrapping_add(b as u64));
            format!("{:016x} {}", h, n)
        }
        _ => format!("{} and a much longer name than before, with \"quotes\"", n),
    });
    let toks = dot::tokens(t, &q);
    let s2 = dot::print(t, &toks);
    c.input(format!("{:?} {}\n---\n{}", o, s, s2));
    let (a, b) = (render(&s, o)?, render(&s2, o)?);
    c.nontrivial(a.matches("<tspan").count() > 1);
    ensure!(a == b, "the names of the nodes change the drawing; {}", differ(&a, &b));
    Ok(())
}

/// Programs of many nodes: chains, trees, grids and random edges.
fn many(t: &mut Tape) -> Prog {
    let max = if t.chance(30) { 140 } else { 50 };
    let n = t.range(9, max);
    let id = |i: usize| dot::Nid { name: if i % 7 == 3 { format!("{}{}", "k".repeat(i % 5 + 1), i) } else { format!("n{}", i) }, port: None };
    let kind = t.below(6);
    let mut l: Vec<St> = Vec::new();
    if t.chance(80) {
        l.push(St::Attr { target: t.below(3) as u8, attrs: progs::attrs(t, 2) });
    }
    let first = t.chance(128);
    if first {
        l.extend((0..n).map(|i| St::Node { id: id(i), attrs: Vec::new() }));
    }
    let mut pairs: Vec<(usize, usize)> = match kind {
        0 => (1..n).map(|i| (i - 1, i)).collect(),
        1 => (1..n).map(|i| ((i - 1) / 3, i)).collect(),
        2 => (1..n).map(|i| (0, i)).collect(),
        3 => (0..n - 5).flat_map(|i| [(i, i + 5), (i, i + if i % 5 < 4 { 1 } else { 5 })]).collect(),
        4 => Vec::new(),
        _ => (1..n).map(|i| (i, (i - 1) / 2)).collect(),
    };
    let more = if kind == 4 { n } else { 6 };
    for _ in 0..t.below(more) {
        pairs.push((t.below(n), t.below(n)));
    }
    if n > 60 {
        pairs.truncate(90);
    }
    for (a, b) in pairs {
        let attrs = if t.chance(16) { progs::attrs(t, 2) } else { Vec::new() };
        l.push(St::Edge { from: id(a), to: vec![(id(b), true)], attrs });
    }
    if t.chance(128) {
        for _ in 0..5 {
            let i = t.below(n);
            l.push(St::Node { id: id(i), attrs: progs::attrs(t, 3) });
        }
    }
    Prog { strict: false, directed: true, name: None, list: l }
}

/// All three relations for programs of many nodes.
fn big(t: &mut Tape, c: &mut Case) -> Verdict {
    let o = opts(t);
    let mut p = many(t);
    let mut q = p.clone();
    let what = match t.below(3) {
        0 => "again",
        1 => {
            shuffle(t, &mut q.list);
            "written differently"
        }
        _ => {
            label_all(&mut p.list);
            q = p.clone();
            let k = t.below(4);
            rename(&mut q.list, &|n| {
                let h = n.bytes().fold(k as u64, |h, b| (h ^ b as u64).wrapping_mul(1099511628211));
                match k {
                    0 => format!("x{:016x}", h),
                    1 => n.chars().rev().collect::<String>() + "_",
                    _ => format!("{}{}", "y".repeat(1 + (h >> 7) as usize % 30), h),
                }
            });
            "other names"
        }
    };
    let toks = dot::tokens(t, &p);
    let s = dot::print(t, &toks);
    let s2 = if what == "again" {
        s.clone()
    } else {
        let toks = dot::tokens(t, &q);
        dot::print(t, &toks)
    };
    c.label(what);
    c.input(format!("{:?} {}\n---\n{}", o, s, s2));
    c.nontrivial(true);
    let (a, b) = (render(&s, o)?, render(&s2, o)?);
    ensure!(a == b, "two drawings of the same program differ ({}); {}", what, differ(&a, &b));
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C11",
        rule: "A random program is rendered three times with another program in between (every map in the crate is then seeded anew); is written down in another way (white space, comments, quoting, separators, order of attributes with different keys, graph name); or, with all nodes labelled, gets other node names. The SVG text must be the same, byte for byte. Non-trivial: at least two lines of text are drawn.",
        assumptions: &[],
        subs: vec![
            Sub::new("repeat", repeat, 15_000, 500_000).guided(),
            Sub::new("writing", writing, 30_000, 1_000_000),
            Sub::new("naming", naming, 30_000, 1_000_000),
            Sub::new("big", big, 900, 40_000).fuel(60_000_000_000),
        ],
    });
}
