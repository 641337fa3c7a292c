//! C26: the dump of the syntax tree shows the whole program.
#[path = "../shared/capture.rs"]
mod capture;
#[path = "../shared/dot.rs"]
mod dot;
use dot::{Nid, St};
use layout::gv::{dump_ast, DotParser};
use vp::*;

/// One entry per line of the dump: the texts which that line has to show.
type Line = Vec<String>;

fn nid(n: &Nid) -> String {
    match &n.port {
        Some(p) => format!("{}:{}", n.name, p),
        None => n.name.clone(),
    }
}
fn attrs(a: &[(String, String)], out: &mut Vec<Line>) {
    for (k, v) in a {
        out.push(vec![k.clone(), v.clone()]);
    }
}
fn lines(l: &[St], out: &mut Vec<Line>) {
    for s in l {
        match s {
            St::Node { id, attrs: a } => {
                out.push(vec!["Node".into(), nid(id)]);
                attrs(a, out);
            }
            St::Edge { from, to, attrs: a } => {
                out.push(vec![nid(from)]);
                for (n, arrow) in to {
                    out.push(vec![(if *arrow { "->" } else { "--" }).into()]);
                    out.push(vec![nid(n)]);
                }
                attrs(a, out);
            }
            St::Attr { target, attrs: a } => {
                out.push(vec!["Attribute".into(), (["Graph", "Node", "Edge", "Graph"][*target as usize]).into()]);
                attrs(a, out);
            }
            St::Sub { name, list } => {
                out.push(vec!["Graph".into(), name.clone().unwrap_or_default()]);
                lines(list, out);
            }
        }
    }
}

/// Names and values in one line each.
fn tame(l: &mut [St]) {
    let f = |s: &mut String| *s = s.replace(['\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'], "_");
    let n = |x: &mut Nid| {
        f(&mut x.name);
        if let Some(p) = &mut x.port {
            f(p)
        }
    };
    let a = |v: &mut Vec<(String, String)>| {
        for (k, x) in v {
            f(k);
            f(x);
        }
    };
    for s in l {
        match s {
            St::Node { id, attrs } => {
                n(id);
                a(attrs);
            }
            St::Edge { from, to, attrs } => {
                n(from);
                to.iter_mut().for_each(|x| n(&mut x.0));
                a(attrs);
            }
            St::Attr { attrs, .. } => a(attrs),
            St::Sub { name, list } => {
                if let Some(x) = name {
                    f(x)
                }
                tame(list)
            }
        }
    }
}

fn run(t: &mut Tape, c: &mut Case, o: &dot::GenOpt) -> Verdict {
    let mut p = dot::gen_prog(t, o);
    tame(&mut p.list);
    p.name = Some("the name".into());
    let toks = dot::tokens(t, &p);
    let s = dot::print(t, &toks);
    c.input(s.clone());
    let g = no_panic("parsing", || DotParser::new(&s).process())?.map_err(|e| format!("a valid program was rejected: {}", e))?;
    let out = capture::stdout(|| no_panic("dumping", || dump_ast(&g)))?;
    let mut exp = vec![vec!["Graph".to_string(), "the name".into()]];
    lines(&p.list, &mut exp);
    c.nontrivial(exp.len() > 3);
    c.label_if(p.list.iter().any(|s| matches!(s, St::Sub { .. })), "scopes");
    let got: Vec<&str> = out.split('\n').collect();
    for (i, e) in exp.iter().enumerate() {
        let line = got.get(i).copied().unwrap_or("");
        let mut rest = line;
        for x in e {
            match rest.find(&x[..]) {
                Some(k) => rest = &rest[k + x.len()..],
                None => return Err(format!("line {} of the dump should show {:?}; it is {:?}", i, e, line)),
            }
        }
    }
    ensure!(
        got[exp.len()..].iter().all(|x| x.trim().is_empty()),
        "the dump shows {:?}, which is not in the program",
        &got[exp.len()..]
    );
    Ok(())
}

fn plain(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &dot::GenOpt { max_stmts: 8, max_depth: 3, names: 6, wild: false })
}
fn wild(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &dot::GenOpt { max_stmts: 5, max_depth: 2, names: 6, wild: true })
}
/// Many statements.
fn crowd(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, &dot::GenOpt { max_stmts: 400, max_depth: 1, names: 2, wild: false })
}

fn main() {
    run_main(Check {
        id: "C26",
        rule: "A random program is parsed and its syntax tree dumped; the dump must have a line for the graph and for every statement, node reference, connector and attribute, in the order of the program, that shows its name, port, key and value, and nothing else. Non-trivial: at least four lines.",
        assumptions: &["names and values without line breaks"],
        subs: vec![
            Sub::new("plain", plain, 480_000, 3_000_000).guided(),
            Sub::new("wild", wild, 480_000, 3_000_000),
            Sub::new("crowd", crowd, 4_000, 100_000).tape(12_000),
        ],
    });
}
