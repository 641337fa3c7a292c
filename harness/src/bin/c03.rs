//! C03: the accepted language, against an independent parser.
#[path = "../shared/dot.rs"]
mod dot;
#[path = "../shared/libast.rs"]
mod libast;
use dot::{Ref, Tok};
use layout::gv::DotParser;
use vp::*;

fn random_token(t: &mut Tape) -> Tok {
    match t.below(18) {
        0 | 1 => Tok::Id("a".into()),
        2 => Tok::Id("-7".into()),
        3 => Tok::Id("node".into()),
        4 => Tok::Graph,
        5 => Tok::Node,
        6 => Tok::Edge,
        7 => t.pick(&[Tok::Digraph, Tok::Strict, Tok::Subgraph]).clone(),
        8 => Tok::Eq,
        9 => Tok::Colon,
        10 => Tok::Comma,
        11 => Tok::Semi,
        12 => t.pick(&[Tok::Arrow, Tok::Line]).clone(),
        13 => Tok::LB,
        14 => Tok::RB,
        15 => Tok::LC,
        16 => Tok::RC,
        _ => Tok::Bad(*t.pick(&["@", "/", "-", "!", "|", ")", "^", "~", "?", "`", "#", "$", "%", "+", "*", "\\", "(", "&", "'", ".", "<", ">", "\0", "\u{1}", "\u{b}", "\u{1a}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2003}", "\u{3000}", "\u{feff}", "\u{200b}", "\u{2212}", "\u{2192}", "é", "Ω", "٣", "½", "²", "一", "→", "“", "；", "｛"])),
    }
}

fn compare(t: &mut Tape, c: &mut Case, toks: &[Tok], tail: &str) -> Verdict {
    let mut s = dot::print(t, toks);
    s.push_str(tail);
    c.input(s.clone());
    let mut exp = dot::reference_parse(toks);
    if !tail.is_empty() {
        exp = Ref::Reject;
    }
    let mut lp = DotParser::new(&s);
    let got = no_panic("parsing", || lp.process())?;
    match (exp, got) {
        (Ref::Unspecified, _) => {
            c.label("unspecified");
            Ok(())
        }
        (Ref::Accept(p), Ok(g)) => {
            c.label("both accept");
            libast::same(&dot::normal(&p.list), &libast::list(&g.list), "program")
        }
        (Ref::Reject, Err(_)) => {
            c.label("both reject");
            Ok(())
        }
        (Ref::Accept(_), Err(e)) => Err(format!("a valid program was rejected: {}", e)),
        (Ref::Reject, Ok(_)) => Err("an invalid program was accepted".into()),
    }
}

/// A valid program with a few token-level edits.
fn edited(t: &mut Tape, c: &mut Case) -> Verdict {
    let o = dot::GenOpt { max_stmts: 6, max_depth: 2, names: 4, wild: false };
    let p = dot::gen_prog(t, &o);
    let mut toks = dot::tokens(t, &p);
    let k = 1 + t.weighted(&[6, 3, 1]);
    for _ in 0..k {
        if toks.is_empty() {
            break;
        }
        let i = t.below(toks.len());
        match t.below(5) {
            0 => {
                toks.remove(i);
            }
            1 => toks.insert(i, random_token(t)),
            2 => toks[i] = random_token(t),
            3 => {
                let j = t.below(toks.len());
                toks.swap(i, j);
            }
            _ => {
                let x = toks[i].clone();
                toks.insert(i, x);
            }
        }
    }
    c.nontrivial(true);
    compare(t, c, &toks, "")
}

/// A random token sequence inside a graph.
fn sequence(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut toks = vec![Tok::Digraph, Tok::LC];
    let n = t.below(10);
    for _ in 0..n {
        toks.push(random_token(t));
    }
    if t.chance(220) {
        toks.push(Tok::RC);
    }
    c.nontrivial(n > 1);
    compare(t, c, &toks, "")
}

/// What comes before and after the graph.
fn framing(t: &mut Tape, c: &mut Case) -> Verdict {
    let o = dot::GenOpt { max_stmts: 3, max_depth: 1, names: 4, wild: true };
    let p = dot::gen_prog(t, &o);
    let mut toks = dot::tokens(t, &p);
    c.nontrivial(true);
    match t.below(4) {
        0 => {
            let k = 1 + t.below(toks.len());
            toks.truncate(toks.len() - k);
            compare(t, c, &toks, "")
        }
        1 => {
            let k = 1 + t.below(3);
            for _ in 0..k {
                toks.push(random_token(t));
            }
            compare(t, c, &toks, "")
        }
        2 => {
            let x = random_token(t);
            let i = t.below(3).min(toks.len());
            toks.insert(i, x);
            compare(t, c, &toks, "")
        }
        _ => {
            // A string that is never closed.
            let cut = t.below(toks.len());
            toks.truncate(toks.len() - cut);
            let tail = *t.pick(&[" \"", " \"abc", " \"a\\\"", " \" }"]);
            // Keep a comment at the end of the program from swallowing it.
            let tail2 = format!("\n{}", tail);
            compare(t, c, &toks, &tail2)
        }
    }
}

fn main() {
    run_main(Check {
        id: "C03",
        rule: "Token sequences (valid programs with token-level edits, random sequences, truncated and extended programs) are written as text and given to the crate and to an independent recursive-descent parser; both must accept (with the same tree) or both must reject. Non-trivial: at least one edit, or at least two random tokens.",
        assumptions: &["nothing is claimed about empty statements (;;), ',' after ';' in a list, a second attribute list, edges that end in subgraphs, compass points, and a top-level 'subgraph': the language and the implemented subset differ there"],
        subs: vec![
            Sub::new("edited", edited, 800_000, 4_000_000),
            Sub::new("sequence", sequence, 800_000, 4_000_000).guided(),
            Sub::new("framing", framing, 300_000, 1_500_000),
        ],
    });
}
