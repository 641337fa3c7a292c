//! C02: parsing is faithful for every way of writing a program down.
#[path = "../shared/dot.rs"]
mod dot;
#[path = "../shared/libast.rs"]
mod libast;
use layout::gv::DotParser;
use vp::*;

fn check(t: &mut Tape, c: &mut Case, o: &dot::GenOpt) -> Verdict {
    let p = dot::gen_prog(t, o);
    let toks = dot::tokens(t, &p);
    let s = dot::print(t, &toks);
    c.nontrivial(!p.list.is_empty());
    c.label_if(s.contains("/*") || s.contains("//"), "has comments");
    c.label_if(s.contains('\\'), "has escapes");
    c.label_if(toks.contains(&dot::Tok::Colon), "has ports");
    c.label_if(p.list.iter().any(|s| matches!(s, dot::St::Sub { .. })), "has scopes");
    c.input(s.clone());
    let mut lp = DotParser::new(&s);
    let g = match no_panic("parsing", || lp.process())? {
        Ok(g) => g,
        Err(e) => return Err(format!("a valid program was rejected: {}", e)),
    };
    if let Some(n) = &p.name {
        ensure!(*n == g.name, "the graph is named {:?}, parsed {:?}", n, g.name);
    }
    libast::same(&dot::normal(&p.list), &libast::list(&g.list), "program")
}

fn plain(t: &mut Tape, c: &mut Case) -> Verdict {
    check(t, c, &dot::GenOpt { max_stmts: 10, max_depth: 3, names: 6, wild: false })
}
fn wild(t: &mut Tape, c: &mut Case) -> Verdict {
    check(t, c, &dot::GenOpt { max_stmts: 8, max_depth: 4, names: 6, wild: true })
}
/// Many statements, long lists, long texts.
fn big(t: &mut Tape, c: &mut Case) -> Verdict {
    check(t, c, &dot::GenOpt { max_stmts: 120, max_depth: 2, names: 40, wild: true })
}

fn main() {
    run_main(Check {
        id: "C02",
        rule: "A syntax tree is generated, then written as text with random white space, comments, quoting, escapes and optional separators; the crate's tree must equal the generated one. Non-trivial: at least one statement.",
        assumptions: &["identifiers hold no NUL character; bare identifiers are ASCII names and numerals; line breaks are not escaped by a backslash in front of them; bodies of line comments hold no carriage return"],
        subs: vec![
            Sub::new("plain", plain, 300_000, 1_500_000).guided(),
            Sub::new("wild", wild, 600_000, 4_000_000),
            Sub::new("big", big, 20_000, 150_000).tape(60_000),
        ],
    });
}
