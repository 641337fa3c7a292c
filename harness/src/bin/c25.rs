//! C25: the report of a rejected program points at the offending token.
#[path = "../shared/capture.rs"]
mod capture;
#[path = "../shared/dot.rs"]
mod dot;
use dot::Tok;
use layout::gv::DotParser;
use vp::*;

fn random_token(t: &mut Tape) -> Tok {
    match t.below(16) {
        0 => Tok::Id("a".into()),
        1 => Tok::Id("-7".into()),
        2 => Tok::Node,
        3 => t.pick(&[Tok::Graph, Tok::Edge, Tok::Digraph, Tok::Strict, Tok::Subgraph]).clone(),
        4 => Tok::Eq,
        5 => Tok::Colon,
        6 => Tok::Comma,
        7 => Tok::Semi,
        8 => Tok::Arrow,
        9 => Tok::Line,
        10 => Tok::LB,
        11 => Tok::RB,
        12 => Tok::LC,
        13 => Tok::RC,
        _ => Tok::Bad(*t.pick(&["@", "/", "-", "!", "|", ")", "^", "~", "?", "`", "é", "+", "\0", "\u{a0}", "\u{feff}", "#", "一", "\\", "'"])),
    }
}

fn report(s: &str) -> Result<String, String> {
    let mut lp = DotParser::new(s);
    if no_panic("parsing", || lp.process())?.is_ok() {
        return Err("an invalid program was accepted".into());
    }
    capture::stdout(|| no_panic("printing the error", || lp.print_error()))
}

fn check(t: &mut Tape, c: &mut Case, toks: &[Tok]) -> Verdict {
    let mut spans = Vec::new();
    let s = dot::print_spans(t, toks, &mut spans);
    c.input(s.clone());
    let bad = match dot::reference_error(toks) {
        Some(b) => b,
        None => {
            c.label("accepted or unspecified");
            return Ok(());
        }
    };
    let chars: Vec<char> = s.chars().collect();
    if chars.is_empty() {
        return Ok(());
    }
    // The offending characters; the end of the text, if something is missing.
    let (a, b) = match spans.get(bad) {
        Some((a, b)) => (s[..*a].chars().count(), s[..*b].chars().count()),
        None => (chars.len() - 1, chars.len()),
    };
    let at_end = bad >= spans.len();
    if chars[a..b].contains(&'\n') && !at_end {
        c.label("token of several lines");
        return Ok(());
    }
    c.nontrivial(chars.contains(&'\n'));
    c.label_if(at_end, "unfinished program");
    c.label_if(matches!(toks.get(bad), Some(Tok::Bad(_))), "illegal character");
    let mut line_end = b;
    if !at_end {
        while line_end < chars.len() && chars[line_end] != '\n' {
            line_end += 1;
        }
    } else if chars[line_end - 1] == '\n' {
        line_end -= 1;
    }
    let line_start = chars[..line_end].iter().rposition(|x| *x == '\n').map(|x| x + 1).unwrap_or(0);
    c.label_if(line_end == chars.len(), "last line without a line break");
    let shown: String = chars[..line_end].iter().collect();
    let out = report(&s)?;
    ensure!(out.starts_with(&shown), "the report does not show the program up to the error; it is {:?}", out);
    let rest = &out[shown.len()..];
    let mark = rest.trim_matches('\n');
    ensure!(
        mark.trim_start_matches(' ') == "^",
        "after the offending line the report has {:?}, expected a line with a marker",
        rest
    );
    let col = mark.chars().count() - 1;
    // One character off is fine.
    let (lo, hi) = ((a.max(line_start) - line_start).saturating_sub(1), b.max(line_start + 1) - line_start);
    ensure!(
        lo <= col && col <= hi,
        "the marker is in column {}, the offending text in columns {} to {} of {:?}",
        col,
        a.max(line_start) - line_start,
        hi - 1,
        chars[line_start..line_end].iter().collect::<String>()
    );
    Ok(())
}

fn edited(t: &mut Tape, c: &mut Case) -> Verdict {
    let o = dot::GenOpt { max_stmts: 6, max_depth: 2, names: 4, wild: false };
    let p = dot::gen_prog(t, &o);
    let mut toks = dot::tokens(t, &p);
    for _ in 0..1 + t.weighted(&[6, 2, 1]) {
        if toks.is_empty() {
            break;
        }
        let i = t.below(toks.len());
        match t.below(6) {
            0 => {
                toks.remove(i);
            }
            1 | 2 => toks.insert(i, random_token(t)),
            3 => toks[i] = random_token(t),
            4 => {
                let x = toks[i].clone();
                toks.insert(i, x);
            }
            _ => toks.truncate(i),
        }
    }
    check(t, c, &toks)
}

fn extended(t: &mut Tape, c: &mut Case) -> Verdict {
    let o = dot::GenOpt { max_stmts: 4, max_depth: 1, names: 4, wild: true };
    let p = dot::gen_prog(t, &o);
    let mut toks = dot::tokens(t, &p);
    for _ in 0..1 + t.below(3) {
        toks.push(random_token(t));
    }
    check(t, c, &toks)
}

fn main() {
    run_main(Check {
        id: "C25",
        rule: "Programs with token-level edits are rejected, and the printed report is compared with where an independent parser gets stuck: it must show the program up to the end of the line of the first token that can't be right, followed by a marker below that token (one column of tolerance). Non-trivial: a rejected program of several lines.",
        assumptions: &["offending tokens that span several lines, and the constructs that C03 leaves open, are skipped", "columns count characters"],
        subs: vec![
            Sub::new("edited", edited, 750_000, 4_000_000).guided(),
            Sub::new("extended", extended, 300_000, 1_500_000),
        ],
    });
}
