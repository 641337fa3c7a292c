//! C01: the parser is total.
#[path = "../shared/dot.rs"]
mod dot;
use layout::gv::record::record_builder;
use layout::gv::{dump_ast, DotParser};
use vp::*;

fn drive(text: &str, c: &mut Case) -> Verdict {
    let mut p = DotParser::new(text);
    let t0 = cov::work();
    let r = no_panic("parsing", || p.process())?;
    let n = cov::work() - t0;
    ensure!(n <= 2000 + RATE * text.len() as u64, "parsing {} bytes takes {} steps, more than {} for each", text.len(), n, RATE);
    match r {
        Ok(g) => {
            c.label("accepted");
            no_panic("printing the tree", || dump_ast(&g))?;
        }
        Err(e) => {
            c.label("rejected");
            ensure!(!e.trim().is_empty(), "rejected with an empty message");
            no_panic("printing the error", || p.print_error())?;
        }
    }
    Ok(())
}

/// Any text is a record label.
fn drive_record(text: &str) -> Verdict {
    let t0 = cov::work();
    let r = no_panic("reading a record label", || record_builder(text))?;
    let n = cov::work() - t0;
    drop(r);
    ensure!(n <= 2000 + RATE * text.len() as u64, "reading a record label of {} bytes takes {} steps, more than {} for each", text.len(), n, RATE);
    Ok(())
}

/// Steps (basic blocks) for each byte of a text; several times of what is needed.
const RATE: u64 = 500;

const SOUP: [&str; 48] = [
    "a", "b1", "_c", "-1", "2.5", "\"q\"", "\"\\\"", "{", "}", "[", "]", "->", "--", "-", "=", ";", ",", ":",
    "graph", "digraph", "node", "edge", "strict", "subgraph", " ", "\n", "\t", "\r", "//", "/*", "*/", "/",
    "\"", "\\", "\\n", "é", "½", "\u{0}", "\u{1}", "<", ">", "label", "x=y", "a:p", "[a=b]", "a->b", "{}", "digraph {",
];

fn soup(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut s = String::new();
    if t.chance(200) {
        s.push_str(t.pick(&["digraph {", "graph g {", "strict digraph \"x\" {", "digraph"]));
    }
    while t.chance(245) && s.len() < 3000 {
        s.push_str(*t.pick(&SOUP));
        if t.chance(60) {
            s.push(' ');
        }
    }
    if t.chance(160) {
        s.push('}');
    }
    c.nontrivial(s.len() > 8);
    c.input(s.clone());
    drive(&s, c)?;
    drive_record(&s)
}

fn raw(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = t.below(400);
    let b: Vec<u8> = (0..n).map(|_| t.u8()).collect();
    let s = String::from_utf8_lossy(&b).into_owned();
    c.nontrivial(n > 0);
    c.input(s.clone());
    drive(&s, c)?;
    drive_record(&s)
}

/// A valid program, damaged at the level of characters.
fn damaged(t: &mut Tape, c: &mut Case) -> Verdict {
    let o = dot::GenOpt { max_stmts: 8, max_depth: 3, names: 5, wild: true };
    let p = dot::gen_prog(t, &o);
    let toks = dot::tokens(t, &p);
    let mut cs: Vec<char> = dot::print(t, &toks).chars().collect();
    let k = t.below(5);
    for _ in 0..k {
        if cs.is_empty() {
            break;
        }
        let i = t.below(cs.len());
        match t.below(5) {
            0 => {
                cs.remove(i);
            }
            1 => cs.truncate(i),
            2 => {
                let x = *t.pick(&['"', '{', '}', '[', ']', '/', '*', '-', '>', '\\', '=', ';', ':', '\0', 'é', 'a', '\n', '<']);
                cs.insert(i, x);
            }
            3 => {
                let j = t.below(cs.len());
                cs.swap(i, j);
            }
            _ => {
                let j = (i + t.below(20)).min(cs.len());
                let part: Vec<char> = cs[i..j].to_vec();
                cs.splice(i..i, part);
            }
        }
    }
    let s: String = cs.into_iter().collect();
    c.nontrivial(k > 0);
    c.input(s.clone());
    drive(&s, c)?;
    drive_record(&s)
}

/// The unit with a name of its own for each repetition.
fn numbered(unit: &str, i: usize) -> String {
    match unit.find(['a', 'b', 'c', 'x', 'y', 'p', 'k', 't', 'é']) {
        Some(j) if !unit.contains("graph") => format!("{}q{}{}", &unit[..j], i, &unit[j..]),
        _ => unit.to_string(),
    }
}

/// Very large and very deep texts.
fn large(t: &mut Tape, c: &mut Case) -> Verdict {
    let unit = *t.pick(&[
        "{", "a->", "[", "subgraph {", "a;", "\"x\" ", "/*", "//\n", "-", "a:", "x=y;", "a[b=c]", "{}", "graph ", "}", "\\", "\"", "a -> b;\n",
        "node [a=b", "{a;", "// c ", "é",
    ]);
    let unit2 = *t.pick(&["", "", "}", "]", ";", "a"]);
    let n = [1usize, 10, 100, 255, 256, 257, 300, 1000, 10_000, 40_000][t.below(10)];
    let head = *t.pick(&["", "digraph {", "graph x {", "digraph { a [", "digraph { subgraph x "]);
    let mut s = String::from(head);
    let count = t.chance(100);
    for i in 0..n {
        s.push_str(&if count { numbered(unit, i) } else { unit.to_string() });
    }
    for _ in 0..n {
        s.push_str(unit2);
    }
    if t.chance(128) {
        s.push('}');
    }
    c.nontrivial(n > 1);
    c.label_if(count, "numbered");
    c.input(format!("{:?} then {} x {:?}{} then {} x {:?} ({} characters)", head, n, unit, if count { " (numbered)" } else { "" }, n, unit2, s.len()));
    drive(&s, c)
}

/// Very long tokens and very many of them: CPU time tells about copies that
/// take no steps of the crate.
fn giant(t: &mut Tape, c: &mut Case) -> Verdict {
    let (head, unit, tail) = *t.pick(&[
        ("digraph { \"", "x", "\" }"),
        ("digraph { \"", "\\\"", "\" }"),
        ("digraph { a [label=\"", "é \\n", "\"] }"),
        ("digraph { ", "x", " }"),
        ("digraph { ", "7", " }"),
        ("digraph { /*", "x", "*/ }"),
        ("digraph { //", "x", "\n }"),
        ("digraph { //", "// y\n", "\n }"),
        ("digraph { ", " ", " }"),
        ("digraph { ", "\n", " }"),
        ("digraph { ", "a;", " }"),
        ("digraph { a", "->a", " }"),
        ("digraph { a [", "k=v ", "] }"),
        ("digraph { ", "a -> b [x=y]\n", " }"),
        ("digraph { ", "{}", " }"),
        ("digraph { \"", "x", ""),
        ("digraph { ", "a\n", "] }"),
        ("digraph { ", "a ", "] }"),
        ("digraph ", "x", "{}"),
        ("digraph { a:", "x", "}"),
    ]);
    let record = t.chance(60);
    let (head, unit, tail) = if record {
        *t.pick(&[("", "x", ""), ("<", "x", "> a"), ("a|", "b|", ""), ("{", " ", "}"), ("", "<a>", ""), ("", "\n", ""), ("<p> ", "é", "|x"), ("", "{x|y}|", "z")])
    } else {
        (head, unit, tail)
    };
    let n = (1usize << 16) + (t.below(1 << 12) << t.below(9));
    let count = t.chance(100);
    let s = if count && unit.len() > 1 {
        let body: String = (0..n / unit.len()).map(|i| numbered(unit, i)).collect();
        format!("{}{}{}", head, body, tail)
    } else {
        format!("{}{}{}", head, unit.repeat(n / unit.len()), tail)
    };
    c.nontrivial(true);
    c.label(if record { "record label" } else { "program" });
    c.input(format!("{}{:?} then {} x {:?} then {:?}", if record { "a record label: " } else { "" }, head, n / unit.len(), unit, tail) + if count { " (numbered)" } else { "" });
    let t0 = cov::cpu_us();
    if record {
        drive_record(&s)?;
    } else {
        drive(&s, c)?;
    }
    let us = cov::cpu_us() - t0;
    if std::env::var("VP_CPU").is_ok() {
        eprintln!("CPU {} us for {} bytes, {:.3} each: {:?}", us, s.len(), us as f64 / s.len() as f64, unit);
    }
    ensure!(us <= 1_500_000 + 12 * s.len() as u64, "reading {} bytes takes {} microseconds, more than 12 for each", s.len(), us);
    Ok(())
}

/// Labels of records: soups of fields, and large and deep ones.
fn record(t: &mut Tape, c: &mut Case) -> Verdict {
    const FRAG: [&str; 20] = ["{", "}", "|", "<p>", "<", ">", "a", " ", "\n", "é", "{a|", "}|{", "|b}", "<q> t", "\\", "{{", "}}", "||", "\u{0}", "text"];
    let mut s = String::new();
    if t.chance(128) {
        let n = t.below(200);
        for _ in 0..n {
            s.push_str(*t.pick(&FRAG));
        }
    } else {
        for _ in 0..1 + t.below(3) {
            let unit = *t.pick(&FRAG);
            let n = [1usize, 2, 10, 100, 254, 255, 256, 257, 258, 1000, 10_000, 40_000][t.below(12)];
            if t.chance(80) {
                (0..n).for_each(|i| s.push_str(&numbered(unit, i)));
            } else {
                s.push_str(&unit.repeat(n));
            }
        }
    }
    c.nontrivial(s.contains(['{', '|']));
    let head: String = s.chars().take(300).collect();
    c.input(format!("a record label of {} characters: {:?}", s.len(), head));
    drive_record(&s)
}

fn main() {
    run_main(Check {
        id: "C01",
        rule: "Texts are made of random bytes, of soups of DOT fragments (coverage guided), of valid programs damaged at the level of characters, and of fragments repeated up to 40000 times; each is read as a program and as the label of a record. Non-trivial: the text is not (nearly) empty and, for damaged programs, at least one edit was made.",
        assumptions: &["stack of 8 MiB, as the main thread of the command line tool has"],
        subs: vec![
            Sub::new("raw", raw, 240_000, 1_000_000).fuel(100_000_000),
            Sub::new("soup", soup, 1_200_000, 6_000_000).guided().fuel(100_000_000),
            Sub::new("damaged", damaged, 640_000, 4_000_000).fuel(100_000_000),
            Sub::new("record", record, 120_000, 600_000).fuel(400_000_000),
            Sub::new("giant", giant, 240, 4_000).fuel(4_000_000_000).tape(32),
            Sub::new("large", large, 12_000, 40_000).fuel(400_000_000).tape(32),
        ],
    });
}
