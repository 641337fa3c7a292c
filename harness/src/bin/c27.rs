//! C27: texts fit into their shapes and never overlap.
#[path = "../shared/dot.rs"]
mod dot;
#[path = "../shared/svgdoc.rs"]
mod svgdoc;
use dot::{Nid, Prog, St};
use layout::backends::svg::SVGWriter;
use layout::gv::{DotParser, GraphBuilder};
use std::collections::HashMap;
use vp::xml::{self, Node};
use vp::*;

type B = (f64, f64, f64, f64);

/// Node texts have small letters, edge texts capitals: they can be told apart.
fn text(t: &mut Tape, edge: bool, nl: bool) -> String {
    let n = if t.chance(4) { t.range(7, 30) } else { t.weighted(&[12, 5, 3, 1]) };
    let mut v = Vec::new();
    for _ in 0..n + 1 {
        let k = match t.below(6) {
            0 if t.chance(10) => t.range(41, 300),
            0 => t.range(10, 40),
            1 => 1,
            _ => t.range(1, 9),
        };
        let mut s = String::new();
        for _ in 0..k {
            let c = match t.below(10) {
                0 => ' ',
                1 => *t.pick(&['é', '日', '&', '<', '"']),
                _ => (b'a' + t.below(26) as u8) as char,
            };
            s.push(if edge { c.to_ascii_uppercase() } else { c });
        }
        // Something to see at both ends.
        let e = if edge { 'E' } else { 'n' };
        v.push(format!("{}{}{}", e, s, e));
    }
    if nl && t.chance(25) {
        // Lines without any text.
        v.insert(t.below(v.len() + 1), String::new());
    }
    let mut s = v.join(if nl { "\n" } else { " " });
    if nl && t.chance(25) {
        s.push('\n');
    }
    s
}

fn record(t: &mut Tape, depth: usize) -> String {
    let n = t.range(1, 4);
    let mut v = Vec::new();
    for _ in 0..n {
        if depth > 0 && t.chance(70) {
            v.push(format!("{{{}}}", record(t, depth - 1)));
        } else {
            let s = text(t, false, true).replace(['<', '>'], "x");
            v.push(if t.chance(60) { format!("<p{}> {}", t.below(4), s) } else { s });
        }
    }
    v.join("|")
}

fn kv(k: &str, v: &str) -> (String, String) {
    (k.to_string(), v.to_string())
}

fn program(t: &mut Tape, nodes: usize, edges: usize) -> Prog {
    let n = t.range(1, nodes);
    let mut list = Vec::new();
    if t.chance(100) {
        list.push(St::Attr { target: 0, attrs: vec![kv("rankdir", if t.chance(200) { "LR" } else { "TB" })] });
    }
    let font = |t: &mut Tape| (*t.pick(&["14", "8", "1", "20", "33", "60"])).to_string();
    for target in [1u8, 2] {
        if t.chance(60) {
            list.push(St::Attr { target, attrs: vec![("fontsize".into(), font(t))] });
        }
    }
    for i in 0..n {
        let mut a = Vec::new();
        let shape = *t.pick(&["", "box", "circle", "doublecircle", "record", "Mrecord", "ellipse"]);
        if !shape.is_empty() {
            a.push(kv("shape", shape));
        }
        if shape.contains("ecord") {
            a.push(("label".into(), record(t, 3)));
        } else if t.chance(220) {
            a.push(("label".into(), text(t, false, true)));
        }
        if t.chance(60) {
            a.push(("fontsize".into(), font(t)));
        }
        if t.chance(40) {
            a.push(kv("width", "5"));
        }
        if t.chance(128) {
            a.reverse();
        }
        list.push(St::Node { id: Nid { name: format!("n{}", i), port: None }, attrs: a });
    }
    for _ in 0..t.below(edges + 1) {
        let mut id = |t: &mut Tape| Nid { name: format!("n{}", t.below(n)), port: if t.chance(40) { Some(format!("p{}", t.below(4))) } else { None } };
        let (from, to) = (id(t), id(t));
        let mut a = Vec::new();
        if t.chance(128) {
            a.push(("label".into(), text(t, true, true)));
        }
        if t.chance(50) {
            a.push(("fontsize".into(), font(t)));
        }
        list.push(St::Edge { from, to: vec![(to, true)], attrs: a });
    }
    Prog { strict: false, directed: true, name: None, list }
}

fn fonts(x: &Node) -> Result<HashMap<String, f64>, String> {
    let mut out = HashMap::new();
    for s in x.find_all("style") {
        for rule in s.text.split('}') {
            if let Some((sel, body)) = rule.split_once('{') {
                for decl in body.split(';') {
                    if let Some((k, v)) = decl.split_once(':') {
                        if k.trim() == "font-size" {
                            let v = v.trim().strip_suffix("px").and_then(xml::svg_number);
                            out.insert(sel.trim().trim_start_matches('.').to_string(), v.ok_or_else(|| format!("font size {:?}", decl))?);
                        }
                    }
                }
            }
        }
    }
    Ok(out)
}

fn inside(a: &B, b: &B) -> bool {
    let e = 1e-3;
    a.0 >= b.0 - e && a.1 >= b.1 - e && a.2 <= b.2 + e && a.3 <= b.3 + e
}
fn overlap(a: &B, b: &B) -> bool {
    let e = 1e-3;
    a.0 < b.2 - e && b.0 < a.2 - e && a.1 < b.3 - e && b.1 < a.3 - e
}

fn run(t: &mut Tape, c: &mut Case, nodes: usize, edges: usize) -> Verdict {
    let p = program(t, nodes, edges);
    let toks = dot::tokens(t, &p);
    let s = dot::print(t, &toks);
    let (no_opt, no_layout) = (t.chance(40), t.chance(40));
    c.input(format!("no_opt {} no_layout {}: {}", no_opt, no_layout, s));
    let g = DotParser::new(&s).process().map_err(|e| format!("rejected: {}", e))?;
    let svg = no_panic("drawing", || {
        let mut gb = GraphBuilder::new();
        gb.visit_graph(&g);
        let mut w = SVGWriter::new();
        gb.get().do_it(false, no_opt, no_layout, &mut w);
        w.finalize()
    })?;
    let x = svgdoc::check(&svg)?;
    let fonts = fonts(&x)?;
    let mut shapes: Vec<B> = Vec::new();
    let mut bad = None;
    // (lines, box, text, of an edge)
    let mut texts: Vec<(B, String, bool)> = Vec::new();
    let mut defs = Vec::new();
    for d in x.find_all("clipPath").iter().chain(x.find_all("marker").iter()) {
        d.walk(&mut |n, _| defs.push(n as *const Node), 0);
    }
    x.walk(
        &mut |n, _| {
            if defs.contains(&(n as *const Node)) {
                return;
            }
            let r = || -> Verdict {
                match n.name.as_str() {
                    "rect" => {
                        let (x, y) = (n.num("x")?, n.num("y")?);
                        shapes.push((x, y, x + n.num("width")?, y + n.num("height")?));
                    }
                    "ellipse" => {
                        let (x, y, a, b) = (n.num("cx")?, n.num("cy")?, n.num("rx")?, n.num("ry")?);
                        shapes.push((x - a, y - b, x + a, y + b));
                    }
                    // The text of a route is a label of the library's own graphs.
                    "text" if n.find_all("textPath").is_empty() => {
                        let f = *fonts.get(n.attr("class").unwrap_or("")).ok_or("a text without a font")?;
                        let mut y = n.num("y")?;
                        let mut b = (f64::MAX, f64::MAX, f64::MIN, f64::MIN);
                        let mut all = String::new();
                        for l in n.find_all("tspan") {
                            let dy = l.attr("dy").and_then(|d| d.strip_suffix("em")).and_then(xml::svg_number);
                            y += dy.ok_or("a line without a distance")? * f;
                            // As wide as the layout estimates it.
                            let w = l.text.chars().count() as f64 * f;
                            let x = l.num("x")?;
                            b = (b.0.min(x - w / 2.), b.1.min(y - f / 2.), b.2.max(x + w / 2.), b.3.max(y + f / 2.));
                            all.push_str(&l.text);
                            all.push('\n');
                        }
                        if all.is_empty() {
                            return Ok(());
                        }
                        let edge = all.trim_start().starts_with('E');
                        if !edge {
                            // The shape of a text is the last one before it.
                            let own = shapes.last().ok_or("a text before any shape")?;
                            ensure!(inside(&b, own), "the text {:?} needs {:?}, and its shape is {:?}", all, b, own);
                        }
                        texts.push((b, all, edge));
                    }
                    _ => {}
                }
                Ok(())
            }();
            if let (Err(e), true) = (r, bad.is_none()) {
                bad = Some(e);
            }
        },
        0,
    );
    if let Some(e) = bad {
        return Err(e);
    }
    for i in 0..texts.len() {
        for j in 0..i {
            ensure!(!overlap(&texts[i].0, &texts[j].0), "the texts {:?} at {:?} and {:?} at {:?} overlap", texts[i].1, texts[i].0, texts[j].1, texts[j].0);
        }
        if texts[i].2 {
            for s in &shapes {
                ensure!(!overlap(&texts[i].0, s), "the label {:?} at {:?} lies on the shape at {:?}", texts[i].1, texts[i].0, s);
            }
        }
    }
    let labels = texts.iter().filter(|x| x.2).count();
    c.nontrivial(texts.len() > 1);
    c.label_if(labels > 0, "labels of edges");
    c.label_if(labels > 1, "several labels");
    c.label_if(s.contains("ecord"), "records");
    c.label_if(texts.iter().any(|x| x.1.lines().count() > 2), "several lines");
    c.label_if(texts.iter().any(|x| x.1.lines().any(|l| l.is_empty())), "blank lines");
    c.label_if(s.contains("LR"), "left to right");
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 3, 4)
}
fn medium(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 9, 14)
}
fn large(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 30, 40)
}

fn main() {
    run_main(Check {
        id: "C27",
        rule: "Programs with nodes of all shapes (nested records included), fonts and texts of one to four lines, and edges with labels, are drawn; in the document, the room that each text needs (its characters and lines at its font size) must be inside of the shape, or of the record field, that it belongs to, and overlap no other text, nor, for labels of edges, any shape. Non-trivial: at least two texts.",
        assumptions: &["a character is as wide as the font size, which is the layout's own estimate", "an ellipse counts as its bounding box"],
        subs: vec![
            Sub::new("small", small, 60_000, 1_000_000),
            Sub::new("medium", medium, 30_000, 400_000),
            Sub::new("large", large, 500, 10_000).fuel(60_000_000_000),
        ],
    });
}
