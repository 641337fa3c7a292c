//! C12: the SVG document says what the drawing calls said.
#[path = "../shared/dot.rs"]
mod dot;
#[path = "../shared/svgdoc.rs"]
mod svgdoc;
use layout::backends::svg::SVGWriter;
use layout::core::color::Color;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use std::collections::{HashMap, HashSet};
use vp::xml::Node;
use vp::*;

type P = (f64, f64);

#[derive(Clone, Debug)]
struct L {
    line: u32,
    width: usize,
    fill: Option<u32>,
    rounded: usize,
    font: usize,
}

#[derive(Clone, Debug)]
enum Call {
    Rect(P, P, L, Option<String>, Option<usize>),
    Circle(P, P, L, Option<String>),
    Line(P, P, L, Option<String>),
    Text(P, String, L),
    Arrow(Vec<(P, P)>, bool, (bool, bool), L, Option<String>, String),
    Clip(P, P, usize),
}

fn num(t: &mut Tape) -> f64 {
    match t.below(7) {
        0..=2 => t.range(0, 400) as f64,
        3 => t.range(0, 40_000) as f64 / 64.,
        4 => t.u32() as f64 / 1e7,
        5 => *t.pick(&[0., 0.1, 1e-7, 123456789.25, 1e12, 0.30000000000000004]),
        _ => t.range(0, 20) as f64,
    }
}
fn point(t: &mut Tape) -> P {
    (num(t), num(t))
}
fn color(t: &mut Tape) -> u32 {
    if t.chance(60) {
        return u32::from_be_bytes([t.u8(), t.u8(), t.u8(), t.u8()]);
    }
    *t.pick(&[0xff, 0xff0000ff, 0x01020304, 0, 0xffffffff, 0x00ff0080, 0x0a0b0c0d])
}
fn look(t: &mut Tape) -> L {
    L {
        line: color(t),
        width: if t.chance(80) { t.below(40) } else { *t.pick(&[1, 0, 2, 7, 1000]) },
        fill: if t.chance(100) { None } else { Some(color(t)) },
        rounded: if t.chance(60) { t.below(40) } else { *t.pick(&[0, 0, 5, 15]) },
        font: if t.chance(80) { t.below(130) } else { *t.pick(&[14, 10, 1, 60, 15, 0, 1000]) },
    }
}
fn props(t: &mut Tape) -> Option<String> {
    match t.below(6) {
        0 => Some(format!("data-k=\"{}\"", t.below(100))),
        1 => Some("onclick=\"f(1)\" data-b='x &amp; y'".into()),
        2 => Some(String::new()),
        3 if t.chance(40) => Some(format!("data-k=\"{}\"", "much data ".repeat(1 << t.below(11)))),
        _ => None,
    }
}
fn text(t: &mut Tape) -> String {
    match t.below(5) {
        0 => (*t.pick(&["", "a", "a\nb", "\n", "a\n\nb\n", "]]>", "<!-- x -->", "&amp;", "<tspan>", "</text>", "&#65;", "a  b ", " lead"])).into(),
        _ => dot::wild_text(t, 14).replace('\r', ""),
    }
}

fn calls(t: &mut Tape, max: usize) -> Vec<Call> {
    let n = t.range(1, max);
    let mut clips = 0;
    // Shapes often share places and sizes.
    let pool: Vec<P> = (0..4).map(|_| point(t)).collect();
    let pooled = |t: &mut Tape| if t.chance(90) { pool[t.below(4)] } else { point(t) };
    (0..n)
        .map(|_| match t.weighted(&[4, 3, 2, 4, 5, 2]) {
            0 => {
                let clip = if clips > 0 && t.chance(128) { Some(t.below(clips)) } else { None };
                Call::Rect(pooled(t), pooled(t), look(t), props(t), clip)
            }
            1 => Call::Circle(pooled(t), pooled(t), look(t), props(t)),
            2 => Call::Line(pooled(t), pooled(t), look(t), props(t)),
            3 => Call::Text(pooled(t), text(t), look(t)),
            4 => {
                let k = 2 + match t.weighted(&[80, 60, 20, 20, 3]) {
                    4 => t.below(300),
                    k => k,
                };
                let path = (0..k).map(|_| (pooled(t), pooled(t))).collect();
                Call::Arrow(path, t.chance(100), (t.chance(100), t.chance(150)), look(t), props(t), if t.chance(128) { text(t) } else { String::new() })
            }
            _ => {
                clips += 1;
                Call::Clip(pooled(t), pooled(t), t.below(20))
            }
        })
        .collect()
}

fn pt(a: P) -> Point {
    Point::new(a.0, a.1)
}
fn style(l: &L) -> StyleAttr {
    StyleAttr::new(Color::new(l.line), l.width, l.fill.map(Color::new), l.rounded, l.font)
}

fn write(cs: &[Call]) -> Result<String, String> {
    no_panic("drawing", || {
        let mut w = SVGWriter::new();
        let mut handles = Vec::new();
        for c in cs {
            match c {
                Call::Rect(a, s, l, p, k) => w.draw_rect(pt(*a), pt(*s), &style(l), p.clone(), k.map(|k| handles[k])),
                Call::Circle(a, s, l, p) => w.draw_circle(pt(*a), pt(*s), &style(l), p.clone()),
                Call::Line(a, b, l, p) => w.draw_line(pt(*a), pt(*b), &style(l), p.clone()),
                Call::Text(a, x, l) => w.draw_text(pt(*a), x, &style(l)),
                Call::Arrow(q, d, h, l, p, x) => {
                    let q: Vec<(Point, Point)> = q.iter().map(|x| (pt(x.0), pt(x.1))).collect();
                    w.draw_arrow(&q, *d, *h, &style(l), p.clone(), x)
                }
                Call::Clip(a, s, r) => handles.push(w.create_clip(pt(*a), pt(*s), *r)),
            }
        }
        w.finalize()
    })
}

/// A drawn element with the attributes of its ancestors.
struct Drawn<'a> {
    n: &'a Node,
    up: Vec<&'a Node>,
}

fn collect<'a>(n: &'a Node, up: &mut Vec<&'a Node>, out: &mut Vec<Drawn<'a>>) {
    match n.name.as_str() {
        "defs" | "style" | "clipPath" => return,
        "rect" | "ellipse" | "line" | "path" | "text" | "circle" | "polyline" | "polygon" => {
            out.push(Drawn { n, up: up.clone() });
            return;
        }
        _ => {}
    }
    up.push(n);
    for k in &n.kids {
        collect(k, up, out);
    }
    up.pop();
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-3 + 1e-9 * (a.abs() + b.abs())
}
fn same(n: &Node, k: &str, v: f64) -> Verdict {
    let x = n.num(k)?;
    ensure!(near(x, v), "<{}> has {}={}, drawn with {}", n.name, k, x, v);
    Ok(())
}
fn rgba(v: &str) -> Option<u32> {
    if v == "transparent" || v == "none" {
        return Some(0);
    }
    let h = v.strip_prefix('#')?;
    let x = u32::from_str_radix(h, 16).ok()?;
    match h.len() {
        8 => Some(x),
        6 => Some((x << 8) | 0xff),
        _ => None,
    }
}
fn same_color(n: &Node, k: &str, v: u32) -> Verdict {
    let got = n.attr(k).unwrap_or("");
    ensure!(rgba(got) == Some(v) || (v & 0xff == 0 && rgba(got).is_some_and(|x| x & 0xff == 0)), "<{}> has {}={:?}, drawn with #{:08x}", n.name, k, got, v);
    Ok(())
}
fn same_props(d: &Drawn, p: &Option<String>) -> Verdict {
    let Some(p) = p else { return Ok(()) };
    let probe = xml::parse(&format!("<g {}/>", p)).map_err(|e| format!("bad test properties: {}", e))?;
    for (k, v) in &probe.attrs {
        let found = d.up.iter().any(|u| u.attr(k) == Some(v)) || d.n.attr(k) == Some(v);
        ensure!(found, "<{}> lost the property {}={:?}", d.n.name, k, v);
    }
    Ok(())
}
fn clean(s: &str) -> String {
    s.chars().filter(|c| xml::is_xml_char(*c)).collect()
}

fn check(cs: &[Call], svg: &str) -> Verdict {
    let x = svgdoc::check(svg)?;
    let mut fonts: HashMap<String, f64> = HashMap::new();
    for s in x.find_all("style") {
        for rule in s.text.split('}') {
            if let Some((sel, body)) = rule.split_once('{') {
                for decl in body.split(';') {
                    if let Some((k, v)) = decl.split_once(':') {
                        if k.trim() == "font-size" {
                            let v = v.trim().strip_suffix("px").and_then(xml::svg_number);
                            let v = v.ok_or_else(|| format!("font size {:?}", decl))?;
                            fonts.insert(sel.trim().trim_start_matches('.').to_string(), v);
                        }
                    }
                }
            }
        }
    }
    let font = |n: &Node, l: &L| -> Verdict {
        let class = n.attr("class").unwrap_or("");
        let f = fonts.get(class);
        ensure!(f == Some(&(l.font as f64)), "a text with font size {} has the class {:?} of size {:?}", l.font, class, f);
        Ok(())
    };
    let clips = x.find_all("clipPath");
    let clip_calls: Vec<&Call> = cs.iter().filter(|c| matches!(c, Call::Clip(..))).collect();
    let mut out = Vec::new();
    collect(&x, &mut Vec::new(), &mut out);
    let (w, h) = (x.num("width")?, x.num("height")?);
    let visible = |p: P| -> Verdict {
        let tol = 1e-3 + 1e-9 * (w + h);
        ensure!(p.0 <= w + tol && p.1 <= h + tol, "{:?} is not on the canvas of {} x {}", p, w, h);
        Ok(())
    };
    let mut i = 0;
    let mut next = |what: &str| -> Result<&Drawn, String> {
        let d = out.get(i).ok_or_else(|| format!("{} is missing", what))?;
        i += 1;
        Ok(d)
    };
    for c in cs {
        match c {
            Call::Clip(..) => {}
            Call::Rect(a, s, l, p, k) => {
                let d = next("a rectangle")?;
                let n = d.n;
                ensure!(n.name == "rect", "<{}> in the place of a rectangle", n.name);
                same(n, "x", a.0)?;
                same(n, "y", a.1)?;
                same(n, "width", s.0)?;
                same(n, "height", s.1)?;
                same(n, "rx", l.rounded as f64)?;
                same(n, "stroke-width", l.width as f64)?;
                same_color(n, "stroke", l.line)?;
                same_color(n, "fill", l.fill.unwrap_or(0))?;
                same_props(d, p)?;
                visible((a.0 + s.0, a.1 + s.1))?;
                match (k, n.attr("clip-path")) {
                    (None, None) => {}
                    (Some(k), Some(r)) => {
                        let id = r.trim_start_matches("url(#").trim_end_matches(')');
                        let cp = clips.iter().find(|c| c.attr("id") == Some(id)).ok_or("clip region")?;
                        let rs = cp.find_all("rect");
                        ensure!(rs.len() == 1, "a clip region of {} rectangles", rs.len());
                        if let Call::Clip(a, s, r) = clip_calls[*k] {
                            same(rs[0], "x", a.0)?;
                            same(rs[0], "y", a.1)?;
                            same(rs[0], "width", s.0)?;
                            same(rs[0], "height", s.1)?;
                            same(rs[0], "rx", *r as f64)?;
                        }
                    }
                    (k, r) => return Err(format!("a rectangle drawn with the clip region {:?} has {:?}", k, r)),
                }
            }
            Call::Circle(a, s, l, p) => {
                let d = next("an ellipse")?;
                let n = d.n;
                ensure!(n.name == "ellipse", "<{}> in the place of an ellipse", n.name);
                same(n, "cx", a.0)?;
                same(n, "cy", a.1)?;
                same(n, "rx", s.0 / 2.)?;
                same(n, "ry", s.1 / 2.)?;
                same(n, "stroke-width", l.width as f64)?;
                same_color(n, "stroke", l.line)?;
                same_color(n, "fill", l.fill.unwrap_or(0))?;
                same_props(d, p)?;
                visible((a.0 + s.0 / 2., a.1 + s.1 / 2.))?;
            }
            Call::Line(a, b, l, p) => {
                let d = next("a line")?;
                let n = d.n;
                ensure!(n.name == "line", "<{}> in the place of a line", n.name);
                same(n, "x1", a.0)?;
                same(n, "y1", a.1)?;
                same(n, "x2", b.0)?;
                same(n, "y2", b.1)?;
                same(n, "stroke-width", l.width as f64)?;
                same_color(n, "stroke", l.line)?;
                same_props(d, p)?;
                visible(*a)?;
                visible(*b)?;
            }
            Call::Text(a, s, l) => {
                let n = next("a text")?.n;
                ensure!(n.name == "text", "<{}> in the place of a text", n.name);
                font(n, l)?;
                ensure!(n.attr("text-anchor") == Some("middle"), "a text is not centered");
                let want: Vec<String> = s.lines().map(clean).collect();
                let got = svgdoc::lines(n);
                ensure!(got == want, "the text {:?} is drawn as {:?}", s, got);
                // The lines are centered around the point.
                let y = n.num("y")?;
                let mut at = y;
                let mut sum = 0.;
                for sp in n.find_all("tspan") {
                    same(sp, "x", a.0)?;
                    let dy = sp.attr("dy").and_then(|d| d.strip_suffix("em")).and_then(xml::svg_number);
                    at += dy.ok_or("a line without a distance")? * l.font as f64;
                    sum += at;
                }
                if !got.is_empty() {
                    let mid = sum / got.len() as f64;
                    ensure!((mid - a.1).abs() <= 1e-3 + 0.51 * l.font as f64 + 1e-9 * a.1, "the lines of a text at {} are drawn around {}", a.1, mid);
                    let cols = want.iter().map(|l| l.chars().count()).max().unwrap_or(0) as f64;
                    visible((a.0 + cols * l.font as f64 / 2., a.1 + got.len() as f64 * l.font as f64 / 2.))?;
                }
            }
            Call::Arrow(q, dash, head, l, p, s) => {
                let d = next("a path")?;
                let n = d.n;
                ensure!(n.name == "path", "<{}> in the place of a path", n.name);
                let cmds = svgdoc::path(n.attr("d").unwrap_or(""))?;
                let got: Vec<f64> = cmds.iter().flat_map(|c| c.1.clone()).collect();
                let want: Vec<f64> = q.iter().flat_map(|p| [p.0 .0, p.0 .1, p.1 .0, p.1 .1]).collect();
                ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| near(*a, *b)), "the route {:?} is drawn as {:?}", q, cmds);
                same(n, "stroke-width", l.width as f64)?;
                same_color(n, "stroke", l.line)?;
                same_props(d, p)?;
                let dashed = n.attr("stroke-dasharray").is_some_and(|d| d != "none");
                ensure!(dashed == *dash, "an arrow with dashes {} is drawn with dashes {}", dash, dashed);
                let h = (n.attr("marker-start").is_some(), n.attr("marker-end").is_some());
                ensure!(h == *head, "an arrow with heads {:?} is drawn with heads {:?}", head, h);
                if let (Some(a), Some(b)) = (n.attr("marker-start"), n.attr("marker-end")) {
                    ensure!(a != b, "both heads of an arrow use the marker {:?}", a);
                }
                ensure!(rgba(n.attr("fill").unwrap_or("#000000ff")).is_some_and(|c| c & 0xff == 0), "an arrow is filled");
                for p in q {
                    visible(p.0)?;
                    visible(p.1)?;
                }
                let want = clean(s);
                let tn = next("the text of an arrow")?.n;
                let tp = tn.find_all("textPath");
                ensure!(tn.name == "text" && tp.len() == 1, "<{}> in the place of the text of an arrow", tn.name);
                ensure!(tp[0].text == want, "the text {:?} of an arrow is drawn as {:?}", s, tp[0].text);
                let id = n.attr("id").unwrap_or("");
                ensure!(tp[0].attr("href").or(tp[0].attr("xlink:href")) == Some(&format!("#{}", id)), "the text of an arrow follows another path");
                if !want.is_empty() {
                    font(tp[0], l)?;
                }
            }
        }
    }
    ensure!(i == out.len(), "{} elements too many, the first is <{}>", out.len() - i, out[i].n.name);
    Ok(())
}

/// A short sequence of calls, repeated up to hundreds of times with other
/// places, sizes and fonts: documents that use many of everything.
fn crowded(t: &mut Tape) -> Vec<Call> {
    let block = calls(t, 6);
    let clips = block.iter().filter(|c| matches!(c, Call::Clip(..))).count();
    let reps = *t.pick(&[30, 70, 140, 300]);
    let step = t.below(3);
    let paint = t.u32() & 0x01010101;
    let mut out = Vec::new();
    for r in 0..reps {
        let far = |p: P| (p.0 + (r * step) as f64, p.1 + r as f64);
        let other = |l: &L| L { line: l.line.wrapping_add(paint.wrapping_mul(r as u32)), font: l.font + r * step, ..l.clone() };
        for c in &block {
            out.push(match c {
                Call::Rect(a, s, l, p, k) => Call::Rect(far(*a), *s, other(l), p.clone(), k.map(|k| k + r * clips)),
                Call::Circle(a, s, l, p) => Call::Circle(far(*a), *s, other(l), p.clone()),
                Call::Line(a, b, l, p) => Call::Line(far(*a), *b, other(l), p.clone()),
                Call::Text(a, x, l) => Call::Text(far(*a), x.clone(), other(l)),
                Call::Arrow(q, d, h, l, p, x) => Call::Arrow(q.iter().map(|q| (far(q.0), far(q.1))).collect(), *d, *h, other(l), p.clone(), x.clone()),
                Call::Clip(a, s, q) => Call::Clip(far(*a), *s, *q),
            })
        }
    }
    out
}

fn run(t: &mut Tape, c: &mut Case, max: usize) -> Verdict {
    let cs = calls(t, max);
    judge(c, cs)
}
fn judge(c: &mut Case, cs: Vec<Call>) -> Verdict {
    c.input(format!("{:?}", cs));
    c.nontrivial(cs.len() > 1);
    c.label_if(cs.iter().any(|c| matches!(c, Call::Rect(_, _, _, _, Some(_)))), "clipped rectangles");
    c.label_if(cs.iter().any(|c| matches!(c, Call::Text(_, s, _) if s.chars().any(|c| "<>&\"'".contains(c)))), "texts to escape");
    let arrows = cs.iter().filter(|c| matches!(c, Call::Arrow(..))).count();
    c.label_if(arrows > 1, "several arrows");
    c.label_if(arrows > 256, "more than 256 arrows");
    let fonts: HashSet<usize> = cs.iter().filter_map(|c| if let Call::Text(_, _, l) = c { Some(l.font) } else { None }).collect();
    c.label_if(fonts.len() > 256, "more than 256 font sizes");
    let svg = write(&cs)?;
    check(&cs, &svg)
}
fn few(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 6)
}
fn many(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 60)
}
fn crowd(t: &mut Tape, c: &mut Case) -> Verdict {
    let cs = crowded(t);
    judge(c, cs)
}

fn main() {
    run_main(Check {
        id: "C12",
        rule: "Random sequences of drawing calls (rectangles with and without clip regions, ellipses, lines, texts of arbitrary characters, routes, clip regions) go to the SVG writer; the document is parsed by a strict XML parser, and element by element, in order, geometry, colors, widths, fonts, texts, dashes, heads, clip regions, properties and references must be those of the calls, and the canvas must reach every point. Non-trivial: at least two calls.",
        assumptions: &["coordinates are finite and not negative; texts hold no carriage returns; properties are well-formed attributes; routes have at least two points"],
        subs: vec![
            Sub::new("few", few, 600_000, 4_000_000).guided(),
            Sub::new("many", many, 60_000, 400_000).tape(5000),
            Sub::new("crowd", crowd, 3_000, 30_000),
        ],
    });
}
