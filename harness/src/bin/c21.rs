//! C21: colors.
#[path = "../shared/css.rs"]
mod css;
use css::CSS;
use layout::core::color::Color;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::gv::{DotParser, GraphBuilder};
use vp::*;

fn web(c: u32) -> String {
    format!("#{:08x}", c)
}

/// What a color in a program is drawn as.
fn resolve(s: &str) -> u32 {
    let s = s.split(':').next().unwrap_or("");
    if s == "transparent" {
        return 0xffffffff;
    }
    if let Some(c) = CSS.iter().find(|c| c.0 == s) {
        return (c.1 << 8) | 0xff;
    }
    if let Some(h) = s.strip_prefix('#') {
        if h.bytes().all(|b| b.is_ascii_hexdigit()) {
            if h.len() == 6 {
                return (u32::from_str_radix(h, 16).unwrap_or(0) << 8) | 0xff;
            }
            if h.len() == 8 {
                return u32::from_str_radix(h, 16).unwrap_or(0);
            }
        }
    }
    0x000000ff
}

fn hex(t: &mut Tape, n: usize) -> String {
    (0..n).map(|_| *t.pick(&b"0123456789abcdefABCDEF00ff"[..]) as char).collect()
}

/// A name of a color that is known, numeric or unknown.
fn name(t: &mut Tape) -> String {
    match t.below(9) {
        8 => {
            // Almost a number.
            let n = *t.pick(&[6usize, 8]);
            let h = hex(t, n);
            match t.below(9) {
                0 => format!("##{}", h),
                1 => format!("#+{}", &h[1..]),
                2 => format!("#-{}", &h[1..]),
                3 => {
                    let n = t.below(20);
                    format!("#{}", hex(t, n))
                }
                4 => format!("#0x{}", &h[2..]),
                5 => format!("#{}{}", "0".repeat(t.range(1, 40)), h),
                6 => format!("#{} ", h),
                7 => h,
                _ => {
                    let at = t.below(h.len());
                    format!("#{}{}{}", &h[..at], t.pick(&["g", "_", "é", " ", "٣", "#", "."]), &h[at + 1..])
                }
            }
        }
        0..=2 => CSS[t.below(CSS.len())].0.to_string(),
        3 => format!("#{}", hex(t, 6)),
        4 => format!("#{}", hex(t, 8)),
        5 => {
            // Almost a name.
            let mut s = CSS[t.below(CSS.len())].0.to_string();
            match t.below(4) {
                0 => s.push('x'),
                1 => {
                    s.pop();
                }
                2 => s.insert(0, ' '),
                _ => s = s.replace('e', "q"),
            }
            s
        }
        6 => (*t.pick(&["none", "None", "currentcolor", "inherit", "invis", "initial", "Red", "RED", "Transparent", "rgb(255,0,0)", "0.5 0.5 0.5", "/blues9/1", "red1", "", "nosuch", "#gggggg", "#", "123456", "#12345g", "0xff0000", "#é"])).to_string(),
        _ => "transparent".into(),
    }
}

fn names(t: &mut Tape, c: &mut Case) -> Verdict {
    let s = name(t);
    if s == "transparent" {
        return Ok(());
    }
    let got = no_panic("Color::fast", || Color::fast(&s).to_web_color())?;
    let known = no_panic("Color::from_name", || Color::from_name(&s).map(|c| c.to_web_color()))?;
    c.input(format!("{:?}", s));
    let css = CSS.iter().any(|x| x.0 == s);
    let num = matches!(s.len(), 7 | 9) && s.starts_with('#') && s[1..].bytes().all(|b| b.is_ascii_hexdigit());
    c.label(if css { "names" } else if num { "numbers" } else { "unknown" });
    c.nontrivial(css || num);
    let want = web(resolve(&s));
    ensure!(got == want, "{:?} is {}, expected {}", s, got, want);
    ensure!(known.is_some() == (css || num), "{:?} is {} known", s, if known.is_some() { "" } else { "not" });
    if let Some(k) = known {
        ensure!(k == want, "{:?} is {}, expected {}", s, k, want);
    }
    Ok(())
}

/// Every value survives being written in the web format and read again.
fn values(t: &mut Tape, c: &mut Case) -> Verdict {
    let v = if t.chance(60) { t.u32() & 0xff } else { t.u32() };
    c.input(web(v));
    c.nontrivial(v & 0xff != 0xff);
    let w = Color::new(v).to_web_color();
    ensure!(w == web(v), "{:08x} is written {:?}", v, w);
    for s in [w.clone(), w.to_uppercase()] {
        let back = no_panic("Color::from_name", || Color::from_name(&s).map(|x| x.to_web_color()))?;
        ensure!(back.as_ref() == Some(&w), "{:?} is read as {:?}", s, back);
    }
    let rgb = no_panic("Color::from_name", || Color::from_name(&w[..7]).map(|x| x.to_web_color()))?;
    ensure!(rgb == Some(format!("{}ff", &w[..7])), "{:?} is read as {:?}", &w[..7], rgb);
    Ok(())
}

#[derive(Default)]
struct Colors {
    shape: Vec<(String, Option<String>)>,
    arrow: Vec<String>,
    text: Vec<String>,
}
impl Colors {
    fn shape(&mut self, l: &StyleAttr) {
        self.shape.push((l.line_color.to_web_color(), l.fill_color.map(|c| c.to_web_color())));
    }
}
impl RenderBackend for Colors {
    fn draw_rect(&mut self, _: Point, _: Point, l: &StyleAttr, _: Option<String>, _: Option<usize>) {
        self.shape(l)
    }
    fn draw_line(&mut self, _: Point, _: Point, _: &StyleAttr, _: Option<String>) {}
    fn draw_circle(&mut self, _: Point, _: Point, l: &StyleAttr, _: Option<String>) {
        self.shape(l)
    }
    fn draw_text(&mut self, _: Point, _: &str, l: &StyleAttr) {
        self.text.push(l.line_color.to_web_color())
    }
    fn draw_arrow(&mut self, _: &[(Point, Point)], _: bool, _: (bool, bool), l: &StyleAttr, _: Option<String>, _: &str) {
        self.arrow.push(l.line_color.to_web_color())
    }
    fn create_clip(&mut self, _: Point, _: Point, _: usize) -> usize {
        0
    }
}

/// Colors of programs, with lists and transparency.
fn programs(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut color = |t: &mut Tape| {
        let mut s = name(t);
        for _ in 0..t.weighted(&[5, 2, 1]) {
            s.push(':');
            s.push_str(&name(t));
        }
        s
    };
    let (line, fill, edge) = (color(t), color(t), color(t));
    let shape = *t.pick(&["box", "circle", "doublecircle"]);
    let filled = t.chance(128);
    let s = format!(
        "digraph {{ a [shape={} color=\"{}\"{}{}]; a -> a [color=\"{}\"] }}",
        shape,
        line,
        if filled { format!(" fillcolor=\"{}\"", fill) } else { String::new() },
        *t.pick(&["", " style=filled", " style=bold"]),
        edge
    );
    c.input(s.clone());
    c.nontrivial(true);
    c.label_if(line.contains(':') || edge.contains(':'), "lists");
    let mut r = Colors::default();
    no_panic("drawing", || -> Verdict {
        let g = DotParser::new(&s).process()?;
        let mut gb = GraphBuilder::new();
        gb.visit_graph(&g);
        gb.get().do_it(false, false, false, &mut r);
        Ok(())
    })??;
    let want_fill = if filled {
        resolve(&fill)
    } else if s.contains("style=filled") {
        0xd3d3d3ff
    } else {
        0xffffffff
    };
    ensure!(!r.shape.is_empty() && r.arrow.len() == 1, "{} shapes, {} arrows", r.shape.len(), r.arrow.len());
    for x in &r.shape {
        ensure!(x.0 == web(resolve(&line)), "the line color {:?} is drawn as {}, expected {}", line, x.0, web(resolve(&line)));
        ensure!(x.1 == Some(web(want_fill)), "the fill color is drawn as {:?}, expected {}", x.1, web(want_fill));
    }
    ensure!(r.arrow[0] == web(resolve(&edge)), "the edge color {:?} is drawn as {}, expected {}", edge, r.arrow[0], web(resolve(&edge)));
    Ok(())
}

/// All the names, one by one.
fn table(t: &mut Tape, c: &mut Case) -> Verdict {
    // Every case covers the table from another start.
    let k = t.below(CSS.len());
    c.input(format!("table from {}", CSS[k].0));
    c.nontrivial(true);
    for i in 0..CSS.len() {
        let (n, v) = CSS[(i + k) % CSS.len()];
        let got = no_panic("Color::from_name", || Color::from_name(n).map(|x| x.to_web_color()))?;
        ensure!(got == Some(format!("#{:06x}ff", v)), "{:?} is {:?}, expected #{:06x}ff", n, got, v);
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C21",
        rule: "All 148 names of the CSS color table (compared with an independent copy), random numeric colors with and without alpha, names that are almost right, and unknown texts are resolved directly, and as line, fill and edge colors of programs (also in color lists); every value is written in the web format and read back. Non-trivial: a known name or a number.",
        assumptions: &[],
        subs: vec![
            Sub::new("table", table, 400, 2_000),
            Sub::new("names", names, 1_200_000, 4_000_000).guided(),
            Sub::new("values", values, 1_200_000, 4_000_000),
            Sub::new("programs", programs, 240_000, 1_000_000),
        ],
    });
}
