//! C28: looks never move anything.
#[path = "../shared/dot.rs"]
mod dot;
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/progs.rs"]
mod progs;
#[path = "../shared/rec.rs"]
mod rec;
use dot::{Attrs, Prog, St};
use draw::*;
use gg::{Kind, Opt, RecD};
use layout::gv::{DotParser, GraphBuilder};
use rec::{Op, Rec};
use vp::*;

/// Other letters, of the same number in the same lines.
fn reletter(t: &mut Tape, s: &str) -> String {
    s.chars()
        .map(|c| if c.is_alphabetic() { *t.pick(&['a', 'w', 'Z', 'é', '日', 'i']) } else { c })
        .collect()
}

fn reletter_record(t: &mut Tape, r: &mut RecD) {
    match r {
        RecD::Cell(s, _) => *s = reletter(t, s),
        RecD::Row(v) => v.iter_mut().for_each(|x| reletter_record(t, x)),
    }
}

fn graphs(t: &mut Tape, c: &mut Case, n: usize, e: usize) -> Verdict {
    changed(t, c, &Opt::all(n, e))
}
/// Long chains, wide rows, many parallel edges and the like.
fn families(t: &mut Tape, c: &mut Case) -> Verdict {
    changed(t, c, &Opt::family(100))
}
fn changed(t: &mut Tape, c: &mut Case, o: &Opt) -> Verdict {
    let g = gg::gen_graph(t, o);
    let mut h = g.clone();
    for n in h.nodes.iter_mut() {
        if t.chance(128) {
            n.width = t.below(9);
            n.fill = if t.chance(60) { None } else { Some(0x123456ff + t.below(99) as u32 * 256) };
            n.props = if t.chance(128) { None } else { Some("data-q=\"1\"".into()) };
        }
        match &mut n.kind {
            Kind::Box(s) | Kind::Circle(s) | Kind::Double(s) if t.chance(128) => {
                // The size is given; it does not depend on text or font.
                *s = gg::text(t);
                n.font = t.range(1, 40);
                n.rounded = t.below(20);
            }
            Kind::Record(r) if t.chance(128) => {
                reletter_record(t, r);
                n.rounded = 15 - n.rounded.min(15);
            }
            _ => {}
        }
    }
    for e in h.edges.iter_mut() {
        if t.chance(128) {
            e.style = t.weighted(&[4, 3, 3, 2]) as u8;
            e.width = t.below(9);
            e.heads = (t.chance(128), t.chance(128));
            e.props = if t.chance(128) { None } else { Some("data-q=\"1\"".into()) };
            e.text = reletter(t, &e.text);
            if e.text.is_empty() {
                e.font = t.range(1, 60);
            }
        }
    }
    let (no_opt, no_layout) = (t.chance(60), t.chance(60));
    c.input(format!("no_opt {} no_layout {}: {} AND {}", no_opt, no_layout, g.describe(), h.describe()));
    c.nontrivial(!g.edges.is_empty());
    c.label_if(g.has_labels(), "labelled edges");
    c.label_if(h.edges.iter().any(|e| e.style == 3), "invisible edges");
    let a = interpret(&g, &gg::draw(&g, false, no_opt, no_layout)?);
    let b = interpret(&h, &gg::draw(&h, false, no_opt, no_layout)?);
    let (ba, bb) = (boxes(&g, &a)?, boxes(&h, &b)?);
    for i in 0..ba.len() {
        if let (Some(x), Some(y)) = (ba[i], bb[i]) {
            ensure!(close_p(x.0, y.0) && close_p(x.1, y.1), "n{} is at {:?}, and with other looks at {:?}", i, x, y);
        }
    }
    for i in 0..g.edges.len() {
        if let (Some(x), Some(y)) = (arrow(&a.edges[i]), arrow(&b.edges[i])) {
            let same = x.0.len() == y.0.len() && x.0.iter().zip(y.0).all(|(p, q)| close_p(p.0, q.0) && close_p(p.1, q.1));
            ensure!(same, "edge {} takes the route {:?}, and with other looks {:?}", i, x.0, y.0);
        }
        let label = |d: &Drawing| {
            d.edges[i].ops.iter().find_map(|o| match o {
                Op::Text { xy, text, .. } if !text.is_empty() => Some(*xy),
                _ => None,
            })
        };
        if let (Some(x), Some(y)) = (label(&a), label(&b)) {
            ensure!(close_p(x, y), "the label of edge {} is at {:?}, and with other looks at {:?}", i, x, y);
        }
    }
    Ok(())
}

fn relook(t: &mut Tape, a: &mut Attrs) {
    let old: Vec<String> = a.iter().map(|x| x.0.clone()).collect();
    for x in a.iter_mut() {
        match x.0.as_str() {
            "color" | "fillcolor" if t.chance(200) => x.1 = (*t.pick(&["red", "#00ff00", "blue:red", "transparent", "nocolor", ""])).into(),
            "style" if t.chance(200) => x.1 = (*t.pick(&["filled", "dashed", "bold", "x"])).into(),
            "width" | "penwidth" if t.chance(200) => x.1 = t.below(7).to_string(),
            "label" if t.chance(128) => x.1 = x.1.chars().map(|c| if c.is_ascii_lowercase() { *t.pick(&['a', 'w', 'e']) } else { c }).collect(),
            _ => {}
        }
    }
    for k in ["color", "fillcolor", "style", "width", "penwidth"] {
        if !old.iter().any(|x| x == k) && t.chance(70) {
            let v = match k {
                "style" => *t.pick(&["filled", "dashed"]),
                "width" | "penwidth" => *t.pick(&["3", "0", "40"]),
                _ => *t.pick(&["green", "#123456"]),
            };
            let i = t.below(a.len() + 1);
            a.insert(i, (k.into(), v.into()));
        }
    }
}

/// Ports in labels and labels have to stay as they are where they meet.
fn relook_all(t: &mut Tape, l: &mut [St]) {
    for s in l {
        match s {
            St::Node { attrs, .. } | St::Attr { attrs, .. } => relook(t, attrs),
            St::Edge { attrs, to, .. } => {
                relook(t, attrs);
                for x in to.iter_mut() {
                    if t.chance(60) {
                        x.1 = !x.1;
                    }
                }
            }
            St::Sub { list, .. } => relook_all(t, list),
        }
    }
}

fn drop_label_ports(l: &mut [St]) {
    for s in l {
        match s {
            St::Edge { from, to, .. } => {
                from.port = None;
                to.iter_mut().for_each(|x| x.0.port = None);
            }
            St::Sub { list, .. } => drop_label_ports(list),
            _ => {}
        }
    }
}

/// What is drawn where.
fn geometry(s: &str, o: (bool, bool)) -> Result<Vec<String>, String> {
    let g = DotParser::new(s).process().map_err(|e| format!("rejected: {}", e))?;
    let mut r = Rec::new();
    no_panic("drawing", || {
        let mut gb = GraphBuilder::new();
        gb.visit_graph(&g);
        gb.get().do_it(false, o.0, o.1, &mut r);
    })?;
    let f = |p: &rec::P| format!("{:.4} {:.4}", p.0, p.1);
    Ok(r.ops
        .iter()
        .map(|o| match o {
            Op::Rect { xy, size, .. } => format!("rectangle {} {}", f(xy), f(size)),
            Op::Circle { xy, size, .. } => format!("circle {} {}", f(xy), f(size)),
            Op::Line { a, b, .. } => format!("line {} {}", f(a), f(b)),
            Op::Text { xy, .. } => format!("text {}", f(xy)),
            Op::Clip { xy, size, .. } => format!("clip {} {}", f(xy), f(size)),
            Op::Arrow { path, .. } => format!("route {}", path.iter().map(|p| format!("{}, {}", f(&p.0), f(&p.1))).collect::<Vec<_>>().join("; ")),
        })
        .collect())
}

fn programs(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut p = Prog { strict: false, directed: true, name: None, list: progs::list(t, 6, 12, 0) };
    drop_label_ports(&mut p.list);
    let mut q = p.clone();
    relook_all(t, &mut q.list);
    let s = dot::print(t, &dot::tokens(&mut Tape::new(&[]), &p));
    let r = dot::print(t, &dot::tokens(&mut Tape::new(&[]), &q));
    c.input(format!("{} AND {}", s, r));
    let o = (t.chance(50), t.chance(50));
    let (a, b) = (geometry(&s, o)?, geometry(&r, o)?);
    c.nontrivial(a.len() > 2 && p != q);
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i).map(|x| x.as_str()).unwrap_or("nothing"), b.get(i).map(|x| x.as_str()).unwrap_or("nothing"));
        ensure!(x == y, "drawn is {}, and with other looks {}", x, y);
    }
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Verdict {
    graphs(t, c, 5, 8)
}
fn medium(t: &mut Tape, c: &mut Case) -> Verdict {
    graphs(t, c, 14, 24)
}
fn large(t: &mut Tape, c: &mut Case) -> Verdict {
    graphs(t, c, 40, 45)
}

fn main() {
    run_main(Check {
        id: "C28",
        rule: "Random graphs, and random programs, are drawn twice on a recording backend: as they are, and with other colors, line widths, line styles (invisible edges included), heads, properties and letters (as many in each line; any text and font where the size of the shape is given). All shapes, labels and routes must be in the same places. Non-trivial: at least one edge, or a program that changed and draws more than two elements.",
        assumptions: &["changing letters keeps the number of characters of each line"],
        subs: vec![
            Sub::new("small", small, 60_000, 1_000_000),
            Sub::new("medium", medium, 16_000, 250_000),
            Sub::new("large", large, 500, 8_000).fuel(60_000_000_000),
            Sub::new("families", families, 1_000, 8_000).fuel(60_000_000_000),
            Sub::new("programs", programs, 20_000, 400_000),
        ],
    });
}
