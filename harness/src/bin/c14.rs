//! C14: records: labels are read faithfully, cells tile the shape, ports work.
#[path = "../shared/draw.rs"]
mod draw;
#[path = "../shared/gg.rs"]
mod gg;
#[path = "../shared/rec.rs"]
mod rec;
use draw::{center, close, close_p, hull, on_rect, op_box, Items, Rect};
use gg::RecD;
use layout::core::base::Orientation;
use layout::core::color::Color;
use layout::core::format::{Renderable, Visible};
use layout::core::geometry::{get_size_for_str, Point};
use layout::core::style::StyleAttr;
use layout::gv::record::{parse_record_string, record_builder};
use layout::std_shapes::render::get_shape_size;
use layout::std_shapes::shapes::*;
use rec::{Op, Rec};
use vp::*;

// ------------------------------------------------------------ label syntax

fn cell_text(t: &mut Tape) -> String {
    let n = t.range(1, 8);
    let mut s = String::new();
    for _ in 0..n {
        let x = *t.pick(&['a', 'b', 'Z', '0', ' ', '.', '\n', '>', ':', '"', '\\', '/', 'é', '中', '-', '&']);
        s.push(x);
    }
    s.trim().to_string()
}

fn gen_def(t: &mut Tape, depth: usize, max: usize) -> RecordDef {
    let n = t.range(1, max);
    let mut v = Vec::new();
    for _ in 0..n {
        if depth > 0 && t.chance(90) {
            if t.chance(20) {
                // An empty group is an empty cell.
                v.push(RecordDef::Text(String::new(), None));
            } else {
                v.push(gen_def(t, depth - 1, max));
            }
            continue;
        }
        let port = if t.chance(120) { Some((*t.pick(&["p", "port 2", "f0", "é", "a:b", ""])).to_string()) } else { None };
        let port = if t.chance(4) { port.map(|p| format!("{}{}", "long_".repeat(t.below(40)), p)) } else { port };
        let mut text = cell_text(t);
        if port.is_none() {
            if text.is_empty() {
                text.push('x');
            }
        } else if t.chance(60) {
            text.clear();
        }
        v.push(RecordDef::Text(text, port));
    }
    RecordDef::Array(v)
}

fn write(t: &mut Tape, r: &RecordDef, top: bool, s: &mut String) {
    let mut blank = |s: &mut String, t: &mut Tape| {
        for _ in 0..t.weighted(&[5, 2, 1]) {
            s.push(*t.pick(&[' ', ' ', '\n', '\t']));
        }
    };
    match r {
        RecordDef::Text(x, p) => {
            if x.is_empty() && p.is_none() {
                s.push('{');
                blank(s, t);
                s.push('}');
                return;
            }
            blank(s, t);
            if let Some(p) = p {
                s.push_str(&format!("<{}>", p));
                blank(s, t);
            }
            s.push_str(x);
            blank(s, t);
        }
        RecordDef::Array(v) => {
            if !top {
                blank(s, t);
                s.push('{');
            }
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    s.push('|');
                }
                write(t, e, false, s);
            }
            if !top {
                s.push('}');
                blank(s, t);
            }
        }
    }
}

fn same(a: &RecordDef, b: &RecordDef) -> bool {
    match (a, b) {
        (RecordDef::Text(x, p), RecordDef::Text(y, q)) => x == y && p == q,
        (RecordDef::Array(x), RecordDef::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        _ => false,
    }
}

fn syntax(t: &mut Tape, c: &mut Case) -> Verdict {
    let (depth, max) = if t.chance(6) { *t.pick(&[(1, 60), (0, 150), (30, 2), (3, 12)]) } else { *t.pick(&[(1, 3), (2, 4), (3, 5), (6, 3)]) };
    let want = gen_def(t, depth, max);
    let mut s = String::new();
    write(t, &want, true, &mut s);
    c.input(format!("{:?}", s));
    c.nontrivial(s.contains('|') || s.contains('{'));
    c.label_if(s.contains('{'), "nested");
    c.label_if(s.contains('<'), "ports");
    let got = no_panic("reading a record label", || parse_record_string(&s))?;
    ensure!(same(&want, &got), "the label is read as {:?}, expected {:?}", got, want);
    if let ShapeKind::Record(r) = no_panic("building a record", || record_builder(&s))? {
        ensure!(same(&want, &r), "the record is {:?}, expected {:?}", r, want);
    } else {
        return Err("no record is built".into());
    }
    Ok(())
}

fn total(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = t.below(40);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(t.pick(&["a", "|", "{", "}", "<", ">", " ", "\n", "<p>", "é", "b c", "\\", "||", "{}"]));
    }
    c.input(format!("{:?}", s));
    c.nontrivial(n > 2);
    let r = no_panic("reading a record label", || record_builder(&s))?;
    let o = if t.chance(128) { Orientation::LeftToRight } else { Orientation::TopToBottom };
    let size = no_panic("measuring a record", || get_shape_size(o, &r, 14, false))?;
    ensure!(size.x.is_finite() && size.y.is_finite() && size.x > 0. && size.y > 0., "the record has size {:?}", size);
    let mut e = Element::create(r, StyleAttr::simple(), o, size);
    e.move_to(Point::new(500., 500.));
    let mut rec = Rec::new();
    no_panic("drawing a record", || e.render(false, &mut rec))?;
    for op in &rec.ops {
        ensure!(rec::coords(op).iter().all(|x| x.is_finite()), "the record is drawn at {:?}", op);
    }
    Ok(())
}

// ---------------------------------------------------------------- geometry

fn leaf_box(it: &Items, txt: &str) -> Result<Rect, String> {
    draw::cell_box(it, txt).ok_or_else(|| format!("no box is drawn around the cell {:?}", txt))
}

/// Checks the tiling below `r`, returns its box.
fn tiles(it: &Items, r: &RecD, lr: bool, font: usize, min: bool) -> Result<Rect, String> {
    match r {
        RecD::Cell(txt, _) => {
            let b = leaf_box(it, txt)?;
            if min {
                let want = get_size_for_str(txt, font);
                let size = (b.1 .0 - b.0 .0, b.1 .1 - b.0 .1);
                ensure!(size.0 >= want.x - 1e-6 && size.1 >= want.y - 1e-6, "the cell {:?} has size {:?}, its text needs {:?}", txt, size, want);
            }
            Ok(b)
        }
        RecD::Row(v) => {
            let bs: Vec<Rect> = v.iter().map(|x| tiles(it, x, !lr, font, min)).collect::<Result<_, _>>()?;
            let h = bs.iter().copied().reduce(hull).ok_or("an empty row")?;
            let mut at = if lr { h.0 .0 } else { h.0 .1 };
            for (i, b) in bs.iter().enumerate() {
                let (lo, hi, c0, c1, d0, d1) = if lr {
                    (b.0 .0, b.1 .0, b.0 .1, b.1 .1, h.0 .1, h.1 .1)
                } else {
                    (b.0 .1, b.1 .1, b.0 .0, b.1 .0, h.0 .0, h.1 .0)
                };
                ensure!(close(lo, at), "cell {} of a row {:?} starts at {}, the one before ends at {}", i, r, lo, at);
                ensure!(hi > lo, "cell {} of a row {:?} is empty", i, r);
                ensure!(close(c0, d0) && close(c1, d1), "cell {} of a row {:?} does not fill it: {:?} in {:?}", i, r, b, h);
                at = hi;
            }
            Ok(h)
        }
    }
}

fn element(t: &mut Tape, r: &RecD) -> (Element, bool, usize, bool) {
    let lr = t.chance(128);
    let o = if lr { Orientation::LeftToRight } else { Orientation::TopToBottom };
    let font = *t.pick(&[14usize, 1, 10, 30, 60]);
    let shape = gg::shape(&gg::Kind::Record(r.clone()));
    let mut size = get_shape_size(o, &shape, font, false);
    let mut min = true;
    match t.below(4) {
        0 => {
            size = Point::new(size.x * (1. + t.below(8) as f64 / 4.), size.y * (1. + t.below(8) as f64 / 4.));
        }
        1 => {
            size = Point::new(t.range(1, 900) as f64, t.range(1, 900) as f64);
            min = false;
        }
        _ => {}
    }
    let look = StyleAttr::new(Color::new(0x11223344), 1, Some(Color::new(0x556677ff)), if t.chance(60) { 15 } else { 0 }, font);
    let mut e = Element::create(shape, look, o, size);
    e.move_to(Point::new(t.range(0, 1000) as f64, t.range(0, 1000) as f64));
    (e, lr, font, min)
}

fn cells(t: &mut Tape, c: &mut Case) -> Verdict {
    let depth = t.below(5);
    let mut k = 0;
    let r = gg::gen_record(t, depth, &mut k);
    let (e, lr, font, min) = element(t, &r);
    c.input(format!("{:?} {} font {} size {:?}", r, if lr { "LR" } else { "TB" }, font, e.pos.size(false)));
    c.nontrivial(k > 1);
    c.label_if(depth > 0, "nested");
    let mut rc = Rec::new();
    no_panic("drawing", || e.render(false, &mut rc))?;
    let it = Items { ops: rc.ops };
    let b = draw::node_box(&it).ok_or("nothing is drawn")?;
    let want = e.position().bbox(false);
    ensure!(close_p(b.0, (want.0.x, want.0.y)) && close_p(b.1, (want.1.x, want.1.y)), "the record is drawn in {:?}, expected {:?}", b, want);
    let h = tiles(&it, &r, lr, font, min)?;
    ensure!(close_p(h.0, b.0) && close_p(h.1, b.1), "the cells fill {:?} of the record {:?}", h, b);
    let mut leaves = Vec::new();
    gg::cells(&r, &mut leaves);
    let texts: Vec<&String> = it.ops.iter().filter_map(|o| if let Op::Text { text, .. } = o { Some(text) } else { None }).collect();
    ensure!(texts.len() == leaves.len(), "{} texts for {} cells", texts.len(), leaves.len());
    // Filled boxes at rounded corners must be clipped.
    let clips: Vec<(Rect, usize)> = it.ops.iter().filter_map(|o| if let Op::Clip { xy, size, rounded } = o { Some(((*xy, (xy.0 + size.0, xy.1 + size.1)), *rounded)) } else { None }).collect();
    let round = it.ops.iter().filter_map(|o| if let Op::Rect { look, .. } = o { Some(look.rounded) } else { None }).max().unwrap_or(0);
    c.label_if(round > 0, "rounded");
    ensure!(round == e.look.rounded, "the corners of the record are rounded by {}, expected {}", round, e.look.rounded);
    for o in &it.ops {
        let (Op::Rect { look, clip, .. }, Some(x)) = (o, op_box(o)) else { continue };
        let corner = |p: (f64, f64)| [b.0, b.1, (b.0 .0, b.1 .1), (b.1 .0, b.0 .1)].iter().any(|q| close_p(p, *q));
        let at_corner = [x.0, x.1, (x.0 .0, x.1 .1), (x.1 .0, x.0 .1)].into_iter().any(corner);
        ensure!(look.rounded == 0 || (close_p(x.0, b.0) && close_p(x.1, b.1)), "the cell {:?} has rounded corners and leaves gaps", x);
        if round > 0 && look.rounded == 0 && at_corner {
            let k = clip.and_then(|k| clips.get(k));
            ensure!(k.is_some_and(|k| close_p(k.0 .0, b.0) && close_p(k.0 .1, b.1) && k.1 == round), "the cell {:?} sticks out of the rounded corner of the record {:?}: clipped by {:?}", x, b, k);
        }
    }
    for o in &it.ops {
        if let (Op::Rect { look, .. }, Some(x)) = (o, op_box(o)) {
            if look.fill.is_some() && !close_p(center(x), center(b)) {
                ensure!(x.1 .0 <= b.1 .0 + 1e-6 && x.1 .1 <= b.1 .1 + 1e-6 && x.0 .0 >= b.0 .0 - 1e-6 && x.0 .1 >= b.0 .1 - 1e-6, "the box {:?} leaves the record {:?}", x, b);
            }
        }
    }
    Ok(())
}

fn ports(t: &mut Tape, c: &mut Case) -> Verdict {
    let mut k = 0;
    let depth = t.below(4);
    let r = gg::gen_record(t, depth, &mut k);
    let (e, lr, font, _) = element(t, &r);
    let from = Point::new(t.range(0, 2000) as f64 - 500. + 0.25, t.range(0, 2000) as f64 - 500. + 0.25);
    let force = *t.pick(&[30., 1., 100.]);
    c.input(format!("{:?} {} font {} at {:?} size {:?}, from {:?}", r, if lr { "LR" } else { "TB" }, font, e.pos.middle(), e.pos.size(false), from));
    let mut rc = Rec::new();
    no_panic("drawing", || e.render(false, &mut rc))?;
    let it = Items { ops: rc.ops };
    let b = draw::node_box(&it).ok_or("nothing is drawn")?;
    let mut leaves = Vec::new();
    gg::cells(&r, &mut leaves);
    c.nontrivial(leaves.iter().any(|l| l.1.is_some()));
    let mut todo: Vec<(Option<String>, Rect)> = vec![(None, b), (Some("no such port".into()), b)];
    for (txt, p) in &leaves {
        if p.is_some() {
            todo.push((p.clone(), leaf_box(&it, txt)?));
        }
    }
    // Almost a port of the record.
    for (_, p) in &leaves {
        let Some(p) = p else { continue };
        for near in [format!("{} ", p), p.to_uppercase(), p.trim().to_string(), p[..p.len() - 1].to_string()] {
            if leaves.iter().all(|l| l.1.as_ref() != Some(&near)) {
                todo.push((Some(near), b));
            }
        }
    }
    for (p, cell) in todo {
        let (at, ctl) = no_panic("connecting", || e.get_connector_location(from, force, &p))?;
        let tol = 1e-6 * 2000.;
        ensure!(on_rect((at.x, at.y), cell, tol), "port {:?} is connected at {:?}, its box is {:?}", p, at, cell);
        let d = ((ctl.x - at.x).powi(2) + (ctl.y - at.y).powi(2)).sqrt();
        ensure!((d - force).abs() < 1e-6 * 2000., "port {:?} is left with force {}, not {}", p, d, force);
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C14",
        rule: "Random record structures are written as labels and read back; random label texts are read, measured and drawn; random nested records of natural, larger and arbitrary sizes are drawn in both orientations: the cells must tile the shape in order, be large enough for their texts, and their ports must connect on their borders. Non-trivial: at least two cells, or a port.",
        assumptions: &["labels with balanced braces and no empty fields where the structure is compared; records nested up to 6 deep; texts and ports are unique in a drawn record; other ends of edges have no position in common with a center"],
        subs: vec![
            Sub::new("syntax", syntax, 900_000, 4_000_000).guided(),
            Sub::new("total", total, 360_000, 2_000_000),
            Sub::new("cells", cells, 360_000, 2_000_000),
            Sub::new("ports", ports, 360_000, 2_000_000),
        ],
    });
}
