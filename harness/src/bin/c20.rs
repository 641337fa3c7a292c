//! C20: positions: a shape, its center point and its halo move together.
use layout::core::geometry::{Point, Position};
use vp::*;

/// Reference: everything kept as absolute edges of the bare shape.
#[derive(Clone, Debug)]
struct M {
    lo: (f64, f64),
    hi: (f64, f64),
    /// Center, absolute.
    c: (f64, f64),
    halo: (f64, f64),
}

impl M {
    fn shift(&mut self, dx: f64, dy: f64) {
        self.lo.0 += dx;
        self.hi.0 += dx;
        self.c.0 += dx;
        self.lo.1 += dy;
        self.hi.1 += dy;
        self.c.1 += dy;
    }
    fn mid(&self) -> (f64, f64) {
        ((self.lo.0 + self.hi.0) / 2., (self.lo.1 + self.hi.1) / 2.)
    }
    fn bbox(&self, halo: bool) -> ((f64, f64), (f64, f64)) {
        let (hx, hy) = if halo { (self.halo.0 / 2., self.halo.1 / 2.) } else { (0., 0.) };
        ((self.lo.0 - hx, self.lo.1 - hy), (self.hi.0 + hx, self.hi.1 + hy))
    }
}

fn v(t: &mut Tape) -> f64 {
    let x = match t.below(3) {
        0 => t.range(0, 20) as f64,
        1 => t.range(0, 4000) as f64 / 4.,
        _ => t.u16() as f64 / 100.,
    };
    if t.chance(80) {
        -x
    } else {
        x
    }
}
fn len(t: &mut Tape) -> f64 {
    v(t).abs() + 1.
}

fn eq(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * (1. + a.abs() + b.abs())
}
fn eqp(a: Point, b: (f64, f64)) -> bool {
    eq(a.x, b.0) && eq(a.y, b.1)
}

fn check(p: &Position, m: &M) -> Verdict {
    ensure!(eqp(p.center(), m.c), "center {:?}, expected {:?}", p.center(), m.c);
    ensure!(eqp(p.middle(), m.mid()), "middle {:?}, expected {:?}", p.middle(), m.mid());
    for halo in [false, true] {
        let b = p.bbox(halo);
        let w = m.bbox(halo);
        ensure!(eqp(b.0, w.0) && eqp(b.1, w.1), "box (halo {}) {:?}, expected {:?}", halo, b, w);
        ensure!(eq(p.left(halo), w.0 .0), "left {}, expected {}", p.left(halo), w.0 .0);
        ensure!(eq(p.right(halo), w.1 .0), "right {}, expected {}", p.right(halo), w.1 .0);
        ensure!(eq(p.top(halo), w.0 .1), "top {}, expected {}", p.top(halo), w.0 .1);
        ensure!(eq(p.bottom(halo), w.1 .1), "bottom {}, expected {}", p.bottom(halo), w.1 .1);
        ensure!(eqp(p.size(halo), (w.1 .0 - w.0 .0, w.1 .1 - w.0 .1)), "size {:?}", p.size(halo));
        ensure!(eq(p.distance_to_left(halo), m.c.0 - w.0 .0), "distance to the left {}", p.distance_to_left(halo));
        ensure!(eq(p.distance_to_right(halo), w.1 .0 - m.c.0), "distance to the right {}", p.distance_to_right(halo));
        for (a, b) in [(1., 1.), (-1., 1.), (1., -1.), (-1., -1.)] {
            let r = (w.0 .0 - a, w.1 .0 + b);
            ensure!(p.in_x_range(r, halo) == (a > 0. && b > 0.), "{:?} in the range {:?}: {}", w, r, p.in_x_range(r, halo));
        }
    }
    Ok(())
}

fn history(t: &mut Tape, c: &mut Case) -> Verdict {
    let size = (len(t), len(t));
    let mid = (v(t), v(t));
    let halo = (v(t).abs(), v(t).abs());
    let off = (size.0 * (t.below(9) as f64 - 4.) / 8., size.1 * (t.below(9) as f64 - 4.) / 8.);
    let mut p = Position::new(Point::new(mid.0, mid.1), Point::new(size.0, size.1), Point::new(off.0, off.1), Point::new(halo.0, halo.1));
    let mut m = M {
        lo: (mid.0 - size.0 / 2., mid.1 - size.1 / 2.),
        hi: (mid.0 + size.0 / 2., mid.1 + size.1 / 2.),
        c: (mid.0 + off.0, mid.1 + off.1),
        halo,
    };
    let mut log = format!("{:?}", m);
    check(&p, &m).map_err(|e| format!("new: {}", e))?;
    let n = t.range(1, 14);
    c.nontrivial(n > 1);
    for _ in 0..n {
        let (a, b) = (v(t), v(t));
        let op = t.below(11);
        let what;
        match op {
            0 => {
                what = format!("move_to {} {}", a, b);
                p.move_to(Point::new(a, b));
                m.shift(a - m.c.0, b - m.c.1);
            }
            1 => {
                what = format!("align_to_top {}", b);
                p.align_to_top(b);
                let d = b - m.bbox(true).0 .1;
                m.shift(0., d);
            }
            2 => {
                what = format!("align_to_left {}", a);
                p.align_to_left(a);
                let d = a - m.bbox(true).0 .0;
                m.shift(d, 0.);
            }
            3 => {
                what = format!("align_to_right {}", a);
                p.align_to_right(a);
                let d = a - m.bbox(true).1 .0;
                m.shift(d, 0.);
            }
            4 => {
                what = format!("translate {} {}", a, b);
                p.translate(Point::new(a, b));
                m.shift(a, b);
            }
            5 => {
                let left = t.chance(128);
                what = format!("align_x {} {}", a, left);
                p.align_x(a, left);
                let bb = m.bbox(true);
                let d = a - if left { bb.0 .0 } else { bb.1 .0 };
                m.shift(d, 0.);
            }
            6 => {
                what = format!("set_x {}", a);
                p.set_x(a);
                m.shift(a - m.c.0, 0.);
            }
            7 => {
                what = format!("set_y {}", b);
                p.set_y(b);
                m.shift(0., b - m.c.1);
            }
            8 => {
                what = "transpose".to_string();
                p.transpose();
                for q in [&mut m.lo, &mut m.hi, &mut m.c, &mut m.halo] {
                    *q = (q.1, q.0);
                }
            }
            9 => {
                let s = (len(t), len(t));
                what = format!("set_size {:?}", s);
                p.set_size(Point::new(s.0, s.1));
                // The middle stays.
                let q = m.mid();
                m.lo = (q.0 - s.0 / 2., q.1 - s.1 / 2.);
                m.hi = (q.0 + s.0 / 2., q.1 + s.1 / 2.);
            }
            _ => {
                let s = (m.hi.0 - m.lo.0, m.hi.1 - m.lo.1);
                let d = (s.0 * (t.below(15) as f64 - 7.) / 8., s.1 * (t.below(15) as f64 - 7.) / 8.);
                what = format!("set_new_center_point {:?}", d);
                no_panic("set_new_center_point", || p.set_new_center_point(Point::new(d.0, d.1)))?;
                let q = m.mid();
                m.c = (q.0 + d.0, q.1 + d.1);
            }
        }
        log.push_str("; ");
        log.push_str(&what);
        c.input(log.clone());
        c.label(["move_to", "align_to_top", "align_to_left", "align_to_right", "translate", "align_x", "set_x", "set_y", "transpose", "set_size", "set_new_center_point"][op]);
        check(&p, &m).map_err(|e| format!("after {}: {}", what, e))?;
    }
    Ok(())
}

fn main() {
    run_main(Check {
        id: "C20",
        rule: "Histories of up to 14 operations on positions (moving, aligning, resizing, transposing, setting the center point) run against a reference that keeps absolute edges; after each one every accessor is compared. Non-trivial: at least two operations.",
        assumptions: &["coordinates up to 1000, center points inside the shape"],
        subs: vec![Sub::new("history", history, 2_400_000, 10_000_000).guided()],
    });
}
