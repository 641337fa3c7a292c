//! C19: the geometric primitives against exact references.
use layout::core::geometry::*;
use vp::*;

type I = (i128, i128);

/// Coordinates from a small set of values, so that special cases are common.
fn coord(t: &mut Tape, kind: usize) -> i64 {
    match kind {
        0 => t.irange(-6, 6),
        1 => t.irange(-60, 60),
        _ => t.irange(-100_000, 100_000),
    }
}
fn pt(a: I) -> Point {
    Point::new(a.0 as f64, a.1 as f64)
}
fn cross(o: I, a: I, b: I) -> i128 {
    (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0)
}

/// How a segment and a closed rectangle meet: apart, only touching, properly.
#[derive(PartialEq, Debug)]
enum Meet {
    Apart,
    Touch,
    Cross,
}

/// Exact: clips the segment against the rectangle (Liang-Barsky on rationals).
fn meet(p: I, q: I, lo: I, hi: I) -> Meet {
    let d = (q.0 - p.0, q.1 - p.1);
    // Parameters t in [0, 1] with k * t <= m, kept as fractions.
    let mut t0 = (0i128, 1i128);
    let mut t1 = (1i128, 1i128);
    for (k, m) in [(-d.0, p.0 - lo.0), (d.0, hi.0 - p.0), (-d.1, p.1 - lo.1), (d.1, hi.1 - p.1)] {
        if k == 0 {
            if m < 0 {
                return Meet::Apart;
            }
        } else if k > 0 {
            // t <= m / k
            if m * t1.1 < t1.0 * k {
                t1 = (m, k);
            }
        } else {
            // t >= m / k = -m / -k
            if -m * t0.1 > t0.0 * -k {
                t0 = (-m, -k);
            }
        }
    }
    let l = t0.0 * t1.1;
    let r = t1.0 * t0.1;
    if l > r {
        return Meet::Apart;
    }
    // Does it run through the interior?
    if l == r {
        return Meet::Touch;
    }
    // Midpoint of the clipped part, times 2 * t0.1 * t1.1.
    let den = 2 * t0.1 * t1.1;
    let num = l + r;
    let m = (p.0 * den + d.0 * num, p.1 * den + d.1 * num);
    if m.0 > lo.0 * den && m.0 < hi.0 * den && m.1 > lo.1 * den && m.1 < hi.1 * den {
        Meet::Cross
    } else {
        Meet::Touch
    }
}

fn segment(t: &mut Tape, c: &mut Case) -> Verdict {
    let k = t.below(3);
    let mut v = || coord(t, k) as i128;
    let (a, b) = ((v(), v()), (v(), v()));
    let (mut p, mut q) = ((v(), v()), (v(), v()));
    let lo = (a.0.min(b.0), a.1.min(b.1));
    let hi = (a.0.max(b.0), a.1.max(b.1));
    match t.below(5) {
        0 => q.0 = p.0,
        1 => q.1 = p.1,
        _ => {}
    }
    if t.chance(20) {
        p = q;
    }
    let want = meet(p, q, lo, hi);
    c.input(format!("segment {:?} {:?}, rectangle {:?} {:?}: {:?}", p, q, lo, hi, want));
    c.label(match want {
        Meet::Apart => "apart",
        Meet::Touch => "touching",
        Meet::Cross => "crossing",
    });
    c.nontrivial(want != Meet::Apart || (p.0.min(q.0) < hi.0 && p.0.max(q.0) > lo.0 && p.1.min(q.1) < hi.1 && p.1.max(q.1) > lo.1));
    // The same at a smaller scale: the division is exact.
    let unit = *t.pick(&[1., 64., 4096.]);
    let pt = |p: I| Point::new(p.0 as f64 / unit, p.1 as f64 / unit);
    c.label_if(unit > 1., "small coordinates");
    let got = no_panic("segment_rect_intersection", || segment_rect_intersection((pt(p), pt(q)), (pt(lo), pt(hi))))?;
    let rev = no_panic("segment_rect_intersection", || segment_rect_intersection((pt(q), pt(p)), (pt(lo), pt(hi))))?;
    match want {
        Meet::Apart => {
            ensure!(!got, "they do not meet, but the answer is that they do");
            ensure!(!rev, "reversed, they do not meet, but the answer is that they do");
        }
        Meet::Cross => {
            ensure!(got, "they meet, but the answer is that they do not");
            ensure!(rev, "reversed, they meet, but the answer is that they do not");
        }
        // Rounding may decide.
        Meet::Touch => {}
    }
    Ok(())
}

fn boxes(t: &mut Tape, c: &mut Case) -> Verdict {
    let k = t.below(3);
    let mut mk = || {
        let a = (coord(t, k), coord(t, k));
        let b = (coord(t, k), coord(t, k));
        ((a.0.min(b.0), a.1.min(b.1)), (a.0.max(b.0), a.1.max(b.1)))
    };
    let (a, b) = (mk(), mk());
    let flat = |r: ((i64, i64), (i64, i64))| r.0 .0 == r.1 .0 || r.0 .1 == r.1 .1;
    let w = (a.1 .0.min(b.1 .0) - a.0 .0.max(b.0 .0), a.1 .1.min(b.1 .1) - a.0 .1.max(b.0 .1));
    c.input(format!("{:?} {:?}", a, b));
    c.nontrivial(!flat(a) && !flat(b));
    c.label(if w.0 > 0 && w.1 > 0 { "overlap" } else if w.0 < 0 || w.1 < 0 { "apart" } else { "touch" });
    if flat(a) || flat(b) {
        return Ok(());
    }
    let unit = *t.pick(&[1., 64., 4096.]);
    c.label_if(unit > 1., "small coordinates");
    let p = |x: (i64, i64)| Point::new(x.0 as f64 / unit, x.1 as f64 / unit);
    let got = do_boxes_intersect((p(a.0), p(a.1)), (p(b.0), p(b.1)));
    let rev = do_boxes_intersect((p(b.0), p(b.1)), (p(a.0), p(a.1)));
    ensure!(got == rev, "the answer depends on the order");
    if w.0 > 0 && w.1 > 0 {
        ensure!(got, "the boxes overlap by {:?}, but do not intersect", w);
    } else if w.0 < 0 || w.1 < 0 {
        ensure!(!got, "the boxes are apart, but intersect");
    }
    for x in [a.0 .0, a.1 .0, b.0 .0, b.1 .1] {
        let want = x >= b.0 .0 && x <= b.1 .0;
        ensure!(in_range((b.0 .0 as f64, b.1 .0 as f64), x as f64) == want, "{} in the range {} .. {}", x, b.0 .0, b.1 .0);
    }
    Ok(())
}

fn median(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = if t.chance(10) { t.range(1, 300) } else { t.range(1, 12) };
    let k = t.below(3);
    let v: Vec<i64> = (0..n).map(|_| coord(t, k)).collect();
    c.input(format!("{:?}", v));
    c.nontrivial(n > 2);
    let mut s = v.clone();
    s.sort();
    let want = (s[(n - 1) / 2] + s[n / 2]) as f64 / 2.;
    let f: Vec<f64> = v.iter().map(|x| *x as f64).collect();
    let got = no_panic("weighted_median", || weighted_median(&f))?;
    ensure!(got == want, "the median is {}, expected {}", got, want);
    Ok(())
}

fn real(t: &mut Tape, max: usize) -> f64 {
    match t.below(4) {
        0 => t.range(0, max) as f64,
        1 => t.range(0, max * 8) as f64 / 8.,
        2 => t.u32() as f64 / u32::MAX as f64 * max as f64,
        _ => t.range(0, 10) as f64,
    }
}
fn signed(t: &mut Tape, max: usize) -> f64 {
    let v = real(t, max);
    if t.chance(128) {
        -v
    } else {
        v
    }
}
fn dist(a: Point, b: Point) -> f64 {
    ((a.x - b.x).powi(2) + (a.y - b.y).powi(2)).sqrt()
}

/// Connection points lie on the border, on the side of the other end.
fn connect(t: &mut Tape, c: &mut Case) -> Verdict {
    let loc = Point::new(real(t, 1000), real(t, 1000));
    let size = Point::new(real(t, 400) + 1., real(t, 400) + 1.);
    let mut from = loc.add(Point::new(signed(t, 1500), signed(t, 1500)));
    match t.below(6) {
        0 => from.x = loc.x,
        1 => from.y = loc.y,
        2 => from.x = loc.x + size.x / 2.,
        3 => from.x = loc.x - size.x / 4.,
        _ => {}
    }
    let force = *t.pick(&[30., 1., 250., 0.5]);
    let round = t.chance(128);
    c.input(format!("{} at {:?} size {:?} from {:?} force {}", if round { "ellipse" } else { "box" }, loc, size, from, force));
    let (hx, hy) = (size.x / 2., size.y / 2.);
    let (dx, dy) = (from.x - loc.x, from.y - loc.y);
    let outside = if round { (dx / hx).powi(2) + (dy / hy).powi(2) > 1. } else { dx.abs() > hx || dy.abs() > hy };
    c.label(if round { "ellipse" } else { "box" });
    c.label_if(outside, "from outside");
    c.nontrivial(outside);
    let (at, ctl) = if round {
        no_panic("connecting an ellipse", || get_connection_point_for_circle(loc, size, from, force))?
    } else {
        no_panic("connecting a box", || get_connection_point_for_box(loc, size, from, force))?
    };
    let (ex, ey) = (at.x - loc.x, at.y - loc.y);
    let tol = 1e-6 * (1. + size.x + size.y + loc.x + loc.y);
    if round {
        if dx == 0. && dy == 0. {
            return Ok(());
        }
        let d = ((ex / hx).powi(2) + (ey / hy).powi(2)).sqrt();
        ensure!((d - 1.).abs() * hx.min(hy) <= tol, "{:?} is not on the ellipse", at);
        // On the line to the other end, and on its side.
        let cr = ex * dy - ey * dx;
        ensure!(cr.abs() <= tol * (1. + dx.abs() + dy.abs()), "{:?} is not on the line from the center to {:?}", at, from);
        ensure!(ex * dx + ey * dy >= -tol, "{:?} is on the far side", at);
    } else {
        let on_x = (ex.abs() - hx).abs() <= tol && ey.abs() <= hy + tol;
        let on_y = (ey.abs() - hy).abs() <= tol && ex.abs() <= hx + tol;
        ensure!(on_x || on_y, "{:?} is not on the border of the box", at);
        if outside {
            // The other end sees the point: it is beyond that side.
            let seen = (on_x && dx * ex.signum() >= hx - tol) || (on_y && dy * ey.signum() >= hy - tol);
            ensure!(seen, "{:?} is on a side that {:?} does not see", at, from);
        }
    }
    if dist(at, from) > 1e-3 {
        ensure!((dist(at, ctl) - force).abs() <= 1e-6 * (1. + force) + tol, "the control point {:?} is {} away, not {}", ctl, dist(at, ctl), force);
        // The edge leaves towards the other end.
        let dot = (ctl.x - at.x) * (from.x - at.x) + (ctl.y - at.y) * (from.y - at.y);
        ensure!((dot - force * dist(at, from)).abs() <= 1e-4 * (1. + force * dist(at, from)), "the edge does not leave {:?} towards {:?}", at, from);
    }
    ensure!(at.x.is_finite() && at.y.is_finite() && ctl.x.is_finite() && ctl.y.is_finite(), "not finite: {:?} {:?}", at, ctl);
    Ok(())
}

fn passthrough(t: &mut Tape, c: &mut Case) -> Verdict {
    let mk = |t: &mut Tape| Point::new(real(t, 1000), real(t, 1000));
    let center = mk(t);
    let mut from = mk(t);
    let mut to = mk(t);
    match t.below(8) {
        0 => from.x = center.x,
        1 => to.y = center.y,
        2 => to = from,
        3 => from = center,
        4 => to = center,
        5 if t.chance(128) => {
            // Nearly back.
            from = center.add(Point::new(signed(t, 900), signed(t, 900)));
            to = from.add(Point::new(signed(t, 9), signed(t, 9)));
        }
        5 => {
            // Exactly opposite.
            from = center.add(Point::new(50., 20.));
            to = center.sub(Point::new(50., 20.));
        }
        _ => {}
    }
    let size = Point::new(real(t, 100), real(t, 100));
    let force = *t.pick(&[30., 5., 100.]);
    c.input(format!("center {:?} from {:?} to {:?} force {}", center, from, to, force));
    c.nontrivial(from != to && from != center && to != center);
    let (at, ctl) = no_panic("passing a connector", || get_passthrough_path_invisible(size, center, from, to, force))?;
    ensure!(at == center, "the route passes {:?}, not the center {:?}", at, center);
    let d = dist(at, ctl);
    ensure!(d.is_finite() && d <= force * (1. + 1e-9) + 1e-6, "the control point {:?} is {} away, more than {}", ctl, d, force);
    // The control point is on the side that the route comes from: it is
    // not beyond the center, as seen along the route.
    let unit = |p: Point, q: Point| {
        let l = dist(p, q);
        if l < 1e-9 { (0., 0.) } else { ((q.x - p.x) / l, (q.y - p.y) / l) }
    };
    let (u, v) = (unit(from, center), unit(center, to));
    // Routes that turn around make a bow, towards the end.
    let around = (u.0 + v.0).hypot(u.1 + v.1) * force < 1.01;
    let on = (ctl.x - at.x) * (to.x - from.x) + (ctl.y - at.y) * (to.y - from.y);
    if (u.0 + v.0).hypot(u.1 + v.1) * force < 0.99 && from != center && to != center {
        ensure!(on <= 1e-6 * force * dist(from, to), "the route turns back twice: control point {:?}", ctl);
    }
    let along = (ctl.x - at.x) * (u.0 + v.0) + (ctl.y - at.y) * (u.1 + v.1);
    ensure!(around || along <= 1e-6 * force, "the route turns back: control point {:?}", ctl);
    Ok(())
}

/// Vectors, interpolation, rotation, sizes.
fn vectors(t: &mut Tape, c: &mut Case) -> Verdict {
    let a = Point::new(signed(t, 1000), signed(t, 1000));
    let b = Point::new(signed(t, 1000), signed(t, 1000));
    let s = signed(t, 50);
    let w = t.below(9) as f64 / 8.;
    let ang = signed(t, 7);
    c.input(format!("{:?} {:?} scale {} ratio {} angle {}", a, b, s, w, ang));
    c.nontrivial(a != b && s != 0.);
    let near = |p: Point, x: f64, y: f64| (p.x - x).abs() <= 1e-6 * (1. + x.abs()) && (p.y - y).abs() <= 1e-6 * (1. + y.abs());
    ensure!(near(a.add(b), a.x + b.x, a.y + b.y), "sum {:?}", a.add(b));
    ensure!(near(a.sub(b), a.x - b.x, a.y - b.y), "difference {:?}", a.sub(b));
    ensure!(near(a.neg(), -a.x, -a.y), "negation {:?}", a.neg());
    ensure!(near(a.scale(s), a.x * s, a.y * s), "scaled {:?}", a.scale(s));
    ensure!(near(a.transpose(), a.y, a.x), "transposed {:?}", a.transpose());
    ensure!(near(Point::splat(s), s, s), "splat {:?}", Point::splat(s));
    ensure!((a.distance_to(b) - dist(a, b)).abs() <= 1e-6, "distance {}", a.distance_to(b));
    ensure!((a.length() - dist(a, Point::zero())).abs() <= 1e-6, "length {}", a.length());
    let r = a.rotate(ang);
    ensure!(near(r, a.x * ang.cos() - a.y * ang.sin(), a.x * ang.sin() + a.y * ang.cos()), "rotated {:?}", r);
    let r = a.rotate_around(b, ang);
    ensure!((dist(r, b) - dist(a, b)).abs() <= 1e-6 * (1. + dist(a, b)), "rotation changes the distance to its center");
    let back = r.rotate_around(b, -ang);
    ensure!(dist(back, a) <= 1e-6 * (1. + dist(a, b) + dist(b, Point::zero())), "rotated there and back {:?}", back);
    let i = interpolate(a, b, w);
    ensure!(near(i, a.x * w + b.x * (1. - w), a.y * w + b.y * (1. - w)), "interpolated {:?}", i);
    if dist(a, Point::zero()) > 1e-3 {
        let n = no_panic("normalize", || normalize_scale_vector(a, s))?;
        let l = dist(a, Point::zero());
        ensure!(near(n, a.x * s / l, a.y * s / l), "normalized {:?}", n);
    }
    let (x, y) = no_panic("create_vector_of_length", || create_vector_of_length(a, b, s.abs()))?;
    ensure!(x == a && (dist(x, y) - s.abs()).abs() <= 1e-6 * (1. + s.abs()), "vector {:?} {:?}", x, y);
    let (p, q) = (a.x.abs() + 1., a.y.abs() + 1.);
    let m = s;
    let e = no_panic("ellipse_line_intersection", || ellipse_line_intersection(p, q, m))?;
    ensure!(((e.x / p).powi(2) + (e.y / q).powi(2) - 1.).abs() <= 1e-6 && (e.y - m * e.x).abs() <= 1e-6 * (1. + q) && e.x >= 0., "ellipse {} {} and slope {}: {:?}", p, q, m, e);
    let sq = make_size_square(Point::new(p, q));
    ensure!(near(sq, p.max(q), p.max(q)), "squared {:?}", sq);
    ensure!(near(pad_shape_scalar(Point::new(p, q), s.abs()), p + s.abs(), q + s.abs()), "padded");
    Ok(())
}

/// The estimate is one font size for every line and column.
fn text_size(t: &mut Tape, c: &mut Case) -> Verdict {
    let many = t.chance(40);
    let n = if many { t.below(100) } else { t.below(24) };
    let mut s = String::new();
    for _ in 0..n {
        s.push(*t.pick(&['a', 'W', ' ', '\n', 'é', '中', '𝄞', '-', '<']));
        if many && t.chance(100) {
            s.push('\n');
        }
    }
    if t.chance(8) {
        // Long lines, or many of them.
        s = s.repeat(t.below(80));
    }
    let f = *t.pick(&[14usize, 1, 0, 30, 1000]);
    c.input(format!("{:?} font {}", s, f));
    c.nontrivial(n > 1);
    let z = no_panic("get_size_for_str", || get_size_for_str(&s, f))?;
    let (mut rows, mut cols, mut cur) = (0usize, 0usize, 0usize);
    let mut open = false;
    for ch in s.chars() {
        if !open {
            rows += 1;
            cur = 0;
            open = true;
        }
        if ch == '\n' {
            open = false;
        } else {
            cur += 1;
            cols = cols.max(cur);
        }
    }
    let want = (cols.max(1) * f, rows.max(1) * f);
    ensure!(z.x == want.0 as f64 && z.y == want.1 as f64, "estimate {:?} for {} columns and {} rows", z, cols, rows);
    Ok(())
}

fn main() {
    // The exact reference agrees with itself on a few known cases.
    debug_assert!(meet((0, 0), (4, 4), (1, 1), (3, 3)) == Meet::Cross);
    debug_assert!(meet((0, 2), (2, 4), (1, 1), (3, 3)) == Meet::Touch && cross((0, 0), (1, 0), (0, 1)) == 1);
    debug_assert!(meet((0, 0), (4, 0), (1, 1), (3, 3)) == Meet::Apart);
    run_main(Check {
        id: "C19",
        rule: "Integer segments and rectangles (small ranges, vertical, horizontal, degenerate) are decided exactly by rational clipping; boxes, medians, connection points, control points of connectors, vectors and text sizes are compared with closed forms. Non-trivial: the bounding boxes meet, boxes are not flat, ends are outside and different, at least three numbers.",
        assumptions: &["cases where shapes only touch are not judged; coordinates up to 100000"],
        subs: vec![
            Sub::new("segment", segment, 2_400_000, 12_000_000).guided(),
            Sub::new("boxes", boxes, 1_200_000, 4_000_000),
            Sub::new("median", median, 600_000, 2_000_000),
            Sub::new("connect", connect, 1_200_000, 6_000_000),
            Sub::new("passthrough", passthrough, 600_000, 3_000_000),
            Sub::new("vectors", vectors, 600_000, 3_000_000),
            Sub::new("text-size", text_size, 600_000, 2_000_000),
        ],
    });
}
