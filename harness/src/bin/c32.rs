//! C32: drawings do not influence each other.
#[path = "../shared/dot.rs"]
mod dot;
#[path = "../shared/progs.rs"]
mod progs;
use dot::{Prog, St};
use layout::adt::dag::{NodeHandle, DAG};
use layout::adt::map::ScopedMap;
use layout::backends::svg::SVGWriter;
use layout::core::color::Color;
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::gv::parser::ast;
use layout::gv::{DotParser, GraphBuilder};
use layout::topo::layout::VisualGraph;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use vp::*;

type O = (bool, bool, bool);

/// The steps from a program to its document, each on objects of its own.
#[derive(Default)]
struct Job<'a> {
    text: &'a str,
    o: O,
    step: usize,
    parser: Option<DotParser>,
    tree: Option<ast::Graph>,
    builder: Option<GraphBuilder>,
    graph: Option<VisualGraph>,
    writer: Option<SVGWriter>,
    doc: String,
}
const STEPS: usize = 8;
impl<'a> Job<'a> {
    fn new(text: &'a str, o: O) -> Self {
        Job { text, o, ..Default::default() }
    }
    fn go(&mut self) -> Result<(), String> {
        match self.step {
            0 => self.parser = Some(DotParser::new(self.text)),
            1 => {
                let r = self.parser.as_mut().expect("order").process();
                self.tree = Some(r.map_err(|e| format!("a valid program was rejected: {}", e))?);
            }
            2 => self.builder = Some(GraphBuilder::new()),
            3 => self.builder.as_mut().expect("order").visit_graph(self.tree.as_ref().expect("order")),
            4 => self.graph = Some(self.builder.as_ref().expect("order").get()),
            5 => self.writer = Some(SVGWriter::new()),
            6 => self.graph.as_mut().expect("order").do_it(self.o.0, self.o.1, self.o.2, self.writer.as_mut().expect("order")),
            _ => self.doc = self.writer.as_ref().expect("order").finalize(),
        }
        self.step += 1;
        Ok(())
    }
    fn finish(mut self) -> Result<String, String> {
        while self.step < STEPS {
            self.go()?;
        }
        Ok(self.doc)
    }
}

fn alone(text: &str, o: O) -> Result<String, String> {
    no_panic("rendering", || Job::new(text, o).finish())?
}

fn differ(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(60).min(s.len())..(i + 60).min(s.len())]).into_owned();
    format!("first difference: {:?} and {:?}", cut(a), cut(b))
}

fn opts(t: &mut Tape) -> O {
    let k = t.weighted(&[4, 1, 1, 1, 1]);
    (k & 1 > 0, k & 2 > 0, k & 4 > 0)
}
fn gen(t: &mut Tape) -> Prog {
    let (k, max) = *t.pick(&[(3, 3), (4, 6), (8, 14)]);
    Prog { strict: false, directed: true, name: None, list: progs::list(t, k, max, 0) }
}
fn print(t: &mut Tape, p: &Prog) -> String {
    let toks = dot::tokens(t, p);
    dot::print(t, &toks)
}

/// Another program that looks much like the first.
fn vary(t: &mut Tape, l: &mut [St]) {
    fn value(t: &mut Tape, k: &str, v: &mut String) {
        if t.chance(100) {
            return;
        }
        match k {
            "fontsize" | "penwidth" | "width" => *v = format!("{}", t.range(1, 40)),
            "color" | "fillcolor" => *v = (*t.pick(&["red", "green", "#010203", "none", "blue"])).into(),
            "shape" => *v = (*t.pick(&["box", "circle", "record", "Mrecord", "doublecircle"])).into(),
            "rankdir" => *v = (*t.pick(&["LR", "TB"])).into(),
            // As long, but another text.
            _ => {
                *v = v.chars().map(|c| if c.is_ascii_alphabetic() { (b'a' + t.below(26) as u8) as char } else { c }).collect();
            }
        }
    }
    for s in l {
        match s {
            St::Node { attrs, .. } | St::Edge { attrs, .. } | St::Attr { attrs, .. } => {
                attrs.iter_mut().for_each(|a| {
                    let k = a.0.clone();
                    value(t, &k, &mut a.1);
                });
            }
            St::Sub { list, .. } => vary(t, list),
        }
    }
}

/// Up to three programs; some look alike.
fn family(t: &mut Tape, n: usize) -> Vec<(String, O)> {
    let p = gen(t);
    let o = opts(t);
    (0..n)
        .map(|i| {
            let q = match t.below(3) {
                0 if i > 0 => gen(t),
                _ => {
                    let mut q = p.clone();
                    if i > 0 {
                        vary(t, &mut q.list);
                    }
                    q
                }
            };
            let o = if i > 0 && t.chance(60) { opts(t) } else { o };
            (print(t, &q), o)
        })
        .collect()
}

fn show(v: &[(String, O)]) -> String {
    v.iter().map(|(s, o)| format!("{:?} {}", o, s)).collect::<Vec<_>>().join("\n---\n")
}

/// The steps of several drawings alternate.
fn steps(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = t.range(2, 3);
    let v = family(t, n);
    let mut order: Vec<usize> = (0..n * STEPS).map(|i| i / STEPS).collect();
    for i in 1..order.len() {
        let j = t.below(i + 1);
        order.swap(i, j);
    }
    c.input(format!("order of steps {:?}, programs {}", order, show(&v)));
    let mut want = Vec::new();
    for (s, o) in &v {
        want.push(alone(s, *o)?);
    }
    c.nontrivial(want.iter().all(|w| w.contains("<tspan")));
    let got: Vec<String> = no_panic("rendering in turns", || {
        let mut jobs: Vec<Job> = v.iter().map(|(s, o)| Job::new(s, *o)).collect();
        for i in &order {
            jobs[*i].go()?;
        }
        Ok::<_, String>(jobs.into_iter().map(|j| j.doc).collect())
    })??;
    for i in 0..n {
        ensure!(got[i] == want[i], "drawing {} depends on what others do in between; {}", i, differ(&want[i], &got[i]));
    }
    Ok(())
}

/// Draws on an SVG writer; somewhere on the way something else is drawn.
struct Nest<'a, F: FnMut()> {
    w: &'a mut SVGWriter,
    k: usize,
    f: F,
}
impl<'a, F: FnMut()> Nest<'a, F> {
    fn tick(&mut self) {
        if self.k == 0 {
            (self.f)();
            self.k = 7;
        }
        self.k -= 1;
    }
}
impl<'a, F: FnMut()> RenderBackend for Nest<'a, F> {
    fn draw_rect(&mut self, xy: Point, size: Point, look: &StyleAttr, p: Option<String>, c: Option<ClipHandle>) {
        self.tick();
        self.w.draw_rect(xy, size, look, p, c);
    }
    fn draw_line(&mut self, a: Point, b: Point, look: &StyleAttr, p: Option<String>) {
        self.tick();
        self.w.draw_line(a, b, look, p);
    }
    fn draw_circle(&mut self, xy: Point, size: Point, look: &StyleAttr, p: Option<String>) {
        self.tick();
        self.w.draw_circle(xy, size, look, p);
    }
    fn draw_text(&mut self, xy: Point, text: &str, look: &StyleAttr) {
        self.tick();
        self.w.draw_text(xy, text, look);
    }
    fn draw_arrow(&mut self, path: &[(Point, Point)], d: bool, h: (bool, bool), look: &StyleAttr, p: Option<String>, text: &str) {
        self.tick();
        self.w.draw_arrow(path, d, h, look, p, text);
    }
    fn create_clip(&mut self, xy: Point, size: Point, r: usize) -> ClipHandle {
        self.tick();
        self.w.create_clip(xy, size, r)
    }
}

fn nested(t: &mut Tape, c: &mut Case) -> Verdict {
    let v = family(t, 2);
    let k = t.below(12);
    c.input(format!("the second program is drawn at the call {} of the first: {}", k, show(&v)));
    let want = [alone(&v[0].0, v[0].1)?, alone(&v[1].0, v[1].1)?];
    let mut inner: Vec<Result<String, String>> = Vec::new();
    let got = no_panic("rendering within rendering", || {
        let g = DotParser::new(&v[0].0).process()?;
        let mut gb = GraphBuilder::new();
        gb.visit_graph(&g);
        let mut vg = gb.get();
        let mut w = SVGWriter::new();
        let f = || inner.push(Job::new(&v[1].0, v[1].1).finish());
        vg.do_it(v[0].1 .0, v[0].1 .1, v[0].1 .2, &mut Nest { w: &mut w, k, f });
        Ok::<_, String>(w.finalize())
    })??;
    c.nontrivial(!inner.is_empty() && want[0].contains("<tspan"));
    ensure!(got == want[0], "the outer drawing depends on what is drawn in between; {}", differ(&want[0], &got));
    for d in inner {
        let d = d?;
        ensure!(d == want[1], "the inner drawing differs; {}", differ(&want[1], &d));
    }
    Ok(())
}

/// At the same time.
fn threads(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = t.range(2, 4);
    let v = family(t, n);
    c.input(show(&v));
    let mut want = Vec::new();
    for (s, o) in &v {
        want.push(alone(s, *o)?);
    }
    c.nontrivial(want.iter().all(|w| w.contains("<tspan")));
    let start = std::sync::Barrier::new(n);
    let got: Vec<Result<Vec<String>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = v
            .iter()
            .map(|(s, o)| {
                let start = &start;
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        start.wait();
                        (0..3).map(|_| alone(s, *o)).collect::<Result<Vec<String>, String>>()
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for (i, r) in got.into_iter().enumerate() {
        for d in r? {
            ensure!(d == want[i], "drawing {} differs when others are drawn at the same time; {}", i, differ(&want[i], &d));
        }
    }
    Ok(())
}

/// After others, and in a process of its own.
fn fresh(t: &mut Tape, c: &mut Case) -> Verdict {
    let n = t.range(2, 5);
    let v = family(t, n);
    c.input(format!("{}\n--- is drawn first, then {}", show(&v[1..]), show(&v[..1])));
    for (s, o) in &v[1..] {
        alone(s, *o)?;
    }
    let (s, o) = &v[0];
    let got = alone(s, *o)?;
    c.nontrivial(got.contains("<tspan"));
    let exe = std::env::current_exe().expect("path");
    let o: String = [o.0, o.1, o.2].iter().map(|x| if *x { '1' } else { '0' }).collect();
    let mut p = Command::new(exe).args(["draw", &o]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("start");
    p.stdin.take().expect("pipe").write_all(s.as_bytes()).expect("write");
    let mut want = String::new();
    p.stdout.take().expect("pipe").read_to_string(&mut want).expect("read");
    let st = p.wait().expect("wait");
    ensure!(st.success(), "the program is drawn here, but in a process of its own there is an error: {}", st);
    ensure!(got == want, "the drawing depends on what was drawn before in the process; in a new one: {}", differ(&want, &got));
    Ok(())
}

/// `draw OPTIONS`: draws the program on the standard input.
fn draw_main(o: &str) {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).expect("read");
    let b: Vec<bool> = o.chars().map(|c| c == '1').collect();
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || Job::new(&s, (b[0], b[1], b[2])).finish()).expect("thread");
    match h.join() {
        Ok(Ok(d)) => std::io::stdout().write_all(d.as_bytes()).expect("write"),
        _ => std::process::exit(3),
    }
}

/// Calls on two writers alternate.
fn writers(t: &mut Tape, c: &mut Case) -> Verdict {
    type Call = (usize, (f64, f64), (f64, f64), StyleAttr, String);
    let pool: Vec<(f64, f64)> = (0..3).map(|_| (t.below(300) as f64, t.below(300) as f64)).collect();
    let n = t.range(2, 24);
    let calls: Vec<(usize, Call)> = (0..n)
        .map(|_| {
            let fill = if t.chance(128) { Some(Color::new(*t.pick(&[0xff, 0xff00ffff, 0x12345678]))) } else { None };
            let look = StyleAttr::new(Color::new(*t.pick(&[0xff, 0xff0000ff, 0x01020304])), t.below(4), fill, t.below(3) * 5, *t.pick(&[14, 10, 3, 60, 15]));
            (t.below(2), (t.below(6), *t.pick(&pool), *t.pick(&pool), look, dot::wild_text(t, 6).replace('\r', "")))
        })
        .collect();
    c.input(calls.iter().map(|(w, x)| format!("{}: {:?}", w, x)).collect::<Vec<_>>().join("; "));
    c.nontrivial(calls.iter().any(|x| x.0 == 0) && calls.iter().any(|x| x.0 == 1));
    // Clip handles belong to a writer.
    fn call(w: &mut SVGWriter, clips: &mut Vec<ClipHandle>, x: &Call) {
        let (k, a, b, look, s) = x;
        let (a, b) = (Point::new(a.0, a.1), Point::new(b.0, b.1));
        let p = if s.len() % 3 == 0 { Some(format!("data-x=\"{}\"", s.len())) } else { None };
        match k {
            0 => w.draw_rect(a, b, look, p, clips.last().copied()),
            1 => w.draw_circle(a, b, look, p),
            2 => w.draw_line(a, b, look, p),
            3 => w.draw_text(a, s, look),
            4 => w.draw_arrow(&[(a, b), (b, a)], s.len() % 2 > 0, (true, s.len() % 3 > 0), look, p, s),
            _ => {
                let h = w.create_clip(a, b, look.rounded);
                clips.push(h);
            }
        }
    }
    let r = no_panic("drawing", || {
        let mut want = Vec::new();
        for k in 0..2 {
            let (mut w, mut clips) = (SVGWriter::new(), Vec::new());
            calls.iter().filter(|x| x.0 == k).for_each(|x| call(&mut w, &mut clips, &x.1));
            want.push(w.finalize());
        }
        let (mut w, mut clips) = ([SVGWriter::new(), SVGWriter::new()], [Vec::new(), Vec::new()]);
        calls.iter().for_each(|(k, x)| call(&mut w[*k], &mut clips[*k], x));
        (want, [w[0].finalize(), w[1].finalize()])
    })?;
    for k in 0..2 {
        ensure!(r.0[k] == r.1[k], "the document of writer {} depends on the other one; {}", k, differ(&r.0[k], &r.1[k]));
    }
    Ok(())
}

/// Histories of two graphs and two maps alternate.
fn structures(t: &mut Tape, c: &mut Case) -> Verdict {
    let ops: Vec<(usize, usize, usize, usize)> = (0..t.range(2, 40)).map(|_| (t.below(2), t.below(9), t.below(8), t.below(8))).collect();
    c.input(format!("{:?}", ops));
    c.nontrivial(ops.iter().any(|x| x.0 == 0) && ops.iter().any(|x| x.0 == 1));
    struct S {
        d: DAG,
        m: ScopedMap<String, usize>,
        log: String,
    }
    impl S {
        fn new() -> S {
            let mut d = DAG::new();
            d.new_nodes(8);
            let mut m = ScopedMap::new();
            m.push();
            S { d, m, log: String::new() }
        }
        fn go(&mut self, o: &(usize, usize, usize, usize)) {
            let (_, k, a, b) = *o;
            let (x, y) = (NodeHandle::new(a), NodeHandle::new(b));
            match k {
                0 | 1 => {
                    if a < b {
                        self.d.add_edge(x, y);
                    }
                }
                2 => {
                    self.d.remove_edge(x, y);
                }
                3 => self.d.recompute_node_ranks(),
                4 => {
                    let l = self.d.num_levels();
                    self.d.update_node_rank_level(x, b % (l + 1), None);
                }
                5 => self.m.push(),
                6 => {
                    if self.m.len() > 1 {
                        self.m.pop();
                    }
                }
                _ => self.m.insert(&format!("k{}", a), &b),
            }
            let s: Vec<String> = (0..8).map(|i| format!("{:?}{:?}{:?}", self.d.successors(NodeHandle::new(i)), self.d.is_reachable(x, NodeHandle::new(i)), self.m.get(&format!("k{}", i)))).collect();
            let mut f: Vec<_> = self.m.flatten().into_iter().collect();
            f.sort();
            self.log.push_str(&format!("{:?} {:?} {:?} {}\n", self.d.ranks(), s, f, self.m.len()));
        }
    }
    let r = no_panic("histories", || {
        let mut want = Vec::new();
        for k in 0..2 {
            let mut s = S::new();
            ops.iter().filter(|o| o.0 == k).for_each(|o| s.go(o));
            want.push(s.log);
        }
        let mut s = [S::new(), S::new()];
        ops.iter().for_each(|o| s[o.0].go(o));
        (want, s)
    })?;
    for k in 0..2 {
        ensure!(r.0[k] == r.1[k].log, "the structure {} depends on the other one; {}", k, differ(&r.0[k], &r.1[k].log));
    }
    Ok(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "draw" {
        return draw_main(&args[2]);
    }
    run_main(Check {
        id: "C32",
        rule: "Random programs, some much alike, are drawn alone; then the steps of their drawings are mixed, one is drawn while another one is being drawn, several are drawn in threads at the same time, and one is drawn in a process of its own: the documents must be the same, byte for byte. Calls on two writers, and histories on two graphs and two maps, are mixed: each must end up as it does alone. Non-trivial: all drawings have texts; both writers or structures are used.",
        assumptions: &["handles of clip regions are used with the writer that made them"],
        subs: vec![
            Sub::new("steps", steps, 12_000, 400_000).tape(3000),
            Sub::new("nested", nested, 10_000, 300_000).tape(3000),
            Sub::new("threads", threads, 3_000, 100_000).tape(3000),
            Sub::new("fresh", fresh, 3_000, 100_000).tape(3000),
            Sub::new("writers", writers, 60_000, 1_500_000),
            Sub::new("structures", structures, 100_000, 2_000_000),
        ],
    });
}
