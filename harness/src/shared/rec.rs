//! A rendering backend that records the calls it gets.
#![allow(dead_code)]
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;

pub type P = (f64, f64);

#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub struct Look {
    pub line: String,
    pub width: usize,
    pub fill: Option<String>,
    pub rounded: usize,
    pub font: usize,
}

#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum Op {
    Rect { xy: P, size: P, look: Look, props: Option<String>, clip: Option<usize> },
    Line { a: P, b: P, look: Look, props: Option<String> },
    Circle { xy: P, size: P, look: Look, props: Option<String> },
    Text { xy: P, text: String, look: Look },
    Arrow { path: Vec<(P, P)>, dashed: bool, head: (bool, bool), look: Look, props: Option<String>, text: String },
    Clip { xy: P, size: P, rounded: usize },
}

#[derive(Default)]
pub struct Rec {
    pub ops: Vec<Op>,
    clips: usize,
}

impl Rec {
    pub fn new() -> Rec {
        Rec::default()
    }
}

pub fn p(a: Point) -> P {
    (a.x, a.y)
}
pub fn look(l: &StyleAttr) -> Look {
    Look {
        line: l.line_color.to_web_color(),
        width: l.line_width,
        fill: l.fill_color.map(|c| c.to_web_color()),
        rounded: l.rounded,
        font: l.font_size,
    }
}

impl RenderBackend for Rec {
    fn draw_rect(&mut self, xy: Point, size: Point, l: &StyleAttr, props: Option<String>, clip: Option<ClipHandle>) {
        self.ops.push(Op::Rect { xy: p(xy), size: p(size), look: look(l), props, clip });
    }
    fn draw_line(&mut self, a: Point, b: Point, l: &StyleAttr, props: Option<String>) {
        self.ops.push(Op::Line { a: p(a), b: p(b), look: look(l), props });
    }
    fn draw_circle(&mut self, xy: Point, size: Point, l: &StyleAttr, props: Option<String>) {
        self.ops.push(Op::Circle { xy: p(xy), size: p(size), look: look(l), props });
    }
    fn draw_text(&mut self, xy: Point, text: &str, l: &StyleAttr) {
        self.ops.push(Op::Text { xy: p(xy), text: text.to_string(), look: look(l) });
    }
    fn draw_arrow(&mut self, path: &[(Point, Point)], dashed: bool, head: (bool, bool), l: &StyleAttr, props: Option<String>, text: &str) {
        self.ops.push(Op::Arrow {
            path: path.iter().map(|x| (p(x.0), p(x.1))).collect(),
            dashed,
            head,
            look: look(l),
            props,
            text: text.to_string(),
        });
    }
    fn create_clip(&mut self, xy: Point, size: Point, rounded: usize) -> ClipHandle {
        self.ops.push(Op::Clip { xy: p(xy), size: p(size), rounded });
        self.clips += 1;
        self.clips - 1
    }
}

/// All the coordinates of an operation.
pub fn coords(o: &Op) -> Vec<f64> {
    let mut v = Vec::new();
    let mut add = |x: &P| {
        v.push(x.0);
        v.push(x.1);
    };
    match o {
        Op::Rect { xy, size, .. } | Op::Circle { xy, size, .. } | Op::Clip { xy, size, .. } => {
            add(xy);
            add(size);
        }
        Op::Line { a, b, .. } => {
            add(a);
            add(b);
        }
        Op::Text { xy, .. } => add(xy),
        Op::Arrow { path, .. } => {
            for q in path {
                add(&q.0);
                add(&q.1);
            }
        }
    }
    v
}
