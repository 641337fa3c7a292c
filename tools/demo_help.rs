#![allow(dead_code, unused_imports)]
use layout::adt::dag::{NodeHandle, DAG};
use layout::adt::map::ScopedMap;
use layout::backends::svg::SVGWriter;
use layout::core::base::Orientation;
use layout::core::color::Color;
use layout::core::format::{ClipHandle, RenderBackend, Renderable, Visible};
use layout::core::geometry::*;
use layout::core::style::*;
use layout::gv::{parser::ast, DotParser, GraphBuilder};
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use layout::topo::optimizer::{EdgeCrossOptimizer, RankOptimizer};

fn parse(src: &str) -> Result<ast::Graph, String> {
    DotParser::new(src).process()
}
/// The document of a program; options: debug, no optimizations, no layout.
fn svg(src: &str, o: (bool, bool, bool)) -> String {
    let g = parse(src).expect("accepted");
    let mut gb = GraphBuilder::new();
    gb.visit_graph(&g);
    let mut vg = gb.get();
    let mut w = SVGWriter::new();
    vg.do_it(o.0, o.1, o.2, &mut w);
    w.finalize()
}
/// Records what is drawn.
#[derive(Default, Debug)]
struct Rec {
    rects: Vec<(Point, Point, String)>,
    circles: Vec<(Point, Point)>,
    texts: Vec<(Point, String, usize)>,
    arrows: Vec<(Vec<(Point, Point)>, (bool, bool), Option<String>)>,
}
impl RenderBackend for Rec {
    fn draw_rect(&mut self, xy: Point, size: Point, look: &StyleAttr, _p: Option<String>, _c: Option<ClipHandle>) {
        self.rects.push((xy, size, look.line_color.to_web_color()));
    }
    fn draw_line(&mut self, _a: Point, _b: Point, _l: &StyleAttr, _p: Option<String>) {}
    fn draw_circle(&mut self, xy: Point, size: Point, _l: &StyleAttr, _p: Option<String>) {
        self.circles.push((xy, size));
    }
    fn draw_text(&mut self, xy: Point, text: &str, l: &StyleAttr) {
        self.texts.push((xy, text.to_string(), l.font_size));
    }
    fn draw_arrow(&mut self, path: &[(Point, Point)], _d: bool, head: (bool, bool), _l: &StyleAttr, p: Option<String>, _t: &str) {
        self.arrows.push((path.to_vec(), head, p));
    }
    fn create_clip(&mut self, _xy: Point, _s: Point, _r: usize) -> ClipHandle {
        0
    }
}
fn draw_o(src: &str, o: (bool, bool, bool)) -> Rec {
    let g = parse(src).expect("accepted");
    let mut gb = GraphBuilder::new();
    gb.visit_graph(&g);
    let mut vg = gb.get();
    let mut r = Rec::default();
    vg.do_it(o.0, o.1, o.2, &mut r);
    r
}
fn draw(src: &str) -> Rec {
    draw_o(src, (false, false, false))
}
impl Rec {
    /// Where a text is drawn.
    fn at(&self, s: &str) -> Point {
        self.texts.iter().find(|t| t.1 == s).unwrap_or_else(|| panic!("no text {:?}", s)).0
    }
    fn has(&self, s: &str) -> bool {
        self.texts.iter().any(|t| t.1 == s)
    }
}
