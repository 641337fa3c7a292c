//! Programs with all kinds of attributes, valid and broken.
#![allow(dead_code)]
use super::dot::{self, Attrs, Nid, St};
use vp::Tape;

pub fn record_text(t: &mut Tape) -> String {
    let n = t.below(14);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(t.pick(&["a", "|", "{", "}", "<p>", "<", ">", " ", "cell", "\n", "é", "|", "b", "<q> x", "<>", "]]>", "&"]));
    }
    s
}

pub fn attr(t: &mut Tape) -> (String, String) {
    let text = |t: &mut Tape| match t.below(4) {
        0 => record_text(t),
        1 => dot::wild_text(t, 12),
        2 => "line\nsecond line\n\nfourth".to_string(),
        _ => (*t.pick(&["x", "", "two words", "<&>", "\n", "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww", "a]]>b", "<!-- -->", "<![CDATA[x]]>", "&amp;&#0;&x;", "\u{85}\u{2028}\r", "</text></svg>", "<?x?>", "\"'>", "]]>"])).to_string(),
    };
    let number = |t: &mut Tape| (*t.pick(&["14", "1", "0", "2", "100", "1000", "999999", "-1", "1.5", "x", "", "99999999999999999999999"])).to_string();
    match t.below(9) {
        0..=2 => ("label".into(), text(t)),
        3 => ("shape".into(), (*t.pick(&["box", "circle", "doublecircle", "record", "Mrecord", "star", ""])).into()),
        4 => {
            let k = *t.pick(&["color", "fillcolor"]);
            let v = match t.below(3) {
                0 => dot::wild_text(t, 8),
                1 => (*t.pick(&["red", "transparent", "#", "#12", "#123", "#123456", "#12345678", "#123456789abc", "red:blue", ":", "", "RED", "#é"])).into(),
                _ => "blue".to_string(),
            };
            (k.into(), v)
        }
        5 => ("fontsize".into(), number(t)),
        6 => ((*t.pick(&["width", "penwidth", "height"])).into(), number(t)),
        7 => ("style".into(), (*t.pick(&["filled", "dashed", "dotted", "invis", "bold", ""])).into()),
        _ => ("rankdir".into(), (*t.pick(&["LR", "LR", "TB", "BT", "lr", "LR ", ""])).into()),
    }
}
pub fn attrs(t: &mut Tape, max: usize) -> Attrs {
    let n = t.below(max + 1);
    (0..n).map(|_| attr(t)).collect()
}
pub fn nid(t: &mut Tape, k: usize) -> Nid {
    let name = if t.chance(10) { dot::wild_text(t, 5) } else { format!("n{}", t.below(k)) };
    let port = if t.chance(30) { Some((*t.pick(&["p", "q", "", " ", "zz"])).to_string()) } else { None };
    Nid { name, port }
}
pub fn list(t: &mut Tape, k: usize, max: usize, depth: usize) -> Vec<St> {
    let n = t.below(max + 1);
    (0..n)
        .map(|_| match t.weighted(&[4, 7, 3, if depth < 3 { 1 } else { 0 }]) {
            0 => {
                let id = nid(t, k);
                St::Node { id, attrs: attrs(t, 3) }
            }
            1 => {
                let from = nid(t, k);
                let m = 1 + t.weighted(&[6, 2, 1, 1]);
                let to = (0..m).map(|_| (nid(t, k), !t.chance(60))).collect();
                St::Edge { from, to, attrs: if t.chance(120) { attrs(t, 3) } else { Vec::new() } }
            }
            2 => St::Attr { target: t.below(3) as u8, attrs: attrs(t, 2) },
            _ => St::Sub { name: None, list: list(t, k, 5, depth + 1) },
        })
        .collect()
}

