//! What every SVG document must satisfy.
#![allow(dead_code)]
use std::collections::HashSet;
use vp::xml::{self, Node};

/// Parses the document and checks it on its own: well-formed, finite sizes and
/// coordinates, unique ids, references and classes that exist.
pub fn check(svg: &str) -> Result<Node, String> {
    let x = xml::parse(svg).map_err(|e| format!("the SVG is not well-formed: {}", e))?;
    if x.name != "svg" {
        return Err(format!("the root is <{}>", x.name));
    }
    if x.attr("xmlns") != Some("http://www.w3.org/2000/svg") {
        return Err("the root is not in the SVG name space".into());
    }
    for k in ["width", "height"] {
        let v = x.num(k)?;
        if v < 0. {
            return Err(format!("the document has {} {}", k, v));
        }
    }
    let vb = x.attr("viewBox").unwrap_or("");
    let n = vb.split_whitespace().filter_map(xml::svg_number).count();
    if n != 4 || vb.split_whitespace().count() != 4 {
        return Err(format!("view box {:?}", vb));
    }
    let mut nodes = Vec::new();
    x.walk(&mut |n, _| nodes.push(n), 0);
    let mut ids = HashSet::new();
    let mut classes = HashSet::new();
    for n in &nodes {
        if let Some(i) = n.attr("id") {
            if !ids.insert(i.to_string()) {
                return Err(format!("the id {:?} is used twice", i));
            }
        }
        if n.name == "style" {
            for rule in n.text.split('}') {
                if let Some(sel) = rule.split('{').next() {
                    if let Some(c) = sel.trim().strip_prefix('.') {
                        classes.insert(c.to_string());
                    }
                }
            }
        }
    }
    for n in &nodes {
        for (k, v) in &n.attrs {
            match k.as_str() {
                "x" | "y" | "width" | "height" | "rx" | "ry" | "cx" | "cy" | "x1" | "y1" | "x2" | "y2" | "stroke-width" | "refX" | "refY" => {
                    n.num(k)?;
                }
                "class" => {
                    if !classes.contains(v) {
                        return Err(format!("<{}> has the class {:?}, which is not defined", n.name, v));
                    }
                }
                "d" => {
                    path(v)?;
                }
                "href" | "xlink:href" => {
                    if !v.strip_prefix('#').is_some_and(|i| ids.contains(i)) {
                        return Err(format!("the reference {:?} leads nowhere", v));
                    }
                }
                "clip-path" | "marker-start" | "marker-end" => {
                    let i = v.strip_prefix("url(#").and_then(|x| x.strip_suffix(')'));
                    if !i.is_some_and(|i| ids.contains(i)) {
                        return Err(format!("the reference {:?} leads nowhere", v));
                    }
                }
                "fill" | "stroke" => {
                    let hex = v.strip_prefix('#').is_some_and(|h| [3, 4, 6, 8].contains(&h.len()) && h.chars().all(|c| c.is_ascii_hexdigit()));
                    if !hex && !["transparent", "context-stroke", "none"].contains(&v.as_str()) {
                        return Err(format!("the color {:?}", v));
                    }
                }
                _ => {}
            }
        }
    }
    Ok(x)
}

/// The commands of a path with their numbers.
pub fn path(d: &str) -> Result<Vec<(char, Vec<f64>)>, String> {
    let mut out: Vec<(char, Vec<f64>)> = Vec::new();
    let mut spaced = String::new();
    for c in d.chars() {
        match c {
            'M' | 'C' | 'S' => {
                spaced.push(' ');
                spaced.push(c);
                spaced.push(' ');
            }
            ',' => spaced.push(' '),
            c => spaced.push(c),
        }
    }
    for w in spaced.split_whitespace() {
        if let Some(c @ ('M' | 'C' | 'S')) = w.chars().next() {
            out.push((c, Vec::new()));
            continue;
        }
        let v = xml::svg_number(w).ok_or_else(|| format!("{:?} in the path {:?} is not a number", w, d))?;
        match out.last_mut() {
            Some(o) => o.1.push(v),
            None => return Err(format!("the path {:?} starts with a number", d)),
        }
    }
    for (i, (c, v)) in out.iter().enumerate() {
        let ok = match c {
            'M' => i == 0 && v.len() == 2,
            'C' => i == 1 && v.len() == 6,
            _ => i > 1 && v.len() == 4,
        };
        if !ok {
            return Err(format!("the path {:?} is malformed", d));
        }
    }
    if out.len() < 2 {
        return Err(format!("the path {:?} is empty", d));
    }
    Ok(out)
}

/// The lines of a <text> element.
pub fn lines(n: &Node) -> Vec<String> {
    n.find_all("tspan").iter().map(|t| t.text.clone()).collect()
}
