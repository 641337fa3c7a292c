//! Converts the syntax tree of the crate under test to ours.
use super::dot::{Nid, St};
use layout::gv::parser::ast;

fn nid(n: &ast::NodeId) -> Nid {
    Nid { name: n.name.clone(), port: n.port.clone() }
}
fn attrs(l: &ast::AttributeList) -> Vec<(String, String)> {
    l.list.clone()
}
pub fn list(l: &ast::StmtList) -> Vec<St> {
    l.list
        .iter()
        .map(|s| match s {
            ast::Stmt::Node(n) => St::Node { id: nid(&n.id), attrs: attrs(&n.list) },
            ast::Stmt::Edge(e) => St::Edge {
                from: nid(&e.from),
                to: e
                    .to
                    .iter()
                    .map(|(n, k)| (nid(n), matches!(k, ast::ArrowKind::Arrow)))
                    .collect(),
                attrs: attrs(&e.list),
            },
            ast::Stmt::Attribute(a) => St::Attr {
                target: match a.target {
                    ast::AttrStmtTarget::Graph => 0,
                    ast::AttrStmtTarget::Node => 1,
                    ast::AttrStmtTarget::Edge => 2,
                },
                attrs: attrs(&a.list),
            },
            ast::Stmt::SubGraph(g) => St::Sub { name: Some(g.name.clone()), list: list(&g.list) },
        })
        .collect()
}

/// Compares ours (expected) with theirs; scope names count only when given.
pub fn same(exp: &[St], got: &[St], path: &str) -> Result<(), String> {
    if exp.len() != got.len() {
        return Err(format!(
            "{}: {} statements expected, {} parsed",
            path,
            exp.len(),
            got.len()
        ));
    }
    for (i, (e, g)) in exp.iter().zip(got).enumerate() {
        let p = format!("{}/{}", path, i);
        match (e, g) {
            (St::Sub { name: n1, list: l1 }, St::Sub { name: n2, list: l2 }) => {
                if n1.is_some() && n1 != n2 {
                    return Err(format!("{}: scope name {:?}, expected {:?}", p, n2, n1));
                }
                same(l1, l2, &p)?;
            }
            _ => {
                if e != g {
                    return Err(format!("{}: expected {:?}, parsed {:?}", p, e, g));
                }
            }
        }
    }
    Ok(())
}
