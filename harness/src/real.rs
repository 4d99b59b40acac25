//! Observations of the implementation, in the model's vocabulary.
use crate::model::canon_f;
use kdl::*;
use std::fmt::Write as _;

pub fn canon_val(v: &KdlValue) -> String {
    match v {
        KdlValue::String(s) => format!("s{s:?}"),
        KdlValue::Integer(i) => format!("i{i}"),
        KdlValue::Float(f) => canon_f(*f),
        KdlValue::Bool(b) => format!("b{b}"),
        KdlValue::Null => "n".into(),
    }
}

pub fn canon_entry(e: &KdlEntry, s: &mut String) {
    if let Some(n) = e.name() {
        let _ = write!(s, "{:?}=", n.value());
    }
    if let Some(t) = e.ty() {
        let _ = write!(s, "({:?})", t.value());
    }
    s.push_str(&canon_val(e.value()));
}

pub fn canon_node(n: &KdlNode, s: &mut String) {
    s.push('<');
    if let Some(t) = n.ty() {
        let _ = write!(s, "({:?})", t.value());
    }
    let _ = write!(s, "{:?}", n.name().value());
    for e in n.entries() {
        s.push(' ');
        canon_entry(e, s);
    }
    if let Some(c) = n.children() {
        s.push('{');
        canon_nodes(c, s);
        s.push('}');
    }
    s.push('>');
}

pub fn canon_nodes(d: &KdlDocument, s: &mut String) {
    for n in d.nodes() {
        canon_node(n, s);
    }
}

pub fn canon_doc(d: &KdlDocument) -> String {
    let mut s = String::new();
    canon_nodes(d, &mut s);
    s
}

/// The same data, built through the API without any formatting.
pub fn rebuild(d: &KdlDocument) -> KdlDocument {
    let mut out = KdlDocument::new();
    for n in d.nodes() {
        out.nodes_mut().push(rebuild_node(n));
    }
    out
}

pub fn rebuild_node(n: &KdlNode) -> KdlNode {
    let mut m = KdlNode::new(n.name().value());
    m.clear_format();
    if let Some(t) = n.ty() {
        m.set_ty(t.value());
    }
    for e in n.entries() {
        let mut f = match e.name() {
            Some(k) => KdlEntry::new_prop(k.value(), e.value().clone()),
            None => KdlEntry::new(e.value().clone()),
        };
        if let Some(t) = e.ty() {
            f.set_ty(t.value());
        }
        m.push(f);
    }
    if let Some(c) = n.children() {
        m.set_children(rebuild(c));
    }
    m
}
