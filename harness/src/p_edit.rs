//! P16: editing one part of a parsed document leaves every other part alone.

use crate::p_fmt::meaning;
use crate::real::*;
use crate::run::*;
use crate::spaces;
use kdl::*;
use std::ops::Range;

/// Where the parts of a node are in the source text.
struct Parts {
    path: Vec<usize>,
    whole: Range<usize>,
    /// type annotation with its parentheses and what separates it from the name
    ty: Range<usize>,
    name: Range<usize>,
    entries: Vec<Range<usize>>,
    /// `before_children`, braces and all between them
    children: Range<usize>,
}

fn walk(d: &KdlDocument, mut off: usize, path: &mut Vec<usize>, out: &mut Vec<Parts>) {
    off += d.format().map_or(0, |f| f.leading.len());
    for (i, n) in d.nodes().iter().enumerate() {
        path.push(i);
        let whole = off..off + n.to_string().len();
        let f = n.format().cloned().unwrap_or_default();
        let t0 = off + f.leading.len();
        let t1 = t0 + n.ty().map_or(0, |t| 2 + f.before_ty_name.len() + t.to_string().len() + f.after_ty_name.len() + f.after_ty.len());
        let name = t1..t1 + n.name().to_string().len();
        let mut p = name.end;
        let mut entries = vec![];
        for e in n.entries() {
            let l = e.to_string().len();
            entries.push(p..p + l);
            p += l;
        }
        let c0 = p;
        let at = out.len();
        if let Some(c) = n.children() {
            p += f.before_children.len() + 1;
            let l = c.to_string().len();
            p += l + 1;
        }
        out.push(Parts { path: path.clone(), whole: whole.clone(), ty: t0..t1, name, entries, children: c0..p });
        if let Some(c) = n.children() {
            walk(c, c0 + f.before_children.len() + 1, path, out);
        }
        let _ = at;
        off = whole.end;
        path.pop();
    }
}

fn doc_at<'a>(d: &'a mut KdlDocument, path: &[usize]) -> &'a mut KdlDocument {
    match path.split_first() {
        None => d,
        Some((i, r)) => doc_at(d.nodes_mut()[*i].children_mut().as_mut().unwrap(), r),
    }
}

fn node_at<'a>(d: &'a mut KdlDocument, path: &[usize]) -> &'a mut KdlNode {
    let (i, r) = path.split_last().unwrap();
    &mut doc_at(d, r).nodes_mut()[*i]
}

fn judge(what: &str, x: &KdlDocument, t: &str) -> Result<(), Fail> {
    let want = canon_doc(x);
    match meaning(t) {
        None => fail(format!("{what}-invalid"), format!("printed as {t:?}, which is not KDL")),
        Some(m) if m != want => fail(format!("{what}-meaning"), format!("printed as {t:?}, which means {m} instead of {want}")),
        _ => Ok(()),
    }
}

/// The edit's text replaces exactly `at`.
fn exact(what: &str, s: &str, x: &KdlDocument, at: &Range<usize>, new: &str) -> Result<(), Fail> {
    let t = x.to_string();
    let want = format!("{}{new}{}", &s[..at.start], &s[at.end..]);
    if t != want {
        return fail(format!("{what}-elsewhere"), format!("printed as {t:?} instead of {want:?}"));
    }
    judge(what, x, &t)
}

/// Everything outside `at` is as it was; the new text contains `new`, and line
/// breaks at most besides.
fn around(what: &str, s: &str, x: &KdlDocument, at: &Range<usize>, new: &str) -> Result<(), Fail> {
    let t = x.to_string();
    let (a, b) = (&s[..at.start], &s[at.end..]);
    let ok = t.len() >= a.len() + b.len() && t.starts_with(a) && t.ends_with(b) && t[a.len()..t.len() - b.len()].trim() == new.trim();
    if !ok {
        return fail(format!("{what}-elsewhere"), format!("printed as {t:?} instead of {a:?} {new:?} {b:?}"));
    }
    judge(what, x, &t)
}

pub fn edits(s: &str, entries_too: bool) -> Outcome {
    let Ok(d) = KdlDocument::parse(s) else { return Ok("rejected") };
    if d.to_string() != s {
        return fail("not-lossless", "print differs from source");
    }
    let mut parts = vec![];
    walk(&d, 0, &mut vec![], &mut parts);
    let new_nodes: Vec<(&str, KdlNode, &str)> = {
        let plain = KdlNode::new("zz");
        let mut bare = KdlNode::new("zz");
        bare.push(7);
        bare.clear_format();
        let cut: KdlNode = " zz \"q\"".parse().unwrap();
        let done: KdlNode = "zz{};".parse().unwrap();
        vec![("new", plain, "zz"), ("unformatted", bare, "zz 7"), ("parsed", cut, "zz \"q\""), ("terminated", done, "zz{};")]
    };
    // insertion of a node at every position of every document and block
    let mut docs: Vec<(Vec<usize>, usize)> = vec![(vec![], d.format().map_or(0, |f| f.leading.len()))];
    for p in &parts {
        let mut x = d.clone();
        let n = node_at(&mut x, &p.path);
        if let Some(c) = n.children() {
            let f = n.format().map_or(0, |f| f.before_children.len());
            docs.push((p.path.clone(), p.children.start + f + 1 + c.format().map_or(0, |f| f.leading.len())));
        }
    }
    for (path, start) in &docs {
        let mut at = vec![*start];
        for p in &parts {
            if p.path.len() == path.len() + 1 && p.path.starts_with(path) {
                at.push(p.whole.end);
            }
        }
        for (i, off) in at.iter().enumerate() {
            for (what, n, text) in &new_nodes {
                let mut x = d.clone();
                doc_at(&mut x, path).nodes_mut().insert(i, n.clone());
                around(&format!("insert-{what}-node"), s, &x, &(*off..*off), text)?;
            }
        }
        // order: the last node first
        if at.len() > 2 {
            let mut x = d.clone();
            let nodes = doc_at(&mut x, path).nodes_mut();
            let n = nodes.pop().unwrap();
            nodes.insert(0, n);
            judge("rotate-nodes", &x, &x.to_string())?;
            let mut x = d.clone();
            doc_at(&mut x, path).nodes_mut().reverse();
            judge("reverse-nodes", &x, &x.to_string())?;
        }
        if at.len() > 1 {
            let mut x = d.clone();
            let nodes = doc_at(&mut x, path).nodes_mut();
            let n = nodes[0].clone();
            nodes.push(n);
            judge("copy-node", &x, &x.to_string())?;
        }
    }
    for p in &parts {
        let edit = |f: &dyn Fn(&mut KdlNode)| {
            let mut x = d.clone();
            f(node_at(&mut x, &p.path));
            x
        };
        // the node itself
        let (i, r) = p.path.split_last().unwrap();
        let mut x = d.clone();
        doc_at(&mut x, r).nodes_mut().remove(*i);
        exact("remove-node", s, &x, &p.whole, "")?;
        exact("set-name", s, &edit(&|n| n.set_name("z z")), &p.name, "\"z z\"")?;
        exact("set-name", s, &edit(&|n| n.set_name("zz")), &p.name, "zz")?;
        {
            let mut x = d.clone();
            let n = node_at(&mut x, &p.path);
            let had = n.ty().is_some();
            let f = n.format().cloned().unwrap_or_default();
            n.set_ty("tt");
            let new = if had {
                format!("({}tt{}){}", f.before_ty_name, f.after_ty_name, f.after_ty)
            } else {
                "(tt)".to_string()
            };
            exact("set-node-type", s, &x, &p.ty, &new)?;
            if had {
                exact("remove-node-type", s, &edit(&|n| *n.ty_mut() = None), &p.ty, "")?;
            }
        }
        // blocks
        {
            let mut x = d.clone();
            let n = node_at(&mut x, &p.path);
            let had = n.children().is_some();
            let f = n.format().cloned().unwrap_or_default();
            n.set_children(KdlDocument::parse(" q 1; ").unwrap());
            let t = x.to_string();
            if had {
                exact("set-children", s, &x, &p.children, &format!("{}{{ q 1; }}", f.before_children))?;
                exact("remove-children", s, &edit(&|n| n.clear_children()), &p.children, "")?;
            } else if f.before_terminator.contains("/-") {
                // slashdashed entries stay in front of the block
                judge("add-children", &x, &t)?;
            } else {
                around("add-children", s, &x, &p.children, "{ q 1; }")?;
            }
            let x = edit(&|n| {
                n.ensure_children().nodes_mut().push(KdlNode::new("zz"));
            });
            judge("ensure-children", &x, &x.to_string())?;
        }
        if !entries_too {
            continue;
        }
        // entries
        let n = p.entries.len();
        let end = p.entries.last().map_or(p.name.end, |e| e.end);
        for (i, at) in p.entries.iter().enumerate() {
            exact("replace-entry", s, &edit(&|n| n.entries_mut()[i] = KdlEntry::new_prop("k", "v v")), at, " k=\"v v\"")?;
            exact("replace-entry", s, &edit(&|n| n.entries_mut()[i] = "8".parse().unwrap()), &(at.clone()), "8").or_else(|e| {
                // parsed without leading space: only the meaning is free
                if e.sig.ends_with("-elsewhere") { Err(e) } else { Ok(()) }
            })?;
            exact("remove-entry", s, &edit(&|n| drop(n.entries_mut().remove(i))), at, "")?;
            exact("insert-entry", s, &edit(&|n| n.entries_mut().insert(i, KdlEntry::new(7))), &(at.start..at.start), " 7")?;
            let x = edit(&|n| {
                let e = &mut n.entries_mut()[i];
                e.set_value(KdlValue::Null);
                e.clear_format();
            });
            judge("change-value", &x, &x.to_string())?;
            let x = edit(&|n| n.entries_mut()[i].set_ty("tt"));
            judge("set-entry-type", &x, &x.to_string())?;
            let x = edit(&|n| n.entries_mut()[i].set_name(Some("kk")));
            judge("set-entry-name", &x, &x.to_string())?;
        }
        exact("push-entry", s, &edit(&|n| n.push(KdlEntry::new_prop("k", 7))), &(end..end), " k=7")?;
        if n > 1 {
            let x = edit(&|n| n.entries_mut().reverse());
            judge("reverse-entries", &x, &x.to_string())?;
            exact("clear-entries", s, &edit(&|n| n.clear()), &(p.entries[0].start..end), "")?;
        }
    }
    Ok("accepted")
}

pub fn p16(rep: &Rep) {
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || edits(s, true));
    spaces::all(rep, rep.by(2, 1), &visit);
    spaces::unicode(rep, spaces::UNICODE_FRAMES, &visit);
}
