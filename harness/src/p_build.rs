//! Properties of values, entries, nodes and documents made through the API:
//! P05 (printing built data), P08 (editing histories), P09 (laws).

use crate::model;
use crate::p_fmt::meaning;
use crate::real::*;
use crate::run::*;
use crate::spaces;
use kdl::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// ------------------------------------------------------------------ P05

/// A printed document must mean what it was built from, to the model and to
/// the real parser.
fn prints(what: &str, d: &KdlDocument) -> Result<(), Fail> {
    let want = canon_doc(d);
    let t = d.to_string();
    match meaning(&t) {
        None => return fail(format!("{what}-invalid"), format!("{want} printed as {t:?}, which is not KDL")),
        Some(m) if m != want => return fail(format!("{what}-meaning"), format!("{want} printed as {t:?}, which means {m}")),
        _ => {}
    }
    match KdlDocument::parse(&t) {
        Err(_) => fail(format!("{what}-rejected"), format!("{want} printed as {t:?}, which is rejected")),
        Ok(r) if canon_doc(&r) != want => fail(format!("{what}-reparsed"), format!("{want} printed as {t:?}, parsed as {}", canon_doc(&r))),
        Ok(_) => Ok(()),
    }
}

/// This value in every place a value can be, this string in every place a
/// string can be.
fn everywhere(name: &str, v: &KdlValue) -> Outcome {
    let entries = || {
        let mut typed = KdlEntry::new(v.clone());
        typed.set_ty(name);
        let mut prop = KdlEntry::new_prop(name, v.clone());
        prop.set_ty("t");
        vec![KdlEntry::new(v.clone()), typed, KdlEntry::new_prop(name, v.clone()), prop]
    };
    // one node of each kind, without formatting and with the default one
    let mut plain = KdlNode::new(name);
    plain.clear_format();
    plain.set_ty(name);
    for e in entries() {
        plain.push(e);
    }
    let mut inner = KdlDocument::new();
    let mut leaf = KdlNode::new(name);
    leaf.push(v.clone());
    inner.nodes_mut().push(leaf.clone());
    inner.nodes_mut().push(plain.clone());
    let mut outer = KdlNode::new(name);
    outer.set_ty(name);
    for e in entries() {
        outer.push(e);
    }
    outer.set_children(inner);
    let mut d = KdlDocument::new();
    d.nodes_mut().push(plain.clone());
    d.nodes_mut().push(outer.clone());
    d.nodes_mut().push(leaf.clone());
    prints("document", &d)?;
    let mut f = d.clone();
    f.autoformat();
    prints("auto-formatted", &f)?;
    if canon_doc(&f) != canon_doc(&d) {
        return fail("auto-formatted-data", "data changed");
    }
    // the single items
    for n in [&plain, &outer, &leaf] {
        let (mut a, mut b) = (String::new(), String::new());
        canon_node(n, &mut a);
        match KdlNode::parse(&n.to_string()) {
            Err(_) => return fail("node-rejected", format!("{a} printed as {:?}", n.to_string())),
            Ok(m) => canon_node(&m, &mut b),
        }
        if a != b {
            return fail("node-meaning", format!("{a} printed as {:?} parsed as {b}", n.to_string()));
        }
    }
    for e in entries() {
        let (mut a, mut b) = (String::new(), String::new());
        canon_entry(&e, &mut a);
        match KdlEntry::parse(&e.to_string()) {
            Err(_) => return fail("entry-rejected", format!("{a} printed as {:?}", e.to_string())),
            Ok(m) => canon_entry(&m, &mut b),
        }
        if a != b {
            return fail("entry-meaning", format!("{a} printed as {:?} parsed as {b}", e.to_string()));
        }
    }
    match meaning(&format!("n {v}")) {
        Some(m) if m == format!("<\"n\" {}>", canon_val(v)) => {}
        m => return fail("value-meaning", format!("{} printed as {v} means {m:?}", canon_val(v))),
    }
    let id = KdlIdentifier::from(name);
    match KdlIdentifier::parse(&id.to_string()) {
        Ok(i) if i.value() == name => {}
        Ok(i) => return fail("identifier-meaning", format!("{name:?} printed as {id} parsed as {:?}", i.value())),
        Err(_) => return fail("identifier-rejected", format!("{name:?} printed as {id}")),
    }
    match meaning(&id.to_string()) {
        Some(m) if m == format!("<{name:?}>") => {}
        m => return fail("identifier-meaning", format!("{name:?} printed as {id} means {m:?}")),
    }
    // lengths are those of the printed text
    if id.len() != id.to_string().len() || d.len() != d.to_string().len() || entries()[0].len() != entries()[0].to_string().len() {
        return fail("len", "len() is not the printed length");
    }
    Ok("printed")
}

const META: &[&str] = &[
    "a", "\"", "\"\"\"", "\\", "\n", "\r", "\t", " ", "#", "/", "*", "(", ")", "{", "}", ";", "=", "-", "+", ".", "0", "1", "x", "e", "_", "r", "u", "inf", "nan",
    "true", "null", "false", "[", ",", "'", "\u{8}", "\u{c}", "\u{b}", "\u{85}", "\u{2028}", "\u{feff}", "\u{7f}", "\u{0}", "\u{a0}", "\u{200e}", "é", "\u{1f600}",
];

const CHAR_FRAMES: &[(&str, &str)] = &[("", ""), ("a", ""), ("", "a"), ("a", "b"), ("-", ""), (" ", "\\")];

pub fn p05(rep: &Rep) {
    // strings
    let s = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || everywhere(s, &KdlValue::String(s.into())));
    rep.tree("strings/meta", "", META, "", rep.by(3, 4), &|_| true, &|l, x| s(l, "strings/meta", x));
    let few: Vec<&str> = META.iter().copied().filter(|t| "a \" \\ \n # - + . 0 1 e x inf nan true".split(' ').any(|k| k == *t)).collect();
    rep.tree("strings/numberish", "", &few, "", rep.by(4, 5), &|_| true, &|l, x| s(l, "strings/numberish", x));
    let pts: Vec<char> = (0..=0x10FFFFu32)
        .filter_map(char::from_u32)
        .filter(|c| {
            let c = *c as u32;
            rep.thorough() || c < 0x3100 || (0xA000..0x10000).contains(&c) || c & 0xFFFF < 0x40 || c & 0xFFFF >= 0xFFC0
        })
        .collect();
    let low: Vec<char> = pts.iter().copied().filter(|c| rep.thorough() || *c < '\u{2100}' || ('\u{3000}'..'\u{3010}').contains(c) || ('\u{fe00}'..'\u{10040}').contains(c)).collect();
    for (i, (a, b)) in CHAR_FRAMES.iter().enumerate() {
        let pts = if i == 0 { &pts } else { &low };
        let name = format!("chars/{i}");
        rep.jobs(&name, &format!("every Unicode scalar value ({} of them) between {a:?} and {b:?}", pts.len()), pts.len().div_ceil(256), |j, l| {
            for c in &pts[j * 256..((j + 1) * 256).min(pts.len())] {
                l.states += 1;
                l.transitions += 1;
                s(l, &name, &format!("{a}{c}{b}"));
            }
        });
    }
    // integers
    let mut ints = vec![];
    for b in 0..=127u32 {
        for d in [-1i128, 0, 1] {
            let v = if b == 127 { i128::MAX } else { 1i128 << b };
            ints.push(v.saturating_add(d));
            ints.push(v.saturating_add(d).wrapping_neg());
        }
    }
    ints.push(i128::MIN);
    ints.push(i128::MIN + 1);
    for k in 0..39u32 {
        for d in [-1i128, 0, 1] {
            ints.push(10i128.pow(k.min(38)) + d);
        }
    }
    rep.jobs("integers", "2^k and 10^k, each -1, +0, +1, and negated; the extremes", ints.len(), |i, l| {
        l.states += 1;
        l.transitions += 1;
        let v = ints[i];
        rep.case(l, "integers", &v.to_string(), || everywhere("n", &KdlValue::Integer(v)));
    });
    // floats
    let mants = [0u64, 1, 2, 0x8_0000_0000_0000, 0xF_FFFF_FFFF_FFFF, 0x5_5555_5555_5555, 0xA_AAAA_AAAA_AAAA, 0x9_9999_9999_999A, 0x3_3333_3333_3333, 0x7_FFFF_FFFF_FFFF];
    rep.jobs("floats", "every exponent x 10 mantissas x both signs (finite, subnormal, infinite, NaN)", 2048, |e, l| {
        for m in mants {
            for sign in [0u64, 1] {
                let f = f64::from_bits(sign << 63 | (e as u64) << 52 | m);
                l.states += 1;
                l.transitions += 1;
                rep.case(l, "floats", &format!("{:016x}", f.to_bits()), || everywhere("n", &KdlValue::Float(f)));
            }
        }
    });
    let mut dec = vec![];
    for m in [1.0f64, 1.5, 0.1, 123456789.125, 9.999999999999999, 3.3333333333333335] {
        for e in -320..=308 {
            dec.push(m * 10f64.powi(e));
        }
    }
    rep.jobs("decimals", "6 decimal mantissas x 10^-320..10^308", dec.len(), |i, l| {
        l.states += 1;
        l.transitions += 1;
        rep.case(l, "decimals", &format!("{:016x}", dec[i].to_bits()), || everywhere("n", &KdlValue::Float(dec[i])));
    });
    for (i, v) in [KdlValue::Null, KdlValue::Bool(true), KdlValue::Bool(false)].iter().enumerate() {
        rep.jobs("keywords", "#null #true #false", 1, |_, l| {
            l.states += 1;
            l.transitions += 1;
            rep.case(l, "keywords", &i.to_string(), || everywhere("n", v));
        });
    }
    trees(rep);
}

/// Forest shapes with `n` nodes: each node's list of children, as nested lists.
#[derive(Clone, Debug)]
pub struct Shape(pub Vec<Shape>);

pub fn forests(n: usize) -> Vec<Vec<Shape>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 0..n {
        // first tree has k nodes below its root
        for kids in forests(k) {
            for rest in forests(n - 1 - k) {
                let mut f = vec![Shape(kids.clone())];
                f.extend(rest);
                out.push(f);
            }
        }
    }
    out
}

struct Leaf {
    /// what it is made of, and how it is formatted
    kind: usize,
    fmt: usize,
    /// an empty block when it has no children
    block: bool,
}

fn build_node(sh: &Shape, leaves: &[Leaf], at: &mut usize) -> KdlNode {
    let l = &leaves[*at];
    *at += 1;
    let mut n = match l.fmt {
        2 => "nn /*k*/ ".parse().unwrap(),
        3 => "nn;".parse().unwrap(),
        4 => "nn // k".parse().unwrap(),
        5 => "nn\n".parse().unwrap(),
        _ => KdlNode::new("nn"),
    };
    if l.fmt == 0 {
        n.clear_format();
    }
    match l.kind {
        0 => {}
        1 => {
            n.push(1);
            n.push(KdlEntry::new_prop("k k", KdlValue::Null));
        }
        2 => n.set_ty("t"),
        3 => {
            n.push(" 0x1 /*c*/".parse::<KdlEntry>().unwrap());
            n.push(KdlEntry::new("s s"));
        }
        4 => {
            n.push("k=\"v\"".parse::<KdlEntry>().map(|mut e| {
                e.format_mut().unwrap().leading = " ".into();
                e
            }).unwrap());
            n.set_ty("t t");
        }
        5 => {
            let mut e = KdlEntry::new(1.5);
            e.set_ty("u");
            n.push(e);
        }
        _ => unreachable!(),
    }
    if !sh.0.is_empty() {
        let mut d = KdlDocument::new();
        for s in &sh.0 {
            d.nodes_mut().push(build_node(s, leaves, at));
        }
        n.set_children(d);
    } else if l.block {
        n.ensure_children();
    }
    n
}

pub fn built(size: usize, kinds: usize, fmts: usize) -> (Vec<Vec<Shape>>, usize) {
    let f = forests(size);
    let per = (kinds * fmts * 2).pow(size as u32);
    let n = f.len() * per;
    (f, n)
}

fn build(shapes: &[Vec<Shape>], i: usize, size: usize, kinds: usize, fmts: usize) -> KdlDocument {
    let per = (kinds * fmts * 2).pow(size as u32);
    let sh = &shapes[i / per];
    let mut r = i % per;
    let mut leaves = vec![];
    for _ in 0..size {
        let x = r % (kinds * fmts * 2);
        r /= kinds * fmts * 2;
        leaves.push(Leaf { kind: x % kinds, fmt: x / kinds % fmts, block: x / kinds / fmts == 1 });
    }
    let mut d = KdlDocument::new();
    let mut at = 0;
    for s in sh {
        d.nodes_mut().push(build_node(s, &leaves, &mut at));
    }
    d
}

fn trees(rep: &Rep) {
    let plan: &[(usize, usize, usize)] = rep.by(&[(1, 6, 6), (2, 6, 6), (3, 3, 4), (4, 2, 2)], &[(1, 6, 6), (2, 6, 6), (3, 6, 6), (4, 3, 4)]);
    for (size, kinds, fmts) in plan {
        let (shapes, n) = built(*size, *kinds, *fmts);
        let name = format!("trees/{size}");
        let chunk = 512;
        rep.jobs(&name, &format!("every forest of {size} nodes, each with {kinds} contents x {fmts} ways of formatting x block or not"), n.div_ceil(chunk), |j, l| {
            for i in j * chunk..((j + 1) * chunk).min(n) {
                l.states += 1;
                l.transitions += 1;
                rep.case(l, &name, &i.to_string(), || {
                    let d = build(&shapes, i, *size, *kinds, *fmts);
                    prints("tree", &d)?;
                    let mut f = d.clone();
                    f.autoformat();
                    prints("tree-auto-formatted", &f)?;
                    if canon_doc(&f) != canon_doc(&d) {
                        return fail("tree-auto-formatted-data", "data changed");
                    }
                    let mut c = d.clone();
                    c.clear_format_recursive();
                    prints("tree-cleared", &c)?;
                    Ok("printed")
                });
            }
        });
    }
}

// ------------------------------------------------------------------ P08

/// An entry of the reference: name, value.
type RefEntry = (Option<&'static str>, i128);

#[derive(Clone, Copy, Debug)]
enum Op {
    Push(Option<&'static str>),
    InsertKey(&'static str),
    /// insert under a key an entry that already carries the name
    InsertNamed(&'static str),
    InsertAt(usize),
    RemoveKey(&'static str),
    RemoveAt(usize),
    SetKey(&'static str),
    SetAt(usize),
    IndexKey(&'static str),
    RetainArgs,
    RetainProps,
    RetainEven,
    SortNames,
    SortDesc,
    Clear,
}

const OPS: &[Op] = &[
    Op::Push(None),
    Op::Push(Some("p")),
    Op::Push(Some("q")),
    Op::InsertKey("p"),
    Op::InsertKey("q"),
    Op::InsertNamed("p"),
    Op::InsertAt(0),
    Op::InsertAt(1),
    Op::InsertAt(2),
    Op::RemoveKey("p"),
    Op::RemoveKey("q"),
    Op::RemoveAt(0),
    Op::RemoveAt(1),
    Op::SetKey("p"),
    Op::SetAt(0),
    Op::SetAt(1),
    Op::IndexKey("p"),
    Op::RetainArgs,
    Op::RetainProps,
    Op::RetainEven,
    Op::SortNames,
    Op::SortDesc,
    Op::Clear,
];

/// What an operation returns; None: it panics.
type Ret = Option<Option<RefEntry>>;

fn ref_apply(r: &mut Vec<RefEntry>, op: Op, v: i128) -> Ret {
    let find = |r: &Vec<RefEntry>, k: &str| r.iter().rposition(|e| e.0 == Some(k));
    let at = |r: &Vec<RefEntry>, i: usize| r.iter().enumerate().filter(|(_, e)| e.0.is_none()).nth(i).map(|(j, _)| j);
    match op {
        Op::Push(n) => {
            r.push((n, v));
            Some(None)
        }
        Op::InsertKey(k) | Op::InsertNamed(k) => Some(match find(r, k) {
            Some(i) => Some(std::mem::replace(&mut r[i], (Some(k), v))),
            None => {
                r.push((Some(k), v));
                None
            }
        }),
        Op::InsertAt(i) => match at(r, i) {
            Some(j) => {
                r.insert(j, (None, v));
                Some(None)
            }
            None if i == r.iter().filter(|e| e.0.is_none()).count() => {
                r.push((None, v));
                Some(None)
            }
            None => None,
        },
        Op::RemoveKey(k) => Some(find(r, k).map(|i| r.remove(i))),
        Op::RemoveAt(i) => at(r, i).map(|j| Some(r.remove(j))),
        Op::SetKey(k) => Some(find(r, k).map(|i| {
            r[i].1 = v;
            r[i]
        })),
        Op::SetAt(i) => Some(at(r, i).map(|i| {
            r[i].1 = v;
            r[i]
        })),
        Op::IndexKey(k) => {
            match find(r, k) {
                Some(i) => r[i].1 = v,
                None => r.push((Some(k), v)),
            }
            Some(None)
        }
        Op::RetainArgs => {
            r.retain(|e| e.0.is_none());
            Some(None)
        }
        Op::RetainProps => {
            r.retain(|e| e.0.is_some());
            Some(None)
        }
        Op::RetainEven => {
            r.retain(|e| e.1 % 2 == 0);
            Some(None)
        }
        Op::SortNames => {
            r.sort_by_key(|e| e.0);
            Some(None)
        }
        Op::SortDesc => {
            r.sort_by_key(|e| std::cmp::Reverse(e.1 / 2));
            Some(None)
        }
        Op::Clear => {
            r.clear();
            Some(None)
        }
    }
}

fn to_ref(e: &KdlEntry) -> (Option<String>, i128) {
    (e.name().map(|n| n.value().to_string()), e.value().as_integer().unwrap_or(-1))
}

fn real_apply(n: &mut KdlNode, op: Op, v: i128) -> Option<(Option<String>, i128)> {
    let val = KdlValue::Integer(v);
    match op {
        Op::Push(None) => {
            n.push(val);
            None
        }
        Op::Push(Some(k)) => {
            n.push((k, val));
            None
        }
        Op::InsertKey(k) => n.insert(k, val).map(|e| to_ref(&e)),
        Op::InsertNamed(k) => n.insert(k.to_string(), (k, val)).map(|e| to_ref(&e)),
        Op::InsertAt(i) => n.insert(i, val).map(|e| to_ref(&e)),
        Op::RemoveKey(k) => n.remove(k).map(|e| to_ref(&e)),
        Op::RemoveAt(i) => n.remove(i).map(|e| to_ref(&e)),
        Op::SetKey(k) => n.entry_mut(k).map(|e| {
            e.set_value(v);
            to_ref(e)
        }),
        Op::SetAt(i) => match n.get_mut(i) {
            None => None,
            Some(x) => {
                *x = val;
                n.entry(i).map(to_ref)
            }
        },
        Op::IndexKey(k) => {
            n[k] = val;
            None
        }
        Op::RetainArgs => {
            n.retain(|e| e.name().is_none());
            None
        }
        Op::RetainProps => {
            n.retain(|e| e.name().is_some());
            None
        }
        Op::RetainEven => {
            n.retain(|e| e.value().as_integer().unwrap() % 2 == 0);
            None
        }
        Op::SortNames => {
            n.sort_by_key(|e| e.name().map(|n| n.value().to_string()));
            None
        }
        Op::SortDesc => {
            n.sort_by(|a, b| (b.value().as_integer().unwrap() / 2).cmp(&(a.value().as_integer().unwrap() / 2)));
            None
        }
        Op::Clear => {
            n.clear();
            None
        }
    }
}

/// Every way of looking at the node agrees with the list.
fn same_node(n: &mut KdlNode, r: &[RefEntry]) -> Result<(), Fail> {
    let want: Vec<_> = r.iter().map(|e| (e.0.map(|s| s.to_string()), e.1)).collect();
    let check = |what: &str, got: Vec<(Option<String>, i128)>| -> Result<(), Fail> {
        if got == want { Ok(()) } else { fail(format!("{what}-differs"), format!("{what} gives {got:?}, should be {want:?}")) }
    };
    check("entries", n.entries().iter().map(to_ref).collect())?;
    check("iter", n.iter().map(to_ref).collect())?;
    check("iter_mut", n.iter_mut().map(|e| to_ref(e)).collect())?;
    if n.len() != want.len() || n.is_empty() != want.is_empty() {
        return fail("len-differs", format!("len {} is_empty {} for {} entries", n.len(), n.is_empty(), want.len()));
    }
    for k in ["p", "q", "zz"] {
        let w = r.iter().rfind(|e| e.0 == Some(k)).map(|e| e.1);
        let g = [
            n.get(k).and_then(|v| v.as_integer()),
            n.entry(k).and_then(|e| e.value().as_integer()),
            n.get_mut(k).and_then(|v| v.as_integer()),
            n.entry_mut(k).and_then(|e| e.value().as_integer()),
        ];
        if g.iter().any(|g| *g != w) {
            return fail("lookup-by-name", format!("{k} is {w:?}; get, entry, get_mut, entry_mut give {g:?}"));
        }
        if let Some(w) = w
            && n[k] != KdlValue::Integer(w)
        {
            return fail("lookup-by-name", format!("[{k:?}] gives {:?}", n[k]));
        }
    }
    let args: Vec<i128> = r.iter().filter(|e| e.0.is_none()).map(|e| e.1).collect();
    for i in 0..args.len() + 2 {
        let w = args.get(i).copied();
        let g = [
            n.get(i).and_then(|v| v.as_integer()),
            n.entry(i).and_then(|e| e.value().as_integer()),
            n.get_mut(i).and_then(|v| v.as_integer()),
            n.entry_mut(i).and_then(|e| e.value().as_integer()),
        ];
        if g.iter().any(|g| *g != w) {
            return fail("lookup-by-position", format!("{i} is {w:?}; get, entry, get_mut, entry_mut give {g:?}"));
        }
        if let Some(w) = w
            && n[i] != KdlValue::Integer(w)
        {
            return fail("lookup-by-position", format!("[{i}] gives {:?}", n[i]));
        }
    }
    Ok(())
}

fn start(kind: usize, code: &[usize]) -> (KdlNode, Vec<RefEntry>) {
    // kind 0: built; 1: parsed; 2: parsed with quoted keys and comments
    let mut r: Vec<RefEntry> = vec![];
    let mut t = String::from("n");
    let mut n = KdlNode::new("n");
    for (i, c) in code.iter().enumerate() {
        let v = i as i128;
        let name = [None, Some("p"), Some("q")][*c];
        r.push((name, v));
        match name {
            None => n.push(v),
            Some(k) => n.push((k, v)),
        }
        t += &match (kind, name) {
            (1, None) => format!(" {v}"),
            (1, Some(k)) => format!(" {k}={v}"),
            (_, None) => format!(" /*c*/ 0x{v:x}"),
            (_, Some(k)) => format!(" \\\n \"{k}\" = 0b{v:b}"),
        };
    }
    (if kind == 0 { n } else { t.parse().unwrap() }, r)
}

pub fn p08(rep: &Rep) {
    histories(rep, rep.by(3, 4), 4);
    if rep.thorough() {
        histories(rep, 3, 5);
    }
    mismatches(rep);
    documents(rep);
}

fn histories(rep: &Rep, maxlen: usize, depth: usize) {
    // all starting nodes
    let mut starts = vec![];
    for kind in 0..3 {
        let mut level: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..=maxlen {
            let mut nx = vec![];
            for c in level {
                for x in 0..3 {
                    let mut d = c.clone();
                    d.push(x);
                    nx.push(d);
                }
                starts.push((kind, c));
            }
            level = nx;
        }
    }
    // one job per (start, first operation)
    let what = format!(
        "every sequence of <= {depth} of {} operations from each of {} nodes (<= {maxlen} entries over argument, p, q; built, parsed, parsed with quoted keys and comments)",
        OPS.len(),
        starts.len()
    );
    rep.jobs("histories", &what, starts.len() * OPS.len(), |j, l| {
        let (kind, code) = &starts[j / OPS.len()];
        fn go(rep: &Rep, l: &mut Local, hist: &mut Vec<usize>, base: &str, n: &KdlNode, r: &[RefEntry], ops: &[usize], left: usize) {
            for o in ops {
                let op = OPS[*o];
                let mut m = n.clone();
                let mut q = r.to_vec();
                let v = 100 + hist.len() as i128;
                hist.push(*o);
                let label = format!("{base}:{}", hist.iter().map(|h| format!("{:?}", OPS[*h])).collect::<Vec<_>>().join(","));
                let mut dead = false;
                l.states += 1;
                l.transitions += 1;
                rep.case(l, "histories", &label, || {
                    let want = ref_apply(&mut q, op, v);
                    let got = guarded(|| real_apply(&mut m, op, v));
                    match (want, got) {
                        (None, Err(_)) => {
                            dead = true;
                            Ok("out-of-range-panics")
                        }
                        (None, Ok(_)) => {
                            dead = true;
                            fail("no-panic", format!("{op:?} should panic: out of range"))
                        }
                        (Some(_), Err(p)) => {
                            dead = true;
                            fail("panic", format!("{op:?} panicked: {p}"))
                        }
                        (Some(w), Ok(g)) => {
                            let w = w.map(|e| (e.0.map(|s| s.to_string()), e.1));
                            if w != g {
                                dead = true;
                                return fail("return-value", format!("{op:?} returned {g:?}, should be {w:?}"));
                            }
                            let r = same_node(&mut m, &q);
                            dead = r.is_err();
                            r.map(|_| "ok")
                        }
                    }
                });
                if !dead && left > 1 {
                    go(rep, l, hist, base, &m, &q, &ALL, left - 1);
                }
                hist.pop();
            }
        }
        const ALL: [usize; OPS.len()] = {
            let mut a = [0; OPS.len()];
            let mut i = 0;
            while i < a.len() {
                a[i] = i;
                i += 1;
            }
            a
        };
        let (mut n, r) = start(*kind, code);
        let base = format!("{kind}{code:?}");
        if j % OPS.len() == 0 {
            l.states += 1;
            rep.case(l, "histories", &base, || same_node(&mut n, &r).map(|_| "start"));
        }
        go(rep, l, &mut vec![], &base, &n, &r, &[j % OPS.len()], depth);
    });
}

/// Mismatching key and name must be refused.
fn mismatches(rep: &Rep) {
    rep.jobs("insert-mismatch", "inserting an entry under another name or under a position although it has a name", 1, |_, l| {
        for k in ["p", "q"] {
            l.states += 1;
            l.transitions += 1;
            rep.case(l, "insert-mismatch", k, || {
                let mut n: KdlNode = "n p=1".parse().unwrap();
                if guarded(|| n.insert(k, ("zz", 1))).is_ok() || guarded(|| n.insert(0, (k, 1))).is_ok() {
                    return fail("insert-mismatch", "accepted");
                }
                same_node(&mut n, &[(Some("p"), 1)]).map(|_| "refused")
            });
        }
    });
}

/// Document lookups on every small document.
fn documents(rep: &Rep) {
    let nodes = ["a", "a 1", "a p=1 2 3", "b 4", "b", "- 5 6", "-", "- p=1", "\"a\" 7", "a {\n- 1\n- 2 3\nb 4\n-\n- #null\n}", "b {\n\"-\" x;- y=1;- z\n}", "b {}", "(t)a r"];
    let d = rep.by(3, 4);
    rep.tree("documents", "", &nodes.iter().map(|n| format!("{n}\n")).collect::<Vec<_>>().iter().map(|s| s.as_str()).collect::<Vec<_>>(), "", d, &|_| true, &|l, s| {
        rep.case(l, "documents", s, || {
            let mut d = KdlDocument::parse(s).unwrap();
            let model::Verdict::Accept(m) = model::run(s, model::Entry::Document).verdict else { return fail("harness", "model rejects") };
            let val = |v: &model::V| v.canon().unwrap();
            if d.nodes().len() != m.len() {
                return fail("nodes", format!("{} nodes instead of {}", d.nodes().len(), m.len()));
            }
            for name in ["a", "b", "-", "zz"] {
                let i = m.iter().position(|n| n.name == name);
                let args: Vec<String> = i.map_or(vec![], |i| m[i].ents.iter().filter(|e| e.name.is_none()).map(|e| val(&e.val)).collect());
                let same = |a: Option<&KdlNode>, i: Option<usize>| match (a, i) {
                    (None, None) => true,
                    (Some(n), Some(i)) => std::ptr::eq(n, &d.nodes()[i]),
                    _ => false,
                };
                if !same(d.get(name), i) {
                    return fail("get", format!("get({name:?}) is not the first such node"));
                }
                let first = args.first().cloned();
                if d.get_arg(name).map(canon_val) != first {
                    return fail("get_arg", format!("get_arg({name:?}) gives {:?} instead of {first:?}", d.get_arg(name)));
                }
                let got: Vec<String> = d.iter_args(name).map(canon_val).collect();
                if got != args {
                    return fail("iter_args", format!("iter_args({name:?}) gives {got:?} instead of {args:?}"));
                }
                let dash: Vec<String> = i
                    .and_then(|i| m[i].children.as_ref())
                    .map_or(vec![], |c| c.iter().filter(|n| n.name == "-").filter_map(|n| n.ents.iter().find(|e| e.name.is_none())).map(|e| val(&e.val)).collect());
                let got: Vec<String> = d.iter_dash_args(name).map(canon_val).collect();
                if got != dash {
                    return fail("iter_dash_args", format!("iter_dash_args({name:?}) gives {got:?} instead of {dash:?}"));
                }
                // mutable twins
                let whole = canon_doc(&d);
                if d.get_arg_mut(name).map(|v| canon_val(v)) != first {
                    return fail("get_arg_mut", format!("get_arg_mut({name:?})"));
                }
                let n = d.get_mut(name).map(|n| {
                    let mut s = String::new();
                    canon_node(n, &mut s);
                    s
                });
                let w = i.map(|i| {
                    let mut s = String::new();
                    canon_node(&d.nodes()[i], &mut s);
                    s
                });
                if n != w || whole != canon_doc(&d) {
                    return fail("get_mut", format!("get_mut({name:?}) gives {n:?} instead of {w:?}"));
                }
                if let Some(n) = d.get_mut(name) {
                    n.set_name("renamed");
                    let renamed = d.nodes().iter().position(|n| n.name().value() == "renamed");
                    if renamed != i {
                        return fail("get_mut", "get_mut is not the first such node");
                    }
                    d.nodes_mut()[i.unwrap()].set_name(name);
                }
            }
            // children iteration
            for i in 0..d.nodes().len() {
                let names: Vec<String> = m[i].children.iter().flatten().map(|n| n.name.clone()).collect();
                let n = &mut d.nodes_mut()[i];
                let a: Vec<String> = n.iter_children().map(|n| n.name().value().to_string()).collect();
                let b: Vec<String> = n.iter_children_mut().map(|n| n.name().value().to_string()).collect();
                if a != names || b != names {
                    return fail("iter_children", format!("{a:?} {b:?} instead of {names:?}"));
                }
                let had = n.children().is_some();
                if had != m[i].children.is_some() {
                    return fail("children", "children() is wrong about the presence of a block");
                }
                let k = n.ensure_children().nodes().len();
                if k != names.len() || n.children().is_none() {
                    return fail("ensure_children", "ensure_children changed the block");
                }
            }
            let names: Vec<String> = m.iter().map(|n| n.name.clone()).collect();
            let a: Vec<String> = (&d).into_iter().map(|n| n.name().value().to_string()).collect();
            let b: Vec<String> = d.clone().into_iter().map(|n| n.name().value().to_string()).collect();
            if a != names || b != names {
                return fail("into_iter", format!("{a:?} {b:?} instead of {names:?}"));
            }
            Ok("document")
        });
    });
}

// ------------------------------------------------------------------ P09

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn universe() -> Vec<KdlValue> {
    let mut v = vec![KdlValue::Null, KdlValue::Bool(true), KdlValue::Bool(false)];
    for s in ["", "a", "b", "ab", "A", "é", "true", "null", "0", "1", "1.0", "#true", " ", "a "] {
        v.push(KdlValue::String(s.into()));
    }
    for i in [0, 1, -1, 2, 10, i64::MAX as i128, i64::MAX as i128 + 1, i64::MIN as i128, u64::MAX as i128, 1 << 64, (1 << 64) + 1, 1 << 100, i128::MAX, i128::MIN, i128::MAX - 1] {
        v.push(KdlValue::Integer(i));
    }
    for f in [
        0.0, -0.0, 1.0, -1.0, 1.5, 1.25, -1.5, 0.5, 0.25, 1e-300, f64::MIN_POSITIVE, 5e-324, 1e19, 1e38, 1e39, 1e300, 2e300, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN,
        -f64::NAN, 9007199254740992.0, 9007199254740993.0,
    ] {
        v.push(KdlValue::Float(f));
    }
    v
}

fn kind(v: &KdlValue) -> usize {
    match v {
        KdlValue::String(_) => 0,
        KdlValue::Integer(_) => 1,
        KdlValue::Float(_) => 2,
        KdlValue::Bool(_) => 3,
        KdlValue::Null => 4,
    }
}

/// Everything that can be seen of a tree except locations.
fn seen(d: &KdlDocument) -> String {
    format!("{:?}", Seen(d))
}
struct Seen<'a>(&'a KdlDocument);
impl std::fmt::Debug for Seen<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let id = |i: &KdlIdentifier| (i.value().to_string(), i.repr().map(|r| r.to_string()));
        write!(f, "{:?}[", self.0.format())?;
        for n in self.0.nodes() {
            write!(f, "{:?}{:?}{:?}", n.format(), n.ty().map(id), id(n.name()))?;
            for e in n.entries() {
                write!(f, "({:?}{:?}{:?}{})", e.format(), e.ty().map(id), e.name().map(id), canon_val(e.value()))?;
            }
            match n.children() {
                None => write!(f, ";")?,
                Some(c) => Seen(c).fmt(f)?,
            }
        }
        write!(f, "]")
    }
}

#[cfg(feature = "span")]
fn shift(d: &mut KdlDocument, by: usize) {
    d.set_span((by, by + 1));
    for n in d.nodes_mut() {
        n.set_span((by + 2, 3));
        n.name_mut().set_span((by + 4, 1));
        if let Some(t) = n.ty_mut() {
            t.set_span((by + 5, 1));
        }
        for e in n.entries_mut() {
            e.set_span((by + 6, 1));
            if let Some(t) = e.ty_mut() {
                t.set_span((by + 7, 1));
            }
            if let Some(t) = e.name_mut() {
                t.set_span((by + 8, 1));
            }
        }
        if let Some(c) = n.children_mut() {
            shift(c, by + 9);
        }
    }
}
#[cfg(not(feature = "span"))]
fn shift(_: &mut KdlDocument, _: usize) {}

/// The laws for a pair of trees, at every level.
fn pair(a: &KdlDocument, b: &KdlDocument) -> Result<&'static str, Fail> {
    let same = seen(a) == seen(b);
    let eq = a == b;
    if eq != (b == a) {
        return fail("asymmetric", "a == b but not b == a");
    }
    if eq != same {
        return fail("equality", format!("{} although what can be seen of them is {}", if eq { "equal" } else { "not equal" }, if same { "the same" } else { "not" }));
    }
    if eq && h(a) != h(b) {
        return fail("hash", "equal but with different hashes");
    }
    for (x, y) in a.nodes().iter().zip(b.nodes()) {
        if x == y && (h(x) != h(y) || x.to_string() != y.to_string()) {
            return fail("node-hash", "equal nodes with different hashes or texts");
        }
        if x.name() == y.name() && h(x.name()) != h(y.name()) {
            return fail("identifier-hash", "equal names with different hashes");
        }
        for (e, f) in x.entries().iter().zip(y.entries()) {
            if e == f && (h(e) != h(f) || e.to_string() != f.to_string()) {
                return fail("entry-hash", "equal entries with different hashes or texts");
            }
        }
    }
    Ok(if eq { "equal" } else { "different" })
}

/// A tree against itself and everything one step away from it.
fn tree_laws(s: &str) -> Outcome {
    let Ok(d) = KdlDocument::parse(s) else { return Ok("rejected") };
    pair(&d, &d)?;
    pair(&d, &d.clone())?;
    pair(&d, &KdlDocument::parse(s).unwrap())?;
    let mut x = d.clone();
    shift(&mut x, 1000);
    pair(&d, &x)?;
    let step = |f: &dyn Fn(&mut KdlDocument)| -> Result<(), Fail> {
        let mut x = d.clone();
        f(&mut x);
        pair(&d, &x).map(|_| ())
    };
    step(&|x| x.clear_format())?;
    step(&|x| x.clear_format_recursive())?;
    step(&|x| x.nodes_mut().push(KdlNode::new("zz")))?;
    step(&|x| x.nodes_mut().reverse())?;
    for i in 0..d.nodes().len() {
        step(&|x| drop(x.nodes_mut().remove(i)))?;
        step(&|x| x.nodes_mut()[i].set_name("zz"))?;
        step(&|x| x.nodes_mut()[i].name_mut().clear_format())?;
        step(&|x| x.nodes_mut()[i].name_mut().set_value("zz"))?;
        step(&|x| x.nodes_mut()[i].set_ty("zz"))?;
        step(&|x| *x.nodes_mut()[i].ty_mut() = None)?;
        step(&|x| x.nodes_mut()[i].clear_children())?;
        step(&|x| {
            x.nodes_mut()[i].ensure_children();
        })?;
        step(&|x| x.nodes_mut()[i].ensure_children().nodes_mut().push(KdlNode::new("zz")))?;
        step(&|x| x.nodes_mut()[i].push(1))?;
        step(&|x| x.nodes_mut()[i].entries_mut().reverse())?;
        step(&|x| x.nodes_mut()[i].clear_format())?;
        for e in 0..d.nodes()[i].entries().len() {
            step(&|x| drop(x.nodes_mut()[i].entries_mut().remove(e)))?;
            step(&|x| x.nodes_mut()[i].entries_mut()[e].set_value("zz"))?;
            step(&|x| x.nodes_mut()[i].entries_mut()[e].set_ty("zz"))?;
            step(&|x| x.nodes_mut()[i].entries_mut()[e].set_name(Some("zz")))?;
            step(&|x| x.nodes_mut()[i].entries_mut()[e].set_name(None::<&str>))?;
            step(&|x| x.nodes_mut()[i].entries_mut()[e].clear_format())?;
            step(&|x| {
                if let Some(f) = x.nodes_mut()[i].entries_mut()[e].format_mut() {
                    f.trailing.push_str(" ");
                }
            })?;
        }
        step(&|x| {
            if let Some(f) = x.nodes_mut()[i].format_mut() {
                f.before_terminator.push_str(" ");
            }
        })?;
    }
    Ok("tree")
}

pub fn p09(rep: &Rep) {
    let u = universe();
    let n = u.len();
    rep.jobs("values/pairs", &format!("all pairs of {n} boundary values"), n, |i, l| {
        for j in 0..n {
            l.states += 1;
            l.transitions += 1;
            rep.case(l, "values/pairs", &format!("{:?} {:?}", u[i], u[j]), || {
                let (a, b) = (&u[i], &u[j]);
                let eq = a == b;
                if eq != (b == a) {
                    return fail("asymmetric", "a == b but not b == a");
                }
                if i == j && (!eq || a.clone() != *a) {
                    return fail("irreflexive", "a value is not equal to itself");
                }
                if eq && h(a) != h(b) {
                    return fail("hash", "equal values with different hashes");
                }
                if eq && kind(a) != kind(b) {
                    return fail("kinds", "values of different kinds are equal");
                }
                let same = canon_val(a) == canon_val(b);
                if same && !eq {
                    return fail("identical-differ", "identical values are not equal");
                }
                // floats may be folded as documented in the source (NaN, infinities, signed zero)
                let fold = |v: &KdlValue| v.as_float().is_some_and(|f| !f.is_finite() || f == 0.0 || f.abs() == f64::MAX);
                if eq && !same && !(fold(a) && fold(b)) {
                    return fail("different-equal", "different values are equal");
                }
                let c = a.partial_cmp(b);
                if c.map(|c| c.reverse()) != b.partial_cmp(a) {
                    return fail("order-asymmetric", format!("{c:?} and {:?}", b.partial_cmp(a)));
                }
                if eq != (c == Some(std::cmp::Ordering::Equal)) {
                    return fail("order-equality", format!("== is {eq} but the order is {c:?}"));
                }
                if kind(a) == kind(b) {
                    let want = match (a, b) {
                        (KdlValue::String(a), KdlValue::String(b)) => Some(a.cmp(b)),
                        (KdlValue::Integer(a), KdlValue::Integer(b)) => Some(a.cmp(b)),
                        (KdlValue::Bool(a), KdlValue::Bool(b)) => Some(a.cmp(b)),
                        (KdlValue::Float(x), KdlValue::Float(y)) if !eq && !x.is_nan() && !y.is_nan() => x.partial_cmp(y),
                        _ => c,
                    };
                    if want != c {
                        return fail("order", format!("{c:?} instead of {want:?}"));
                    }
                }
                // the same laws one level up
                for mk in [|v: &KdlValue| KdlEntry::new(v.clone()), |v: &KdlValue| KdlEntry::new_prop("k", v.clone())] {
                    let (x, y) = (mk(a), mk(b));
                    if (x == y) != eq || (eq && h(&x) != h(&y)) {
                        return fail("entry", "entries do not follow their values");
                    }
                    let (mut m, mut n) = (KdlNode::new("n"), KdlNode::new("n"));
                    m.push(x);
                    n.push(y);
                    if (m == n) != eq || (eq && h(&m) != h(&n)) {
                        return fail("node", "nodes do not follow their values");
                    }
                }
                Ok(if eq { "equal" } else { "different" })
            });
        }
    });
    rep.jobs("values/triples", &format!("all triples of {n} boundary values"), n * n, |x, l| {
        let (a, b) = (&u[x / n], &u[x % n]);
        for c in &u {
            l.states += 1;
            l.transitions += 1;
            rep.case(l, "values/triples", &format!("{a:?} {b:?} {c:?}"), || {
                if a == b && b == c && a != c {
                    return fail("intransitive", "a == b and b == c but not a == c");
                }
                if a < b && b < c && !(a < c) {
                    return fail("order-intransitive", "a < b and b < c but not a < c");
                }
                if a <= b && b <= c && !(a <= c) {
                    return fail("order-intransitive", "a <= b and b <= c but not a <= c");
                }
                if a == b && a.partial_cmp(c) != b.partial_cmp(c) {
                    return fail("order-congruence", "a == b but they compare differently to c");
                }
                Ok("triple")
            });
        }
    });
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || tree_laws(s));
    spaces::all(rep, rep.by(2, 1), &visit);
    // all pairs of small documents
    let mut texts: Vec<String> = vec![];
    for lead in ["", "\n", "// c\n"] {
        for name in ["a", "\"a\"", "b", "(t)a", "(\"t\")a", "(u)a"] {
            for ent in ["", " 1", " 0x1", " 1.0", " \"1\"", " x", " \"x\"", " p=1", " \"p\"=1", " p=2", " (t)1", " 1 2", " 2 1", " p=1 1", " #true", " #null", " #nan", " 0.0"] {
                for tail in ["", "\n", ";", " {}", " {\n}", " {b}", " {c}\n"] {
                    texts.push(format!("{lead}{name}{ent}{tail}"));
                }
            }
        }
    }
    let docs: Vec<KdlDocument> = texts.iter().map(|t| KdlDocument::parse(t).expect("pair text")).collect();
    let m = docs.len();
    rep.jobs("trees/pairs", &format!("all pairs of {m} small documents"), m, |i, l| {
        for j in 0..m {
            l.states += 1;
            l.transitions += 1;
            if (docs[i] == docs[j]) != (texts[i] == texts[j]) {
                rep.case(l, "trees/pairs", &format!("{} | {}", texts[i], texts[j]), || pair(&docs[i], &docs[j]).and(fail("equality", "documents with different texts are equal, or the other way round")));
            } else if i == j {
                rep.case(l, "trees/pairs", &texts[i], || pair(&docs[i], &docs[j]));
            } else {
                *l.outcomes.entry("different").or_default() += 1;
            }
        }
    });
}
