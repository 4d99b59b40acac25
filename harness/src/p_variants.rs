//! Properties that compare builds of the crate with different feature sets
//! (P17) or that need the v1 features (P10, P11).
#![allow(dead_code)]

use crate::run::*;
use crate::spaces;

/// The same observations, of each build of the crate.
macro_rules! observe {
    ($m:ident, $k:ident) => {
        pub mod $m {
            use $k::*;
            use std::fmt::Write as _;

            pub fn err(e: &KdlError, o: &mut String) {
                let _ = write!(o, "E{:?}", e.input);
                for d in &e.diagnostics {
                    let _ = write!(o, "[{:?} {:?} {:?} {:?} {}+{} {:?} {}]", d.message, d.label, d.help, d.severity, d.span.offset(), d.span.len(), d.input, d);
                }
                let _ = write!(o, "{e}");
            }

            pub fn ident(i: &KdlIdentifier, o: &mut String) {
                let _ = write!(o, "{:?}~{:?}", i.value(), i.repr());
            }

            pub fn entry(e: &KdlEntry, o: &mut String) {
                if let Some(n) = e.name() {
                    ident(n, o);
                    o.push('=');
                }
                if let Some(t) = e.ty() {
                    o.push('(');
                    ident(t, o);
                    o.push(')');
                }
                match e.value() {
                    KdlValue::Float(f) => {
                        let _ = write!(o, "f{:x}", f.to_bits());
                    }
                    v => {
                        let _ = write!(o, "{v:?}");
                    }
                }
                if let Some(f) = e.format() {
                    let _ = write!(o, "{:?}", (&f.value_repr, &f.leading, &f.trailing, &f.after_ty, &f.before_ty_name, &f.after_ty_name, &f.after_key, &f.after_eq, f.autoformat_keep));
                }
            }

            pub fn node(n: &KdlNode, o: &mut String) {
                o.push('<');
                if let Some(t) = n.ty() {
                    o.push('(');
                    ident(t, o);
                    o.push(')');
                }
                ident(n.name(), o);
                for e in n.entries() {
                    o.push(' ');
                    entry(e, o);
                }
                if let Some(c) = n.children() {
                    o.push('{');
                    doc(c, o);
                    o.push('}');
                }
                if let Some(f) = n.format() {
                    let _ = write!(o, "{:?}", (&f.leading, &f.before_ty_name, &f.after_ty_name, &f.after_ty, &f.before_children, &f.before_terminator, &f.terminator, &f.trailing));
                }
                o.push('>');
            }

            pub fn doc(d: &KdlDocument, o: &mut String) {
                if let Some(f) = d.format() {
                    let _ = write!(o, "{:?}", (&f.leading, &f.trailing));
                }
                for n in d.nodes() {
                    node(n, o);
                }
            }

            pub fn doc_res(r: &Result<KdlDocument, KdlError>) -> String {
                let mut o = String::new();
                match r {
                    Ok(d) => doc(d, &mut o),
                    Err(e) => err(e, &mut o),
                }
                o
            }

            pub fn node_res(r: &Result<KdlNode, KdlError>) -> String {
                let mut o = String::new();
                match r {
                    Ok(d) => node(d, &mut o),
                    Err(e) => err(e, &mut o),
                }
                o
            }

            pub fn entry_res(r: &Result<KdlEntry, KdlError>) -> String {
                let mut o = String::new();
                match r {
                    Ok(d) => entry(d, &mut o),
                    Err(e) => err(e, &mut o),
                }
                o
            }

            pub fn ident_res(r: &Result<KdlIdentifier, KdlError>) -> String {
                let mut o = String::new();
                match r {
                    Ok(d) => ident(d, &mut o),
                    Err(e) => err(e, &mut o),
                }
                o
            }

            fn keep(d: &mut KdlDocument, strings: bool) {
                for n in d.nodes_mut() {
                    for e in n.entries_mut() {
                        if strings || !matches!(e.value(), KdlValue::String(_)) {
                            e.keep_format();
                        }
                    }
                    if let Some(c) = n.children_mut() {
                        keep(c, strings);
                    }
                }
            }

            /// Parsing as v2 and all printing of the document.
            pub fn v2(s: &str) -> String {
                let r = KdlDocument::parse_v2(s);
                let mut o = doc_res(&r);
                if let Ok(d) = r {
                    o.push('|');
                    o.push_str(&d.to_string());
                    let mut x = d.clone();
                    x.autoformat();
                    let _ = write!(o, "|{x}");
                    // twice: the second pass starts from generated formatting
                    x.autoformat_config(&FormatConfig::builder().indent_level(1).indent("\t").no_comments(true).build());
                    let _ = write!(o, "|{x}");
                    let mut x = d.clone();
                    keep(&mut x, false);
                    x.autoformat();
                    let _ = write!(o, "|{x}");
                    let mut x = d.clone();
                    x.clear_format_recursive();
                    let _ = write!(o, "|{x}|{}", x.len());
                    let _ = write!(o, "|{}", x == d);
                }
                o
            }

            fn touch(d: &mut KdlDocument, depth: usize) {
                if let Some(last) = d.nodes().last().cloned() {
                    d.nodes_mut().insert(0, last);
                }
                d.nodes_mut().push(KdlNode::new("new"));
                for n in d.nodes_mut() {
                    n.insert("k", 1);
                    n.insert("k", 2.5);
                    n.insert(0, "s");
                    n.push(true);
                    n.push(("p q", KdlValue::Null));
                    n.remove("b");
                    n.remove(1);
                    n.set_ty("t");
                    if let Some(e) = n.entry_mut("k") {
                        e.set_ty("u");
                        e.set_value("two\nlines");
                        e.clear_format();
                    }
                    if depth < 3 {
                        touch(n.ensure_children(), depth + 1);
                    }
                    n.clear_format();
                }
                d.clear_format();
            }

            /// Edits, and what they give.
            pub fn edited(s: &str) -> String {
                let Ok(mut d) = KdlDocument::parse_v2(s) else { return String::new() };
                let mut o = String::new();
                d.ensure_v2();
                let _ = write!(o, "{d}|");
                touch(&mut d, 0);
                doc(&d, &mut o);
                let _ = write!(o, "|{d}");
                d.autoformat();
                let _ = write!(o, "|{d}");
                o
            }

            /// Parsing at the other entry points (v2 only in builds without fallback).
            pub fn items(s: &str, t: &str) -> String {
                let mut o = String::new();
                o.push_str(&node_res(&KdlNode::parse(s)));
                o.push('|');
                o.push_str(&ident_res(&KdlIdentifier::parse(s)));
                o.push('|');
                o.push_str(&entry_res(&KdlEntry::parse(t)));
                o.push('|');
                o.push_str(&doc_res(&KdlDocument::parse(s)));
                o
            }

            fn canon_entry(e: &KdlEntry, s: &mut String) {
                if let Some(n) = e.name() {
                    let _ = write!(s, "{:?}=", n.value());
                }
                if let Some(t) = e.ty() {
                    let _ = write!(s, "({:?})", t.value());
                }
                s.push_str(&match e.value() {
                    KdlValue::String(s) => format!("s{s:?}"),
                    KdlValue::Integer(i) => format!("i{i}"),
                    KdlValue::Float(f) => crate::model::canon_f(*f),
                    KdlValue::Bool(b) => format!("b{b}"),
                    KdlValue::Null => "n".into(),
                });
            }

            pub fn canon_node(n: &KdlNode, s: &mut String) {
                s.push('<');
                if let Some(t) = n.ty() {
                    let _ = write!(s, "({:?})", t.value());
                }
                let _ = write!(s, "{:?}", n.name().value());
                for e in n.entries() {
                    s.push(' ');
                    canon_entry(e, s);
                }
                if let Some(c) = n.children() {
                    s.push('{');
                    for n in c.nodes() {
                        canon_node(n, s);
                    }
                    s.push('}');
                }
                s.push('>');
            }

            /// The data only.
            pub fn canon(d: &KdlDocument) -> String {
                let mut s = String::new();
                for n in d.nodes() {
                    canon_node(n, &mut s);
                }
                s
            }

            pub fn canon_e(e: &KdlEntry) -> String {
                let mut s = String::new();
                canon_entry(e, &mut s);
                s
            }

            pub fn canon_n(e: &KdlNode) -> String {
                let mut s = String::new();
                canon_node(e, &mut s);
                s
            }
        }
    };
}
observe!(base, kdl);
observe!(bare, kdl_bare);
observe!(v1only, kdl_v1);
observe!(full, kdl_full);

/// What the v1 parser says a v1 text means.
pub mod v1 {
    use std::fmt::Write as _;

    /// The v1 parser panics for some invalid texts.
    fn parse<T: std::str::FromStr>(t: &str) -> Option<T> {
        crate::run::guarded(|| t.parse().ok()).ok().flatten()
    }

    fn canon_entry(e: &kdlv1::KdlEntry, s: &mut String) {
        if let Some(n) = e.name() {
            let _ = write!(s, "{:?}=", n.value());
        }
        if let Some(t) = e.ty() {
            let _ = write!(s, "({:?})", t.value());
        }
        use kdlv1::KdlValue::*;
        s.push_str(&match e.value() {
            RawString(s) | String(s) => format!("s{s:?}"),
            Base2(i) | Base8(i) | Base10(i) | Base16(i) => format!("i{i}"),
            Base10Float(f) => crate::model::canon_f(*f),
            Bool(b) => format!("b{b}"),
            Null => "n".into(),
        });
    }

    fn canon_node(n: &kdlv1::KdlNode, s: &mut String) {
        s.push('<');
        if let Some(t) = n.ty() {
            let _ = write!(s, "({:?})", t.value());
        }
        let _ = write!(s, "{:?}", n.name().value());
        for e in n.entries() {
            s.push(' ');
            canon_entry(e, s);
        }
        if let Some(c) = n.children() {
            s.push('{');
            for n in c.nodes() {
                canon_node(n, s);
            }
            s.push('}');
        }
        s.push('>');
    }

    pub fn doc(t: &str) -> Option<String> {
        let d: kdlv1::KdlDocument = parse(t)?;
        let mut s = String::new();
        for n in d.nodes() {
            canon_node(n, &mut s);
        }
        Some(s)
    }

    pub fn print(t: &str) -> Option<String> {
        parse::<kdlv1::KdlDocument>(t).map(|d| d.to_string())
    }

    pub fn node(t: &str) -> Option<String> {
        let n: kdlv1::KdlNode = parse(t)?;
        let mut s = String::new();
        canon_node(&n, &mut s);
        Some(s)
    }

    pub fn entry(t: &str) -> Option<String> {
        let e: kdlv1::KdlEntry = parse(t)?;
        let mut s = String::new();
        canon_entry(&e, &mut s);
        Some(s)
    }

    pub fn ident(t: &str) -> Option<String> {
        let e: kdlv1::KdlIdentifier = parse(t)?;
        Some(e.value().to_string())
    }
}

// ------------------------------------------------------------------ P17

fn differ(what: &str, a: &str, b: &str) -> Result<(), Fail> {
    if a == b {
        return Ok(());
    }
    let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| s.chars().skip(n.saturating_sub(30)).take(90).collect::<String>();
    fail(what, format!("default build: ..{}.. this build: ..{}..", cut(a), cut(b)))
}

pub fn same_everywhere(s: &str) -> Outcome {
    let a = base::v2(s);
    differ("without-features", &a, &bare::v2(s))?;
    differ("with-v1", &a, &v1only::v2(s))?;
    differ("with-all-features", &a, &full::v2(s))?;
    let t = crate::p_text::tail(s).unwrap_or(s);
    if !a.starts_with('E') && s.len() <= 64 {
        let a = base::edited(s);
        differ("without-features-edited", &a, &bare::edited(s))?;
        differ("with-v1-edited", &a, &v1only::edited(s))?;
        differ("with-all-features-edited", &a, &full::edited(s))?;
    }
    let i = base::items(s, t);
    differ("without-features-items", &i, &bare::items(s, t))?;
    differ("with-v1-items", &i, &v1only::items(s, t))?;
    Ok(if a.starts_with('E') { "rejected" } else { "accepted" })
}

pub fn p17(rep: &Rep) {
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || same_everywhere(s));
    spaces::all(rep, rep.by(2, 1), &visit);
    spaces::unicode_upto(rep, rep.by(0x2100, 0x10000), spaces::UNICODE_FRAMES, &visit);
    spaces::pumped(rep, &visit);
}

// ------------------------------------------------------------------ P11

/// Spaces in which v1 and v2 notation differ.
pub const V1_SPACES: &[spaces::Space] = &[
    spaces::Space { name: "v1-values", pre: "a ", toks: &["true", "null", "r", "#", "\"", "\\", "/", " ", "x", "1", "\n"], suf: "", full: 4, cut: (5, 6) },
    spaces::Space { name: "v1-structure", pre: "", toks: &["a", " ", "\n", ";", "{", "}", "/-", "=", "(t)", "\"b\"", "1", "//c\n"], suf: "", full: 4, cut: (5, 6) },
    spaces::Space { name: "v1-entries", pre: "a", toks: &[" ", "\"b\"", "=", "1", "/-", "{}", "{b}", "true", "\\\n", ";", "\n", "/**/"], suf: "", full: 4, cut: (5, 6) },
    spaces::Space { name: "v1-nodes", pre: "", toks: &["a", "b 1", "\n", ";", " ", "{", "}", "/-", "//c\n", "\"q\"", "\\\n"], suf: "", full: 4, cut: (5, 6) },
    spaces::Space { name: "v1-quoted", pre: "a \"", toks: &["\\", "/", "n", "u{", "}", "61", "\n", " ", "é", "#", "\"\"", "x"], suf: "\"", full: 4, cut: (5, 6) },
    spaces::Space { name: "v1-raw", pre: "a r#\"", toks: &["\\", "/", "\"", "#", "\n", " ", "x", "\"#", "n"], suf: "\"#", full: 4, cut: (5, 6) },
    spaces::Space { name: "v1-identifiers", pre: "", toks: &["a", "true", "#", "r", "-", "1", ".", "[", "<", ",", "inf", "\"", " ", "=", "("], suf: "", full: 4, cut: (4, 5) },
    spaces::Space { name: "v1-props", pre: "a ", toks: &["k", "\"k\"", "r\"k\"", "=", "\"v\"", "r\"v\"", "true", "(t)", "(\"t\")", " ", "1"], suf: "", full: 4, cut: (5, 6) },
    spaces::Space { name: "v1-numbers", pre: "a ", toks: &["0", "1", "9", "_", ".", "e", "+", "-", "0x", "0b", "f", " "], suf: "", full: 4, cut: (5, 6) },
];

pub fn v1_all(rep: &Rep, shrink: usize, visit: &(dyn Fn(&mut Local, &str, &str) + Sync)) {
    if rep.one.is_some() {
        return;
    }
    for sp in V1_SPACES {
        rep.tree(sp.name, sp.pre, sp.toks, sp.suf, rep.by(sp.cut.0, sp.cut.1) - shrink, spaces::ALWAYS, &|l, s| visit(l, sp.name, s));
    }
}

fn about(what: &str, e: &kdl_full::KdlError, s: &str) -> Result<(), Fail> {
    if e.input.as_str() != s || e.diagnostics.is_empty() {
        return fail(format!("{what}-error"), format!("error holds {:?} and {} diagnostics", e.input, e.diagnostics.len()));
    }
    for d in &e.diagnostics {
        let (a, b) = (d.span.offset(), d.span.offset() + d.span.len());
        if d.input.as_str() != s || b > s.len() || !s.is_char_boundary(a) || !s.is_char_boundary(b) {
            return fail(format!("{what}-error-span"), format!("diagnostic at {a}..{b}"));
        }
    }
    Ok(())
}

/// `parsed`: what the fallback build gives; `v2`: what a build without
/// fallback gives; `v1`: what parse_v1 gives, and the data the v1 parser sees.
fn choice(what: &str, parsed: (bool, String), from_str: (bool, String), v2: (bool, String), v1: (bool, String), data: Option<(&str, Option<String>)>, errs: &mut dyn FnMut() -> Result<(), Fail>) -> Outcome {
    if parsed != from_str {
        return fail(format!("{what}-from-str"), format!("parse gives {:?}, the conversion trait {:?}", parsed, from_str));
    }
    if v2.0 {
        if parsed != v2 {
            return fail(format!("{what}-v2"), format!("valid v2, parsed as {:?} instead of {:?}", parsed.1, v2.1));
        }
        return Ok("v2");
    }
    if let Some((got, want)) = data {
        match want {
            Some(w) => {
                if parsed != v1 {
                    return fail(format!("{what}-v1"), format!("valid v1, parsed as {:?} instead of {:?}", parsed.1, v1.1));
                }
                if got != w {
                    return fail(format!("{what}-v1-data"), format!("valid v1 meaning {w}, parsed as {got}"));
                }
                return Ok("v1");
            }
            None => return fail(format!("{what}-v1-accepts"), "accepted, but neither valid v2 nor valid v1"),
        }
    }
    if parsed.0 {
        return fail(format!("{what}-accepts"), format!("accepted as {:?}", parsed.1));
    }
    if parsed.1 != v2.1 && parsed.1 != v1.1 {
        return fail(format!("{what}-foreign-error"), format!("neither parser's error: {:?}", parsed.1));
    }
    errs()?;
    Ok("neither")
}

pub fn fallback(s: &str) -> Outcome {
    use kdl_full::*;
    let d = KdlDocument::parse(s);
    let w = v1::doc(s);
    let v1r = KdlDocument::parse_v1(s);
    if v1r.is_ok() != w.is_some() {
        return fail("parse-v1", format!("the v1 parser: {w:?}, parse_v1: {}", v1r.is_ok()));
    }
    let got = d.as_ref().map(full::canon).unwrap_or_default();
    let v2 = bare::doc_res(&kdl_bare::KdlDocument::parse(s));
    let v2ok = kdl_bare::KdlDocument::parse(s).is_ok();
    let f: Result<KdlDocument, KdlError> = s.parse();
    let o = choice(
        "document",
        (d.is_ok(), full::doc_res(&d)),
        (f.is_ok(), full::doc_res(&f)),
        (v2ok, v2),
        (v1r.is_ok(), full::doc_res(&v1r)),
        if d.is_ok() || w.is_some() { Some((got.as_str(), w)) } else { None },
        &mut || about("document", d.as_ref().unwrap_err(), s),
    )?;
    // the explicit v2 entry point never falls back
    if full::doc_res(&KdlDocument::parse_v2(s)) != bare::doc_res(&kdl_bare::KdlDocument::parse_v2(s)) {
        return fail("parse-v2", "parse_v2 differs with fallback enabled");
    }

    let d = KdlNode::parse(s);
    let w = v1::node(s);
    let v1r = KdlNode::parse_v1(s);
    if v1r.is_ok() != w.is_some() {
        return fail("node-parse-v1", format!("the v1 parser: {w:?}, parse_v1: {}", v1r.is_ok()));
    }
    let got = d.as_ref().map(full::canon_n).unwrap_or_default();
    let b = kdl_bare::KdlNode::parse(s);
    let f: Result<KdlNode, KdlError> = s.parse();
    choice(
        "node",
        (d.is_ok(), full::node_res(&d)),
        (f.is_ok(), full::node_res(&f)),
        (b.is_ok(), bare::node_res(&b)),
        (v1r.is_ok(), full::node_res(&v1r)),
        if d.is_ok() || w.is_some() { Some((got.as_str(), w)) } else { None },
        &mut || about("node", d.as_ref().unwrap_err(), s),
    )?;

    let t = crate::p_text::tail(s).unwrap_or(s);
    let d = KdlEntry::parse(t);
    let w = v1::entry(t);
    let v1r = KdlEntry::parse_v1(t);
    if v1r.is_ok() != w.is_some() {
        return fail("entry-parse-v1", format!("the v1 parser: {w:?}, parse_v1: {}", v1r.is_ok()));
    }
    let got = d.as_ref().map(full::canon_e).unwrap_or_default();
    let b = kdl_bare::KdlEntry::parse(t);
    let f: Result<KdlEntry, KdlError> = t.parse();
    choice(
        "entry",
        (d.is_ok(), full::entry_res(&d)),
        (f.is_ok(), full::entry_res(&f)),
        (b.is_ok(), bare::entry_res(&b)),
        (v1r.is_ok(), full::entry_res(&v1r)),
        if d.is_ok() || w.is_some() { Some((got.as_str(), w)) } else { None },
        &mut || about("entry", d.as_ref().unwrap_err(), t),
    )?;

    let d = KdlIdentifier::parse(s);
    let w = v1::ident(s);
    let v1r = KdlIdentifier::parse_v1(s);
    if v1r.is_ok() != w.is_some() {
        return fail("identifier-parse-v1", format!("the v1 parser: {w:?}, parse_v1: {}", v1r.is_ok()));
    }
    let got = d.as_ref().map(|i| i.value().to_string()).unwrap_or_default();
    let b = kdl_bare::KdlIdentifier::parse(s);
    let f: Result<KdlIdentifier, KdlError> = s.parse();
    choice(
        "identifier",
        (d.is_ok(), full::ident_res(&d)),
        (f.is_ok(), full::ident_res(&f)),
        (b.is_ok(), bare::ident_res(&b)),
        (v1r.is_ok(), full::ident_res(&v1r)),
        if d.is_ok() || w.is_some() { Some((got.as_str(), w)) } else { None },
        &mut || about("identifier", d.as_ref().unwrap_err(), s),
    )?;
    Ok(o)
}

pub fn p11(rep: &Rep) {
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || fallback(s));
    v1_all(rep, 0, &visit);
    spaces::all(rep, rep.by(2, 1), &visit);
    spaces::unicode_upto(rep, rep.by(0x2100, 0x10000), spaces::UNICODE_FRAMES, &visit);
    spaces::pumped(rep, &visit);
}

// ------------------------------------------------------------------ P10

use kdl_full::{KdlDocument as Doc, KdlEntry, KdlNode, KdlValue};

/// Whether v1 can write this value.
fn expressible(d: &Doc) -> bool {
    d.nodes().iter().all(|n| {
        n.entries().iter().all(|e| match e.value() {
            // the v1 library doesn't read i64::MIN in decimal
            KdlValue::Integer(i) => i64::try_from(*i).is_ok_and(|i| i != i64::MIN),
            KdlValue::Float(f) => f.is_finite(),
            _ => true,
        }) && n.children().is_none_or(expressible)
    })
}

/// `text` must be valid v2 and mean `want`, for the real parser and the model.
fn is_v2(what: &str, text: &str, want: &str) -> Result<(), Fail> {
    if JUDGED.with_borrow(|j| j.iter().any(|(v, t, w)| *v == 2 && t == text && w == want)) {
        return Ok(());
    }
    match kdl_bare::KdlDocument::parse(text) {
        Err(e) => return fail(format!("{what}-invalid"), format!("gives {text:?}, which is not valid v2: {:?}", e.diagnostics.first().and_then(|d| d.message.clone()))),
        Ok(d) => {
            let got = bare::canon(&d);
            if got != want {
                return fail(format!("{what}-data"), format!("gives {text:?}, which means {got} instead of {want}"));
            }
        }
    }
    use crate::model::{self, Verdict};
    let meant = match model::run(text, model::Entry::Document).verdict {
        Verdict::Accept(d) | Verdict::Open(d) => model::canon(&d),
        Verdict::Reject => None,
    };
    match meant {
        Some(got) if got == want => {
            JUDGED.with_borrow_mut(|j| j.push((2, text.into(), got)));
            Ok(())
        }
        got => fail(format!("{what}-grammar"), format!("gives {text:?}, which according to the grammar means {got:?} instead of {want}")),
    }
}

/// `text` must be valid v1 and mean `want`.
fn is_v1(what: &str, text: &str, want: &str) -> Result<(), Fail> {
    if JUDGED.with_borrow(|j| j.iter().any(|(v, t, w)| *v == 1 && t == text && w == want)) {
        return Ok(());
    }
    match v1::doc(text) {
        None => fail(format!("{what}-invalid"), format!("gives {text:?}, which is not valid v1")),
        Some(got) if got != want => fail(format!("{what}-data"), format!("gives {text:?}, which means {got} instead of {want}")),
        Some(got) => {
            JUDGED.with_borrow_mut(|j| j.push((1, text.into(), got)));
            Ok(())
        }
    }
}

thread_local! {
    /// What this case has already found to be right.
    static JUDGED: std::cell::RefCell<Vec<(u8, String, String)>> = const { std::cell::RefCell::new(vec![]) };
}

fn clear_nodes(d: &mut Doc) {
    d.clear_format();
    for n in d.nodes_mut() {
        n.clear_format();
        if let Some(c) = n.children_mut() {
            clear_nodes(c);
        }
    }
}

fn clear_entries(d: &mut Doc) {
    for n in d.nodes_mut() {
        for e in n.entries_mut() {
            e.clear_format();
        }
        if let Some(c) = n.children_mut() {
            clear_entries(c);
        }
    }
}

/// New parts, without any formatting, next to the ones that have it.
fn extend(d: &mut Doc) {
    for n in d.nodes_mut() {
        n.push(KdlEntry::new("true"));
        n.push(KdlEntry::new_prop("a b", 1.5));
        if let Some(c) = n.children_mut() {
            extend(c);
        }
    }
    let mut n = KdlNode::new("r#new");
    n.set_ty("#t");
    n.push(KdlValue::Null);
    n.push(true);
    d.nodes_mut().push(n);
}

type Change = fn(&mut Doc);
const CHANGES: &[(&str, Change)] = &[
    ("cleared", |d| d.clear_format_recursive()),
    ("nodes-cleared", clear_nodes),
    ("entries-cleared", clear_entries),
    ("extended", extend),
    ("formatted", |d| d.autoformat()),
    ("formatted-without-comments", |d| d.autoformat_no_comments()),
];

fn both_ways(what: &str, d: &Doc, v1_too: bool) -> Result<(), Fail> {
    let want = full::canon(d);
    let mut x = d.clone();
    x.ensure_v2();
    if full::canon(&x) != want {
        return fail(format!("{what}-ensure-v2-changes"), format!("changes {want} to {}", full::canon(&x)));
    }
    let t = x.to_string();
    is_v2(&format!("{what}-ensure-v2"), &t, &want)?;
    x.ensure_v2();
    is_v2(&format!("{what}-ensure-v2-twice"), &x.to_string(), &want)?;
    if v1_too {
        let mut x = d.clone();
        x.ensure_v1();
        if full::canon(&x) != want {
            return fail(format!("{what}-ensure-v1-changes"), format!("changes {want} to {}", full::canon(&x)));
        }
        let once = x.to_string();
        is_v1(&format!("{what}-ensure-v1"), &once, &want)?;
        x.ensure_v1();
        is_v1(&format!("{what}-ensure-v1-twice"), &x.to_string(), &want)?;
        x.ensure_v2();
        is_v2(&format!("{what}-ensure-v1-v2"), &x.to_string(), &want)?;
    }
    Ok(())
}

pub fn conversions(s: &str) -> Outcome {
    JUDGED.with_borrow_mut(|j| j.clear());
    let v1_means = v1::doc(s);
    let v2_doc = Doc::parse_v2(s);
    if let Some(want) = &v1_means {
        match Doc::v1_to_v2(s) {
            Err(_) => return fail("v1-to-v2-rejects", "valid v1, but not converted"),
            Ok(t) => is_v2("v1-to-v2", &t, want)?,
        }
        let d = match Doc::parse_v1(s) {
            Err(_) => return fail("parse-v1-rejects", "valid v1, but not parsed"),
            Ok(d) => d,
        };
        if full::canon(&d) != *want {
            return fail("parse-v1-data", format!("means {want}, parsed as {}", full::canon(&d)));
        }
        is_v1("parse-v1-printed", &d.to_string(), want)?;
        // it knows no more than what the v1 library gives; only slashdashed
        // entries after children, which v2 doesn't have, can be elsewhere
        let printed = v1::print(s);
        if Some(d.to_string()) != printed && !s.contains("/-") {
            return fail("parse-v1-lossy", format!("printed as {:?}, by the v1 library as {printed:?}", d.to_string()));
        }
        let v1_too = expressible(&d);
        both_ways("v1", &d, true)?;
        for (name, change) in CHANGES {
            // v2 has no idea that this text ends in an unfinished line
            if s.contains(['\u{b}', '\u{feff}']) && *name == "extended" {
                continue;
            }
            let mut x = d.clone();
            change(&mut x);
            both_ways(&format!("v1-{name}"), &x, v1_too)?;
        }
        // parts, one by one
        for n in d.nodes() {
            let mut x = n.clone();
            x.ensure_v2();
            let mut want = String::new();
            full::canon_node(n, &mut want);
            is_v2("v1-node-ensure-v2", &x.to_string(), &want)?;
            for e in n.entries() {
                let mut x = e.clone();
                x.ensure_v2();
                is_v2("v1-entry-ensure-v2", &format!("a {}", x), &format!("<\"a\" {}>", full::canon_e(e)))?;
            }
        }
    } else if Doc::v1_to_v2(s).is_ok() {
        return fail("v1-to-v2-accepts", "not valid v1, but converted");
    }
    if let Ok(d) = &v2_doc {
        let v1_too = expressible(d);
        let want = full::canon(d);
        match Doc::v2_to_v1(s) {
            Err(_) => return fail("v2-to-v1-rejects", "valid v2, but not converted"),
            Ok(t) if v1_too => is_v1("v2-to-v1", &t, &want)?,
            Ok(_) => {}
        }
        both_ways("v2", d, v1_too)?;
        for (name, change) in CHANGES {
            let mut x = d.clone();
            change(&mut x);
            both_ways(&format!("v2-{name}"), &x, v1_too)?;
        }
        if v1_too {
            for n in d.nodes() {
                let mut x = n.clone();
                x.ensure_v1();
                let mut want = String::new();
                full::canon_node(n, &mut want);
                is_v1("v2-node-ensure-v1", &x.to_string(), &want)?;
                for e in n.entries() {
                    let mut x = e.clone();
                    x.ensure_v1();
                    is_v1("v2-entry-ensure-v1", &format!("a {}", x), &format!("<\"a\" {}>", full::canon_e(e)))?;
                }
            }
        }
    } else if Doc::v2_to_v1(s).is_ok() {
        return fail("v2-to-v1-accepts", "not valid v2, but converted");
    }
    Ok(match (v1_means.is_some(), v2_doc.is_ok()) {
        (true, true) => "both",
        (true, false) => "v1",
        (false, true) => "v2",
        (false, false) => "neither",
    })
}

pub fn p10(rep: &Rep) {
    let visit = |l: &mut Local, scope: &str, s: &str| {
        // the v1 library takes exponential time for these
        if !scope.starts_with("nest/slash") || s.matches("/-").count() <= 6 {
            rep.case(l, scope, s, || conversions(s))
        }
    };
    v1_all(rep, rep.by(1, 0), &visit);
    spaces::all(rep, rep.by(2, 1), &visit);
    spaces::unicode_upto(rep, rep.by(0x2100, 0x10000), spaces::UNICODE_FRAMES, &visit);
    spaces::pumped(rep, &visit);
}
