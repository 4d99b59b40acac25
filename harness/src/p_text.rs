//! Properties decided on the bounded input spaces by running the real parser
//! next to the reference model.

use crate::model::{self, Entry, Verdict};
use crate::real::*;
use crate::run::*;
use crate::spaces;
use kdl::*;

/// P01: acceptance and meaning agree with the KDL 2.0.0 grammar.
pub fn conforms(s: &str) -> Outcome {
    let m = model::run(s, Entry::Document);
    let r = KdlDocument::parse_v2(s);
    match (&m.verdict, &r) {
        (Verdict::Reject, Err(_)) => Ok("reject"),
        (Verdict::Reject, Ok(d)) => fail("accepts-invalid", format!("not KDL 2.0, but parsed as {}", canon_doc(d))),
        (Verdict::Open(_), Err(_)) => Ok("open-rejected"),
        (Verdict::Accept(d), Err(e)) => match model::canon(d) {
            None => Ok("int-out-of-range"),
            Some(c) => fail(
                "rejects-valid",
                format!("valid KDL 2.0 meaning {c}, but rejected: {:?}", e.diagnostics.first().map(|d| d.to_string())),
            ),
        },
        (Verdict::Accept(d), Ok(r)) | (Verdict::Open(d), Ok(r)) => match model::canon(d) {
            None => fail("int-out-of-range", format!("integer outside i128 accepted as {}", canon_doc(r))),
            Some(c) => {
                let got = canon_doc(r);
                if got == c {
                    Ok(if matches!(m.verdict, Verdict::Open(_)) { "open-accepted" } else { "accept" })
                } else {
                    fail("wrong-data", format!("means {c}, parsed as {got}"))
                }
            }
        },
    }
}

pub fn p01(rep: &Rep) {
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || conforms(s));
    spaces::all(rep, 0, &visit);
    spaces::unicode(rep, spaces::UNICODE_FRAMES, &visit);
    spaces::pumped(rep, &visit);
}

/// The text an entry would have in a space whose frame is a node.
pub fn tail(s: &str) -> Option<&str> {
    s.strip_prefix('a').or_else(|| s.strip_prefix('n'))
}

fn same(what: &str, got: String, want: &str) -> Result<(), Fail> {
    if got == want { Ok(()) } else { fail(format!("{what}-not-lossless"), format!("printed as {got:?}")) }
}

/// P02: parse, print, compare bytes.
pub fn lossless_doc(s: &str) -> Outcome {
    match KdlDocument::parse(s) {
        Ok(d) => same("document", d.to_string(), s).map(|_| "document-accepted"),
        Err(_) => Ok("document-rejected"),
    }
}

pub fn lossless(s: &str) -> Outcome {
    let mut n = 0;
    if let Ok(d) = KdlNode::parse(s) {
        same("node", d.to_string(), s)?;
        n += 1;
    }
    if let Some(t) = tail(s)
        && let Ok(e) = KdlEntry::parse(t)
    {
        same("entry", e.to_string(), t)?;
        n += 1;
    }
    if let Ok(i) = KdlIdentifier::parse(s) {
        same("identifier", i.to_string(), s)?;
        n += 1;
    }
    Ok(["other-entry-points-reject", "1-other-entry-point-accepts", "2-other-entry-points-accept", "3-other-entry-points-accept"][n])
}

pub fn p02(rep: &Rep) {
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || lossless_doc(s));
    spaces::all(rep, 0, &visit);
    spaces::unicode(rep, spaces::UNICODE_FRAMES, &visit);
    spaces::pumped(rep, &visit);
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || lossless(s));
    spaces::all(rep, 1, &visit);
    spaces::unicode(rep, spaces::UNICODE_FRAMES, &visit);
    spaces::pumped(rep, &visit);
}

// ------------------------------------------------------------------ P03

fn well_formed(what: &str, e: &KdlError, s: &str) -> Result<(), Fail> {
    if e.input.as_str() != s {
        return fail(format!("{what}-error-input"), format!("error holds {:?}", e.input));
    }
    if e.diagnostics.is_empty() {
        return fail(format!("{what}-no-diagnostics"), "error without any diagnostic");
    }
    for d in &e.diagnostics {
        let (a, b) = (d.span.offset(), d.span.offset() + d.span.len());
        if d.input.as_str() != s {
            return fail(format!("{what}-diagnostic-input"), format!("diagnostic holds {:?}", d.input));
        }
        if b > s.len() || !s.is_char_boundary(a) || !s.is_char_boundary(b) {
            return fail(format!("{what}-diagnostic-span"), format!("{:?} is at {a}..{b} of {} bytes", d.message, s.len()));
        }
        if d.to_string().is_empty() || (what == "document" && d.message.is_none() && d.label.is_none()) {
            return fail(format!("{what}-silent-diagnostic"), format!("diagnostic at {a}..{b} says nothing"));
        }
    }
    Ok(())
}

pub fn total(s: &str) -> Outcome {
    let mut n = 0;
    let mut one = |what: &str, e: Option<KdlError>, s: &str| -> Result<(), Fail> {
        if let Some(e) = e {
            n += 1;
            well_formed(what, &e, s)?;
        }
        Ok(())
    };
    one("node", KdlNode::parse(s).err(), s)?;
    one("identifier", KdlIdentifier::parse(s).err(), s)?;
    let t = tail(s).unwrap_or(s);
    one("entry", KdlEntry::parse(t).err(), t)?;
    Ok(["0-errors", "1-error", "2-errors", "3-errors"][n])
}

pub fn total_doc(s: &str) -> Outcome {
    match KdlDocument::parse(s) {
        Ok(_) => Ok("document"),
        Err(e) => well_formed("document", &e, s).map(|_| "document-error"),
    }
}

pub fn p03(rep: &Rep) {
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || total_doc(s));
    spaces::all(rep, 0, &visit);
    spaces::unicode(rep, spaces::UNICODE_FRAMES, &visit);
    spaces::pumped(rep, &visit);
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || total(s));
    spaces::all(rep, 1, &visit);
    spaces::unicode(rep, spaces::UNICODE_FRAMES, &visit);
    spaces::pumped(rep, &visit);
}

// ------------------------------------------------------------------ P04

struct Spans<'a> {
    s: &'a str,
}

impl Spans<'_> {
    fn is(&self, what: &str, got: miette::SourceSpan, off: usize, len: usize) -> Result<(), Fail> {
        if (got.offset(), got.len()) == (off, len) {
            Ok(())
        } else {
            fail(
                format!("{what}-span"),
                format!("{what} is at {}..{} but its span is {}..{}", off, off + len, got.offset(), got.offset() + got.len()),
            )
        }
    }
    fn ident(&self, what: &str, i: &KdlIdentifier, off: usize) -> Result<usize, Fail> {
        let r = i.to_string();
        if self.s.get(off..off + r.len()) != Some(&r) {
            return fail("not-lossless", "print differs from source");
        }
        self.is(what, i.span(), off, r.len())?;
        Ok(off + r.len())
    }
    fn entry(&self, e: &KdlEntry, off: usize) -> Result<usize, Fail> {
        let Some(f) = e.format() else { return fail("no-format", "parsed entry without format") };
        let end = off + e.to_string().len();
        let start = off + f.leading.len();
        self.is("entry", e.span(), start, end - f.trailing.len() - start)?;
        let mut p = start;
        if let Some(n) = e.name() {
            p = self.ident("property-key", n, p)?;
            p += f.after_key.len() + 1 + f.after_eq.len();
        }
        if let Some(t) = e.ty() {
            self.ident("value-type", t, p + 1 + f.before_ty_name.len())?;
        }
        Ok(end)
    }
    fn node(&self, n: &KdlNode, off: usize, lo: usize, hi: usize) -> Result<usize, Fail> {
        let Some(f) = n.format() else { return fail("no-format", "parsed node without format") };
        let whole = n.to_string();
        let end = off + whole.len();
        let start = off + f.leading.len();
        self.is("node", n.span(), start, end - f.terminator.len() - f.trailing.len() - start)?;
        if start < lo || end > hi {
            return fail("node-outside-parent", format!("node {start}..{end} outside {lo}..{hi}"));
        }
        let mut p = start;
        if let Some(t) = n.ty() {
            p = self.ident("node-type", t, p + 1 + f.before_ty_name.len())? + f.after_ty_name.len() + 1 + f.after_ty.len();
        }
        p = self.ident("node-name", n.name(), p)?;
        for e in n.entries() {
            p = self.entry(e, p)?;
        }
        if let Some(c) = n.children() {
            p += f.before_children.len() + 1;
            p = self.doc(c, p, false)?;
        }
        // the text it covers is the same node on its own
        let t = &self.s[start..end - f.terminator.len() - f.trailing.len()];
        match KdlNode::parse(t) {
            Ok(m) => {
                let (mut a, mut b) = (String::new(), String::new());
                canon_node(n, &mut a);
                canon_node(&m, &mut b);
                if a != b {
                    return fail("node-span-reparse", format!("{t:?} parses as {b} instead of {a}"));
                }
            }
            Err(_) => return fail("node-span-reparse", format!("{t:?} does not parse on its own")),
        }
        let _ = p;
        Ok(end)
    }
    fn doc(&self, d: &KdlDocument, off: usize, top: bool) -> Result<usize, Fail> {
        let Some(f) = d.format() else { return fail("no-format", "parsed document without format") };
        let end = off + d.to_string().len();
        let sp = d.span();
        let (a, b) = (sp.offset(), sp.offset() + sp.len());
        if a < off || b > end {
            return fail("document-span", format!("document or block text is {off}..{end} but its span is {a}..{b}"));
        }
        let mut p = off + f.leading.len();
        for n in d.nodes() {
            // every node lies inside the span of its document or block,
            // terminator aside
            p = self.node(n, p, off, end)?;
            let ns = n.span();
            if ns.offset() < a || ns.offset() + ns.len() > b {
                return fail("document-span", format!("node {ns:?} outside its document's span {a}..{b}"));
            }
        }
        let _ = top;
        Ok(end)
    }
}

pub fn spans(s: &str) -> Outcome {
    let Ok(d) = KdlDocument::parse(s) else { return Ok("rejected") };
    let t = Spans { s };
    let end = t.doc(&d, 0, true)?;
    if end != s.len() {
        return fail("not-lossless", "print differs from source");
    }
    Ok("accepted")
}

pub fn p04(rep: &Rep) {
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || spans(s));
    spaces::all(rep, 0, &visit);
    spaces::unicode(rep, spaces::UNICODE_FRAMES, &visit);
    spaces::pumped(rep, &visit);
}

// ------------------------------------------------------------------ P18

pub fn entry_points(s: &str) -> Outcome {
    fn agree<T: PartialEq + std::fmt::Debug>(what: &str, a: &Result<T, KdlError>, b: Result<T, KdlError>) -> Result<(), Fail> {
        if *a == b || matches!((a, &b), (Ok(_), Ok(_)) if format!("{a:?}") == format!("{b:?}")) {
            Ok(())
        } else {
            fail(format!("{what}-conversion"), format!("parse gives {:?}, the conversion trait gives {:?}", a.is_ok(), b.is_ok()))
        }
    }
    fn item(what: &str, s: &str, e: Entry, got: Option<String>) -> Outcome {
        // slashdashed siblings around a single item are neither promised nor
        // excluded
        let m = model::run(s, e);
        match (&m.verdict, got) {
            (Verdict::Reject, None) => Ok("rejected"),
            (Verdict::Reject, Some(_)) if s.contains("/-") => Ok("slashdash-open"),
            (Verdict::Reject, Some(g)) => fail(format!("{what}-accepts-invalid"), format!("accepted as {g}")),
            (Verdict::Open(_), None) => Ok("rejected"),
            (Verdict::Accept(d), None) => match model::canon(d) {
                None => Ok("rejected"),
                Some(c) => {
                    if s.contains("/-") {
                        return Ok("slashdash-open");
                    }
                    fail(format!("{what}-rejects-valid"), format!("rejected, but is {c}"))
                }
            },
            (Verdict::Accept(d) | Verdict::Open(d), Some(g)) => match model::canon(d) {
                Some(c) if c == g => Ok("accepted"),
                c => fail(format!("{what}-wrong-data"), format!("is {c:?}, parsed as {g}")),
            },
        }
    }
    let d = KdlDocument::parse(s);
    agree("document", &d, s.parse())?;
    if d != KdlDocument::parse_v2(s) && !format!("{d:?}").contains("NaN") {
        return fail("document-parse-v2", "parse and parse_v2 differ");
    }
    let n = KdlNode::parse(s);
    agree("node", &n, s.parse())?;
    let i = KdlIdentifier::parse(s);
    agree("identifier", &i, s.parse())?;
    let t = tail(s).unwrap_or(s);
    let e = KdlEntry::parse(t);
    agree("entry", &e, t.parse())?;

    let mut acc = 0;
    let got = n.ok().map(|n| {
        let mut g = String::new();
        canon_node(&n, &mut g);
        g
    });
    acc += (item("node", s, Entry::Node, got)? == "accepted") as usize;
    let got = e.ok().map(|e| {
        let mut g = String::new();
        canon_entry(&e, &mut g);
        format!("<\"e\" {g}>")
    });
    acc += (item("entry", t, Entry::Entry, got)? == "accepted") as usize;
    let got = i.ok().map(|i| format!("<{:?}>", i.value()));
    acc += (item("identifier", s, Entry::Ident, got)? == "accepted") as usize;
    Ok(["0-accepted", "1-accepted", "2-accepted", "3-accepted"][acc])
}

pub fn p18(rep: &Rep) {
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || entry_points(s));
    spaces::all(rep, 1, &visit);
    spaces::unicode(rep, spaces::UNICODE_FRAMES, &visit);
    spaces::pumped(rep, &visit);
}

// ------------------------------------------------ model against the suite

/// The official KDL 2.0 compliance suite (inputs with the expected canonical
/// output), applied to the reference model itself: `(files, mismatches)`.
pub fn spec_suite() -> (usize, Vec<String>) {
    fn norm(nodes: &[model::Node]) -> Vec<model::Node> {
        nodes
            .iter()
            .map(|n| {
                let mut args: Vec<_> = n.ents.iter().filter(|e| e.name.is_none()).cloned().collect();
                let mut props = std::collections::BTreeMap::new();
                for e in n.ents.iter().filter(|e| e.name.is_some()) {
                    props.insert(e.name.clone(), e.clone());
                }
                args.extend(props.into_values());
                model::Node {
                    ty: n.ty.clone(),
                    name: n.name.clone(),
                    ents: args,
                    children: n.children.as_ref().filter(|c| !c.is_empty()).map(|c| norm(c)),
                }
            })
            .collect()
    }
    let dir = std::path::Path::new("/repo/tests/test_cases");
    let mut bad = vec![];
    let mut n = 0;
    let mut names: Vec<_> = std::fs::read_dir(dir.join("input")).map(|d| d.flatten().map(|e| e.file_name()).collect()).unwrap_or_default();
    names.sort();
    for f in names {
        let name = f.to_string_lossy().to_string();
        let Ok(src) = std::fs::read_to_string(dir.join("input").join(&f)) else { continue };
        n += 1;
        let v = model::run(&src, Entry::Document).verdict;
        let want = std::fs::read_to_string(dir.join("expected_kdl").join(&f));
        let ok = match (v, want) {
            (Verdict::Accept(d) | Verdict::Open(d), Ok(w)) => match model::run(&w, Entry::Document).verdict {
                // numbers may be re-notated by the expected output
                Verdict::Accept(x) | Verdict::Open(x) => model::canon(&norm(&d)) == model::canon(&norm(&x)),
                Verdict::Reject => false,
            },
            (Verdict::Open(_), Err(_)) => true,
            (Verdict::Accept(_), Err(_)) => !name.contains("_fail"),
            (Verdict::Reject, w) => w.is_err() && name.contains("_fail"),
        };
        if !ok {
            bad.push(name);
        }
    }
    (n, bad)
}
