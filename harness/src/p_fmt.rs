//! Formatting properties (P06 auto-format, P07 clear format).

use crate::model::{self, Entry, Mark, Verdict};
use crate::real::*;
use crate::run::*;
use crate::spaces;
use kdl::*;

/// What the reference model says a text means; None if it is not KDL.
pub fn meaning(s: &str) -> Option<String> {
    match model::run(s, Entry::Document).verdict {
        Verdict::Accept(d) | Verdict::Open(d) => model::canon(&d),
        Verdict::Reject => None,
    }
}

pub const CONFIGS: &[(&str, usize, &str, bool, bool)] = &[
    // name, indent level, indent, no comments, keep entry format
    ("default", 0, "    ", false, false),
    ("no-comments", 0, "    ", true, false),
    ("keep", 0, "    ", false, true),
    ("tab", 0, "\t", false, false),
    ("level1", 1, "  ", false, false),
    ("flat", 0, "", false, false),
    ("no-comments-keep", 0, " ", true, true),
];

fn config(c: &(&'static str, usize, &'static str, bool, bool)) -> FormatConfig<'static> {
    let mut f = FormatConfig::builder().indent_level(c.1).indent(c.2).no_comments(c.3).build();
    f.entry_autoformate_keep = c.4;
    f
}

fn norm(c: &str) -> Vec<String> {
    c.split(|c: char| model::is_newline_char(c)).map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
}

pub fn autoformat(s: &str, configs: &[(&'static str, usize, &'static str, bool, bool)]) -> Outcome {
    let Ok(d) = KdlDocument::parse(s) else { return Ok("rejected") };
    let before = canon_doc(&d);
    for c in configs {
        let n = c.0;
        let f = config(c);
        let mut x = d.clone();
        x.autoformat_config(&f);
        let t = x.to_string();
        if canon_doc(&x) != before {
            return fail(format!("{n}-data"), format!("formatting turned {before} into {}", canon_doc(&x)));
        }
        match meaning(&t) {
            None => return fail(format!("{n}-invalid"), format!("formatted as {t:?}, which is not KDL")),
            Some(m) if m != before => return fail(format!("{n}-meaning"), format!("formatted as {t:?}, which means {m} instead of {before}")),
            _ => {}
        }
        x.autoformat_config(&f);
        if x.to_string() != t {
            return fail(format!("{n}-again"), format!("formatted as {t:?}, and again as {:?}", x.to_string()));
        }
        match KdlDocument::parse(&t) {
            Err(_) => return fail(format!("{n}-unparseable"), format!("formatted as {t:?}, which is rejected")),
            Ok(mut y) => {
                y.autoformat_config(&f);
                if y.to_string() != t {
                    return fail(format!("{n}-reparsed"), format!("formatted as {t:?}, re-parsed and formatted as {:?}", y.to_string()));
                }
            }
        }
        let a = model::marks(s).unwrap_or_default();
        let b = model::marks(&t).unwrap_or_default();
        if c.3 {
            if !c.4 && !b.is_empty() {
                return fail(format!("{n}-comments"), format!("formatted without comments as {t:?}"));
            }
        } else {
            // every comment between nodes survives, in order
            let want: Vec<_> = a.iter().filter(|(m, _)| matches!(m, Mark::Between | Mark::EndOfLine)).map(|(_, t)| norm(t)).collect();
            let have: Vec<_> = b.iter().filter(|(m, _)| *m != Mark::Slash).map(|(_, t)| norm(t)).collect();
            let mut i = 0;
            for h in &have {
                if i < want.len() && *h == want[i] {
                    i += 1;
                }
            }
            if i < want.len() {
                return fail(format!("{n}-lost-comment"), format!("formatted as {t:?}, without {:?}", want[i]));
            }
        }
    }
    Ok("accepted")
}

pub fn p06(rep: &Rep) {
    let cs = if rep.thorough() { CONFIGS } else { CONFIGS };
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || autoformat(s, cs));
    spaces::all(rep, rep.by(1, 1), &visit);
    spaces::unicode(rep, spaces::UNICODE_FRAMES, &visit);
    spaces::pumped(rep, &visit);
}

// ------------------------------------------------------------------ P07

pub fn clear(s: &str) -> Outcome {
    let Ok(d) = KdlDocument::parse(s) else { return Ok("rejected") };
    let before = canon_doc(&d);
    let check = |what: &str, x: &KdlDocument| -> Result<(), Fail> {
        if canon_doc(x) != before {
            return fail(format!("{what}-data"), format!("turned {before} into {}", canon_doc(x)));
        }
        let t = x.to_string();
        match meaning(&t) {
            None => fail(format!("{what}-invalid"), format!("prints {t:?}, which is not KDL")),
            Some(m) if m != before => fail(format!("{what}-meaning"), format!("prints {t:?}, which means {m} instead of {before}")),
            _ => Ok(()),
        }
    };
    let mut x = d.clone();
    x.clear_format();
    check("document", &x)?;
    let mut x = d.clone();
    x.clear_format_recursive();
    check("recursive", &x)?;
    // two texts of the same meaning are equal once cleared: compare with the
    // same data built from nothing, and with what the cleared document prints
    let built = rebuild(&d);
    if x != built || built != x {
        return fail("recursive-leftovers", format!("after clearing it still differs from the same data without formatting: {:?}", x.to_string()));
    }
    let t = x.to_string();
    if built.to_string() != t {
        return fail("recursive-leftovers", format!("prints {t:?}, the same data without formatting {:?}", built.to_string()));
    }
    match KdlDocument::parse(&t) {
        Err(_) => return fail("recursive-unparseable", format!("prints {t:?}, which is rejected")),
        Ok(mut y) => {
            y.clear_format_recursive();
            if x != y {
                return fail("recursive-unequal", format!("{t:?} means the same but is unequal after clearing"));
            }
        }
    }
    // each part on its own
    let parts = d.nodes().len();
    for k in 0..parts {
        let mut x = d.clone();
        x.nodes_mut()[k].clear_format();
        check("node", &x)?;
        let mut x = d.clone();
        x.nodes_mut()[k].clear_format_recursive();
        check("node-recursive", &x)?;
        let mut x = d.clone();
        x.nodes_mut()[k].name_mut().clear_format();
        check("name", &x)?;
        for e in 0..d.nodes()[k].entries().len() {
            let mut x = d.clone();
            x.nodes_mut()[k].entries_mut()[e].clear_format();
            check("entry", &x)?;
        }
        if d.nodes()[k].children().is_some() {
            let mut x = d.clone();
            x.nodes_mut()[k].children_mut().as_mut().unwrap().clear_format();
            check("children", &x)?;
            let mut x = d.clone();
            x.nodes_mut()[k].children_mut().as_mut().unwrap().clear_format_recursive();
            check("children-recursive", &x)?;
        }
    }
    Ok("accepted")
}

pub fn p07(rep: &Rep) {
    let visit = |l: &mut Local, scope: &str, s: &str| rep.case(l, scope, s, || clear(s));
    spaces::all(rep, rep.by(1, 0), &visit);
    spaces::unicode(rep, spaces::UNICODE_FRAMES, &visit);
    spaces::pumped(rep, &visit);
}
