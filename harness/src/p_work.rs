//! P14: how the work done by the parser, the printer and the formatter grows.
//!
//! Work is counted, not timed: this build is instrumented by the compiler with
//! a call in every basic block, so the count is the same on every run and on
//! every machine, whatever else is running.

use crate::run::*;
use crate::spaces;
use kdl::*;
use std::cell::Cell;

thread_local! {
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
    static LOWEST: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// Called by the instrumented code at the start of every basic block.
#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    BLOCKS.set(BLOCKS.get().wrapping_add(1));
    let here = 0u8;
    let at = std::hint::black_box(&here as *const u8 as usize);
    if at < LOWEST.get() {
        LOWEST.set(at);
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

#[derive(Clone, Copy, Default, Debug)]
pub struct Work {
    pub blocks: u64,
    pub bytes: u64,
    pub stack: u64,
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (Work, T) {
    let here = 0u8;
    let top = std::hint::black_box(&here as *const u8 as usize);
    LOWEST.set(top);
    let b0 = BLOCKS.get();
    let a0 = crate::alloc::counters().1;
    let r = f();
    let w = Work { blocks: BLOCKS.get() - b0, bytes: crate::alloc::counters().1 - a0, stack: (top - LOWEST.get()) as u64 };
    (w, r)
}

/// What is measured on a text: name, work, and the size it may depend on.
fn steps(s: &str) -> Vec<Step> {
    let mut out = vec![];
    let n = s.len();
    let mut add = |name, w, size| out.push(Step { name, w, size });
    let (w, r) = measure(|| KdlDocument::parse(s));
    add("parse", w, n);
    let (w, _) = measure(|| KdlNode::parse(s).is_ok());
    add("parse-node", w, n);
    let (w, _) = measure(|| KdlEntry::parse(s).is_ok());
    add("parse-entry", w, n);
    match r {
        Ok(mut d) => {
            let (w, p) = measure(|| d.to_string());
            add("print", w, n);
            let (w, c) = measure(|| d.clone());
            add("clone", w, n);
            let (w, _) = measure(|| c == d);
            add("compare", w, n);
            let (w, _) = measure(|| drop(c));
            add("drop", w, n);
            let (w, _) = measure(|| d.autoformat());
            let (w2, p2) = measure(|| d.to_string());
            let m = p.len() + p2.len();
            add("autoformat", w, m);
            add("print-formatted", w2, m);
            let (w, _) = measure(|| d.clear_format());
            add("clear_format", w, m);
            let (w, p3) = measure(|| d.to_string());
            add("print-cleared", w, n + p3.len());
        }
        Err(e) => {
            let (w, _) = measure(|| e.to_string());
            add("error-text", w, n);
        }
    }
    out
}

#[derive(Clone, Debug)]
struct Step {
    name: &'static str,
    w: Work,
    /// what the work has to be proportional to
    size: usize,
}

/// No byte of a valid text costs more than this, whatever is around it, and no
/// byte of an invalid one more than `COST_BAD` for every byte of the text: from
/// every error, the parser may look ahead to the end.  (On the unchanged tree
/// the worst families cost a tenth of that.)
const COST: u64 = 12_000;
const COST_BAD: u64 = 500;
/// Stack for a flat text, and for each level of nested blocks.
const STACK: u64 = 128 << 10;
const STACK_LEVEL: u64 = 48 << 10;

/// An upper bound for how deep blocks are nested in a text.
fn nesting(s: &str, valid: bool) -> u64 {
    // In a text with errors it is up to the recovery what belongs to what.
    let plain = valid && !s.contains(['"', '/', '\\']);
    let (mut d, mut max) = (0u64, 0u64);
    for c in s.chars() {
        match c {
            '{' => d += 1,
            '}' if plain => d = d.saturating_sub(1),
            _ => {}
        }
        max = max.max(d);
    }
    max
}

/// Measure a growing family and judge its growth.  `make` gives the texts in
/// order, each about twice as long as the one before.
fn grows(sizes: &[usize], growth: [usize; 3], make: &dyn Fn(usize) -> String, steps: &dyn Fn(&str) -> Vec<Step>, worst: &mut [u64; 5]) -> Outcome {
    let mut seen: Vec<Vec<Step>> = vec![];
    let mut last = 0;
    for k in sizes {
        let s = make(*k);
        last = s.len();
        let r = steps(&s);
        let depth = nesting(&s, r.iter().any(|x| x.name == "print"));
        let valid = r.iter().any(|x| x.name == "print");
        for x in &r {
            let per = x.w.blocks / (x.size as u64 + 64);
            let lookahead = !valid || x.name.starts_with("parse-");
            let limit = if lookahead { COST_BAD * (x.size as u64 + 64) } else { COST };
            let k = lookahead as usize;
            worst[k] = worst[k].max(if lookahead { per / (x.size as u64 + 64) } else { per });
            if per > limit {
                return fail("cost", format!("{}: {} basic blocks executed for a text of {} bytes", x.name, x.w.blocks, s.len()));
            }
            let extra = x.w.stack.saturating_sub(20 << 10) / (depth + 1);
            worst[2] = worst[2].max(extra);
            if x.w.stack > STACK + depth * STACK_LEVEL {
                return fail("stack", format!("{}: {} bytes of stack for a text of {} bytes with {depth} levels of blocks", x.name, x.w.stack, s.len()));
            }
        }
        if growth.contains(k) {
            seen.push(r);
        }
    }
    let shape = |r: &Vec<Step>| r.iter().map(|x| x.name).collect::<Vec<_>>();
    let n = seen.len();
    if shape(&seen[n - 1]) != shape(&seen[n - 3]) || shape(&seen[n - 1]) != shape(&seen[n - 2]) {
        return Ok("no common verdict");
    }
    let rejected = !seen[n - 1].iter().any(|x| x.name == "print");
    for j in 0..seen[n - 1].len() {
        let (a, b, c) = (&seen[n - 3][j], &seen[n - 2][j], &seen[n - 1][j]);
        let slope = |a: &Step, b: &Step, get: fn(&Work) -> u64| get(&b.w).saturating_sub(get(&a.w)) as f64 / (b.size.saturating_sub(a.size).max(1)) as f64;
        for (what, get) in [("basic blocks executed", (|w| w.blocks) as fn(&Work) -> u64), ("bytes allocated", |w| w.bytes)] {
            let (before, after) = (slope(a, b, get), slope(b, c, get));
            let lookahead = rejected || a.name.starts_with("parse-");
            // (the list of errors grows in steps)
            let slack = if lookahead && what == "bytes allocated" { 1000.0 } else { 8.0 };
            let limit = if lookahead { 2.6 } else { 1.4 };
            let k = 3 + lookahead as usize;
            if before > 0.5 {
                worst[k] = worst[k].max(((after - slack) / before * 100.0) as u64);
            }
            if after > before * limit + slack {
                return fail(
                    "superlinear",
                    format!("{}: {what} per byte grow from {before:.1} to {after:.1} when the text doubles to {last} bytes", a.name),
                );
            }
        }
    }
    Ok(if rejected { "linear-rejected" } else { "linear-accepted" })
}

/// Number of repetitions so that the texts are about 1x, 2x and 4x `base` long.
fn lens(base: usize, unit: usize) -> [usize; 3] {
    // a multiple of 12, for families that alternate
    let k = (base / unit).next_multiple_of(12);
    [k, 2 * k, 4 * k]
}

const OPENERS: &[&str] = &["a", " ", "{", "}", "/-", "\n", "(", "/*", "b=1", ";", "\\\n", "\""];
const CLOSERS: &[&str] = &["", "}", " }", "}\n", "};", "*/", ")", "\"", "} /-{}", "}}"];

pub fn p14(rep: &Rep) {
    let worst = std::sync::Mutex::new([0u64; 5]);
    let note = |w: [u64; 5]| {
        let mut x = worst.lock().unwrap();
        for i in 0..5 {
            x[i] = x[i].max(w[i]);
        }
    };
    let base = rep.by(1024, 4096);
    rep.jobs("pump", "every listed family u v^k w, up to 16 KiB (thorough: 64 KiB)", spaces::PUMPS.len(), |i, l| {
        let (n, u, v, w) = spaces::PUMPS[i];
        l.states += 3;
        l.transitions += 3;
        let mut ws = [0; 5];
        rep.case(l, "pump", n, || grows(&lens(4 * base, v.len()), lens(4 * base, v.len()), &|k| format!("{u}{}{w}", v.repeat(k)), &steps, &mut ws));
        note(ws);
    });
    for sp in spaces::SPACES {
        let mut vs: Vec<String> = vec![];
        for a in sp.toks {
            vs.push(a.to_string());
            for b in sp.toks {
                vs.push(format!("{a}{b}"));
                for c in sp.toks {
                    vs.push(format!("{a}{b}{c}"));
                    if rep.thorough() {
                        for d in sp.toks {
                            vs.push(format!("{a}{b}{c}{d}"));
                        }
                    }
                }
            }
        }
        let name = format!("families/{}", sp.name);
        let what = format!("{:?} v^k {:?} (and without the end) for every sequence v of <= {} tokens, at three sizes up to about {} bytes", sp.pre, sp.suf, rep.by(3, 4), 1024);
        rep.jobs(&name, &what, vs.len(), |i, l| {
            let mut ws = [0; 5];
            for w in [sp.suf, ""] {
                l.states += 3;
                l.transitions += 3;
                rep.case(l, &name, &format!("{:?} {:?}^k {w:?}", sp.pre, vs[i]), || {
                    grows(&lens(256, vs[i].len()), lens(256, vs[i].len()), &|k| format!("{}{}{w}", sp.pre, vs[i].repeat(k)), &steps, &mut ws)
                });
                if sp.suf.is_empty() {
                    break;
                }
            }
            note(ws);
        });
    }
    // nested: u^k v w^k
    let nests = |name: &str, toks: &[&str], depth: usize, closers: &[&str], ks: &[usize]| {
        let mut us: Vec<String> = vec![];
        let mut level: Vec<String> = vec![String::new()];
        for _ in 0..depth {
            let mut nx = vec![];
            for s in &level {
                for t in toks {
                    nx.push(format!("{s}{t}"));
                }
            }
            us.extend(nx.iter().filter(|s| s.contains(['{', '(', '/', '"'])).cloned());
            level = nx;
        }
        let top = ks[ks.len() - 1];
        rep.jobs(
            name,
            &format!("u^k v w^k for every sequence u of <= {depth} tokens over {toks:?}, v of \"b\" and \"\" and w of {closers:?}, for k in {ks:?}"),
            us.len(),
            |i, l| {
                let mut ws = [0; 5];
                for w in closers {
                    for v in ["b", ""] {
                        l.states += ks.len() as u64;
                        l.transitions += ks.len() as u64;
                        rep.case(l, name, &format!("{:?}^k {v:?} {w:?}^k", us[i]), || {
                            grows(ks, [top / 4, top / 2, top], &|k| format!("{}{v}{}", us[i].repeat(k), w.repeat(k)), &steps, &mut ws)
                        });
                    }
                }
                note(ws);
            },
        );
    };
    let ks: &[usize] = rep.by(&[2, 4, 6, 8, 10, 12, 15, 18, 24, 30, 36, 48], &[2, 4, 6, 9, 13, 18, 24, 30, 36, 48, 60, 76, 96]);
    nests("nests/all", OPENERS, rep.by(3, 4), CLOSERS, ks);
    nests("nests/blocks", &["a", " ", ";", "{", "/-"], rep.by(5, 6), rep.by(&["", "}"], &["", "}", "} /-{}"]), ks);
    nests("nests/lines", &["a", "\n", "{", "/-", "}"], rep.by(5, 6), rep.by(&["}", "}\n"], &["", "}", "}\n"]), ks);
    typed(rep, &note);
    let w = *worst.lock().unwrap();
    rep.note(format!(
        "largest cost of a byte: {} basic blocks in valid texts (limit {COST}), {} for every byte of the text in others (limit {COST_BAD}); largest stack per level beyond 20 KiB: {} bytes (limit {STACK} + {STACK_LEVEL} per level); largest growth of the cost of a byte when the text doubles: {}% (limit 140%), in invalid texts {}% (limit 260%)",
        w[0], w[1], w[2], w[3], w[4]
    ));
    eprintln!("{w:?}");
}

#[derive(serde::Serialize, serde::Deserialize, Clone, PartialEq, Debug, Default)]
struct Item {
    a: i64,
    b: String,
    c: bool,
}

#[derive(serde::Serialize, serde::Deserialize, Clone, PartialEq, Debug)]
enum Choice {
    Unit,
    One(i64),
    Two { x: i64, y: String },
}

#[derive(serde::Serialize, serde::Deserialize, Clone, PartialEq, Debug)]
struct Chain {
    a: i64,
    next: Option<Box<Chain>>,
}

#[derive(serde::Serialize, serde::Deserialize, Clone, PartialEq, Debug)]
struct Tree {
    a: i64,
    sub: std::collections::BTreeMap<String, Tree>,
}

#[derive(serde::Serialize, serde::Deserialize, Clone, PartialEq, Debug)]
struct In<T> {
    v: T,
    w: i64,
}

fn typed_family<T: serde::Serialize + serde::de::DeserializeOwned>(
    rep: &Rep,
    note: &(dyn Fn([u64; 5]) + Sync),
    name: &str,
    ks: &[usize],
    make: &(dyn Fn(usize) -> T + Sync),
) {
    let top = ks[ks.len() - 1];
    rep.jobs(&format!("serde/{name}"), &format!("{} written and read back for k in {ks:?}", std::any::type_name::<T>()), 1, |_, l| {
        l.states += ks.len() as u64;
        l.transitions += ks.len() as u64;
        let mut ws = [0; 5];
        rep.case(l, "serde", name, || {
            let steps = |s: &str| {
                let mut out = vec![];
                let (w, v) = measure(|| kdl::de::from_str::<T>(s));
                out.push(Step { name: "from_str", w, size: s.len() });
                match v {
                    Ok(v) => {
                        let (w, _) = measure(|| kdl::se::to_string(&v).is_ok());
                        out.push(Step { name: "print", w, size: s.len() });
                        let (w, _) = measure(|| kdl::se::to_document(&v).is_ok());
                        out.push(Step { name: "to_document", w, size: s.len() });
                    }
                    Err(e) => panic!("{name}: {e:?}"),
                }
                out.push(Step { name: "", w: Work::default(), size: s.len() });
                out
            };
            grows(ks, [top / 4, top / 2, top], &|k| kdl::se::to_string(&make(k)).unwrap(), &steps, &mut ws)
        });
        note(ws);
    });
}

fn typed(rep: &Rep, note: &(dyn Fn([u64; 5]) + Sync)) {
    use std::collections::BTreeMap;
    if rep.one.as_ref().is_some_and(|o| o.0 != "serde") {
        return;
    }
    let flat: &[usize] = rep.by(&[100, 200, 400, 800, 1600, 3200], &[100, 200, 400, 800, 1600, 3200, 6400, 12800]);
    let deep: &[usize] = &[2, 4, 6, 8, 10, 12, 15, 18, 24, 30, 36, 48];
    let k = |i: usize| i as i64 * 37 + 100;
    let item = move |i: usize| Item { a: k(i), b: format!("item {i:04}"), c: i % 2 == 0 };
    typed_family(rep, note, "list", flat, &|n| In { v: (0..n).map(k).collect::<Vec<i64>>(), w: 1 });
    typed_family(rep, note, "strings", flat, &|n| In { v: (0..n).map(|i| format!("s {i:04}")).collect::<Vec<String>>(), w: 1 });
    typed_family(rep, note, "long string", flat, &|n| In { v: "a \n".repeat(n), w: 1 });
    typed_family(rep, note, "map", flat, &|n| (0..n).map(|i| (format!("k{i:04}"), k(i))).collect::<BTreeMap<String, i64>>());
    typed_family(rep, note, "map in a field", flat, &|n| In { v: (0..n).map(|i| (format!("k{i:04}"), k(i))).collect::<BTreeMap<String, i64>>(), w: 1 });
    typed_family(rep, note, "map of lists", flat, &|n| (0..n).map(|i| (format!("k{i:04}"), vec![k(i), 2])).collect::<BTreeMap<String, Vec<i64>>>());
    typed_family(rep, note, "map of structs", flat, &|n| (0..n).map(|i| (format!("k{i:04}"), item(i))).collect::<BTreeMap<String, Item>>());
    typed_family(rep, note, "options", flat, &|n| In { v: (0..n).map(|i| if i % 2 == 0 { Some(k(i)) } else { None }).collect::<Vec<Option<i64>>>(), w: 1 });
    typed_family(rep, note, "choices", flat, &|n| {
        let c = |i: usize| match i % 3 { 0 => Choice::Unit, 1 => Choice::One(k(i)), _ => Choice::Two { x: k(i), y: "y".into() } };
        (0..n).map(|i| (format!("k{i:04}"), c(i))).collect::<BTreeMap<String, Choice>>()
    });
    typed_family(rep, note, "chain", deep, &|n| (0..n).fold(Chain { a: 1, next: None }, |c, i| Chain { a: i as i64, next: Some(Box::new(c)) }));
    typed_family(rep, note, "tree", deep, &|n| (0..n).fold(Tree { a: 1, sub: BTreeMap::new() }, |c, i| Tree { a: i as i64, sub: [("x".to_string(), Tree { a: 0, sub: BTreeMap::new() }), ("y".to_string(), c)].into() }));
}
