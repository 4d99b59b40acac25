//! P12 (round trip through serde) and P13 (documented mapping).

use crate::model;
use crate::p_fmt::meaning;
use crate::real::canon_doc;
use crate::run::*;
use crate::shape::*;
use kdl::*;

// ------------------------------------------------------------- universe

fn uenum() -> Sh {
    en(&[("red", Kind::Unit), ("dark blue", Kind::Unit)])
}

fn leaves() -> Vec<Sh> {
    vec![Sh::Bool, Sh::I64, Sh::F64, Sh::Str, Sh::Char, Sh::Unit, uenum(), Sh::U64]
}

/// Every type with `t` inside one more constructor.
fn grow(t: &Sh, out: &mut Vec<Sh>) {
    let t = || t.clone();
    out.push(opt(t()));
    out.push(seq(t()));
    out.push(new(t()));
    out.push(map(Sh::Str, t()));
    out.push(tup(vec![t()]));
    out.push(tup(vec![t(), Sh::Bool]));
    out.push(Sh::TupStruct(leaks(vec![Sh::Str, t()])));
    out.push(st(&[("a", t())]));
    out.push(st(&[("b", Sh::Bool), ("a", t())]));
    out.push(st(&[("a", t()), ("o", opt(Sh::I64)), ("-", Sh::Str)]));
    out.push(en(&[
        ("u", Kind::Unit),
        ("n", Kind::New(leak(t()))),
        ("t", Kind::Tup(leaks(vec![t(), Sh::I64]))),
        ("s", Kind::Struct(fields(&[("a", t()), ("f", Sh::Bool)]))),
    ]));
}

fn types(depth: usize) -> Vec<Sh> {
    let mut all = leaves();
    all.extend([Sh::I8, Sh::U8, Sh::I16, Sh::U16, Sh::I32, Sh::U32, Sh::F32, Sh::UnitStruct]);
    all.push(Sh::Bytes);
    grow(&Sh::Bytes, &mut all);
    let mut last = leaves();
    for _ in 0..depth {
        let mut nx = vec![];
        for t in &last {
            grow(t, &mut nx);
        }
        all.extend(nx.iter().cloned());
        last = nx;
    }
    all
}

fn leaf_vals(s: &Sh) -> Vec<Val> {
    let i = |l: &[i128]| l.iter().map(|i| Val::Int(*i)).collect::<Vec<_>>();
    match s {
        Sh::Bool => vec![Val::Bool(false), Val::Bool(true)],
        Sh::I8 => i(&[-1, 0, i8::MIN as i128, i8::MAX as i128]),
        Sh::I16 => i(&[-1, 0, i16::MIN as i128, i16::MAX as i128]),
        Sh::I32 => i(&[-1, 0, i32::MIN as i128, i32::MAX as i128]),
        Sh::I64 => i(&[-1, 0, i64::MIN as i128, i64::MAX as i128]),
        Sh::U8 => i(&[0, 1, u8::MAX as i128]),
        Sh::U16 => i(&[0, 1, u16::MAX as i128]),
        Sh::U32 => i(&[0, 1, u32::MAX as i128]),
        Sh::U64 => i(&[0, 1, u64::MAX as i128]),
        Sh::I128 => i(&[0, -1, i128::MAX, i128::MIN]),
        Sh::U128 => vec![Val::Big(0), Val::Big(u128::MAX)],
        Sh::F32 => vec![Val::Float(0.1f32 as f64), Val::Float(-0.0), Val::Float(f32::MAX as f64)],
        Sh::F64 => vec![Val::Float(0.1), Val::Float(2.0), Val::Float(-0.0), Val::Float(1e300), Val::Float(f64::NEG_INFINITY), Val::Float(f64::NAN)],
        Sh::Char => vec![Val::Char('a'), Val::Char('"'), Val::Char('\n'), Val::Char('-')],
        Sh::Bytes => [&[][..], &[5], &[0, 255]].iter().map(|b| Val::List(i(b))).collect(),
        Sh::Str => ["x", "", "true", "-1", "a b\"\n"].iter().map(|s| Val::Str(s.to_string())).collect(),
        _ => vec![Val::Unit],
    }
}

/// serde itself cannot tell `Some` of these from `None`.
fn nullish(s: &Sh, v: &Val) -> bool {
    match (s, v) {
        (_, Val::Unit | Val::None) => true,
        (Sh::New(t), v) => nullish(t, v),
        (Sh::Opt(t), Val::Some(v)) => nullish(t, v),
        _ => false,
    }
}

/// Some evenly spread representatives.
fn thin(mut v: Vec<Val>, n: usize) -> Vec<Val> {
    if v.len() <= n {
        return v;
    }
    let l = v.len();
    let mut out = vec![];
    for i in 0..n {
        out.push(v[i * (l - 1) / (n - 1).max(1)].clone());
    }
    v.clear();
    out
}

fn product(parts: Vec<Vec<Val>>, cap: usize) -> Vec<Vec<Val>> {
    let mut out: Vec<Vec<Val>> = vec![vec![]];
    for p in parts {
        let mut nx = vec![];
        for o in &out {
            for v in &p {
                let mut o = o.clone();
                o.push(v.clone());
                nx.push(o);
            }
        }
        if nx.len() > cap {
            let l = nx.len();
            nx = (0..cap).map(|i| nx[i * (l - 1) / (cap - 1)].clone()).collect();
        }
        out = nx;
    }
    out
}

/// Values of a shape, at most `cap`.
pub fn vals(s: &Sh, cap: usize) -> Vec<Val> {
    let all = |ts: &[Sh]| product(ts.iter().map(|t| vals(t, (cap / 2).max(3))).collect(), cap);
    let r = match s {
        Sh::Opt(t) => std::iter::once(Val::None)
            .chain(vals(t, cap).into_iter().filter(|v| !nullish(t, v)).map(|v| Val::Some(Box::new(v))))
            .collect(),
        Sh::Seq(t) => {
            let v = vals(t, (cap / 3).max(3));
            let some = thin(v.clone(), 3);
            let mut out = vec![Val::List(vec![])];
            out.extend(v.iter().map(|x| Val::List(vec![x.clone()])));
            for a in &v {
                for b in &some {
                    out.push(Val::List(vec![a.clone(), b.clone()]));
                }
            }
            out.extend(v.iter().map(|x| Val::List(vec![x.clone(), some[0].clone(), x.clone()])));
            out
        }
        Sh::Tup(ts) | Sh::TupStruct(ts) => all(ts).into_iter().map(Val::List).collect(),
        Sh::Struct(f) => all(&f.shapes).into_iter().map(Val::List).collect(),
        Sh::New(t) => vals(t, cap),
        Sh::Map(k, t) => {
            let keys = vals(k, 6);
            let v = vals(t, (cap / 3).max(3));
            let some = thin(v.clone(), 3);
            let mut out = vec![Val::Map(vec![])];
            for x in &v {
                out.push(sorted(vec![(keys[0].clone(), x.clone())]));
            }
            for (i, k) in keys.iter().enumerate().skip(1) {
                out.push(sorted(vec![(keys[0].clone(), some[i % some.len()].clone()), (k.clone(), v[i % v.len()].clone())]));
                out.push(sorted(vec![(k.clone(), some[0].clone())]));
            }
            out
        }
        Sh::Enum(e) => {
            let mut out = vec![];
            for (i, k) in e.kinds.iter().enumerate() {
                match k {
                    Kind::Unit => out.push(Val::Variant(i, vec![])),
                    Kind::New(t) => out.extend(vals(t, (cap / 3).max(3)).into_iter().map(|v| Val::Variant(i, vec![v]))),
                    Kind::Tup(ts) => out.extend(all(ts).into_iter().map(|v| Val::Variant(i, v))),
                    Kind::Struct(f) => out.extend(all(&f.shapes).into_iter().map(|v| Val::Variant(i, v))),
                }
            }
            out
        }
        _ => leaf_vals(s),
    };
    thin(r, cap)
}

// ------------------------------------------------- what must serialize

#[derive(Clone, Copy, PartialEq)]
enum Pos {
    /// anything: a whole document or a node
    Node,
    /// one KDL value
    Scalar,
}

/// The documented serialization model has a place for this value.
fn expressible(s: &Sh, v: &Val, pos: Pos) -> bool {
    let list = |ts: &[Sh], l: &[Val], p: Pos| ts.iter().zip(l).all(|(t, v)| expressible(t, v, p));
    match (s, v) {
        (Sh::I128 | Sh::U128, _) => false,
        (Sh::Bytes, _) => pos == Pos::Node,
        (Sh::Opt(t), Val::Some(v)) => expressible(t, v, pos),
        (Sh::New(t), v) => expressible(t, v, pos),
        (Sh::Seq(t), Val::List(l)) => pos == Pos::Node && l.iter().all(|v| expressible(t, v, Pos::Scalar)),
        (Sh::Tup(t) | Sh::TupStruct(t), Val::List(l)) => pos == Pos::Node && list(t, l, Pos::Scalar),
        (Sh::Map(_, t), Val::Map(m)) => pos == Pos::Node && m.iter().all(|e| expressible(t, &e.1, Pos::Node)),
        (Sh::Struct(f), Val::List(l)) => pos == Pos::Node && fields_ok(f, l),
        (Sh::Enum(e), Val::Variant(i, p)) => match &e.kinds[*i] {
            Kind::Unit => true,
            Kind::New(t) => pos == Pos::Node && expressible(t, &p[0], Pos::Scalar),
            Kind::Tup(t) => pos == Pos::Node && list(t, p, Pos::Scalar),
            Kind::Struct(f) => pos == Pos::Node && fields_ok(f, p),
        },
        _ => true,
    }
}

fn fields_ok(f: &Fields, l: &[Val]) -> bool {
    let mut idx: Vec<usize> = vec![];
    let (mut rest, mut args) = (None, false);
    for ((n, s), v) in f.names.iter().zip(&f.shapes).zip(l) {
        let special = n.starts_with('#');
        if *n == "#rest" || *n == "#args" {
            match (s, v) {
                (Sh::Seq(t), Val::List(l)) if l.iter().all(|v| expressible(t, v, Pos::Scalar)) => {
                    if *n == "#rest" {
                        rest = Some(l.len());
                    } else {
                        args = true;
                    }
                }
                _ => return false,
            }
        } else if special && !n.starts_with("#@") {
            match n[1..].parse() {
                Ok(i) => idx.push(i),
                Err(_) => return false,
            }
        }
        if !n.starts_with("#args") && !n.starts_with("#rest") && !expressible(s, v, if special { Pos::Scalar } else { Pos::Node }) {
            return false;
        }
    }
    idx.sort();
    if args {
        return idx.is_empty() && rest.is_none();
    }
    // every index has that many arguments before it
    idx.iter().enumerate().all(|(k, i)| i - k <= rest.unwrap_or(0))
}

/// A document without nodes is already taken by `None`.
fn empty_doc(s: &Sh, v: &Val) -> bool {
    match (s, v) {
        (Sh::New(t), v) => empty_doc(t, v),
        (Sh::Struct(f), Val::List(l)) => f.shapes.iter().zip(l).all(|(s, v)| matches!((s, v), (_, Val::None) | (Sh::Bool, Val::Bool(false)))),
        (_, Val::List(l)) => l.is_empty(),
        (_, Val::Map(m)) => m.is_empty(),
        _ => false,
    }
}

/// At the top of a document, sequence elements are nodes of their own.
fn expressible_doc(s: &Sh, v: &Val) -> bool {
    match (s, v) {
        (Sh::Opt(t), Val::Some(v)) => expressible_doc(t, v) && !empty_doc(t, v),
        (Sh::New(t), v) => expressible_doc(t, v),
        (Sh::Seq(t), Val::List(l)) => l.iter().all(|v| expressible(t, v, Pos::Node)),
        (Sh::Tup(t) | Sh::TupStruct(t), Val::List(l)) => t.iter().zip(l).all(|(t, v)| expressible(t, v, Pos::Node)),
        _ => expressible(s, v, Pos::Node),
    }
}

// ------------------------------------------------------------------ P12

fn from(sh: &Sh, text: &str) -> Result<Val, kdl::de::Error> {
    with_shape(sh, || kdl::de::from_str::<Dyn>(text)).map(|d| d.0)
}

fn round(sh: &Sh, v: &Val) -> Outcome {
    let text = match kdl::se::to_string(&Ser(sh, v)) {
        Ok(t) => t,
        Err(e) if expressible_doc(sh, v) => return fail("refused", format!("serializing failed: {e}")),
        Err(_) => return Ok("refused"),
    };
    let mut doc = match kdl::se::to_document(&Ser(sh, v)) {
        Ok(d) => d,
        Err(e) => return fail("to_document", format!("to_string gives {text:?} but to_document fails: {e}")),
    };
    if doc.to_string() != text {
        return fail("to_document", format!("to_string gives {text:?}, to_document {:?}", doc.to_string()));
    }
    let want = canon_doc(&doc);
    doc.autoformat();
    let pretty = doc.to_string();
    for (how, t) in [("plain", &text), ("pretty", &pretty)] {
        match meaning(t) {
            None => return fail(format!("{how}-invalid"), format!("serialized to {t:?}, which is not KDL")),
            Some(m) if m != want => return fail(format!("{how}-meaning"), format!("serialized to {want}, printed as {t:?}, which means {m}")),
            _ => {}
        }
        match from(sh, t) {
            Err(e) => return fail(format!("{how}-not-read"), format!("serialized to {t:?}, deserializing fails: {e}")),
            Ok(w) if w != *v => return fail(format!("{how}-lost"), format!("serialized to {t:?}, deserialized as {w}")),
            _ => {}
        }
    }
    Ok("round-trips")
}

fn round_case(rep: &Rep, loc: &mut Local, scope: &str, sh: &Sh, v: &Val) {
    loc.states += 1;
    loc.transitions += 3;
    rep.case(loc, scope, &format!("{sh} = {v}"), || round(sh, v));
}

/// A field of a top-level struct that is a plain `false` or `()`.
fn root_flag(s: &Sh, v: &Val) -> bool {
    match (s, v) {
        (Sh::Bool, Val::Bool(false)) | (_, Val::Unit) => true,
        (Sh::New(t), v) => root_flag(t, v) || (matches!(**t, Sh::Opt(_)) && *v == Val::None),
        _ => false,
    }
}

fn has_root_flag(s: &Sh, v: &Val) -> bool {
    match (s, v) {
        (Sh::Struct(f), Val::List(l)) => f.shapes.iter().zip(l).any(|(s, v)| root_flag(s, v)),
        (Sh::New(t), v) => has_root_flag(t, v),
        (Sh::Opt(t), Val::Some(v)) => has_root_flag(t, v),
        _ => false,
    }
}

fn specials() -> Vec<(&'static str, Sh)> {
    vec![
        ("#0", Sh::I64),
        ("#1", Sh::Str),
        ("#2", opt(Sh::Bool)),
        ("#rest", seq(Sh::I64)),
        ("#args", seq(Sh::Str)),
        ("#@p", Sh::Str),
        ("#@q", opt(Sh::Bool)),
        ("p", seq(Sh::I64)),
        ("c", Sh::Bool),
        ("d", opt(Sh::Str)),
        ("e", st(&[("#0", Sh::Bool), ("f", Sh::Bool)])),
    ]
}

/// Every ordered selection of at most `n` of `all`.
fn special_structs(all: &[(&'static str, Sh)], n: usize) -> Vec<&'static Fields> {
    let mut out = vec![];
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    while let Some(s) = stack.pop() {
        if !s.is_empty() {
            out.push(fields(&s.iter().map(|i| all[*i].clone()).collect::<Vec<_>>()));
        }
        if s.len() < n {
            for i in 0..all.len() {
                if !s.contains(&i) {
                    let mut t = s.clone();
                    t.push(i);
                    stack.push(t);
                }
            }
        }
    }
    out
}

/// The same leaf in every kind of place.
fn places(t: Sh, v: Val) -> Vec<(Sh, Val)> {
    let l = |v: Vec<Val>| Val::List(v);
    let z = if nullish(&t, &v) { Val::None } else { Val::Some(Box::new(v.clone())) };
    let node = st(&[("n", t.clone())]);
    let b = |v: &Val| Box::new(v.clone());
    let e = en(&[("v", Kind::New(leak(t.clone()))), ("w", Kind::Tup(leaks(vec![t.clone(), t.clone()]))), ("s", Kind::Struct(fields(&[("#0", t.clone()), ("#@p", t.clone()), ("c", t.clone())])))]);
    let mut out = vec![
        (t.clone(), v.clone()),
        (node.clone(), l(vec![v.clone()])),
        (st(&[("o", node.clone()), ("z", opt(t.clone()))]), l(vec![l(vec![v.clone()]), z])),
        (st(&[("o", seq(t.clone()))]), l(vec![l(vec![v.clone(), v.clone()])])),
        (seq(t.clone()), l(vec![v.clone(), v.clone()])),
        (st(&[("o", st(&[("#1", t.clone()), ("#0", t.clone()), ("#@p", t.clone()), ("#rest", seq(t.clone()))]))]), l(vec![l(vec![v.clone(), v.clone(), v.clone(), l(vec![v.clone()])])])),
        (map(Sh::Str, t.clone()), Val::Map(vec![(Val::Str("k".into()), v.clone())])),
        (st(&[("m", map(Sh::Str, t.clone()))]), l(vec![Val::Map(vec![(Val::Str("k".into()), v.clone())])])),
        (e.clone(), Val::Variant(0, vec![v.clone()])),
        (e.clone(), Val::Variant(1, vec![v.clone(), v.clone()])),
        (e.clone(), Val::Variant(2, vec![v.clone(), v.clone(), v.clone()])),
        (st(&[("e", e.clone())]), l(vec![Val::Variant(0, vec![v.clone()])])),
        (st(&[("e", e.clone())]), l(vec![Val::Variant(1, vec![v.clone(), v.clone()])])),
        (st(&[("e", e)]), l(vec![Val::Variant(2, vec![v.clone(), v.clone(), v.clone()])])),
    ];
    if matches!(t, Sh::Str | Sh::Char | Sh::Bool | Sh::I8 | Sh::I16 | Sh::I32 | Sh::I64 | Sh::U8 | Sh::U16 | Sh::U32 | Sh::U64 | Sh::F32 | Sh::F64) {
        for k in [t.clone(), new(t.clone()), opt(t.clone())] {
            let kv = if let Sh::Opt(_) = k { Val::Some(b(&v)) } else { v.clone() };
            out.push((map(k.clone(), Sh::I64), Val::Map(vec![(kv.clone(), Val::Int(1))])));
            out.push((st(&[("m", map(k, Sh::I64))]), l(vec![Val::Map(vec![(kv, Val::Int(1))])])));
        }
    }
    out.retain(|(s, v)| !has_root_flag(s, v));
    out
}

fn scalars(thorough: bool) -> Vec<(Sh, Val)> {
    let mut out = vec![];
    let ints: &[(Sh, i128, i128)] = &[
        (Sh::I8, i8::MIN as i128, i8::MAX as i128),
        (Sh::I16, i16::MIN as i128, i16::MAX as i128),
        (Sh::I32, i32::MIN as i128, i32::MAX as i128),
        (Sh::I64, i64::MIN as i128, i64::MAX as i128),
        (Sh::U8, 0, u8::MAX as i128),
        (Sh::U16, 0, u16::MAX as i128),
        (Sh::U32, 0, u32::MAX as i128),
        (Sh::U64, 0, u64::MAX as i128),
    ];
    for (s, lo, hi) in ints {
        let mut v = std::collections::BTreeSet::new();
        for p in 0..=64 {
            for d in -2..=2i128 {
                for x in [(1i128 << p) + d, -(1i128 << p) + d] {
                    if (*lo..=*hi).contains(&x) {
                        v.insert(x);
                    }
                }
            }
        }
        out.extend(v.into_iter().map(|i| (s.clone(), Val::Int(i))));
    }
    for b in 0..64 {
        // every exponent bit pattern with the mantissas next to its ends
        for m in [0u64, 1, 2, 3, (1 << 52) - 1, 1 << 51, 0x5555_5555_5555] {
            for e in [b * 32, b * 32 + 1, 1023 + b, 1023 - b, 1023 + 52 + b / 4] {
                for sign in [0u64, 1] {
                    out.push((Sh::F64, Val::Float(f64::from_bits(sign << 63 | (e & 2047) << 52 | m))));
                }
            }
        }
    }
    for e in 0..256u32 {
        for m in [0u32, 1, (1 << 23) - 1, 1 << 22, 0x2aaaaa] {
            for sign in [0u32, 1] {
                out.push((Sh::F32, Val::Float(f32::from_bits(sign << 31 | e << 23 | m) as f64)));
            }
        }
    }
    for b in [false, true] {
        out.push((Sh::Bool, Val::Bool(b)));
    }
    out.push((Sh::Unit, Val::Unit));
    out.push((Sh::UnitStruct, Val::Unit));
    // strings over the characters that matter to the notation
    let abc = ["a", "\"", "\\", "\n", "\r", " ", "#", "-", "1", ".", "/", "(", "{", ";", "=", "\u{85}", "\u{feff}", "\u{2028}", "\t", "é", "\u{7f}", "true", "inf"];
    let mut level = vec![String::new()];
    for _ in 0..(if thorough { 3 } else { 2 }) {
        let mut nx = vec![];
        for s in &level {
            for a in abc {
                nx.push(format!("{s}{a}"));
            }
        }
        out.extend(level.iter().map(|s| (Sh::Str, Val::Str(s.clone()))));
        level = nx;
    }
    out.extend(level.into_iter().map(|s| (Sh::Str, Val::Str(s))));
    out
}

/// Types of field of special structs, in every position such a struct can be.
fn special_roots(f: &'static Fields) -> Vec<Sh> {
    let s = Sh::Struct(f);
    let v = en(&[("v w", Kind::Struct(f)), ("u", Kind::Unit)]);
    vec![st(&[("s", s.clone())]), seq(s.clone()), map(Sh::Str, opt(s.clone())), st(&[("s", opt(s))]), v.clone(), st(&[("e", v.clone())]), seq(opt(v))]
}

pub fn p12(rep: &Rep) {
    let depth = rep.by(3, 3);
    let cap = rep.by(40, 400);
    let ts = types(depth);
    rep.jobs("types", &format!("every type of <= {depth} constructors over {} leaf types as the whole document, <= {cap} values each", leaves().len()), ts.len(), |i, loc| {
        let sh = &ts[i];
        for v in vals(sh, cap) {
            if !has_root_flag(sh, &v) {
                round_case(rep, loc, "types", sh, &v);
            }
        }
    });
    // a false in a field of the document itself
    rep.jobs("document-flag", "a false flag as a field of the document", 1, |_, loc| {
        let sh = st(&[("b", Sh::Bool)]);
        round_case(rep, loc, "document-flag", &sh, &Val::List(vec![Val::Bool(false)]));
        round_case(rep, loc, "document-flag", &sh, &Val::List(vec![Val::Bool(true)]));
    });
    let sc = scalars(rep.thorough());
    rep.jobs("scalars", "integers next to every power of two, floats of every exponent, strings over the notation's alphabet: each in every place a value can be", sc.len(), |i, loc| {
        for (s, v) in places(sc[i].0.clone(), sc[i].1.clone()) {
            round_case(rep, loc, "scalars", &s, &v);
        }
    });
    let step = 4096;
    rep.jobs("chars", "every char: as char, in a string, as key", 0x110000 / step, |i, loc| {
        let sh = st(&[("s", st(&[("#0", Sh::Char), ("#@p", Sh::Str), ("o", opt(Sh::Char))])), ("m", map(Sh::Char, Sh::Str))]);
        for c in (i * step) as u32..((i + 1) * step) as u32 {
            let Some(c) = char::from_u32(c) else { continue };
            let s = |s: String| Val::Str(s);
            let v = Val::List(vec![
                Val::List(vec![Val::Char(c), s(format!("a{c}")), Val::Some(Box::new(Val::Char(c)))]),
                Val::Map(vec![(Val::Char(c), s(format!("{c}a")))]),
            ]);
            round_case(rep, loc, "chars", &sh, &v);
        }
    });
    let n = rep.by(3, 4);
    let sp = special_structs(&specials(), n);
    rep.jobs("renames", &format!("every ordered selection of <= {n} fields of {}, in 7 places", specials().len()), sp.len(), |i, loc| {
        for sh in special_roots(sp[i]) {
            for v in vals(&sh, rep.by(60, 120)) {
                round_case(rep, loc, "renames", &sh, &v);
            }
        }
    });
}

// ------------------------------------------------------------------ P13

/// What the documented mapping allows: one of `vals`, and/or an error; or the
/// documentation does not say (`free`).
#[derive(Clone, Debug)]
struct Exp {
    vals: Vec<Val>,
    err: bool,
    free: bool,
}

impl Exp {
    fn must(v: Val) -> Exp {
        Exp { vals: vec![v], err: false, free: false }
    }
    fn err() -> Exp {
        Exp { vals: vec![], err: true, free: false }
    }
    fn free() -> Exp {
        Exp { vals: vec![], err: true, free: true }
    }
    /// The documentation does not say whether this is refused.
    fn or_err(mut self) -> Exp {
        self.err = true;
        self
    }
    fn map(mut self, f: impl Fn(Val) -> Val) -> Exp {
        self.vals = self.vals.into_iter().map(f).collect();
        self
    }
    fn or(mut self, v: Val) -> Exp {
        self.vals.push(v);
        self
    }
    fn refused(&self) -> bool {
        self.vals.is_empty() && self.err && !self.free
    }
    fn all(parts: Vec<Exp>, f: impl Fn(Vec<Val>) -> Val) -> Exp {
        if parts.iter().any(|p| p.refused()) {
            return Exp::err();
        }
        if parts.iter().any(|p| p.free) || parts.iter().map(|p| p.vals.len()).product::<usize>() > 64 {
            return Exp::free();
        }
        let err = parts.iter().any(|p| p.err);
        let vals = product(parts.into_iter().map(|p| p.vals).collect(), 1000);
        Exp { vals: vals.into_iter().map(f).collect(), err, free: false }
    }
}

fn int(v: &model::V) -> Option<i128> {
    match v {
        model::V::Int(neg, radix, d) => i128::from_str_radix(&format!("{}{d}", if *neg { "-" } else { "" }), *radix).ok(),
        _ => None,
    }
}

fn flt(v: &model::V) -> Option<f64> {
    match v {
        model::V::Float(t) => t.parse().ok(),
        model::V::Inf => Some(f64::INFINITY),
        model::V::NegInf => Some(f64::NEG_INFINITY),
        model::V::Nan => Some(f64::NAN),
        _ => None,
    }
}

fn ex_value(s: &Sh, v: &model::V) -> Exp {
    use model::V;
    let range = |lo: i128, hi: i128| match int(v) {
        Some(i) if (lo..=hi).contains(&i) => Exp::must(Val::Int(i)),
        _ => Exp::err(),
    };
    match (s, v) {
        (Sh::Any, _) => Exp::must(match v {
            V::Str(s) => Val::Str(s.clone()),
            V::Bool(b) => Val::Bool(*b),
            V::Null => Val::Unit,
            V::Int(..) => Val::Int(int(v).unwrap()),
            _ => Val::Float(flt(v).unwrap()),
        }),
        (Sh::New(t), _) => ex_value(t, v),
        (Sh::Opt(_), V::Null) => Exp::must(Val::None),
        (Sh::Opt(t), _) => ex_value(t, v).map(|v| Val::Some(Box::new(v))),
        (Sh::Bool, V::Bool(b)) => Exp::must(Val::Bool(*b)),
        (Sh::Str, V::Str(s)) => Exp::must(Val::Str(s.clone())),
        (Sh::Char, V::Str(s)) if s.chars().count() == 1 => Exp::must(Val::Char(s.chars().next().unwrap())),
        (Sh::Unit | Sh::UnitStruct, V::Null) => Exp::must(Val::Unit),
        (Sh::F64, _) if flt(v).is_some() => Exp::must(Val::Float(flt(v).unwrap())),
        (Sh::F32, _) if flt(v).is_some() => Exp::must(Val::Float(flt(v).unwrap() as f32 as f64)),
        (Sh::F64 | Sh::F32, V::Int(..)) => match int(v) {
            Some(i) if i.unsigned_abs() < 1 << 24 => Exp::must(Val::Float(i as f64)).or_err(),
            _ => Exp::free(),
        },
        (Sh::I8, _) => range(i8::MIN as i128, i8::MAX as i128),
        (Sh::I16, _) => range(i16::MIN as i128, i16::MAX as i128),
        (Sh::I32, _) => range(i32::MIN as i128, i32::MAX as i128),
        (Sh::I64, _) => range(i64::MIN as i128, i64::MAX as i128),
        (Sh::I128, _) => range(i128::MIN, i128::MAX),
        (Sh::U8, _) => range(0, u8::MAX as i128),
        (Sh::U16, _) => range(0, u16::MAX as i128),
        (Sh::U32, _) => range(0, u32::MAX as i128),
        (Sh::U64, _) => range(0, u64::MAX as i128),
        (Sh::U128, _) => match int(v) {
            Some(i) if i >= 0 => Exp::must(Val::Big(i as u128)),
            _ => Exp::err(),
        },
        (Sh::Bytes, V::Str(_)) => Exp::free(),
        (Sh::Enum(e), V::Str(s)) => match e.names.iter().position(|n| n == s) {
            Some(i) if matches!(e.kinds[i], Kind::Unit) => Exp::must(Val::Variant(i, vec![])),
            _ => Exp::err(),
        },
        _ => Exp::err(),
    }
}

struct N<'a> {
    args: Vec<&'a model::Ent>,
    props: Vec<&'a model::Ent>,
    kids: Option<&'a [model::Node]>,
    n: &'a model::Node,
}

impl<'a> N<'a> {
    fn new(n: &'a model::Node, ents: &'a [model::Ent]) -> N<'a> {
        let args = ents.iter().filter(|e| e.name.is_none()).collect();
        let mut props: Vec<&model::Ent> = vec![];
        for e in ents.iter().filter(|e| e.name.is_some()) {
            props.retain(|p| p.name != e.name);
            props.push(e);
        }
        N { args, props, kids: n.children.as_deref(), n }
    }
    fn empty(&self) -> bool {
        self.args.is_empty() && self.props.is_empty() && self.kids.is_none()
    }
    fn scalar(&self) -> Option<&'a model::V> {
        (self.args.len() == 1 && self.props.is_empty() && self.kids.is_none()).then(|| &self.args[0].val)
    }
}

fn groups(nodes: &[model::Node]) -> Vec<(&str, Vec<&model::Node>)> {
    let mut g: Vec<(&str, Vec<&model::Node>)> = vec![];
    for n in nodes {
        match g.iter_mut().find(|e| e.0 == n.name) {
            Some(e) => e.1.push(n),
            None => g.push((&n.name, vec![n])),
        }
    }
    g
}

fn ex_group(s: &Sh, ns: &[&model::Node]) -> Exp {
    if let [n] = ns {
        return ex_node(s, n);
    }
    match s {
        Sh::Seq(t) => Exp::all(ns.iter().map(|n| ex_node(t, n)).collect(), Val::List),
        Sh::Any => Exp::all(ns.iter().map(|n| ex_node(&Sh::Any, n)).collect(), Val::List),
        Sh::Bytes => Exp::all(ns.iter().map(|n| ex_node(&Sh::U8, n)).collect(), Val::List),
        Sh::Tup(ts) | Sh::TupStruct(ts) if ts.len() == ns.len() => Exp::all(ns.iter().zip(*ts).map(|(n, t)| ex_node(t, n)).collect(), Val::List),
        Sh::Opt(t) => ex_group(t, ns).map(|v| Val::Some(Box::new(v))),
        Sh::New(t) => ex_group(t, ns),
        Sh::Struct(_) => Exp::free(),
        _ => Exp::err(),
    }
}

fn ex_map(t: &Sh, parts: Vec<(String, Exp)>) -> Exp {
    let _ = t;
    let keys: Vec<String> = parts.iter().map(|p| p.0.clone()).collect();
    let mut u = keys.clone();
    u.sort();
    u.dedup();
    if u.len() != keys.len() {
        return Exp::free();
    }
    Exp::all(parts.into_iter().map(|p| p.1).collect(), |v| sorted(keys.iter().map(|k| Val::Str(k.clone())).zip(v).collect()))
}

fn ident(s: &Sh, t: &str) -> Exp {
    ex_value(s, &model::V::Str(t.into()))
}

fn missing(s: &Sh) -> Exp {
    match s {
        Sh::Opt(_) => Exp::must(Val::None),
        _ => Exp::err(),
    }
}

fn ex_fields(f: &Fields, x: &N, wrap: impl Fn(Vec<Val>) -> Val) -> Exp {
    let kids = groups(x.kids.unwrap_or(&[]));
    let mut parts = vec![];
    // arguments that only some field can hold
    let spare_args = !x.args.is_empty() && !f.names.iter().any(|n| *n == "#args" || *n == "#rest");
    let indexed: Vec<usize> = f.names.iter().filter_map(|n| n.strip_prefix('#')?.parse().ok()).collect();
    for (name, s) in f.names.iter().zip(&f.shapes) {
        let seq_of = |a: Vec<&model::Ent>| match s {
            Sh::Seq(t) => Exp::all(a.iter().map(|e| ex_value(t, &e.val)).collect(), Val::List),
            Sh::Opt(_) | Sh::New(_) | Sh::Tup(_) | Sh::Any => Exp::free(),
            _ => Exp::err(),
        };
        parts.push(if *name == "#args" {
            seq_of(x.args.clone())
        } else if *name == "#rest" {
            seq_of(x.args.iter().enumerate().filter(|(i, _)| !indexed.contains(i)).map(|e| *e.1).collect())
        } else if *name == "#name" {
            ident(s, &x.n.name)
        } else if *name == "#type" {
            x.n.ty.as_ref().map_or_else(|| missing(s), |t| ident(s, t))
        } else if let Some(p) = name.strip_prefix("#@") {
            let (p, ty) = p.strip_suffix("#type").map_or((p, false), |p| (p, true));
            match x.props.iter().find(|e| e.name.as_deref() == Some(p)) {
                Some(e) if !ty => ex_value(s, &e.val),
                Some(e) => e.ty.as_ref().map_or_else(|| missing(s), |t| ident(s, t)),
                None => missing(s),
            }
        } else if let Some(p) = name.strip_prefix('#') {
            let (p, ty) = p.strip_suffix("#type").map_or((p, false), |p| (p, true));
            match x.args.get(p.parse::<usize>().unwrap()) {
                Some(e) if !ty => ex_value(s, &e.val),
                Some(e) => e.ty.as_ref().map_or_else(|| missing(s), |t| ident(s, t)),
                None => missing(s),
            }
        } else {
            let claimed = f.names.iter().any(|n| n.strip_prefix("#@") == Some(name));
            let prop = x.props.iter().find(|e| e.name.as_deref() == Some(*name) && !claimed);
            let kid = kids.iter().find(|k| k.0 == *name);
            match (prop, kid) {
                (Some(_), Some(_)) => Exp::free(),
                (Some(e), None) => ex_value(s, &e.val),
                (None, Some(k)) => ex_group(s, &k.1),
                (None, None) => absent(s),
            }
        });
    }
    let r = Exp::all(parts, wrap);
    if spare_args && x.args.iter().enumerate().any(|(i, _)| !indexed.contains(&i)) { r.or_err() } else { r }
}

/// No such child node.
fn absent(s: &Sh) -> Exp {
    match s {
        Sh::Bool => Exp::must(Val::Bool(false)),
        Sh::New(t) if matches!(**t, Sh::Bool) => Exp::must(Val::Bool(false)).or_err(),
        Sh::New(_) | Sh::Any | Sh::Unit | Sh::UnitStruct => Exp::free(),
        _ => missing(s),
    }
}

fn ex_variant(e: &Variants, n: &model::Node, outer: &[model::Ent]) -> Exp {
    let Some(i) = e.names.iter().position(|x| *x == n.name) else { return Exp::err() };
    let x = N::new(n, &n.ents);
    match &e.kinds[i] {
        Kind::Unit if x.empty() => Exp::must(Val::Variant(i, vec![])),
        Kind::Unit => Exp::must(Val::Variant(i, vec![])).or_err(),
        Kind::New(t) => ex_node(t, n).map(|v| Val::Variant(i, vec![v])),
        Kind::Tup(t) => ex_node(&Sh::Tup(t), n).map(|v| match v {
            Val::List(l) => Val::Variant(i, l),
            _ => unreachable!(),
        }),
        Kind::Struct(f) => {
            if n.ents.is_empty() && !outer.is_empty() {
                // written like that by the serializer
                ex_fields(f, &N::new(n, outer), |l| Val::Variant(i, l)).or_err()
            } else {
                ex_fields(f, &x, |l| Val::Variant(i, l))
            }
        }
    }
}

fn elements(x: &N, ts: &dyn Fn(usize) -> Option<Sh>, min: usize) -> Exp {
    let (parts, err): (Vec<Exp>, bool) = if x.kids.is_none_or(|k| k.is_empty()) {
        if x.args.is_empty() && !x.props.is_empty() && x.kids.is_none() {
            return Exp::err();
        }
        if !x.props.is_empty() {
            return Exp::free();
        }
        (
            x.args.iter().enumerate().map(|(i, e)| ts(i).map_or_else(Exp::err, |t| ex_value(&t, &e.val))).collect(),
            x.kids.is_some() && !x.args.is_empty(),
        )
    } else {
        if !x.args.is_empty() || !x.props.is_empty() {
            return Exp::free();
        }
        let k = x.kids.unwrap();
        (k.iter().enumerate().map(|(i, n)| ts(i).map_or_else(Exp::err, |t| ex_node(&t, n))).collect(), k.iter().any(|n| n.name != "-"))
    };
    if parts.len() < min {
        return Exp::err();
    }
    let r = Exp::all(parts, Val::List);
    if err { r.or_err() } else { r }
}

fn ex_node(s: &Sh, n: &model::Node) -> Exp {
    let x = N::new(n, &n.ents);
    match s {
        Sh::New(t) => ex_node(t, n),
        Sh::Opt(t) => {
            let some = ex_node(t, n).map(|v| Val::Some(Box::new(v)));
            match x.scalar() {
                Some(model::V::Null) => Exp::must(Val::None),
                _ if x.empty() => some.or(Val::None),
                _ => some,
            }
        }
        Sh::Any => {
            if x.empty() {
                Exp::must(Val::Bool(true))
            } else if let Some(v) = x.scalar() {
                ex_value(s, v)
            } else if x.props.is_empty() && x.kids.is_none() {
                Exp::all(x.args.iter().map(|e| ex_value(s, &e.val)).collect(), Val::List)
            } else {
                ex_node(&Sh::Map(&Sh::Str, &Sh::Any), n)
            }
        }
        Sh::Bytes => match x.scalar() {
            Some(model::V::Str(_)) => Exp::free(),
            _ => elements(&x, &|_| Some(Sh::U8), 0),
        },
        Sh::Seq(t) => elements(&x, &|_| Some((*t).clone()), 0),
        Sh::Tup(ts) | Sh::TupStruct(ts) => elements(&x, &|i| ts.get(i).cloned(), ts.len()),
        Sh::Struct(f) => ex_fields(f, &x, Val::List),
        Sh::Map(_, t) => {
            let mut parts: Vec<(String, Exp)> = x.props.iter().map(|e| (e.name.clone().unwrap(), ex_value(t, &e.val))).collect();
            parts.extend(groups(x.kids.unwrap_or(&[])).into_iter().map(|(k, g)| (k.to_string(), ex_group(t, &g))));
            let r = ex_map(t, parts);
            if x.args.is_empty() { r } else { r.or_err() }
        }
        Sh::Enum(e) => {
            if let Some(v) = x.scalar() {
                return if let model::V::Str(_) = v { ex_value(s, v) } else { Exp::free() };
            }
            match x.kids {
                Some([k]) => {
                    let r = ex_variant(e, k, &n.ents);
                    if n.ents.is_empty() { r } else { r.or_err() }
                }
                None if x.props.len() == 1 && x.args.is_empty() => {
                    let p = x.props[0];
                    match e.names.iter().position(|v| Some(*v) == p.name.as_deref()) {
                        None => Exp::err(),
                        Some(i) => match &e.kinds[i] {
                            Kind::New(t) => ex_value(t, &p.val).map(|v| Val::Variant(i, vec![v])),
                            Kind::Unit => Exp::free(),
                            _ => Exp::err(),
                        },
                    }
                }
                _ => Exp::free(),
            }
        }
        Sh::Unit | Sh::UnitStruct => match x.scalar() {
            Some(model::V::Null) => Exp::must(Val::Unit),
            _ => Exp::free(),
        },
        Sh::Bool if x.empty() => Exp::must(Val::Bool(true)),
        _ => match x.scalar() {
            Some(v) => ex_value(s, v),
            None if x.args.len() == 1 && x.props.is_empty() => ex_value(s, &x.args[0].val).or_err(),
            None => Exp::err(),
        },
    }
}

fn ex_doc(s: &Sh, d: &[model::Node]) -> Exp {
    let g = groups(d);
    match s {
        Sh::New(t) => ex_doc(t, d),
        Sh::Opt(_) if d.is_empty() => Exp::must(Val::None),
        Sh::Opt(t) => ex_doc(t, d).map(|v| Val::Some(Box::new(v))),
        Sh::Struct(f) => Exp::all(
            f.names
                .iter()
                .zip(&f.shapes)
                .map(|(n, s)| match g.iter().find(|g| g.0 == *n) {
                    Some(g) => ex_group(s, &g.1),
                    None => match s {
                        Sh::Bool => Exp::must(Val::Bool(false)).or_err(),
                        _ => missing(s),
                    },
                })
                .collect(),
            Val::List,
        ),
        Sh::Map(_, t) => ex_map(t, g.iter().map(|g| (g.0.to_string(), ex_group(t, &g.1))).collect()),
        Sh::Any => ex_doc(&Sh::Map(&Sh::Str, &Sh::Any), d),
        Sh::Bytes => ex_doc(&seq(Sh::U8), d),
        Sh::Seq(t) => {
            let r = Exp::all(d.iter().map(|n| ex_node(t, n)).collect(), Val::List);
            if d.iter().all(|n| n.name == "-") { r } else { r.or_err() }
        }
        Sh::Tup(ts) | Sh::TupStruct(ts) => {
            if ts.len() != d.len() {
                return Exp::err();
            }
            let r = Exp::all(d.iter().zip(*ts).map(|(n, t)| ex_node(t, n)).collect(), Val::List);
            if d.iter().all(|n| n.name == "-") { r } else { r.or_err() }
        }
        Sh::Unit | Sh::UnitStruct => {
            if d.is_empty() {
                Exp::must(Val::Unit)
            } else {
                Exp::free()
            }
        }
        Sh::Enum(e) => match d {
            [n] if n.name == "-" && !e.names.contains(&"-") => ex_node(s, n),
            [n] => ex_variant(e, n, &[]),
            _ => Exp::err(),
        },
        _ => match d {
            [n] if n.name == "-" => ex_node(s, n),
            _ => Exp::err(),
        },
    }
}

fn mapped(sh: &Sh, text: &str, doc: &[model::Node]) -> Outcome {
    let want = ex_doc(sh, doc);
    match from(sh, text) {
        Ok(v) => {
            if want.free {
                return Ok("undocumented");
            }
            if want.vals.contains(&v) {
                return Ok(if want.err { "value (may be refused)" } else { "value" });
            }
            if want.vals.is_empty() {
                return fail("accepted", format!("deserialized as {v}, but it does not fit"));
            }
            fail("value", format!("deserialized as {v}, expected {}", want.vals.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" or ")))
        }
        Err(e) => {
            let _ = (e.to_string(), e.diagnostic().map(|d| d.to_string()));
            if let Some(s) = e.span() {
                let (a, b) = (s.offset(), s.offset() + s.len());
                if b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
                    return fail("error-span", format!("error located at {a}..{b}"));
                }
            }
            if !want.err {
                return fail("refused", format!("{e}; expected {}", want.vals.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" or ")));
            }
            Ok(if want.free { "undocumented" } else { "refused" })
        }
    }
}

// documents with exactly `n` nodes and entries

pub struct Gen {
    pub names: Vec<&'static str>,
    pub ents: Vec<&'static str>,
    pub max_ents: usize,
}

impl Gen {
    fn ents(&self, k: usize) -> Vec<String> {
        if k == 0 {
            return vec![String::new()];
        }
        let mut out = vec![];
        for a in self.ents(k - 1) {
            for e in &self.ents {
                out.push(format!("{a} {e}"));
            }
        }
        out
    }

    fn nodes(&self, n: usize, memo: &[Vec<String>]) -> Vec<String> {
        let mut out = vec![];
        for name in &self.names {
            for k in 0..n.min(self.max_ents + 1) {
                for e in self.ents(k) {
                    if k == n - 1 {
                        out.push(format!("{name}{e}"));
                    }
                    for kids in &memo[n - 1 - k] {
                        out.push(format!("{name}{e} {{{kids}}}"));
                    }
                }
            }
        }
        out
    }

    /// `r[k]`: every document of `k` nodes and entries
    pub fn docs(&self, n: usize) -> Vec<Vec<String>> {
        let mut memo: Vec<Vec<String>> = vec![vec![String::new()]];
        let mut by: Vec<Vec<String>> = vec![vec![]];
        for k in 1..=n {
            by.push(self.nodes(k, &memo));
            let mut out = vec![];
            for first in 1..=k {
                for a in &by[first] {
                    for b in &memo[k - first] {
                        out.push(if b.is_empty() { a.clone() } else { format!("{a}; {b}") });
                    }
                }
            }
            memo.push(out);
        }
        memo
    }
}

fn field_types() -> Vec<Sh> {
    use Sh::*;
    let i = I64;
    let e = en(&[
        ("x", Kind::Unit),
        ("a", Kind::New(leak(I64))),
        ("b", Kind::Struct(fields(&[("a", I64), ("b", Bool), ("#0", opt(I64))]))),
        ("-", Kind::Tup(leaks(vec![I64, I64]))),
    ]);
    vec![
        Any,
        Bool,
        i.clone(),
        U8,
        F64,
        Str,
        Char,
        Bytes,
        Unit,
        opt(Bool),
        opt(i.clone()),
        seq(i.clone()),
        seq(Bool),
        seq(opt(i.clone())),
        opt(seq(i.clone())),
        seq(Any),
        new(i.clone()),
        new(seq(i.clone())),
        new(opt(i.clone())),
        tup(vec![i.clone()]),
        tup(vec![i.clone(), Any]),
        TupStruct(leaks(vec![Str, i.clone()])),
        map(Str, i.clone()),
        map(Str, Any),
        map(Str, opt(seq(i.clone()))),
        st(&[("a", i.clone())]),
        st(&[("a", Bool), ("b", opt(Str))]),
        st(&[("b", seq(i.clone())), ("a", opt(i.clone()))]),
        st(&[("a", opt(st(&[("b", Bool), ("a", seq(Str))]))), ("b", new(Bool))]),
        st(&[("#0", i.clone())]),
        st(&[("#1", opt(i.clone())), ("#0", opt(Str)), ("a", Bool)]),
        st(&[("#args", seq(i.clone()))]),
        st(&[("#args", seq(Any)), ("b", Bool)]),
        st(&[("#0", Any), ("#rest", seq(i.clone())), ("#@a", opt(i.clone()))]),
        st(&[("#1", i.clone()), ("#rest", seq(Any))]),
        st(&[("#@a", i.clone())]),
        st(&[("#@a", opt(i.clone())), ("a", seq(i.clone())), ("b", Bool)]),
        st(&[("#@a", opt(i.clone())), ("a", Bool), ("#@b", opt(Bool))]),
        st(&[("#name", Str), ("#type", opt(Str))]),
        st(&[("#type", Str), ("#0#type", opt(Str)), ("#@a#type", opt(Str))]),
        st(&[("#0#type", Str), ("#0", i.clone()), ("#@a#type", Str), ("#@a", i.clone())]),
        e.clone(),
        opt(e.clone()),
        seq(e),
        seq(st(&[("a", i.clone())])),
        map(Str, st(&[("a", opt(i.clone())), ("#0", opt(i))])),
    ]
}

fn mapping(rep: &Rep, scope: &str, what: &str, g: &Gen, n: usize, ts: &[Sh]) {
    let docs: Vec<String> = g.docs(n).concat();
    let chunk = 64;
    rep.jobs(scope, &format!("{what}: every document of <= {n} nodes and entries over names {:?} and entries {:?}, into {} types", g.names, g.ents, ts.len()), docs.len().div_ceil(chunk), |i, loc| {
        for t in &docs[i * chunk..((i + 1) * chunk).min(docs.len())] {
            let (model::Verdict::Accept(doc) | model::Verdict::Open(doc)) = model::run(t, model::Entry::Document).verdict else {
                rep.violate(scope, t, Fail { sig: "harness".into(), detail: "not a document".into() });
                continue;
            };
            for s in ts {
                loc.states += 1;
                loc.transitions += 1;
                rep.case(loc, scope, &format!("{s} <- {t}"), || mapped(s, t, &doc));
            }
        }
    });
}

/// Numbers around every power of two, and others, into every kind of scalar.
fn numbers(rep: &Rep) {
    use Sh::*;
    let mut t: Vec<String> = vec![];
    for k in 0..=127u32 {
        for d in [-1i128, 0, 1] {
            let Some(n) = (if k < 127 { Some(1i128 << k) } else { None }).and_then(|n| n.checked_add(d)).or((k == 127 && d == -1).then_some(i128::MAX)) else { continue };
            t.extend([format!("{n}"), format!("-{n}"), format!("0x{n:x}"), format!("-0b{n:b}"), format!("+0o{n:o}")]);
        }
    }
    t.push(i128::MIN.to_string());
    for f in ["0.0", "-0.0", "1.5", "-1e3", "1e38", "1e39", "1.0E+308", "1e-45", "1e-400", "0.1", "16777217.0", "9007199254740993.0", "#inf", "#-inf", "#nan", "1_0", "0x1_f", "1_0.0_1"] {
        t.push(f.into());
    }
    t.extend(["\"1\"", "\"\"", "\"é\"", "\"e\u{301}\"", "é", "#true", "#false", "#null", "\"true\"", "x"].map(String::from));
    let types = [Any, Bool, I8, I16, I32, I64, I128, U8, U16, U32, U64, U128, F32, F64, Char, Str, Unit, opt(I8), opt(U128), opt(F32), opt(Char), new(I16), new(opt(U64)), seq(I32)];
    rep.jobs("numbers", &format!("{} scalars in the text, as argument, as property, by index and as element of a sequence, into {} types", t.len(), types.len()), t.len(), |i, loc| {
        for ty in &types {
            let n = &t[i];
            for (sh, text) in [
                (st(&[("a", ty.clone())]), format!("a {n}")),
                (st(&[("a", st(&[("b", ty.clone())]))]), format!("a b={n}")),
                (st(&[("a", st(&[("#@b", ty.clone()), ("#1", ty.clone())]))]), format!("a x b={n} {n}")),
                (st(&[("a", seq(ty.clone()))]), format!("a {n} {n}")),
                (st(&[("a", st(&[("#rest", seq(ty.clone()))]))]), format!("a {n}")),
                (map(Str, ty.clone()), format!("a {n}; b (t){n}")),
                (ty.clone(), format!("- {n}")),
                (seq(ty.clone()), format!("- {n}; - {n}")),
            ] {
                let model::Verdict::Accept(doc) = model::run(&text, model::Entry::Document).verdict else {
                    rep.violate("numbers", &text, Fail { sig: "harness".into(), detail: "not a document".into() });
                    continue;
                };
                loc.states += 1;
                loc.transitions += 1;
                rep.case(loc, "numbers", &format!("{sh} <- {text}"), || mapped(&sh, &text, &doc));
            }
        }
    });
}

/// Structs with all kinds of special fields.
fn special_fields(rep: &Rep) {
    use Sh::*;
    let all = vec![
        ("#0", Any),
        ("#1", opt(I64)),
        ("#rest", seq(Any)),
        ("#args", seq(Any)),
        ("#@a", opt(Any)),
        ("a", opt(Any)),
        ("b", Bool),
        ("#@b", I64),
        ("#name", Str),
        ("#type", opt(Str)),
        ("#0#type", opt(Str)),
        ("#1#type", Str),
        ("#@a#type", opt(Str)),
    ];
    let n = rep.by(2, 3);
    let mut sp = special_structs(&all, n);
    // longer ones in one order only
    let mut longer = special_structs(&all, n + 1);
    let at = |f: &Fields| f.names.iter().map(|n| all.iter().position(|a| a.0 == *n).unwrap()).collect::<Vec<_>>();
    longer.retain(|f| f.names.len() == n + 1 && at(f).is_sorted());
    sp.extend(longer);
    let k = rep.by(3, 4);
    let mut ents: Vec<Vec<&str>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..k {
        let to = ents.len();
        for i in from..to {
            for e in ["1", "(t)x", "a=1", "a=(u)#null", "b=2"] {
                let mut v = ents[i].clone();
                v.push(e);
                ents.push(v);
            }
        }
        from = to;
    }
    let kids = ["", " {}", " {a}", " {b; a 1}", " {a 2; a 3}"];
    let mut docs: Vec<[String; 3]> = vec![];
    for e in &ents {
        let e: String = e.iter().map(|e| format!(" {e}")).collect();
        for k in kids {
            for t in ["", "(y)"] {
                docs.push([format!("{t}f{e}{k}"), format!("{t}v{e}{k}"), format!("f {{{t}v{e}{k}}}")]);
            }
        }
    }
    let docs: Vec<[(String, Vec<model::Node>); 3]> = docs
        .into_iter()
        .map(|d| {
            d.map(|t| match model::run(&t, model::Entry::Document).verdict {
                model::Verdict::Accept(m) => (t, m),
                _ => panic!("not a document: {t}"),
            })
        })
        .collect();
    rep.jobs("special", &format!("{} structs of <= {} out of {} special fields (<= {n}: in every order), each as a field, a variant and a variant in a field, from {} nodes of <= {k} entries", sp.len(), n + 1, all.len(), docs.len()), sp.len(), |i, loc| {
        let e = en(&[("u", Kind::Unit), ("v", Kind::Struct(sp[i]))]);
        let shapes = [st(&[("f", Struct(sp[i]))]), e.clone(), st(&[("f", e)])];
        for d in &docs {
            for (s, (t, m)) in shapes.iter().zip(d) {
                loc.states += 1;
                loc.transitions += 1;
                rep.case(loc, "special", &format!("{s} <- {t}"), || mapped(s, t, m));
            }
        }
    });
}

pub fn p13(rep: &Rep) {
    conformance(rep);
    special_fields(rep);
    numbers(rep);
    let ft = field_types();
    // a field of the document, and the document itself
    let fields: Vec<Sh> = ft.iter().map(|t| st(&[("a", t.clone())])).chain([st(&[("a", opt(Sh::I64)), ("b", Sh::Any)]), st(&[("b", Sh::Bool), ("a", opt(seq(Sh::Any)))])]).collect();
    let roots: Vec<Sh> = ft.iter().cloned().chain(ft.iter().map(|t| seq(t.clone()))).chain(ft.iter().map(|t| map(Sh::Str, t.clone()))).collect();
    let rich = Gen { names: vec!["a", "b", "-"], ents: vec!["1", "x", "#true", "#null", "a=1", "b=#false", "(t)2", "a=(t)3"], max_ents: 3 };
    let lean = Gen { names: vec!["a", "(t)b"], ents: vec!["1", "x", "a=2"], max_ents: 4 };
    mapping(rep, "fields", "fields", &rich, 3, &fields);
    mapping(rep, "roots", "roots", &rich, 3, &roots);
    mapping(rep, "lean", "longer documents", &lean, rep.by(5, 6), &fields);
    mapping(rep, "lean-roots", "longer documents", &lean, rep.by(4, 5), &roots);
    if rep.thorough() {
        mapping(rep, "fields-4", "fields", &rich, 4, &fields);
        mapping(rep, "roots-4", "roots", &rich, 4, &roots);
    }
}

// ------------------------------------------- shapes against derived types

mod real {
    use serde::{Deserialize, Serialize};
    use std::collections::BTreeMap;

    #[derive(Serialize, Deserialize)]
    pub struct A {
        a: i64,
        b: Option<String>,
    }
    #[derive(Serialize, Deserialize)]
    pub struct B {
        a: Vec<i64>,
        b: bool,
    }
    #[derive(Serialize, Deserialize)]
    pub struct C {
        #[serde(rename = "#0")]
        first: String,
        #[serde(rename = "#rest")]
        rest: Vec<i64>,
        #[serde(rename = "#@a")]
        a: Option<i64>,
        b: bool,
    }
    #[derive(Serialize, Deserialize)]
    pub enum E {
        #[serde(rename = "x")]
        X,
        #[serde(rename = "a")]
        A(i64),
        #[serde(rename = "b")]
        B {
            a: i64,
            b: bool,
            #[serde(rename = "#0")]
            first: Option<i64>,
        },
        #[serde(rename = "-")]
        D(i64, i64),
    }
    #[derive(Serialize, Deserialize)]
    pub struct N(Vec<i64>);
    #[derive(Serialize, Deserialize)]
    pub struct Flag(bool);
    #[derive(Serialize, Deserialize)]
    pub struct T(String, i64);
    #[derive(Serialize, Deserialize)]
    pub struct U;
    #[derive(Serialize, Deserialize)]
    pub struct Ty {
        #[serde(rename = "#type")]
        ty: Option<String>,
        #[serde(rename = "#name")]
        name: String,
        #[serde(rename = "#args")]
        args: Vec<Option<i64>>,
    }
    #[derive(Serialize, Deserialize)]
    pub struct Doc<X> {
        pub a: X,
    }
    pub type M = BTreeMap<String, Option<Vec<i64>>>;
    pub type K = BTreeMap<char, Nest>;
    #[derive(Serialize, Deserialize)]
    pub struct Nest {
        a: Option<Box<Nest>>,
        b: Option<(i64, i64)>,
    }
}

fn conform<T: serde::Serialize + serde::de::DeserializeOwned>(sh: &Sh, text: &str) -> Outcome {
    let r = kdl::de::from_str::<T>(text);
    let d = from(sh, text);
    match (r, d) {
        (Err(_), Err(_)) => Ok("both refused"),
        (Ok(r), Ok(d)) => {
            let (r, d) = (kdl::se::to_string(&r).map_err(|e| e.to_string()), kdl::se::to_string(&Ser(sh, &d)).map_err(|e| e.to_string()));
            if r == d { Ok("same value") } else { fail("shape", format!("the derived type is written {r:?}, its shape {d:?}")) }
        }
        (r, d) => fail("shape", format!("the derived type: {:?}, its shape: {:?}", r.err().map(|e| e.to_string()), d.err().map(|e| e.to_string()))),
    }
}

type Conform = (Sh, fn(&Sh, &str) -> Outcome);

fn conformance(rep: &Rep) {
    use Sh::*;
    let i = I64;
    let nest0 = |a: Sh| st(&[("a", opt(a)), ("b", opt(tup(vec![I64, I64])))]);
    let nest = nest0(nest0(nest0(nest0(Unit))));
    let e = en(&[
        ("x", Kind::Unit),
        ("a", Kind::New(leak(I64))),
        ("b", Kind::Struct(fields(&[("a", I64), ("b", Bool), ("#0", opt(I64))]))),
        ("-", Kind::Tup(leaks(vec![I64, I64]))),
    ]);
    let kinds: Vec<(Sh, [fn(&Sh, &str) -> Outcome; 3])> = vec![
        (st(&[("a", i.clone()), ("b", opt(Str))]), [conform::<real::A>, conform::<real::Doc<real::A>>, conform::<Vec<real::A>>]),
        (st(&[("a", seq(i.clone())), ("b", Bool)]), [conform::<real::B>, conform::<real::Doc<real::B>>, conform::<Vec<real::B>>]),
        (st(&[("#0", Str), ("#rest", seq(i.clone())), ("#@a", opt(i.clone())), ("b", Bool)]), [conform::<real::C>, conform::<real::Doc<real::C>>, conform::<Vec<real::C>>]),
        (e, [conform::<real::E>, conform::<real::Doc<real::E>>, conform::<Vec<real::E>>]),
        (new(seq(i.clone())), [conform::<real::N>, conform::<real::Doc<real::N>>, conform::<Vec<real::N>>]),
        (new(Bool), [conform::<real::Flag>, conform::<real::Doc<real::Flag>>, conform::<Vec<real::Flag>>]),
        (TupStruct(leaks(vec![Str, i.clone()])), [conform::<real::T>, conform::<real::Doc<real::T>>, conform::<Vec<real::T>>]),
        (UnitStruct, [conform::<real::U>, conform::<real::Doc<real::U>>, conform::<Vec<real::U>>]),
        (st(&[("#type", opt(Str)), ("#name", Str), ("#args", seq(opt(i.clone())))]), [conform::<real::Ty>, conform::<real::Doc<real::Ty>>, conform::<Vec<real::Ty>>]),
        (map(Str, opt(seq(i))), [conform::<real::M>, conform::<real::Doc<real::M>>, conform::<Vec<real::M>>]),
        (map(Char, nest), [conform::<real::K>, conform::<real::Doc<real::K>>, conform::<Vec<real::K>>]),
    ];
    let all: Vec<Conform> = kinds.into_iter().flat_map(|(s, [a, b, c])| [(s.clone(), a), (st(&[("a", s.clone())]), b), (seq(s), c)]).collect();
    let g = Gen { names: vec!["a", "b", "(t)x", "-"], ents: vec!["1", "x", "#null", "a=1", "b=#false"], max_ents: 3 };
    let docs: Vec<String> = g.docs(3).concat();
    rep.jobs("shapes", &format!("every document of <= 3 nodes and entries over names {:?} and entries {:?}: {} types with serde's derive against their shapes", g.names, g.ents, all.len()), docs.len().div_ceil(64), |k, loc| {
        for t in &docs[k * 64..((k + 1) * 64).min(docs.len())] {
            for (s, f) in &all {
                loc.states += 1;
                loc.transitions += 1;
                rep.case(loc, "shapes", &format!("{s} <- {t}"), || f(s, t));
            }
        }
    });
}
