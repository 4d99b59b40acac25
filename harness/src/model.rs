//! Reference model of the KDL 2.0.0 language.
//!
//! An independent recogniser/evaluator written from the published KDL 2.0.0
//! grammar (not from the code under test).  It returns one of three verdicts:
//!
//! * `Accept(data)`   the text is in the language and means `data`
//! * `Reject`         the text is not in the language
//! * `Open(data)`     revisions of the specification (2.0.0 text vs grammar vs
//!                    2.0.1) disagree; acceptance is left open, but *if* the
//!                    text is accepted it has to mean `data`
//!
//! plus a `viable` flag: false means that no extension of the text can be in
//! the language (the recogniser failed without ever looking at end of input),
//! which lets the explorers cut the search tree soundly.

use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Str(String),
    /// sign, radix, digits (no underscores); kept textual so that the model
    /// itself has no width limit.
    Int(bool, u32, String),
    /// cleaned decimal text
    Float(String),
    Inf,
    NegInf,
    Nan,
    Bool(bool),
    Null,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub ty: Option<String>,
    pub name: Option<String>,
    pub val: V,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Node {
    pub ty: Option<String>,
    pub name: String,
    pub ents: Vec<Ent>,
    pub children: Option<Vec<Node>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept(Vec<Node>),
    Open(Vec<Node>),
    Reject,
}

impl V {
    /// Canonical rendering used to compare with the implementation.
    /// `None` for integers that do not fit the documented i128 range.
    pub fn canon(&self) -> Option<String> {
        Some(match self {
            V::Str(s) => format!("s{s:?}"),
            V::Int(neg, radix, d) => {
                // i128 with full range, sign applied to the digits
                let t = if *neg { format!("-{d}") } else { d.clone() };
                let v = i128::from_str_radix(&t, *radix).ok()?;
                format!("i{v}")
            }
            V::Float(t) => canon_f(t.parse::<f64>().expect("model float")),
            V::Inf => canon_f(f64::INFINITY),
            V::NegInf => canon_f(f64::NEG_INFINITY),
            V::Nan => canon_f(f64::NAN),
            V::Bool(b) => format!("b{b}"),
            V::Null => "n".into(),
        })
    }
}

pub fn canon_f(f: f64) -> String {
    if f.is_nan() {
        "fNaN".into()
    } else {
        format!("f{:016x}", f.to_bits())
    }
}

/// `None` when the document contains an integer outside i128.
pub fn canon(nodes: &[Node]) -> Option<String> {
    let mut s = String::new();
    canon_into(nodes, &mut s)?;
    Some(s)
}

fn canon_into(nodes: &[Node], s: &mut String) -> Option<()> {
    for n in nodes {
        s.push('<');
        if let Some(t) = &n.ty {
            let _ = write!(s, "({t:?})");
        }
        let _ = write!(s, "{:?}", n.name);
        for e in &n.ents {
            s.push(' ');
            if let Some(nm) = &e.name {
                let _ = write!(s, "{nm:?}=");
            }
            if let Some(t) = &e.ty {
                let _ = write!(s, "({t:?})");
            }
            s.push_str(&e.val.canon()?);
        }
        if let Some(c) = &n.children {
            s.push('{');
            canon_into(c, s)?;
            s.push('}');
        }
        s.push('>');
    }
    Some(())
}

// ---------------------------------------------------------------- tables

pub fn is_newline_char(c: char) -> bool {
    matches!(
        c,
        '\u{0D}' | '\u{0A}' | '\u{85}' | '\u{0B}' | '\u{0C}' | '\u{2028}' | '\u{2029}'
    )
}

pub fn is_uspace(c: char) -> bool {
    matches!(
        c,
        '\u{09}' | '\u{20}' | '\u{A0}' | '\u{1680}' | '\u{2000}'..='\u{200A}' | '\u{202F}' | '\u{205F}' | '\u{3000}'
    )
}

pub fn is_disallowed(c: char) -> bool {
    matches!(
        c,
        '\u{0}'..='\u{8}'
            | '\u{E}'..='\u{1F}'
            | '\u{7F}'
            | '\u{200E}'..='\u{200F}'
            | '\u{202A}'..='\u{202E}'
            | '\u{2066}'..='\u{2069}'
            | '\u{FEFF}'
    )
}

pub fn is_ident_char(c: char) -> bool {
    !is_uspace(c)
        && !is_newline_char(c)
        && !is_disallowed(c)
        && !matches!(
            c,
            '\\' | '/' | '(' | ')' | '{' | '}' | ';' | '[' | ']' | '"' | '#' | '='
        )
}

/// Is `s` writable as a bare identifier?
pub fn is_bare(s: &str) -> bool {
    let cs: Vec<char> = s.chars().collect();
    let mut p = P::new(&cs, false);
    matches!(p.ident_string(), Ok(t) if t == s) && p.pos == cs.len()
}

// ---------------------------------------------------------------- parser

pub struct P<'a> {
    s: &'a [char],
    pos: usize,
    lenient: bool,
    eof: bool,
    version_open: bool,
    /// char range -> kind of every comment / slashdash seen
    marks: std::collections::BTreeMap<usize, (usize, Mark)>,
    in_slash: usize,
    between: bool,
}

/// What kind of non-data text sits at a position.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mark {
    /// comment between nodes (not inside anything slashdashed)
    Between,
    /// single-line comment that ends a node
    EndOfLine,
    /// any other comment
    Inside,
    /// start of a slashdashed component
    Slash,
}

/// Comments and slashdashes of a valid document, in order.
pub fn marks(text: &str) -> Option<Vec<(Mark, String)>> {
    let cs: Vec<char> = text.chars().collect();
    let mut p = P::new(&cs, true);
    p.top(Entry::Document).ok()?;
    Some(p.marks.iter().map(|(a, (b, m))| (*m, cs[*a..*b].iter().collect())).collect())
}

#[derive(Debug)]
pub struct No;
type R<T> = Result<T, No>;

/// What grammar entry point to run.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Entry {
    Document,
    /// exactly one node with surrounding line space (the documented "parse a
    /// single item" entry points)
    Node,
    Entry,
    Ident,
}

pub struct Outcome {
    pub verdict: Verdict,
    pub viable: bool,
}

pub fn run(text: &str, entry: Entry) -> Outcome {
    let cs: Vec<char> = text.chars().collect();
    run_chars(&cs, entry)
}

pub fn run_chars(cs: &[char], entry: Entry) -> Outcome {
    let mut p = P::new(cs, true);
    let r = p.top(entry);
    let viable = p.eof || r.is_ok();
    let Ok(data) = r else {
        return Outcome { verdict: Verdict::Reject, viable };
    };
    let open = p.version_open;
    let mut q = P::new(cs, false);
    let verdict = match q.top(entry) {
        Ok(d2) if !open => {
            assert_eq!(d2, data, "model: strict and lenient readings disagree");
            Verdict::Accept(data)
        }
        _ => Verdict::Open(data),
    };
    Outcome { verdict, viable }
}

impl<'a> P<'a> {
    pub fn new(s: &'a [char], lenient: bool) -> Self {
        P { s, pos: 0, lenient, eof: false, version_open: false, marks: Default::default(), in_slash: 0, between: false }
    }

    fn peek(&mut self) -> Option<char> {
        self.peek_at(0)
    }
    fn peek_at(&mut self, k: usize) -> Option<char> {
        match self.s.get(self.pos + k) {
            Some(c) => Some(*c),
            None => {
                self.eof = true;
                None
            }
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.pos += 1;
            true
        } else {
            false
        }
    }
    fn eat_str(&mut self, t: &str) -> bool {
        for (k, c) in t.chars().enumerate() {
            if self.peek_at(k) != Some(c) {
                return false;
            }
        }
        self.pos += t.chars().count();
        true
    }
    fn looking(&mut self, t: &str) -> bool {
        let p = self.pos;
        let r = self.eat_str(t);
        self.pos = p;
        r
    }

    // ---- entry points

    fn top(&mut self, e: Entry) -> R<Vec<Node>> {
        match e {
            Entry::Document => {
                self.eat('\u{FEFF}');
                let n = self.nodes(false)?;
                if self.peek().is_some() {
                    return Err(No);
                }
                Ok(n)
            }
            Entry::Node => {
                let n = self.nodes(false)?;
                if self.peek().is_some() || n.len() != 1 {
                    return Err(No);
                }
                Ok(n)
            }
            Entry::Entry => {
                while self.line_space1()? {}
                let e = self.prop_or_arg()?;
                while self.line_space1()? {}
                if self.peek().is_some() {
                    return Err(No);
                }
                Ok(vec![Node { name: "e".into(), ents: vec![e], ..Default::default() }])
            }
            Entry::Ident => {
                let s = self.string()?;
                if self.peek().is_some() {
                    return Err(No);
                }
                Ok(vec![Node { name: s, ..Default::default() }])
            }
        }
    }

    // ---- whitespace.  All of these consume greedily; Err only on a
    // malformed construct that cannot be anything else.

    /// newline (CRLF counts once); false if not at one
    fn newline(&mut self) -> bool {
        match self.peek() {
            Some('\r') => {
                self.pos += 1;
                if self.peek() == Some('\n') {
                    self.pos += 1;
                }
                true
            }
            Some(c) if is_newline_char(c) => {
                self.pos += 1;
                true
            }
            _ => false,
        }
    }

    fn mark(&mut self, start: usize, m: Mark) {
        let m = match m {
            Mark::Inside if self.between && self.in_slash == 0 => Mark::Between,
            m => m,
        };
        let end = self.pos;
        self.marks.insert(start, (end, m));
    }

    fn line_comment(&mut self) -> R<bool> {
        let start = self.pos;
        if !self.eat_str("//") {
            return Ok(false);
        }
        loop {
            match self.peek() {
                None => {
                    self.mark(start, Mark::Inside);
                    return Ok(true);
                }
                Some(c) if is_newline_char(c) => {
                    self.mark(start, Mark::Inside);
                    self.newline();
                    return Ok(true);
                }
                Some(c) => {
                    // prose forbids these code points anywhere, the grammar
                    // does not forbid them here
                    if is_disallowed(c) && !self.lenient {
                        return Err(No);
                    }
                    self.pos += 1;
                }
            }
        }
    }

    fn block_comment(&mut self) -> R<bool> {
        let start = self.pos;
        if !self.eat_str("/*") {
            return Ok(false);
        }
        let mut depth = 1;
        while depth > 0 {
            if self.eat_str("*/") {
                depth -= 1;
            } else if self.eat_str("/*") {
                depth += 1;
            } else {
                match self.peek() {
                    None => return Err(No),
                    Some(c) => {
                        if is_disallowed(c) && !self.lenient {
                            return Err(No);
                        }
                        self.pos += 1;
                    }
                }
            }
        }
        self.mark(start, Mark::Inside);
        Ok(true)
    }

    fn ws1(&mut self) -> R<bool> {
        match self.peek() {
            Some(c) if is_uspace(c) => {
                self.pos += 1;
                Ok(true)
            }
            Some('/') => self.block_comment(),
            _ => Ok(false),
        }
    }

    fn escline(&mut self) -> R<bool> {
        let save = self.pos;
        if !self.eat('\\') {
            return Ok(false);
        }
        while self.ws1()? {}
        if self.line_comment()? || self.newline() || self.peek().is_none() {
            return Ok(true);
        }
        self.pos = save;
        Err(No)
    }

    /// node-space* ; returns whether anything was consumed
    fn node_space0(&mut self) -> R<bool> {
        let mut any = false;
        while self.ws1()? || self.escline()? {
            any = true;
        }
        Ok(any)
    }

    /// one unit of line-space
    fn line_space1(&mut self) -> R<bool> {
        Ok(self.ws1()? || self.escline()? || self.newline() || self.line_comment()?)
    }

    // ---- nodes

    fn nodes(&mut self, in_children: bool) -> R<Vec<Node>> {
        let mut out = vec![];
        loop {
            self.between = true;
            while self.line_space1()? {}
            self.between = false;
            match self.peek() {
                None => return Ok(out),
                Some('}') if in_children => return Ok(out),
                _ => {}
            }
            let mut slash = false;
            if self.looking("/-") {
                self.slash();
                slash = true;
                while self.line_space1()? {}
            }
            let n = self.base_node()?;
            if !slash {
                out.push(n);
            }
            // terminator
            let at = self.pos;
            if self.line_comment()? {
                if !slash && self.in_slash == 0 {
                    self.marks.get_mut(&at).unwrap().1 = Mark::EndOfLine;
                }
                self.in_slash -= slash as usize;
                continue;
            }
            self.in_slash -= slash as usize;
            if self.newline() || self.eat(';') {
                continue;
            }
            match self.peek() {
                // At end of input an unclosed child block may still be closed
                // by an extension, but as it stands it is not a document: the
                // caller checks for '}'.
                None => return Ok(out),
                Some('}') if in_children => return Ok(out),
                _ => return Err(No),
            }
        }
    }

    fn slash(&mut self) {
        let start = self.pos;
        self.eat_str("/-");
        self.mark(start, Mark::Slash);
        self.in_slash += 1;
    }

    fn children(&mut self) -> R<Vec<Node>> {
        if !self.eat('{') {
            return Err(No);
        }
        let n = self.nodes(true)?;
        if !self.eat('}') {
            return Err(No);
        }
        Ok(n)
    }

    fn ty(&mut self) -> R<Option<String>> {
        if !self.eat('(') {
            return Ok(None);
        }
        self.node_space0()?;
        let s = self.string()?;
        self.node_space0()?;
        if !self.eat(')') {
            return Err(No);
        }
        Ok(Some(s))
    }

    fn base_node(&mut self) -> R<Node> {
        let ty = self.ty()?;
        if ty.is_some() {
            self.node_space0()?;
        }
        let name = self.string()?;
        let mut n = Node { ty, name, ..Default::default() };
        // phase 0: entries; 1: slashdashed children seen; 2: children seen
        let mut phase = 0;
        loop {
            let sp = self.node_space0()?;
            let c = self.peek();
            match c {
                None | Some(';') | Some('}') => return Ok(n),
                Some(c) if is_newline_char(c) => return Ok(n),
                _ => {}
            }
            if self.looking("//") {
                return Ok(n);
            }
            if self.looking("/-") {
                self.slash();
                if !sp && !self.lenient {
                    return Err(No);
                }
                while self.line_space1()? {}
                if self.peek() == Some('{') {
                    self.children()?;
                    if phase == 0 {
                        phase = 1;
                    }
                } else {
                    if phase > 0 {
                        return Err(No);
                    }
                    self.prop_or_arg()?;
                }
                self.in_slash -= 1;
                continue;
            }
            if c == Some('{') {
                if !sp && !self.lenient {
                    return Err(No);
                }
                if phase == 2 {
                    return Err(No);
                }
                n.children = Some(self.children()?);
                phase = 2;
                continue;
            }
            if phase > 0 || !sp {
                return Err(No);
            }
            let e = self.prop_or_arg()?;
            n.ents.push(e);
        }
    }

    fn prop_or_arg(&mut self) -> R<Ent> {
        let save = self.pos;
        match self.peek() {
            Some('(') => {}
            Some(_) => {
                if let Ok(s) = self.string() {
                    let after = self.pos;
                    // `string node-space* '='` makes it a property
                    let is_prop = match self.node_space0() {
                        Ok(_) => self.eat('='),
                        Err(_) => false,
                    };
                    if is_prop {
                        self.node_space0()?;
                        let (ty, val) = self.value()?;
                        return Ok(Ent { ty, name: Some(s), val });
                    }
                    self.pos = after;
                    return Ok(Ent { ty: None, name: None, val: V::Str(s) });
                }
                self.pos = save;
            }
            None => return Err(No),
        }
        let (ty, val) = self.value()?;
        Ok(Ent { ty, name: None, val })
    }

    fn value(&mut self) -> R<(Option<String>, V)> {
        let ty = self.ty()?;
        if ty.is_some() {
            self.node_space0()?;
        }
        let save = self.pos;
        if let Ok(s) = self.string() {
            return Ok((ty, V::Str(s)));
        }
        self.pos = save;
        if let Some(v) = self.keyword() {
            return Ok((ty, v));
        }
        self.pos = save;
        Ok((ty, self.number()?))
    }

    fn keyword(&mut self) -> Option<V> {
        // longest first where one is a prefix of another (none is)
        for (t, v) in [
            ("#true", V::Bool(true)),
            ("#false", V::Bool(false)),
            ("#null", V::Null),
            ("#inf", V::Inf),
            ("#-inf", V::NegInf),
            ("#nan", V::Nan),
        ] {
            if self.eat_str(t) {
                return Some(v);
            }
        }
        None
    }

    // ---- numbers

    fn digits(&mut self, ok: fn(char) -> bool, out: &mut String) -> R<()> {
        match self.peek() {
            Some(c) if ok(c) => {}
            _ => return Err(No),
        }
        while let Some(c) = self.peek() {
            if c == '_' {
                self.pos += 1;
            } else if ok(c) {
                out.push(c);
                self.pos += 1;
            } else {
                break;
            }
        }
        Ok(())
    }

    fn number(&mut self) -> R<V> {
        let mut neg = false;
        match self.peek() {
            Some('+') => self.pos += 1,
            Some('-') => {
                neg = true;
                self.pos += 1;
            }
            _ => {}
        }
        if self.peek() == Some('0') {
            let m = self.peek_at(1);
            let (radix, ok): (u32, fn(char) -> bool) = match m {
                Some('x') => (16, |c| c.is_ascii_hexdigit()),
                Some('o') => (8, |c| ('0'..='7').contains(&c)),
                Some('b') => (2, |c| c == '0' || c == '1'),
                Some('X') if self.lenient => (16, |c| c.is_ascii_hexdigit()),
                Some('O') if self.lenient => (8, |c| ('0'..='7').contains(&c)),
                Some('B') if self.lenient => (2, |c| c == '0' || c == '1'),
                _ => (10, |c| c.is_ascii_digit()),
            };
            if radix != 10 {
                self.pos += 2;
                let mut d = String::new();
                self.digits(ok, &mut d)?;
                return Ok(V::Int(neg, radix, d));
            }
        }
        let dec: fn(char) -> bool = |c| c.is_ascii_digit();
        let mut t = String::new();
        self.digits(dec, &mut t)?;
        let int = t.clone();
        let mut float = false;
        if self.peek() == Some('.') {
            self.pos += 1;
            t.push('.');
            self.digits(dec, &mut t)?;
            float = true;
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            self.pos += 1;
            t.push('e');
            if let Some(c @ ('+' | '-')) = self.peek() {
                self.pos += 1;
                t.push(c);
            }
            self.digits(dec, &mut t)?;
            float = true;
        }
        if float {
            Ok(V::Float(if neg { format!("-{t}") } else { t }))
        } else {
            Ok(V::Int(neg, 10, int))
        }
    }

    // ---- strings

    pub fn string(&mut self) -> R<String> {
        match self.peek() {
            Some('"') => self.quoted(),
            Some('#') => self.raw(),
            Some(c) if is_ident_char(c) => self.ident_string(),
            _ => Err(No),
        }
    }

    pub fn ident_string(&mut self) -> R<String> {
        let start = self.pos;
        let mut p = start;
        // shape of the first characters
        let c0 = match self.peek() {
            Some(c) if is_ident_char(c) => c,
            _ => return Err(No),
        };
        let mut k = 0;
        let signed = matches!(c0, '+' | '-');
        if signed {
            k = 1;
        }
        let ck = self.peek_at(k);
        if ck == Some('.') {
            k += 1;
            // dotted-ident: must not be followed by a digit
            if matches!(self.peek_at(k), Some(c) if c.is_ascii_digit()) {
                return Err(No);
            }
        } else if matches!(ck, Some(c) if c.is_ascii_digit()) {
            return Err(No);
        }
        while let Some(c) = self.peek_at(p - start) {
            if !is_ident_char(c) {
                break;
            }
            p += 1;
        }
        let t: String = self.s[start..p].iter().collect();
        match t.as_str() {
            "true" | "false" | "null" | "inf" | "nan" => return Err(No),
            // listed as a disallowed keyword string, but the grammar only
            // subtracts the list from unambiguous identifiers
            "-inf" if !self.lenient => return Err(No),
            _ => {}
        }
        self.pos = p;
        Ok(t)
    }

    fn quoted(&mut self) -> R<String> {
        if self.looking("\"\"\"") {
            return self.quoted_multi();
        }
        self.pos += 1;
        let mut out = String::new();
        loop {
            match self.peek() {
                None => return Err(No),
                Some('"') => {
                    self.pos += 1;
                    return Ok(out);
                }
                Some('\\') => {
                    if let Some(c) = self.escape()? {
                        out.push(c);
                    }
                }
                Some(c) if is_newline_char(c) || is_disallowed(c) => return Err(No),
                Some(c) => {
                    out.push(c);
                    self.pos += 1;
                }
            }
        }
    }

    /// at a backslash; None = whitespace escape
    fn escape(&mut self) -> R<Option<char>> {
        self.pos += 1;
        let c = self.peek().ok_or(No)?;
        if is_uspace(c) || is_newline_char(c) {
            while let Some(c) = self.peek() {
                if is_uspace(c) || is_newline_char(c) {
                    self.pos += 1;
                } else {
                    break;
                }
            }
            return Ok(None);
        }
        self.pos += 1;
        Ok(Some(match c {
            '"' => '"',
            '\\' => '\\',
            'b' => '\u{8}',
            'f' => '\u{C}',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            's' => ' ',
            'u' => {
                if !self.eat('{') {
                    return Err(No);
                }
                let mut v = 0u32;
                let mut k = 0;
                while let Some(c) = self.peek() {
                    if let Some(d) = c.to_digit(16) {
                        if k == 6 {
                            return Err(No);
                        }
                        v = v * 16 + d;
                        k += 1;
                        self.pos += 1;
                    } else {
                        break;
                    }
                }
                if k == 0 || !self.eat('}') {
                    return Err(No);
                }
                char::from_u32(v).ok_or(No)?
            }
            _ => return Err(No),
        }))
    }

    fn quoted_multi(&mut self) -> R<String> {
        self.pos += 3;
        if !self.newline() {
            return Err(No);
        }
        // Unit of content after whitespace escapes have been removed.
        let mut lines: Vec<Vec<U>> = vec![vec![]];
        loop {
            if self.looking("\"\"\"") {
                self.pos += 3;
                break;
            }
            match self.peek() {
                None => return Err(No),
                Some('\\') => {
                    if let Some(c) = self.escape()? {
                        lines.last_mut().unwrap().push(U::Esc(c));
                    }
                }
                Some(c) if is_newline_char(c) => {
                    self.newline();
                    lines.push(vec![]);
                }
                Some(c) if is_disallowed(c) => return Err(No),
                Some(c) => {
                    lines.last_mut().unwrap().push(U::Lit(c));
                    self.pos += 1;
                }
            }
        }
        dedent(lines)
    }

    fn raw(&mut self) -> R<String> {
        let mut h = 0;
        while self.eat('#') {
            h += 1;
        }
        let close = |p: &mut Self, q: &str| -> bool {
            let mut t = String::from(q);
            for _ in 0..h {
                t.push('#');
            }
            p.eat_str(&t)
        };
        if self.looking("\"\"\"") {
            self.pos += 3;
            if !self.newline() {
                return Err(No);
            }
            let mut lines: Vec<Vec<U>> = vec![vec![]];
            loop {
                if close(self, "\"\"\"") {
                    break;
                }
                match self.peek() {
                    None => return Err(No),
                    Some(c) if is_newline_char(c) => {
                        self.newline();
                        lines.push(vec![]);
                    }
                    Some(c) if is_disallowed(c) => return Err(No),
                    Some(c) => {
                        lines.last_mut().unwrap().push(U::Lit(c));
                        self.pos += 1;
                    }
                }
            }
            return dedent(lines);
        }
        if !self.eat('"') {
            return Err(No);
        }
        let mut out = String::new();
        loop {
            if close(self, "\"") {
                return Ok(out);
            }
            match self.peek() {
                None => return Err(No),
                Some(c) if is_newline_char(c) || is_disallowed(c) => return Err(No),
                Some(c) => {
                    out.push(c);
                    self.pos += 1;
                }
            }
        }
    }
}

enum U {
    Lit(char),
    Esc(char),
}

/// Multi-line string dedentation.  `lines` is everything between the newline
/// after the opening quotes and the closing quotes, whitespace escapes removed,
/// other escapes still marked.
fn dedent(mut lines: Vec<Vec<U>>) -> R<String> {
    let last = lines.pop().unwrap();
    let mut prefix = vec![];
    for u in last {
        match u {
            U::Lit(c) if is_uspace(c) => prefix.push(c),
            _ => return Err(No),
        }
    }
    let mut out = String::new();
    for (k, l) in lines.iter().enumerate() {
        if k > 0 {
            out.push('\n');
        }
        if l.iter().all(|u| matches!(u, U::Lit(c) if is_uspace(*c))) {
            continue;
        }
        for (i, p) in prefix.iter().enumerate() {
            match l.get(i) {
                Some(U::Lit(c)) if c == p => {}
                _ => return Err(No),
            }
        }
        for u in &l[prefix.len()..] {
            match u {
                U::Lit(c) | U::Esc(c) => out.push(*c),
            }
        }
    }
    Ok(out)
}
