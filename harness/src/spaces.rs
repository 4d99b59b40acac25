//! The bounded input spaces.  Each is a complete tree of token sequences; the
//! alphabets are chosen so that every construct of the grammar, and every pair
//! of constructs that can touch, is inside at least one space.

use crate::model::{self, Entry};
use crate::run::{Local, Rep};

pub struct Space {
    pub name: &'static str,
    pub pre: &'static str,
    pub toks: &'static [&'static str],
    pub suf: &'static str,
    /// depth with no cutting at all
    pub full: usize,
    /// depth with dead prefixes cut: quick, thorough
    pub cut: (usize, usize),
}

pub const SPACES: &[Space] = &[
    Space {
        name: "structure",
        pre: "",
        toks: &["a", " ", "\n", ";", "{", "}", "/-", "=", "(", ")", "1", "\"b\"", "\\\n", "/*c*/", "//c\n"],
        suf: "",
        full: 4,
        cut: (5, 7),
    },
    Space {
        name: "blocks",
        pre: "",
        toks: &["a", " ", "\n", ";", "{", "}", "/-", "b=1"],
        suf: "",
        full: 5,
        cut: (8, 10),
    },
    Space {
        name: "block-body",
        pre: "a {",
        toks: &["a", " ", "\n", ";", "/-", "{", "}", "1"],
        suf: "}",
        full: 4,
        cut: (6, 8),
    },
    Space {
        name: "entries",
        pre: "a",
        toks: &[" ", "b", "=", "1", "/-", "\"\"", "#null", "(t)", "{}", "\\\n", ";"],
        suf: "",
        full: 4,
        cut: (6, 8),
    },
    // Nothing is cut: what the grammar gives up on, the parser may not.
    Space {
        name: "slashdashes",
        pre: "a",
        toks: &[" ", "/-", "b", "{}", "=", "\n"],
        suf: "",
        full: 7,
        cut: (7, 9),
    },
    Space {
        name: "type-node",
        pre: "",
        toks: &["(", ")", "a", " ", "/**/", "\\\n", "\"\"", "1", "\n"],
        suf: "",
        full: 5,
        cut: (7, 9),
    },
    Space {
        name: "type-value",
        pre: "n ",
        toks: &["(", ")", "a", " ", "=", "/**/", "\\\n", "#\"r\"#", "1", "#true"],
        suf: "",
        full: 4,
        cut: (7, 8),
    },
    Space {
        name: "numbers",
        pre: "a ",
        toks: &["0", "1", "7", "9", "_", ".", "e", "E", "+", "-", "x", "o", "b", "f"],
        suf: "",
        full: 4,
        cut: (5, 7),
    },
    Space {
        name: "number-terminators",
        pre: "a 1",
        toks: &[" ", "\n", ";", "{", "}", "=", ")", "(", "/", "*", "-", "\"", "#", "b", ".", "\\"],
        suf: "",
        full: 4,
        cut: (4, 5),
    },
    Space {
        name: "identifiers",
        pre: "",
        toks: &["+", "-", ".", "0", "a", "inf", "nan", "true", "e", "null", "false", " ", "_"],
        suf: "",
        full: 4,
        cut: (5, 6),
    },
    Space {
        name: "keywords",
        pre: "a ",
        toks: &["#", "true", "false", "null", "inf", "-", "nan", " ", "\"", "=", "+", "(t)"],
        suf: "",
        full: 4,
        cut: (6, 7),
    },
    Space {
        name: "quoted",
        pre: "a \"",
        toks: &["\"", "\\", "n", "s", "u", "{", "}", "6", "1", "D8", "\n", " ", "/", "é"],
        suf: "",
        full: 4,
        cut: (5, 6),
    },
    Space {
        name: "quoted-closed",
        pre: "a \"",
        toks: &["\\", "n", "t", "u{", "}", "10FFFF", "0", "D800", "\n", "\r", " ", "x", "\"\""],
        suf: "\"",
        full: 4,
        cut: (5, 6),
    },
    Space {
        name: "unicode-escape",
        pre: "a \"\\u{",
        toks: &["0", "1", "7", "D", "F", "f", "8", "_", "}", "g", "\""],
        suf: "}\"",
        full: 5,
        cut: (6, 7),
    },
    Space {
        name: "multiline",
        pre: "a \"\"\"\n",
        toks: &["\"", "\n", " ", "\t", "x", "\\", "n", "\\s"],
        suf: "",
        full: 4,
        cut: (6, 8),
    },
    Space {
        name: "multiline-closed",
        pre: "a \"\"\"\n",
        toks: &[" ", "  ", "\t", "x", "\n", "\r\n", "\\\n", "\\ ", "\\n", "\""],
        suf: "\"\"\"",
        full: 5,
        cut: (6, 7),
    },
    Space {
        name: "multiline-lines",
        pre: "a \"\"\"\n",
        toks: &["  x\n", " \n", "\n", "  ", "   \\\n", "\ty\n", " \\\n", "  \"\"\n", "\\\n", "\u{2028}"],
        suf: "\"\"\"\n",
        full: 5,
        cut: (6, 7),
    },
    Space {
        name: "raw",
        pre: "a ",
        toks: &["#", "\"", "\n", " ", "x", "\\"],
        suf: "",
        full: 5,
        cut: (8, 10),
    },
    Space {
        name: "raw-closed",
        pre: "a ##\"",
        toks: &["#", "\"", "\n", "\r", " ", "x", "\\n", "\t"],
        suf: "\"##",
        full: 5,
        cut: (6, 7),
    },
    Space {
        name: "raw-multiline",
        pre: "a #\"\"\"\n",
        toks: &[" ", "\t", "x", "\n", "\r\n", "\"", "\"#", "\\"],
        suf: "\"\"\"#",
        full: 5,
        cut: (6, 8),
    },
    Space {
        name: "raw-multiline-lines",
        pre: "a ##\"\"\"\n",
        toks: &["  x\n", " \n", "\n", "  ", "\ty\n", "  \"\"\"#\n", "\\\n", "\u{85}", " "],
        suf: "\"\"\"##\n",
        full: 5,
        cut: (6, 7),
    },
    Space {
        name: "comments",
        pre: "",
        toks: &["/", "*", "a", " ", "\n", "-", "//", "/*", "*/"],
        suf: "",
        full: 5,
        cut: (7, 8),
    },
    Space {
        name: "comments-in-node",
        pre: "a",
        toks: &["/*", "*/", "/", "*", "//", "\n", "b", " ", "/-", "{}"],
        suf: "",
        full: 4,
        cut: (6, 7),
    },
    Space {
        name: "escline",
        pre: "a",
        toks: &["\\", " ", "\n", "\r", "//c", "/**/", "b", ";", "/-", "{}"],
        suf: "",
        full: 5,
        cut: (6, 7),
    },
    Space {
        name: "slashdash",
        pre: "",
        toks: &["/-", "a", " ", "\n", "{", "}", "b=1", "\\\n", ";", "(t)", "//\n"],
        suf: "",
        full: 4,
        cut: (6, 8),
    },
    Space {
        name: "slashdash-node",
        pre: "n",
        toks: &[" ", "/-", "{}", "{a}", "1", "b=2", "\n", ";", "\\\n", "/**/"],
        suf: "",
        full: 4,
        cut: (7, 8),
    },
    Space {
        name: "newlines",
        pre: "a",
        toks: &["\n", "\r", "\u{85}", "\u{B}", "\u{C}", "\u{2028}", "\u{2029}", " ", "b", "//", "\\", "\u{A0}", "\u{3000}", "\u{FEFF}"],
        suf: "",
        full: 3,
        cut: (4, 5),
    },
    Space {
        name: "props",
        pre: "n ",
        toks: &["a", "=", " ", "\"k\"", "#\"r\"#", "/**/", "\\\n", "1", "(t)", "/-", "-"],
        suf: "",
        full: 4,
        cut: (6, 7),
    },
    Space {
        name: "bom",
        pre: "",
        toks: &["\u{FEFF}", "a", " ", "\n", "{", "}", "//", "\""],
        suf: "",
        full: 5,
        cut: (5, 6),
    },
];

pub const DOC_VIABLE: &(dyn Fn(&str) -> bool + Sync) = &|s| model::run(s, Entry::Document).viable;
pub const ALWAYS: &(dyn Fn(&str) -> bool + Sync) = &|_| true;

/// Visit every text of every space.
pub fn all(rep: &Rep, shrink: usize, visit: &(dyn Fn(&mut Local, &str, &str) + Sync)) {
    if let Some((sc, i)) = &rep.one {
        // replay: straight to the case, on a worker-sized stack
        rep.jobs(sc, "replay", 1, |_, l| visit(l, sc, i));
        return;
    }
    for sp in SPACES {
        let cut = rep.by(sp.cut.0, sp.cut.1).saturating_sub(shrink);
        let full = (sp.full + std::env::var("KDLMC_DEEPER").map_or(rep.by(0, 1), |x| x.parse().unwrap())).saturating_sub(shrink);
        if cut > full {
            // sequences up to `full` with nothing cut
            let name = format!("{}/full", sp.name);
            rep.tree(&name, sp.pre, sp.toks, sp.suf, full, ALWAYS, &|l, s| visit(l, &name, s));
        }
        let name = format!("{}/cut", sp.name);
        if cut > full {
            rep.tree(&name, sp.pre, sp.toks, sp.suf, cut, DOC_VIABLE, &|l, s| visit(l, &name, s));
        } else {
            rep.tree(&name, sp.pre, sp.toks, sp.suf, full, ALWAYS, &|l, s| visit(l, &name, s));
        }
    }
}

/// Every Unicode scalar value in every syntactic position class.
pub const UNICODE_FRAMES: &[(&str, &str, &str)] = &[
    ("between-names", "a", "b"),
    ("name-start", "", "a"),
    ("alone", "", ""),
    ("after-space", "a b", " c"),
    ("entry-start", "a ", "b"),
    ("quoted", "a \"x", "y\""),
    ("raw", "a #\"x", "y\"#"),
    ("ml-indent", "a \"\"\"\n", "x\n\"\"\""),
    ("ml-last", "a \"\"\"\n", "\"\"\""),
    ("raw-ml", "a #\"\"\"\nx", "y\n\"\"\"#"),
    ("line-comment", "a //x", "y"),
    ("block-comment", "a /*x", "y*/"),
    ("escaped", "a \"\\", "\""),
    ("prop-key", "a b", "=1"),
    ("prop-value", "a b=", ""),
    ("in-type", "(a", ")b"),
    ("after-number", "a 1", ""),
    ("after-block", "a {}", ""),
    ("number-digit", "a 0x", ""),
    ("slashdash", "/-", "a\nb"),
    ("ws-escape", "a \"\\ ", "b\""),
    ("after-escline", "a \\", "b"),
];

pub fn unicode(rep: &Rep, frames: &[(&str, &str, &str)], visit: &(dyn Fn(&mut Local, &str, &str) + Sync)) {
    unicode_upto(rep, rep.by(0x10000, 0x110000), frames, visit)
}

pub fn unicode_upto(rep: &Rep, max: u32, frames: &[(&str, &str, &str)], visit: &(dyn Fn(&mut Local, &str, &str) + Sync)) {
    if rep.one.is_some() {
        return;
    }
    // everything below `max`, special blocks and the edges of every plane
    let mut pts: Vec<char> = vec![];
    for c in 0..=0x10FFFFu32 {
        if let Some(c) = char::from_u32(c) {
            let low = c as u32 & 0xFFFF;
            if (c as u32) < max || low < 0x40 || low >= 0xFFC0 || (0xFDC0..0x10000).contains(&(c as u32)) || (0x3000..0x3040).contains(&(c as u32)) {
                pts.push(c);
            }
        }
    }
    for (n, pre, suf) in frames {
        let name = format!("unicode/{n}");
        let chunk = 512;
        rep.jobs(
            &name,
            &format!("every Unicode scalar value c ({} of them) in {:?}", pts.len(), format!("{pre}<c>{suf}")),
            pts.len().div_ceil(chunk),
            |i, l| {
                let mut s = String::new();
                for c in &pts[i * chunk..((i + 1) * chunk).min(pts.len())] {
                    s.clear();
                    s.push_str(pre);
                    s.push(*c);
                    s.push_str(suf);
                    l.states += 1;
                    l.transitions += 1;
                    visit(l, &name, &s);
                }
            },
        );
    }
}

/// `u v^n w` for growing n: sizes far beyond the depth of the trees.
pub const PUMPS: &[(&str, &str, &str, &str)] = &[
    ("nodes", "", "a\n", ""),
    ("nodes-semi", "", "a;", ""),
    ("args", "a", " 1", "\n"),
    ("props", "a", " p=1", "\n"),
    ("digits", "a ", "7", "\n"),
    ("digits-neg", "a -", "7", "\n"),
    ("hex", "a 0x", "f", "\n"),
    ("oct", "a 0o", "7", "\n"),
    ("bin", "a 0b", "1", "\n"),
    ("zeros", "a ", "0", "1\n"),
    ("hexzeros", "a 0x", "0", "1\n"),
    ("underscores", "a 1", "_", "1\n"),
    ("frac", "a 0.", "3", "\n"),
    ("frac0", "a 0.", "0", "1\n"),
    ("intfloat", "a ", "3", ".5\n"),
    ("exp", "a 1e", "0", "7\n"),
    ("expneg", "a 1e-", "0", "7\n"),
    ("bigexp", "a 1e", "9", "\n"),
    ("ident", "", "ab", "\n"),
    ("quoted", "a \"", "ab", "\"\n"),
    ("quoted-esc", "a \"", "\\n", "\"\n"),
    ("quoted-uesc", "a \"", "\\u{1F600}", "\"\n"),
    ("ws-esc", "a \"x\\", " \n", "y\"\n"),
    ("ml-lines", "a \"\"\"\n", "  x\n", "  \"\"\"\n"),
    ("ml-blank", "a \"\"\"\n", "\n", "\"\"\"\n"),
    ("ml-indent", "a \"\"\"\n", "  ", "x\n\"\"\"\n"),
    ("raw-body", "a #\"", "\"x", "\"#\n"),
    ("raw-ml-lines", "a #\"\"\"\n", "  x\n", "  \"\"\"#\n"),
    ("blank-lines", "a\n", "\n", "b\n"),
    ("spaces", "a", " ", "b\n"),
    ("comments", "a\n", "// c\n", "b\n"),
    ("block-comment", "a ", "/* c */", " b\n"),
    ("block-comment-body", "a /*", "c ", "*/ b\n"),
    ("esclines", "a", " \\\n", " b\n"),
    ("slashdash-nodes", "", "/-a\n", "b\n"),
    ("slashdash-args", "a", " /-1", " b\n"),
    ("slashdash-blocks", "a", " /-{}", "\n"),
    ("children-flat", "a {", "b;", "}\n"),
    ("empty-blocks", "", "a {}\n", ""),
    ("typed", "a", " (t)1", "\n"),
    ("same-prop", "a", " p=1 p=2", "\n"),
];

/// `u^n v w^n`
pub const NESTS: &[(&str, &str, &str, &str)] = &[
    ("blocks", "a {", "b", "}"),
    ("blocks-nl", "a {\n", "b\n", "}\n"),
    ("comments", "/*", "c", "*/"),
    ("raw-hashes", "#", "\"x\"", "#"),
    ("slash-blocks", "a /-{", "", "}"),
    ("slash-nodes", "/-a {", "", "}"),
    ("slash-then-block", "a /-{} {", "", "}"),
];

pub fn pumped(rep: &Rep, visit: &(dyn Fn(&mut Local, &str, &str) + Sync)) {
    if rep.one.is_some() {
        return;
    }
    let ns: Vec<usize> = (0..=rep.by(72, 300)).collect();
    for (n, u, v, w) in PUMPS {
        let name = format!("pump/{n}");
        rep.jobs(&name, &format!("{u:?} {v:?}^k {w:?} for k <= {}", ns.len() - 1), ns.len(), |i, l| {
            let s = format!("{u}{}{w}", v.repeat(ns[i]));
            l.states += 1;
            l.transitions += 1;
            visit(l, &name, &s);
        });
    }
    extremes(rep, visit);
    families(rep, visit);
    for (n, u, v, w) in NESTS {
        let name = format!("nest/{n}");
        let max = rep.by(24, 48);
        let lead = if *n == "raw-hashes" || *n == "comments" { "z " } else { "" };
        rep.jobs(&name, &format!("{u:?}^k {v:?} {w:?}^k for k <= {max}"), max + 1, |i, l| {
            let s = format!("{lead}{}{v}{}", u.repeat(i), w.repeat(i));
            l.states += 1;
            l.transitions += 1;
            visit(l, &name, &s);
        });
    }
}

/// Every token and every pair of tokens of every space, repeated within the
/// frame of the space, closed and unclosed.
pub fn families(rep: &Rep, visit: &(dyn Fn(&mut Local, &str, &str) + Sync)) {
    let ns: &[usize] = rep.by(&[6, 7, 8, 9, 16, 17, 33], &[6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 32, 33, 39, 40, 63, 64, 65, 100]);
    for sp in SPACES {
        let mut vs: Vec<(String, &[usize])> = vec![];
        for a in sp.toks {
            vs.push((a.to_string(), ns));
            for b in sp.toks {
                vs.push((format!("{a}{b}"), ns));
                for c in sp.toks {
                    vs.push((format!("{a}{b}{c}"), rep.by(&[9], &[6, 9, 17, 33])));
                }
            }
        }
        let name = format!("families/{}", sp.name);
        rep.jobs(&name, &format!("{:?} v^k {:?} (and without the end) for every token and pair of tokens v, k in {ns:?}, and for triples", sp.pre, sp.suf), vs.len(), |i, l| {
            for n in vs[i].1 {
                for w in [sp.suf, ""] {
                    l.states += 1;
                    l.transitions += 1;
                    visit(l, &name, &format!("{}{}{w}", sp.pre, vs[i].0.repeat(*n)));
                    if sp.suf.is_empty() {
                        break;
                    }
                }
            }
        });
    }
}

/// Integers around every power-of-two boundary that matters, in every radix
/// and sign, as arguments and as property values.
pub fn extremes(rep: &Rep, visit: &(dyn Fn(&mut Local, &str, &str) + Sync)) {
    let mut lits = vec![];
    for bits in [7u32, 8, 15, 16, 31, 32, 52, 53, 63, 64, 126, 127] {
        for d in [-1i32, 0, 1] {
            let v = if bits == 127 { (1u128 << 127).wrapping_add_signed(d as i128) } else { (1u128 << bits).wrapping_add_signed(d as i128) };
            for sign in ["", "-", "+"] {
                lits.push(format!("{sign}{v}"));
                lits.push(format!("{sign}0x{v:x}"));
                lits.push(format!("{sign}0x{v:X}"));
                lits.push(format!("{sign}0o{v:o}"));
                lits.push(format!("{sign}0b{v:b}"));
                lits.push(format!("{sign}{v}.0"));
                lits.push(format!("{sign}{v}e0"));
                lits.push(format!("{sign}{v}.5E-2"));
            }
        }
    }
    rep.jobs("extremes", "integers at 2^k-1, 2^k, 2^k+1 for 12 widths x 3 signs x 8 notations x 3 positions", lits.len(), |i, l| {
        for f in ["a @", "a p=@", "a (t)@ \n"] {
            l.states += 1;
            l.transitions += 1;
            visit(l, "extremes", &f.replace("@", &lits[i]));
        }
    });
}
