//! Regular expressions: syntax trees, generators, printing in arbitrary ways, a reader of the documented syntax, and their languages.

use crate::engine::*;
use crate::model::*;
use dandy::regex::{Regex, RegexChar, RegexTree};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::rc::Rc;
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Rx {
    Empty,
    Eps,
    Lit(String),
    Cat(Vec<Rx>),
    Alt(Vec<Rx>),
    Star(Box<Rx>),
    Plus(Box<Rx>),
}

pub const OPS: &[char] = &['(', ')', '∅', 'ε', '|', '*', '+', '\\'];

impl Rx {
    pub fn literals(&self, out: &mut BTreeSet<String>) {
        match self {
            Rx::Lit(l) => {
                out.insert(l.clone());
            }
            Rx::Cat(v) | Rx::Alt(v) => v.iter().for_each(|x| x.literals(out)),
            Rx::Star(x) | Rx::Plus(x) => x.literals(out),
            _ => {}
        }
    }

    pub fn size(&self) -> usize {
        match self {
            Rx::Cat(v) | Rx::Alt(v) => 1 + v.iter().map(Rx::size).sum::<usize>(),
            Rx::Star(x) | Rx::Plus(x) => 1 + x.size(),
            _ => 1,
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            Rx::Cat(v) | Rx::Alt(v) => 1 + v.iter().map(Rx::depth).max().unwrap_or(0),
            Rx::Star(x) | Rx::Plus(x) => 1 + x.depth(),
            _ => 1,
        }
    }

    /// the automaton of the language over the literals, in sorted order
    pub fn fa(&self) -> Fa {
        let mut lits = BTreeSet::new();
        self.literals(&mut lits);
        let alpha: Vec<String> = lits.into_iter().collect();
        let k = alpha.len();
        let mut f = Fa { alpha, names: vec![], init: 0, acc: vec![], eps: vec![], tr: vec![] };
        let a = f.fresh(k);
        let b = f.fresh(k);
        f.acc[b] = true;
        self.build(&mut f, a, b);
        f
    }

    fn build(&self, f: &mut Fa, from: usize, to: usize) {
        let k = f.k();
        match self {
            Rx::Empty => {}
            Rx::Eps => f.eps[from].push(to),
            Rx::Lit(l) => {
                let c = f.sym(l).unwrap();
                f.tr[from][c].push(to);
            }
            Rx::Cat(v) => {
                let mut at = from;
                for x in v {
                    let n = f.fresh(k);
                    x.build(f, at, n);
                    at = n;
                }
                f.eps[at].push(to);
            }
            Rx::Alt(v) => {
                for x in v {
                    let (p, q) = (f.fresh(k), f.fresh(k));
                    f.eps[from].push(p);
                    f.eps[q].push(to);
                    x.build(f, p, q);
                }
            }
            Rx::Star(x) | Rx::Plus(x) => {
                let (p, q) = (f.fresh(k), f.fresh(k));
                f.eps[from].push(p);
                f.eps[q].push(to);
                f.eps[q].push(p);
                if matches!(self, Rx::Star(_)) {
                    f.eps[from].push(to);
                }
                x.build(f, p, q);
            }
        }
    }

    pub fn det(&self) -> R<Det> {
        self.fa().det()
    }

    pub fn tree(&self) -> RegexTree {
        match self {
            Rx::Empty => RegexTree::Char(RegexChar::Empty),
            Rx::Eps => RegexTree::Char(RegexChar::Epsilon),
            Rx::Lit(l) => RegexTree::Char(RegexChar::Grapheme(Rc::from(l.as_str()))),
            Rx::Cat(v) => RegexTree::Sequence(v.iter().map(Rx::tree).collect()),
            Rx::Alt(v) => RegexTree::Alt(v.iter().map(Rx::tree).collect()),
            Rx::Star(x) => RegexTree::Repeat(Box::new(x.tree())),
            Rx::Plus(x) => RegexTree::Sequence(vec![x.tree(), RegexTree::Repeat(Box::new(x.tree()))]),
        }
    }

    pub fn regex(&self) -> Regex {
        Regex { tree: self.tree() }
    }

    /// the text in a plain way, for trees whose literals are clusters and whose lists are not empty
    pub fn text(&self) -> String {
        let mut t = String::new();
        print(self, Ctx::Top, &mut Zero, &mut t);
        t
    }

    pub fn simplify(&self) -> Vec<Rx> {
        let mut out = vec![];
        match self {
            Rx::Cat(v) | Rx::Alt(v) => {
                let mk = |w: Vec<Rx>| if matches!(self, Rx::Cat(_)) { Rx::Cat(w) } else { Rx::Alt(w) };
                if v.len() > 48 {
                    // piece by piece
                    let step = v.len() / 24;
                    for i in 0..24 {
                        let mut w = v.clone();
                        w.drain(i * step..(i + 1) * step);
                        out.push(mk(w));
                    }
                    return out;
                }
                out.extend(v.iter().cloned());
                for i in 0..v.len() {
                    if v.len() > 1 {
                        let mut w = v.clone();
                        w.remove(i);
                        out.push(mk(w));
                    }
                    for s in v[i].simplify() {
                        let mut w = v.clone();
                        w[i] = s;
                        out.push(mk(w));
                    }
                }
            }
            Rx::Star(x) => {
                out.push((**x).clone());
                out.extend(x.simplify().into_iter().map(|y| Rx::Star(Box::new(y))));
            }
            Rx::Plus(x) => {
                out.push((**x).clone());
                out.push(Rx::Star(x.clone()));
                out.extend(x.simplify().into_iter().map(|y| Rx::Plus(Box::new(y))));
            }
            Rx::Lit(l) if l != "a" => out.push(Rx::Lit("a".into())),
            Rx::Empty => out.push(Rx::Eps),
            _ => {}
        }
        out
    }
}

impl Fa {
    fn fresh(&mut self, k: usize) -> usize {
        self.names.push(self.names.len().to_string());
        self.acc.push(false);
        self.eps.push(vec![]);
        self.tr.push(vec![vec![]; k]);
        self.names.len() - 1
    }
}

// ------------------------------------------------------------------ generation

pub const LITS_PLAIN: &[&str] = &["a", "b", "c", "0", "1"];
/// characters that mean something else in other dialects, above all when escaped
pub const LITS_ESC: &[&str] = &["n", "t", "r", "d", "w", "s", "b", "u", "x", "0", "e", "D", "W", "S", "p", "1", ".", "?", "$", "^", "[", "]", "{", "}", "-", "/", "#", "&", "~", " "];
pub const LITS_OPS: &[&str] = &["(", ")", "∅", "ε", "|", "*", "+", "\\"];
pub const LITS_ODD: &[&str] = &[
    "å", "e\u{301}", "👍🏽", "🇸🇪", "👨\u{200d}👩\u{200d}👧", "한", " ", "\t", "\n", "\u{a0}", "?", ".", "[", "]", "{", "}", "^", "$", "-", "#", ",", "日", "λ", "'", "\"", "\u{2003}", "E",
];
pub const LITS_MERGING: &[&str] = &["\u{301}", "🇸", "🇪", "\r", "\u{200d}", "\u{600}", "🏽", "ᄒ", "ᅡ", "*\u{301}", "(\u{308}", "ε\u{301}", "\r\n", "\u{e0020}", "क\u{94d}"];

#[derive(Clone, Copy)]
pub struct RxStyle {
    /// also literals made of operators
    pub ops: bool,
    pub odd: bool,
    pub merging: bool,
    /// lists of length zero and one
    pub degenerate: bool,
}

pub fn literal(s: &mut Src, st: RxStyle, pool: &[String]) -> String {
    if !pool.is_empty() {
        return s.pick(pool).clone();
    }
    let _ = st;
    s.pick(LITS_PLAIN).to_string()
}

pub fn pool(s: &mut Src, st: RxStyle) -> Vec<String> {
    let k = s.range(1, 5);
    if s.chance(1, 12) {
        return (0..k).map(|_| s.pick(LITS_ESC).to_string()).collect();
    }
    if st.odd && s.chance(1, 300) {
        return vec![crate::gen::long_cluster(s), "a".into()];
    }
    (0..k)
        .map(|i| {
            let w = [6, 2 * st.ops as u64, 3 * st.odd as u64, 4 * st.merging as u64];
            match s.weighted(&w) {
                0 => LITS_PLAIN[i % LITS_PLAIN.len()],
                1 => s.pick(LITS_OPS),
                2 => s.pick(LITS_ODD),
                _ => s.pick(LITS_MERGING),
            }
            .to_string()
        })
        .collect()
}

/// a sequence or alternation of many different characters
pub fn wide(s: &mut Src) -> Rx {
    let n = if s.flip() { s.range(20, 120) } else { s.range(250, 330) };
    let shift = s.below(3) as u32;
    let lit = |i: usize| Rx::Lit(char::from_u32(0x4e00 + shift * 128 + i as u32).unwrap().to_string());
    let v: Vec<Rx> = (0..n).map(|i| if s.chance(1, 60) { Rx::Star(Box::new(lit(i))) } else { lit(i) }).collect();
    let x = match s.us(3) {
        0 => Rx::Cat(v),
        1 => Rx::Alt(v),
        _ => Rx::Cat(v.chunks(n / 4 + 1).map(|c| Rx::Alt(c.to_vec())).collect()),
    };
    if s.chance(1, 4) {
        Rx::Star(Box::new(x))
    } else {
        x
    }
}

/// a sequence or alternation of very many parts, few of them different
pub fn long(s: &mut Src) -> Rx {
    let n = if s.flip() { 254 + s.us(260) } else { s.range(500, 2100) };
    let st = RxStyle { ops: true, odd: true, merging: false, degenerate: false };
    let p = pool(s, st);
    let special = s.us(4) as u64;
    let v: Vec<Rx> = (0..n)
        .map(|_| match s.us(40 * n.max(1) / 100) as u64 {
            // a few repetitions and groups
            x if x < special => {
                let mut budget = 4;
                gen(s, st, &p, 2, &mut budget)
            }
            _ => Rx::Lit(literal(s, st, &p)),
        })
        .collect();
    let x = if s.chance(2, 3) { Rx::Cat(v) } else { Rx::Alt(v) };
    match s.us(6) {
        0 => Rx::Star(Box::new(x)),
        1 => Rx::Cat(vec![x, Rx::Lit(literal(s, st, &p))]),
        2 => Rx::Alt(vec![Rx::Lit(literal(s, st, &p)), x]),
        _ => x,
    }
}

pub fn gen(s: &mut Src, st: RxStyle, pool: &[String], depth: usize, budget: &mut usize) -> Rx {
    if *budget > 0 {
        *budget -= 1;
    }
    let leaf = depth == 0 || *budget == 0;
    let w: &[u64] = if leaf { &[12, 1, 1] } else { &[8, 1, 1, 7, 6, 3, 2] };
    match s.weighted(w) {
        0 => Rx::Lit(literal(s, st, pool)),
        1 => Rx::Eps,
        2 => Rx::Empty,
        x @ (3 | 4) => {
            let n = if st.degenerate && s.chance(1, 5) { s.us(2) } else { 2 + s.skewed(0, 6) };
            let v = (0..n).map(|_| gen(s, st, pool, depth - 1, budget)).collect();
            if x == 3 {
                Rx::Cat(v)
            } else {
                Rx::Alt(v)
            }
        }
        5 => Rx::Star(Box::new(gen(s, st, pool, depth - 1, budget))),
        _ => Rx::Plus(Box::new(gen(s, st, pool, (depth - 1).min(4), budget))),
    }
}

// ------------------------------------------------------------------ printing

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ctx {
    Top,
    Cat,
    Post,
}

pub trait Choices {
    fn pick(&mut self, n: u8) -> u8;
}
pub struct Zero;
impl Choices for Zero {
    fn pick(&mut self, _: u8) -> u8 {
        0
    }
}
pub struct Listed<'a>(pub &'a [u8], pub usize);
impl Choices for Listed<'_> {
    fn pick(&mut self, n: u8) -> u8 {
        let x = self.0.get(self.1).copied().unwrap_or(0);
        self.1 += 1;
        x % n
    }
}

/// prints with redundant groups and escapes as chosen
pub fn print(x: &Rx, ctx: Ctx, c: &mut dyn Choices, out: &mut String) {
    let redundant = c.pick(8) == 7;
    let needs = match x {
        Rx::Alt(_) => ctx != Ctx::Top,
        Rx::Cat(_) => ctx == Ctx::Post,
        Rx::Star(_) | Rx::Plus(_) => ctx == Ctx::Post,
        _ => false,
    };
    if redundant || needs {
        out.push('(');
        print_bare(x, c, out);
        out.push(')');
    } else {
        print_bare(x, c, out);
    }
}

fn print_bare(x: &Rx, c: &mut dyn Choices, out: &mut String) {
    match x {
        Rx::Empty => out.push('∅'),
        Rx::Eps => out.push('ε'),
        Rx::Lit(l) => {
            if l.starts_with(OPS) || c.pick(10) == 9 {
                out.push('\\');
            }
            out.push_str(l);
        }
        Rx::Cat(v) => {
            for y in v {
                // a sequence inside a sequence needs no group
                print(y, Ctx::Cat, c, out);
            }
        }
        Rx::Alt(v) => {
            for (i, y) in v.iter().enumerate() {
                if i > 0 {
                    out.push('|');
                }
                // `|` is associative: nested alternations may stay ungrouped
                print(y, Ctx::Top, c, out);
            }
        }
        Rx::Star(y) => {
            print(y, Ctx::Post, c, out);
            out.push('*');
        }
        Rx::Plus(y) => {
            print(y, Ctx::Post, c, out);
            out.push('+');
        }
    }
}

// ------------------------------------------------------------------ reading

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Read {
    Tree(Rx),
    Reject(&'static str),
    Unsettled(&'static str),
}

#[derive(Debug, PartialEq, Eq, Clone)]
enum Tok {
    Op(char),
    Lit(String),
}

/// the documented syntax; texts the documentation does not settle are reported as such
pub fn read(text: &str) -> Read {
    let t = text.trim();
    let mut toks = vec![];
    let mut rest = t;
    let mut dangling = false;
    while let Some(g) = rest.graphemes(true).next() {
        let first = g.chars().next().unwrap();
        if first == '\\' {
            // the rest after the backslash is segmented anew
            let after = &rest[1..];
            match after.graphemes(true).next() {
                None => {
                    dangling = true;
                    rest = "";
                }
                Some(l) => {
                    toks.push(Tok::Lit(l.to_string()));
                    rest = &after[l.len()..];
                }
            }
        } else if OPS.contains(&first) {
            if g.chars().count() > 1 {
                return Read::Unsettled("operator character with combining marks");
            }
            toks.push(Tok::Op(first));
            rest = &rest[g.len()..];
        } else {
            toks.push(Tok::Lit(g.to_string()));
            rest = &rest[g.len()..];
        }
    }
    if dangling {
        return Read::Reject("trailing backslash");
    }
    // shift-reduce with an explicit stack of groups
    struct Group {
        alts: Vec<Vec<Rx>>,
        /// the last item may still take a postfix operator
        open: bool,
    }
    let mut stack = vec![Group { alts: vec![vec![]], open: false }];
    let close = |g: Group| -> Result<Rx, &'static str> {
        if g.alts.iter().any(|a| a.is_empty()) {
            return Err("empty alternative or group");
        }
        let mut alts: Vec<Rx> = g.alts.into_iter().map(|mut a| if a.len() == 1 { a.remove(0) } else { Rx::Cat(a) }).collect();
        Ok(if alts.len() == 1 { alts.remove(0) } else { Rx::Alt(alts) })
    };
    for t in toks {
        let top = stack.last_mut().unwrap();
        match t {
            Tok::Lit(l) => {
                top.alts.last_mut().unwrap().push(Rx::Lit(l));
                top.open = true;
            }
            Tok::Op('∅') => {
                top.alts.last_mut().unwrap().push(Rx::Empty);
                top.open = true;
            }
            Tok::Op('ε') => {
                top.alts.last_mut().unwrap().push(Rx::Eps);
                top.open = true;
            }
            Tok::Op('|') => {
                top.alts.push(vec![]);
                top.open = false;
            }
            Tok::Op('(') => stack.push(Group { alts: vec![vec![]], open: false }),
            Tok::Op(')') => {
                let g = stack.pop().unwrap();
                let Some(top) = stack.last_mut() else { return Read::Reject("unbalanced )") };
                match close(g) {
                    Ok(x) => top.alts.last_mut().unwrap().push(x),
                    Err(e) => return Read::Reject(e),
                }
                top.open = true;
            }
            Tok::Op(o) => {
                if !top.open {
                    return Read::Reject("dangling operator");
                }
                top.open = false;
                let a = top.alts.last_mut().unwrap();
                let x = Box::new(a.pop().unwrap());
                a.push(if o == '*' { Rx::Star(x) } else { Rx::Plus(x) });
            }
        }
    }
    if stack.len() != 1 {
        return Read::Reject("unbalanced (");
    }
    match close(stack.pop().unwrap()) {
        Ok(x) => Read::Tree(x),
        Err(e) => Read::Reject(e),
    }
}
