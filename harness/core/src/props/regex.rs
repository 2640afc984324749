//! C06–C09: regular expressions.

use crate::engine::*;
use crate::model::*;
use crate::rx::{self, *};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

fn style(s: &mut Src, degenerate: bool) -> RxStyle {
    match s.weighted(&[4, 3, 2, 2]) {
        0 => RxStyle { ops: false, odd: false, merging: false, degenerate },
        1 => RxStyle { ops: true, odd: false, merging: false, degenerate },
        2 => RxStyle { ops: true, odd: true, merging: false, degenerate },
        _ => RxStyle { ops: true, odd: true, merging: true, degenerate },
    }
}

fn expr(s: &mut Src, degenerate: bool) -> Rx {
    if s.chance(1, 1500) {
        return rx::wide(s);
    }
    if s.chance(1, 1500) {
        return rx::long(s);
    }
    let st = style(s, degenerate);
    let p = pool(s, st);
    let deep = s.chance(1, 15);
    let depth = if deep { 40 } else { s.range(1, 6) };
    let mut budget = 4 + s.size as usize * if deep { 2 } else { 1 } / 2;
    let mut x = rx::gen(s, st, &p, depth, &mut budget);
    cap(&mut x, 0);
    x
}

/// nested `+` double the tree, so only a few levels
fn cap(x: &mut Rx, plus: usize) {
    match x {
        Rx::Cat(v) | Rx::Alt(v) => v.iter_mut().for_each(|y| cap(y, plus)),
        Rx::Star(y) => cap(y, plus),
        Rx::Plus(y) if plus < 5 => cap(y, plus + 1),
        Rx::Plus(y) => {
            cap(y, plus);
            *x = Rx::Star(y.clone());
        }
        _ => {}
    }
}

fn lit_set(x: &Rx) -> BTreeSet<String> {
    let mut l = BTreeSet::new();
    x.literals(&mut l);
    l
}

/// the language is neither empty nor just the empty word
fn interesting(d: &Det) -> bool {
    let alive = d.alive();
    d.tr[0].iter().any(|t| alive[*t])
}

fn features(x: &Rx, o: &mut Obs) {
    fn walk(x: &Rx, f: &mut [bool; 7]) {
        match x {
            Rx::Empty => f[0] = true,
            Rx::Eps => f[1] = true,
            Rx::Lit(l) => {
                if l.starts_with(OPS) {
                    f[2] = true
                } else if l.chars().all(char::is_whitespace) {
                    f[3] = true
                } else if l.chars().count() > 1 {
                    f[4] = true
                }
            }
            Rx::Cat(v) | Rx::Alt(v) => v.iter().for_each(|y| walk(y, f)),
            Rx::Star(y) => {
                f[5] = true;
                walk(y, f)
            }
            Rx::Plus(y) => {
                f[6] = true;
                walk(y, f)
            }
        }
    }
    let mut f = [false; 7];
    walk(x, &mut f);
    for (b, n) in f.iter().zip(["∅", "ε", "literal operator", "whitespace literal", "literal of several code points", "*", "+"]) {
        o.label_if(*b, n);
    }
    o.max("tree size", x.size() as u64);
    o.max("tree depth", x.depth() as u64);
}

const BLANKS: &[&str] = &["", " ", "\n", "\t ", "\r\n", "\u{a0}", "\u{2003} ", "\u{3000}", "  \n"];

#[derive(Clone, Serialize, Deserialize)]
pub struct RxText {
    pub rx: Rx,
    /// redundant groups and escapes
    pub style: Vec<u8>,
    pub before: String,
    pub after: String,
    /// groups around the whole, from the inside
    #[serde(default)]
    pub wraps: Vec<u8>,
}

const WRAPS: &[(&str, &str)] = &[("(", ")"), ("(", ")*"), ("(", "ε)"), ("(", "|ε)"), ("(∅|", ")"), ("a(", ")"), ("(", ")b")];

/// very many groups, nearly all of the same kind
fn wraps(s: &mut Src) -> Vec<u8> {
    let n = if s.flip() { s.range(30, 140) } else { s.range(140, 400) };
    let kind = match s.us(3) {
        0 => 0,
        _ => s.us(WRAPS.len()) as u8,
    };
    (0..n).map(|_| if s.chance(1, 40) { s.us(5) as u8 } else { kind }).collect()
}

impl RxText {
    fn gen(s: &mut Src) -> RxText {
        let rx = expr(s, false);
        let n = s.us(60);
        let mut style: Vec<u8> = (0..n).map(|_| s.below(80) as u8).collect();
        if s.chance(1, 8) {
            // many escapes: 9 chooses one and no group
            style.iter_mut().for_each(|x| *x = if s.flip() { 9 } else { *x });
        }
        let (before, after) = if s.chance(1, 3) { (s.pick(BLANKS).to_string(), s.pick(BLANKS).to_string()) } else { Default::default() };
        let wraps = if s.chance(1, 800) { wraps(s) } else { vec![] };
        RxText { rx, style, before, after, wraps }
    }
    fn text(&self) -> String {
        let mut t = String::new();
        rx::print(&self.rx, Ctx::Top, &mut Listed(&self.style, 0), &mut t);
        let (mut open, mut close) = (vec![], String::new());
        for w in &self.wraps {
            let (a, b) = WRAPS[*w as usize % WRAPS.len()];
            open.push(a);
            close.push_str(b);
        }
        open.reverse();
        format!("{}{}{t}{close}{}", self.before, open.concat(), self.after)
    }
    fn simplify(&self) -> Vec<RxText> {
        let mut v: Vec<RxText> = self.rx.simplify().into_iter().map(|rx| RxText { rx, ..self.clone() }).collect();
        if !self.style.is_empty() {
            v.push(RxText { style: vec![], ..self.clone() });
            v.push(RxText { style: self.style[..self.style.len() / 2].to_vec(), ..self.clone() });
        }
        for i in 0..self.style.len() {
            if self.style[i] != 0 {
                let mut w = self.clone();
                w.style[i] = 0;
                v.push(w);
            }
        }
        let n = self.wraps.len();
        for w in [n / 2, n / 4, n / 8, 1] {
            if n > 0 && w > 0 {
                v.push(RxText { wraps: self.wraps[..n - w].to_vec(), ..self.clone() });
            }
        }
        if self.wraps.iter().any(|w| *w != 0) {
            v.push(RxText { wraps: vec![0; n], ..self.clone() });
        }
        if !self.before.is_empty() || !self.after.is_empty() {
            v.push(RxText { before: String::new(), after: String::new(), ..self.clone() });
        }
        v
    }
}

/// a parsed expression against the language a tree denotes
fn denotes(what: &str, r: dandy::regex::Regex, x: &Rx) -> R<Det> {
    let n = r.to_nfa();
    let g = Fa::from_nfa(&n)?;
    let det = x.det()?;
    same_language(what, &g, &det)?;
    Ok(det)
}

pub struct Meaning;

impl Prop for Meaning {
    type Case = RxText;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "Random syntax trees (up to about 50 nodes and 40 levels, now and then 330 different characters or 400 nested groups; literals: letters, escaped reserved characters, whitespace, multi-code-point clusters, code points that join their neighbours), written with random redundant groups, escapes and surrounding whitespace. What the text means is read off by an independent reader of the documented syntax; the alphabet (as a set) and the exact language of the NFA must agree with it. Non-trivial: the language has a non-empty word and the tree more than one node."
    }
    fn quick_cases(&self) -> usize {
        120_000
    }
    fn gen(&self, s: &mut Src) -> RxText {
        RxText::gen(s)
    }
    fn seeds(&self) -> Vec<RxText> {
        let l = |x: &str| Rx::Lit(x.into());
        let t = |rx: Rx| RxText { rx, style: vec![], before: String::new(), after: String::new(), wraps: vec![] };
        vec![
            t(Rx::Alt(vec![Rx::Cat(vec![l("a"), l("b")]), l("c")])),
            t(Rx::Cat(vec![l("a"), Rx::Star(Box::new(l("b")))])),
            t(Rx::Cat(vec![l("a"), Rx::Plus(Box::new(Rx::Alt(vec![l("b"), Rx::Eps])))])),
            t(Rx::Cat(vec![l("\\"), l("*"), Rx::Star(Box::new(l("(")))])),
            t(Rx::Cat(vec![Rx::Empty, l("a")])),
            t(Rx::Star(Box::new(Rx::Empty))),
        ]
    }
    fn simplify(&self, c: &RxText) -> Vec<RxText> {
        c.simplify()
    }
    fn check(&self, c: &RxText, o: &mut Obs) -> R {
        let text = c.text();
        let tree = match rx::read(&text) {
            Read::Tree(t) => t,
            Read::Unsettled(_) => {
                o.label("not settled");
                return Ok(());
            }
            // whitespace literals at the ends may vanish and leave something else
            Read::Reject(_) => {
                o.label("not an expression after trimming");
                return Ok(());
            }
        };
        let r = match dandy::parser::regex(&text) {
            Ok(r) => r,
            Err(e) => return fail(format!("a valid regular expression is rejected at {:?}: {text:?}", one_line(e.input, 60))),
        };
        let det = denotes(&format!("regular expression {text:?}"), r, &tree)?;
        // cross-check of the two halves of the oracle
        if lit_set(&tree) == lit_set(&c.rx) && tree.size() == c.rx.size() {
            o.label("reader agrees with the writer on literals");
        }
        features(&tree, o);
        o.label_if(text != text.trim(), "surrounding whitespace");
        o.nontrivial(interesting(&det) && tree.size() > 1);
        Ok(())
    }
}

// ------------------------------------------------------------------ C07

const SOUP: &[&str] = &[
    "(", ")", "|", "*", "+", "\\", "∅", "ε", "a", "b", "()", "a|", "|a", "a*", "(a)", "**", "+*", "\\(", "\\)", "\\\\", " ", "\n", "\u{a0}", "(a|b)*", "ab", "\u{301}", "é", "e\u{301}", "👍🏽", "\\*", "||", "((", "))", "εa", "∅*", "\u{200d}",
    "\r", "\0", "\u{600}", "?", "[a]", "a+b", "a{2}",
];

fn clusters(t: &str) -> Vec<String> {
    t.chars().map(|c| c.to_string()).collect()
}

pub struct Syntax;

impl Syntax {
    fn mutate(s: &mut Src, t: &str) -> String {
        let mut p = clusters(t);
        for _ in 0..s.range(1, 3) {
            if p.is_empty() {
                p.push("a".into());
            }
            let i = s.us(p.len());
            match s.us(6) {
                0 => {
                    p.remove(i);
                }
                1 => {
                    let x = s.pick(SOUP).to_string();
                    p.insert(i, x);
                }
                2 => p[i] = s.pick(SOUP).to_string(),
                3 => {
                    let j = s.us(p.len());
                    p.swap(i, j);
                }
                4 => p.truncate(i),
                _ => {
                    p.drain(..i);
                }
            }
        }
        p.concat()
    }
}

impl Prop for Syntax {
    type Case = String;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "Texts: sequences of 0-14 (occasionally 60) reserved characters, letters and fragments; valid expressions after up to 3 random edits; valid expressions; arbitrary Unicode strings; groups nested up to 40 (occasionally 400) deep. Accepted exactly when an independent shift-reduce reader of the documented syntax accepts. Non-trivial: the text is settled by the documentation and contains a reserved character and three or more code points."
    }
    fn quick_cases(&self) -> usize {
        120_000
    }
    fn seeds(&self) -> Vec<String> {
        [
            "", " ", "(", ")", "()", "|", "a|", "|a", "a||b", "*", "+", "a**", "a*+", "(a)**", "\\", "a\\", "\\ ", "\\\\\\", "(a", "a)", "(a))", "((a)", "(*)", "(|)", "a|*", "(a*)*", "((((a))))", "∅", "ε*", "ε+", "\\ε", "a b", " a ", "(\n)", "ab(",
        ]
        .iter()
        .map(|x| x.to_string())
        .collect()
    }
    fn gen(&self, s: &mut Src) -> String {
        match s.weighted(&[6, 6, 2, 1, 1]) {
            0 => {
                let n = if s.chance(1, 10) { s.us(60) } else { s.us(15) };
                let m = if s.flip() { 10 } else { SOUP.len() };
                (0..n).map(|_| SOUP[s.us(m)]).collect()
            }
            1 => {
                let t = RxText::gen(s).text();
                Self::mutate(s, &t)
            }
            2 => RxText::gen(s).text(),
            3 => {
                let n = s.us(40);
                (0..n).map(|_| if s.flip() { char::from_u32(s.below(0x11_0000) as u32).unwrap_or('|') } else { *s.pick(OPS) }).collect()
            }
            _ => {
                let n = s.us(30);
                let m = if s.flip() { n } else { s.us(30) };
                let mid = s.pick(&["a", "", "a|b", "*", "ε", "ab*"]).to_string();
                let open = s.pick(&["(", "(a|", "(b"]).to_string();
                let close = s.pick(&[")", ")*", "|a)", "))"]).to_string();
                format!("{}{mid}{}", open.repeat(n), close.repeat(m))
            }
        }
    }
    fn simplify(&self, c: &String) -> Vec<String> {
        let p = clusters(c);
        let mut v = vec![];
        if p.len() > 8 {
            v.push(p[..p.len() / 2].concat());
            v.push(p[p.len() / 2..].concat());
        }
        for w in [4, 2, 1] {
            for i in 0..p.len().saturating_sub(w - 1) {
                let mut q = p.clone();
                q.drain(i..i + w);
                v.push(q.concat());
            }
        }
        for i in 0..p.len() {
            if p[i] != "a" && !OPS.contains(&p[i].chars().next().unwrap()) {
                let mut q = p.clone();
                q[i] = "a".into();
                v.push(q.concat());
            }
        }
        v
    }
    fn check(&self, text: &String, o: &mut Obs) -> R {
        let want = rx::read(text);
        let got = dandy::parser::regex(text);
        match (&want, &got) {
            (Read::Unsettled(_), _) => {
                o.label("not settled");
                return Ok(());
            }
            (Read::Tree(_), Err(_)) => return fail(format!("a valid regular expression is rejected: {text:?}")),
            (Read::Reject(w), Ok(_)) => return fail(format!("accepted although it is no regular expression ({w}): {text:?}")),
            (Read::Tree(_), Ok(_)) => o.label("accepted"),
            (Read::Reject(w), Err(_)) => o.label(format!("rejected: {w}")),
        }
        o.nontrivial(text.contains(OPS) && text.chars().count() >= 3);
        Ok(())
    }
}

// ------------------------------------------------------------------ C08

pub struct Printing;

impl Prop for Printing {
    type Case = RxText;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "Expressions parsed from texts made as for C06. The printed text must parse, and the reparsed expression must have the same alphabet (as a set) and exactly the same language, which is also compared with what the independent reader says of the original text; printing the reparsed expression must again reparse to the same language. Non-trivial: the language has a non-empty word and the tree more than one node."
    }
    fn quick_cases(&self) -> usize {
        100_000
    }
    fn seeds(&self) -> Vec<RxText> {
        let l = |x: &str| Rx::Lit(x.into());
        let t = |rx: Rx, st: &[u8]| RxText { rx, style: st.to_vec(), before: String::new(), after: String::new(), wraps: vec![] };
        vec![
            t(l("ε"), &[]),
            t(l("∅"), &[]),
            t(Rx::Cat(vec![l(" "), l("a")]), &[0, 7]),
            t(Rx::Cat(vec![l("a"), l(" ")]), &[0, 0, 0, 7]),
            t(Rx::Cat(vec![l("a"), l("\u{301}")]), &[0, 0, 0, 7]),
            t(Rx::Cat(vec![l("🇸"), l("🇪")]), &[0, 0, 0, 7]),
            t(Rx::Cat(vec![l("\u{600}"), Rx::Star(Box::new(l("a")))]), &[0, 0, 0, 7]),
            t(Rx::Alt(vec![l("\u{600}"), l("a")]), &[]),
            t(Rx::Alt(vec![l("*\u{301}"), l("a")]), &[]),
        ]
    }
    fn gen(&self, s: &mut Src) -> RxText {
        RxText::gen(s)
    }
    fn simplify(&self, c: &RxText) -> Vec<RxText> {
        c.simplify()
    }
    fn check(&self, c: &RxText, o: &mut Obs) -> R {
        let text = c.text();
        let Ok(r) = dandy::parser::regex(&text) else {
            o.label("not parsed");
            return Ok(());
        };
        let printed = r.to_string();
        let again = match dandy::parser::regex(&printed) {
            Ok(r) => r,
            Err(e) => return fail(format!("{text:?} prints as {printed:?}, which is rejected at {:?}", one_line(e.input, 60))),
        };
        let twice = again.to_string();
        let third = match dandy::parser::regex(&twice) {
            Ok(r) => r,
            Err(e) => return fail(format!("{text:?} prints as {printed:?} and then {twice:?}, which is rejected at {:?}", one_line(e.input, 60))),
        };
        let a = Fa::from_nfa(&r.to_nfa())?.det()?;
        same_language(&format!("{text:?} printed as {printed:?}"), &Fa::from_nfa(&again.to_nfa())?, &a)?;
        same_language(&format!("{text:?} printed twice as {twice:?}"), &Fa::from_nfa(&third.to_nfa())?, &a)?;
        if let Read::Tree(t) = rx::read(&text) {
            let d = t.det()?;
            // what the printed text means by the documentation, not only by this parser
            match rx::read(&printed) {
                Read::Tree(p) => same_language(&format!("{text:?} printed as {printed:?}, as documented"), &p.fa(), &d)?,
                Read::Reject(w) => return fail(format!("{text:?} prints as {printed:?}, which is no regular expression ({w})")),
                Read::Unsettled(_) => o.label("printed text not settled"),
            }
            features(&t, o);
            o.nontrivial(interesting(&d) && t.size() > 1);
        } else {
            o.label("original text not settled");
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C09

pub struct Trees;

impl Prop for Trees {
    type Case = Rx;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "Random regular expression trees built directly (sequences and alternations of any length including zero and one, nested repetitions, ε, ∅, any literal), up to about 50 nodes, occasionally 40 levels or 330 different characters. The NFA must be well formed, its alphabet exactly the literals, and its language exactly the tree's. Non-trivial: the language has a non-empty word and the tree more than one node."
    }
    fn quick_cases(&self) -> usize {
        100_000
    }
    fn seeds(&self) -> Vec<Rx> {
        let l = |x: &str| Rx::Lit(x.into());
        vec![
            Rx::Cat(vec![]),
            Rx::Alt(vec![]),
            Rx::Star(Box::new(Rx::Cat(vec![]))),
            Rx::Star(Box::new(Rx::Alt(vec![]))),
            Rx::Cat(vec![l("a"), Rx::Alt(vec![]), l("b")]),
            Rx::Alt(vec![l("a"), Rx::Alt(vec![])]),
            Rx::Star(Box::new(Rx::Star(Box::new(l("a"))))),
            Rx::Cat(vec![Rx::Cat(vec![l("a")]), Rx::Cat(vec![Rx::Cat(vec![]), l("b")])]),
        ]
    }
    fn gen(&self, s: &mut Src) -> Rx {
        expr(s, true)
    }
    fn simplify(&self, c: &Rx) -> Vec<Rx> {
        c.simplify()
    }
    fn check(&self, x: &Rx, o: &mut Obs) -> R {
        let det = denotes("the tree", x.regex(), x)?;
        fn degenerate(x: &Rx) -> bool {
            match x {
                Rx::Cat(v) | Rx::Alt(v) => v.len() < 2 || v.iter().any(degenerate),
                Rx::Star(y) | Rx::Plus(y) => degenerate(y),
                _ => false,
            }
        }
        o.label_if(degenerate(x), "list of length zero or one");
        features(x, o);
        o.nontrivial(interesting(&det) && x.size() > 1);
        Ok(())
    }
}
