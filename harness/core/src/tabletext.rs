//! Rendering automata in arbitrary layouts, and an independent reader of the documented table format.

use crate::engine::Src;
use crate::gen::expressible;
use crate::model::Fa;
use std::collections::BTreeSet;

pub const RESERVED: &[&str] = &["ε", "eps", "→", "->", "*"];

/// layout decisions; 0 is the plainest, and so is everything after the end
pub struct Layout<'a> {
    v: &'a [u8],
    i: usize,
}

impl<'a> Layout<'a> {
    pub fn new(v: &'a [u8]) -> Self {
        Layout { v, i: 0 }
    }
    fn next(&mut self, n: u8) -> u8 {
        let x = self.v.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        // the values above 128 stand for the plain choice, so that most decisions are plain
        if x >= 128 {
            0
        } else {
            x % n
        }
    }
    fn sep(&mut self) -> &'static str {
        [" ", "  ", "\t", " \t ", "\t\t", "          "][self.next(6) as usize]
    }
    fn opt_sep(&mut self) -> &'static str {
        ["", " ", "\t", "   ", " \t"][self.next(5) as usize]
    }
    fn eol(&mut self) -> &'static str {
        ["\n", "\r\n"][self.next(2) as usize]
    }
    fn comment(&mut self) -> &'static str {
        [
            "", "#", "# comment", "#x", "# → * s {a b} # again", "#\u{a0}ε\u{2028}", "#}{", "# å 👍🏽", "#->", "#\t", "# a b c d e f g h i j k l m n o p",
            "#\u{85}", "# x\u{85}y z", "#\u{b}\u{c} b", "# \0 \u{1b}[0m", "#\u{2028}s\u{2029}", "#\u{feff}\u{200b}",
        ][self.next(17) as usize]
    }
    /// end of a line carrying content: trailing blanks, comment, line ending
    fn end(&mut self) -> String {
        let a = self.opt_sep();
        let c = self.comment();
        format!("{a}{c}{}", self.eol())
    }
    /// lines without content
    fn filler(&mut self) -> String {
        let n = [0, 0, 0, 1, 2][self.next(5) as usize];
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(&self.end());
        }
        s
    }
}

pub fn gen_layout(s: &mut Src) -> Vec<u8> {
    let n = s.us(120);
    let busy = s.chance(1, 3);
    (0..n).map(|_| if busy || s.chance(1, 4) { s.below(128) as u8 } else { 255 }).collect()
}

/// `eps_col`: position of the ε column among the alphabet's (NFA only); None leaves it out
pub fn render(f: &Fa, dfa: bool, eps_col: Option<usize>, layout: &[u8]) -> String {
    let mut l = Layout::new(layout);
    let mut out = String::new();
    out.push_str(&l.filler());
    out.push_str(l.opt_sep());
    let eps_col = if dfa { None } else { eps_col };
    let k = f.k() + eps_col.is_some() as usize;
    // column c holds symbol col[c], None for ε
    let mut col: Vec<Option<usize>> = (0..f.k()).map(Some).collect();
    if let Some(e) = eps_col {
        col.insert(e.min(f.k()), None);
    }
    for (i, c) in col.iter().enumerate() {
        match c {
            Some(a) => out.push_str(&f.alpha[*a]),
            None => out.push_str(["ε", "eps"][l.next(2) as usize]),
        }
        if i + 1 < k {
            out.push_str(l.sep());
        }
    }
    out.push_str(&l.end());
    for i in 0..f.n() {
        out.push_str(&l.filler());
        out.push_str(l.opt_sep());
        if i == f.init {
            out.push_str(["→", "->"][l.next(2) as usize]);
            out.push_str(l.sep());
        }
        if f.acc[i] {
            out.push('*');
            out.push_str(l.sep());
        }
        out.push_str(&f.names[i]);
        for c in &col {
            out.push_str(l.sep());
            let ts = match c {
                Some(a) => &f.tr[i][*a],
                None => &f.eps[i],
            };
            if dfa {
                out.push_str(&f.names[ts[0]]);
            } else {
                out.push('{');
                out.push_str(l.opt_sep());
                for (j, t) in ts.iter().enumerate() {
                    out.push_str(&f.names[*t]);
                    if j + 1 < ts.len() {
                        out.push_str(l.sep());
                    }
                }
                if !ts.is_empty() {
                    out.push_str(l.opt_sep());
                }
                out.push('}');
            }
        }
        let mut e = l.end();
        if i + 1 == f.n() {
            // the last line may lack its ending
            let tail = match l.next(3) {
                0 => e.clone(),
                1 => {
                    let t = e.trim_end_matches(['\r', '\n']).len();
                    e.truncate(t);
                    e.clone()
                }
                _ => {
                    let mut x = e.clone();
                    x.push_str(&l.filler());
                    x.push_str(l.comment());
                    x
                }
            };
            e = tail;
        }
        out.push_str(&e);
    }
    out
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Flaw {
    WrongNumber(String, usize, usize),
    NoTarget(String, String),
    NoInitial,
    ManyInitial,
    DupSymbol(String),
    DupState(String),
}

#[derive(Debug)]
pub enum Class {
    /// not a table
    Syntax(&'static str),
    /// a table that breaks validity rules
    Invalid(BTreeSet<Flaw>),
    Valid(Fa),
    /// the documentation does not settle it
    Unsettled(&'static str),
}

struct Row {
    name: String,
    init: bool,
    acc: bool,
    cells: Vec<Vec<String>>,
}

/// reads a table as the documentation describes it
pub fn read(text: &str, dfa: bool) -> Class {
    use Class::*;
    let mut lines: Vec<&str> = vec![];
    let b = text.as_bytes();
    for (i, c) in b.iter().enumerate() {
        if *c == b'\r' && b.get(i + 1) != Some(&b'\n') {
            return Unsettled("lone carriage return");
        }
    }
    for raw in text.split('\n') {
        let raw = raw.strip_suffix('\r').unwrap_or(raw);
        let content = raw.split('#').next().unwrap_or("");
        if content.chars().any(|c| c.is_whitespace() && c != ' ' && c != '\t') {
            return Unsettled("whitespace other than space and tab");
        }
        if !content.trim_matches([' ', '\t']).is_empty() {
            lines.push(content);
        }
    }
    let Some((head, rows)) = lines.split_first() else { return Syntax("empty") };
    let toks = |s: &str| s.split([' ', '\t']).filter(|t| !t.is_empty()).map(|t| t.to_string()).collect::<Vec<_>>();
    let mut cols: Vec<Option<String>> = vec![];
    for t in toks(head) {
        if t.contains(['{', '}']) {
            return Syntax("brace in the header");
        }
        if t == "ε" || t == "eps" {
            if dfa {
                return Syntax("ε in a DFA header");
            }
            cols.push(None);
        } else if RESERVED.contains(&t.as_str()) {
            return Syntax("reserved word in the header");
        } else {
            cols.push(Some(t));
        }
    }
    if rows.is_empty() {
        return Syntax("no states");
    }
    let mut parsed = vec![];
    for r in rows {
        match if dfa { dfa_row(&toks(r)) } else { nfa_row(r) } {
            Ok(r) => parsed.push(r),
            Err(e) => return Syntax(e),
        }
    }
    let symbols: Vec<&String> = cols.iter().flatten().collect();
    if symbols.is_empty() {
        return Unsettled("no symbol but ε");
    }
    let mut flaws = BTreeSet::new();
    for (i, c) in cols.iter().enumerate() {
        if cols[..i].contains(c) {
            flaws.insert(Flaw::DupSymbol(c.clone().unwrap_or_else(|| "ε".into())));
        }
    }
    let names: Vec<String> = parsed.iter().map(|r| r.name.clone()).collect();
    for (i, n) in names.iter().enumerate() {
        if names[..i].contains(n) {
            flaws.insert(Flaw::DupState(n.clone()));
        }
    }
    for r in &parsed {
        if r.cells.len() != cols.len() {
            flaws.insert(Flaw::WrongNumber(r.name.clone(), r.cells.len(), cols.len()));
        }
        for t in r.cells.iter().flatten() {
            if !names.contains(t) {
                flaws.insert(Flaw::NoTarget(r.name.clone(), t.clone()));
            }
        }
    }
    match parsed.iter().filter(|r| r.init).count() {
        0 => {
            flaws.insert(Flaw::NoInitial);
        }
        1 => {}
        _ => {
            flaws.insert(Flaw::ManyInitial);
        }
    }
    if !flaws.is_empty() {
        return Invalid(flaws);
    }
    let pos = |t: &String| names.iter().position(|n| n == t).unwrap();
    let mut f = Fa {
        alpha: symbols.into_iter().cloned().collect(),
        init: parsed.iter().position(|r| r.init).unwrap(),
        acc: parsed.iter().map(|r| r.acc).collect(),
        eps: vec![],
        tr: vec![],
        names: names.clone(),
    };
    for r in &parsed {
        let mut eps = vec![];
        let mut tr = vec![];
        for (c, cell) in cols.iter().zip(&r.cells) {
            let ts: Vec<usize> = cell.iter().map(pos).collect();
            match c {
                None => eps = ts,
                Some(_) => tr.push(ts),
            }
        }
        f.eps.push(eps);
        f.tr.push(tr);
    }
    Valid(f)
}

fn marks(t: &[String]) -> (bool, bool, usize) {
    let mut i = 0;
    let init = t.first().is_some_and(|x| x == "->" || x == "→");
    i += init as usize;
    let acc = t.get(i).is_some_and(|x| x == "*");
    i += acc as usize;
    (init, acc, i)
}

fn dfa_row(t: &[String]) -> Result<Row, &'static str> {
    let (init, acc, i) = marks(t);
    let rest = &t[i..];
    if rest.iter().any(|x| !expressible(x)) {
        return Err("illegal name");
    }
    let Some((name, cells)) = rest.split_first() else { return Err("no state name") };
    if cells.is_empty() {
        return Err("no transitions");
    }
    Ok(Row { name: name.clone(), init, acc, cells: cells.iter().map(|c| vec![c.clone()]).collect() })
}

fn nfa_row(line: &str) -> Result<Row, &'static str> {
    // split off what precedes the first brace
    let Some(b) = line.find('{') else { return Err("no target sets") };
    let (front, mut rest) = line.split_at(b);
    if front.contains('}') {
        return Err("stray brace");
    }
    let ft: Vec<String> = front.split([' ', '\t']).filter(|t| !t.is_empty()).map(|t| t.to_string()).collect();
    let (init, acc, i) = marks(&ft);
    if ft.len() != i + 1 || !expressible(&ft[i]) {
        return Err("not one state name");
    }
    if !front.ends_with([' ', '\t']) {
        return Err("set glued to the name");
    }
    let mut cells = vec![];
    loop {
        let Some(r) = rest.strip_prefix('{') else { return Err("something between sets") };
        let Some(e) = r.find('}') else { return Err("unclosed set") };
        let inner = &r[..e];
        if inner.contains('{') {
            return Err("nested brace");
        }
        let names: Vec<String> = inner.split([' ', '\t']).filter(|t| !t.is_empty()).map(|t| t.to_string()).collect();
        if names.iter().any(|n| !expressible(n)) {
            return Err("illegal name");
        }
        cells.push(names);
        let after = &r[e + 1..];
        let next = after.trim_start_matches([' ', '\t']);
        if next.is_empty() {
            break;
        }
        if next.len() == after.len() {
            return Err("sets not separated");
        }
        rest = next;
    }
    Ok(Row { name: ft[i].clone(), init, acc, cells })
}
