//! C01–C05: the table format.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::rx;
use crate::tabletext::*;
use dandy::dfa::parse::DfaParseError;
use dandy::dfa::Dfa;
use dandy::nfa::parse::NfaParseError;
use dandy::nfa::Nfa;
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
pub struct DfaText {
    pub fa: Fa,
    pub layout: Vec<u8>,
}

fn simplify_layout(l: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if l.iter().any(|x| *x != 255) {
        out.push(vec![]);
    }
    if l.len() > 1 {
        out.push(l[..l.len() / 2].to_vec());
        let mut half = l.to_vec();
        half[..l.len() / 2].iter_mut().for_each(|x| *x = 255);
        out.push(half);
    }
    for i in 0..l.len() {
        if l[i] != 255 {
            let mut m = l.to_vec();
            m[i] = 255;
            out.push(m);
        }
    }
    out
}

fn explain(got: &Fa, want: &Fa) -> String {
    if got.alpha != want.alpha {
        return format!("alphabet {:?} instead of {:?}", got.alpha, want.alpha);
    }
    if got.names != want.names {
        return format!("states {:?} instead of {:?}", got.names, want.names);
    }
    if got.init != want.init {
        return format!("initial state {} instead of {}", got.names[got.init], want.names[want.init]);
    }
    if got.acc != want.acc {
        return format!("accepting marks {:?} instead of {:?}", got.acc, want.acc);
    }
    let set = |f: &Fa, v: &Vec<usize>| {
        let mut x: Vec<String> = v.iter().map(|t| f.names[*t].clone()).collect();
        x.sort();
        x.dedup();
        x
    };
    for i in 0..want.n() {
        let (a, b) = (set(got, &got.eps[i]), set(want, &want.eps[i]));
        if a != b {
            return format!("state {} has ε-targets {a:?} instead of {b:?}", want.names[i]);
        }
        for c in 0..want.k() {
            let (a, b) = (set(got, &got.tr[i][c]), set(want, &want.tr[i][c]));
            if a != b {
                return format!("state {} goes by {} to {a:?} instead of {b:?}", want.names[i], want.alpha[c]);
            }
        }
    }
    "nothing visible differs".into()
}

fn load_dfa(text: &str) -> Result<Dfa, String> {
    match dandy::parser::dfa(text) {
        Ok(p) => p.try_into().map_err(|e: DfaParseError| format!("validation: {e}")),
        Err(e) => Err(format!("parsing stops at {:?}", one_line(e.input, 80))),
    }
}

fn load_nfa(text: &str) -> Result<Nfa, String> {
    match dandy::parser::nfa(text) {
        Ok(p) => p.try_into().map_err(|e: NfaParseError| format!("validation: {e}")),
        Err(e) => Err(format!("parsing stops at {:?}", one_line(e.input, 80))),
    }
}

fn big_dfa(s: &mut Src) -> Fa {
    let lim = match s.weighted(&[30, 2, 2]) {
        0 => Lim::new(12, 6).wide(),
        1 => Lim::new(300, 3),
        _ => Lim::new(8, 40),
    };
    dfa(s, &lim)
}

fn layout_labels(text: &str, o: &mut Obs) {
    o.label_if(text.contains('#'), "comments");
    o.label_if(text.contains("\r\n"), "CRLF");
    o.label_if(text.contains('\t'), "tabs");
    o.label_if(text.contains("->"), "ASCII arrow");
    o.label_if(!text.ends_with('\n'), "no final newline");
}

pub struct DfaTable;

impl Prop for DfaTable {
    type Case = DfaText;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "Random DFAs (1-12 states, occasionally 300; 1-6 symbols, occasionally 40; adversarial names and multi-character symbols) written as text in random layouts (blank and comment lines, trailing comments, indentation, spaces and tabs, LF and CRLF mixed, both arrows, with and without a final newline). The loaded DFA is compared entry by entry with the automaton written. Non-trivial: two or more states, and at least one layout feature beyond single spaces and LF."
    }
    fn quick_cases(&self) -> usize {
        120_000
    }
    fn gen(&self, s: &mut Src) -> DfaText {
        let fa = big_dfa(s);
        let layout = gen_layout(s);
        DfaText { fa, layout }
    }
    fn simplify(&self, c: &DfaText) -> Vec<DfaText> {
        let mut v: Vec<DfaText> = simplify_fa(&c.fa, true).into_iter().map(|fa| DfaText { fa, layout: c.layout.clone() }).collect();
        v.extend(simplify_layout(&c.layout).into_iter().map(|layout| DfaText { fa: c.fa.clone(), layout }));
        v
    }
    fn check(&self, c: &DfaText, o: &mut Obs) -> R {
        let text = render(&c.fa, true, None, &c.layout);
        match read(&text, true) {
            Class::Valid(f) if f == c.fa => {}
            x => return discard(format!("the reference reader disagrees with the writer: {x:?}")),
        }
        let d = match load_dfa(&text) {
            Ok(d) => d,
            Err(e) => return fail(format!("a valid DFA table is not loaded ({e}): {text:?}")),
        };
        let g = Fa::from_dfa(&d)?;
        ensure!(g == c.fa, "the table loads as another DFA: {}; table {text:?}", explain(&g, &c.fa));
        // the same description in another layout is the same automaton
        let plain = render(&c.fa, true, None, &[]);
        match load_dfa(&plain) {
            Ok(p) => ensure!(p == d, "two layouts of one table give unequal DFAs: {text:?}"),
            Err(e) => return fail(format!("a valid DFA table is not loaded ({e}): {plain:?}")),
        }
        o.max("states", c.fa.n() as u64);
        layout_labels(&text, o);
        o.nontrivial(c.fa.n() >= 2 && text != plain);
        Ok(())
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct NfaText {
    pub fa: Fa,
    pub eps_col: Option<usize>,
    pub layout: Vec<u8>,
}

pub struct NfaTable;

impl Prop for NfaTable {
    type Case = NfaText;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "Random NFAs (1-12 states, occasionally 60 or 200; 1-20 symbols; ε-moves in half; empty, singleton and larger target sets, repeated targets) written with the ε column first, last, in the middle or absent (only without ε-moves), spelled ε or eps, in random layouts as for C01 plus spaces inside braces. The loaded NFA is compared entry by entry (target sets as sets). Non-trivial: at least two states, and ε-moves or a set of other size than one."
    }
    fn quick_cases(&self) -> usize {
        120_000
    }
    fn gen(&self, s: &mut Src) -> NfaText {
        let lim = match s.weighted(&[30, 2, 1, 2]) {
            0 => Lim::new(12, 5).wide().crowd(800),
            1 => Lim::new(60, 3),
            2 => Lim::new(200, 1),
            _ => Lim::new(6, 20),
        };
        let fa = nfa(s, &lim, Eps::Maybe);
        let eps_col = if fa.has_eps() || s.flip() { Some(s.us(fa.k() + 1)) } else { None };
        let layout = gen_layout(s);
        NfaText { fa, eps_col, layout }
    }
    fn simplify(&self, c: &NfaText) -> Vec<NfaText> {
        let mut v: Vec<NfaText> = simplify_fa(&c.fa, false).into_iter().map(|fa| NfaText { fa, ..c.clone() }).collect();
        if !c.fa.has_eps() && c.eps_col.is_some() {
            v.push(NfaText { eps_col: None, ..c.clone() });
        }
        if c.eps_col.is_some_and(|x| x > 0) {
            v.push(NfaText { eps_col: Some(0), ..c.clone() });
        }
        v.extend(simplify_layout(&c.layout).into_iter().map(|layout| NfaText { layout, ..c.clone() }));
        v
    }
    fn check(&self, c: &NfaText, o: &mut Obs) -> R {
        let text = render(&c.fa, false, c.eps_col, &c.layout);
        match read(&text, false) {
            Class::Valid(f) if f == c.fa => {}
            x => return discard(format!("the reference reader disagrees with the writer: {x:?}")),
        }
        let d = match load_nfa(&text) {
            Ok(d) => d,
            Err(e) => return fail(format!("a valid NFA table is not loaded ({e}): {text:?}")),
        };
        let g = Fa::from_nfa(&d)?;
        ensure!(g == c.fa, "the table loads as another NFA: {}; table {text:?}", explain(&g, &c.fa));
        o.max("states", c.fa.n() as u64);
        layout_labels(&text, o);
        match c.eps_col {
            None => o.label("ε column absent"),
            Some(0) => o.label("ε column first"),
            Some(_) => o.label("ε column elsewhere"),
        }
        o.label_if(text.contains("eps"), "eps spelled out");
        o.nontrivial(c.fa.n() >= 2 && (c.fa.has_eps() || c.fa.tr.iter().flatten().any(|t| t.len() != 1)));
        Ok(())
    }
}

// ------------------------------------------------------------------ C03

pub const TOKENS: &[&str] = &[
    "ε", "eps", "→", "->", "*", "{", "}", "{}", "#", "a", "b", "q0", "q1", "0", "1", "{q0}", "{q0 q1}", "{a b}", "**", "*q0", "->q0", "→*", "-", ">", "{ }", "epsilon", "E", "{ε}", "{*}", "{->}", "a{", "}b", "}{", "å",
    "{{", "}}", "s_new", "ε1", "*ε", "# x", "{#}",
];
const SEPS: &[&str] = &[" ", "  ", "\t", "\n", "\r\n", "\n\n", "", " \n", "\n ", "\u{a0}", "\r", "\u{b}", "\u{2028}", "\u{85}", "\u{3000}", "\u{200b}", "\u{feff}"];

/// tokens, single blanks and line ends
pub fn pieces(t: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut cur = String::new();
    for c in t.chars() {
        if c.is_whitespace() || "#{}".contains(c) {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            if c == '\n' && out.last().is_some_and(|l| l == "\r") {
                *out.last_mut().unwrap() = "\r\n".into();
            } else {
                out.push(c.to_string());
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

fn separator(s: &mut Src) -> &'static str {
    let n = if s.chance(1, 12) { SEPS.len() } else { 9 };
    SEPS[s.us(n)]
}

fn mutate_text(s: &mut Src, text: &str) -> String {
    let mut p = pieces(text);
    let n = s.range(1, 4);
    for _ in 0..n {
        if p.is_empty() {
            p.push("a".into());
        }
        let i = s.us(p.len());
        match s.us(9) {
            0 => {
                p.remove(i);
            }
            1 => {
                let t = s.pick(TOKENS).to_string();
                p.insert(i, t);
            }
            2 => p[i] = s.pick(TOKENS).to_string(),
            3 => {
                let t = separator(s).to_string();
                p.insert(i, t);
            }
            4 => {
                let j = s.us(p.len());
                p.swap(i, j);
            }
            5 => {
                let j = s.us(p.len());
                p[i] = p[j].clone();
            }
            6 => {
                let t = p[i].clone();
                p.insert(i, t);
            }
            7 => {
                // a line twice, or without
                let whole = p.concat();
                let mut l: Vec<String> = whole.split_inclusive('\n').map(|x| x.to_string()).collect();
                let j = s.us(l.len());
                if l.is_empty() {
                    // every piece may be empty by now
                } else if s.flip() {
                    let mut x = l[j].clone();
                    if !x.ends_with('\n') {
                        x.push('\n');
                    }
                    l.insert(j, x);
                } else {
                    l.remove(j);
                }
                p = pieces(&l.concat());
            }
            _ => {
                // within a token
                let mut c: Vec<char> = p[i].chars().collect();
                let j = s.us(c.len() + 1);
                let add = *s.pick(&['*', 'ε', '-', '>', '#', '{', '}', ' ', 'a', '→', '0', '\n', '\u{301}', '\0']);
                if s.flip() || j == c.len() {
                    c.insert(j, add);
                } else {
                    c.remove(j);
                }
                p[i] = c.into_iter().collect();
            }
        }
    }
    p.concat()
}

/// a well-formed table whose content breaks some of the rules
fn flawed(s: &mut Src) -> String {
    let dfa_kind = s.flip();
    // large ones: the flaw far down, or by an amount that looks like none
    let large = s.chance(1, 250);
    let n = if large && s.flip() { s.range(60, 300) } else { s.range(1, 5) };
    let k = if large && n < 6 { *s.pick(&[1, 2, 4, 255, 256, 257]) } else { s.range(1, 4) };
    let pool = if s.chance(1, 3) { names(s, n + 1) } else { (0..=n).map(|i| format!("q{i}")).collect::<Vec<_>>() };
    let mut alpha = alphabet(s, k, AlphaStyle::Any);
    if !dfa_kind && s.flip() {
        let i = s.us(alpha.len() + 1);
        alpha.insert(i, s.pick(&["ε", "eps"]).to_string());
    }
    if s.chance(1, 4) {
        let i = s.us(alpha.len());
        let x = match alpha[i].as_str() {
            "ε" if s.flip() => "eps".to_string(),
            "eps" if s.flip() => "ε".to_string(),
            x => x.to_string(),
        };
        let j = s.us(alpha.len() + 1);
        alpha.insert(j, x);
    }
    let mut out = alpha.join(" ");
    out.push('\n');
    let mut nm: Vec<String> = pool[..n].to_vec();
    if s.chance(1, 4) {
        let (i, j) = (s.us(n), s.us(n));
        // the same name again, or one close to it
        nm[i] = if s.chance(1, 3) { near_symbol(s, &nm[j..=j]) } else { nm[j].clone() };
    }
    let inits: Vec<usize> = match s.weighted(&[6, 1, 1]) {
        0 => vec![s.us(n)],
        1 => vec![],
        _ => (0..n).filter(|_| s.flip()).collect(),
    };
    for i in 0..n {
        let mut row: Vec<String> = vec![];
        if inits.contains(&i) {
            row.push(s.pick(&["→", "->"]).to_string());
        }
        if s.flip() {
            row.push("*".into());
        }
        row.push(nm[i].clone());
        let m = match s.weighted(&if n > 5 { [600, 1, 1, 1] } else { [16, 1, 1, 1] }) {
            1..=3 if large && n < 6 => alpha.len() + *s.pick(&[255, 256, 256, 257, 512]),
            0 => alpha.len(),
            1 => alpha.len() + 1,
            2 => alpha.len().saturating_sub(1),
            _ => s.us(alpha.len() + 3),
        };
        for _ in 0..m {
            let target = |s: &mut Src| if s.chance(1, if large { 6000 } else { 30 }) { if s.flip() { near_symbol(s, &nm) } else { s.pick(&pool).clone() } } else { s.pick(&nm).clone() };
            if dfa_kind {
                row.push(target(s));
            } else {
                let c = s.weighted(&[2, 3, 1]);
                let v: Vec<String> = (0..c).map(|_| target(s)).collect();
                row.push(format!("{{{}}}", v.join(" ")));
            }
        }
        out.push_str(&row.join(" "));
        out.push('\n');
    }
    out
}

fn soup(s: &mut Src) -> String {
    let n = s.skewed(0, 40);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(s.pick(TOKENS));
        t.push_str(separator(s));
    }
    t
}

fn raw(s: &mut Src) -> String {
    let n = s.skewed(0, 60);
    let free = s.flip();
    (0..n)
        .map(|_| {
            if free && s.flip() {
                char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}')
            } else {
                *s.pick(&['a', 'b', 'q', ' ', '\n', '{', '}', '*', '→', 'ε', '-', '>', '#', '\t', '\r', 'e', 'p', 's', '\u{301}', '\0', '\u{a0}'])
            }
        })
        .collect()
}

pub fn any_table_text(s: &mut Src) -> String {
    match s.weighted(&[6, 6, 3, 1, 2]) {
        0 => {
            let dfa_kind = s.flip();
            let f = if dfa_kind { dfa(s, &Lim::new(6, 4)) } else { nfa(s, &Lim::new(6, 4), Eps::Maybe) };
            let l = gen_layout(s);
            let e = if f.has_eps() || s.flip() { Some(s.us(f.k() + 1)) } else { None };
            let t = render(&f, dfa_kind, e, &l);
            mutate_text(s, &t)
        }
        1 => {
            let t = flawed(s);
            if s.chance(1, 4) {
                mutate_text(s, &t)
            } else {
                t
            }
        }
        2 => soup(s),
        3 => raw(s),
        _ => {
            // well-formed with one or two lines of tokens on top
            let mut t = flawed(s);
            let extra = soup(s);
            let at = t.find('\n').unwrap_or(0);
            t.insert_str(if s.flip() { 0 } else { at }, &extra);
            t
        }
    }
}

pub fn simplify_text(t: &str) -> Vec<String> {
    let mut out = vec![];
    let lines: Vec<&str> = t.split_inclusive('\n').collect();
    if lines.len() > 1 {
        for i in 0..lines.len() {
            let mut l = lines.clone();
            l.remove(i);
            out.push(l.concat());
        }
    }
    let p = pieces(t);
    for i in 0..p.len() {
        let mut q = p.clone();
        q.remove(i);
        out.push(q.concat());
    }
    for i in 0..p.len() {
        if p[i].chars().count() > 1 && p[i] != "\r\n" {
            let mut q = p.clone();
            q[i] = "a".into();
            out.push(q.concat());
            let c: Vec<char> = p[i].chars().collect();
            for j in 0..c.len() {
                let mut d = c.clone();
                d.remove(j);
                let mut q = p.clone();
                q[i] = d.into_iter().collect();
                out.push(q.concat());
            }
        }
        if p[i] == "\r\n" {
            let mut q = p.clone();
            q[i] = "\n".into();
            out.push(q.concat());
        }
    }
    out
}

pub struct BadTable;

impl BadTable {
    fn one(text: &str, dfa_kind: bool, o: &mut Obs) -> R {
        enum Got {
            Syntax,
            Invalid(Flaw, String),
            Loaded(Fa),
        }
        let class = read(text, dfa_kind);
        let got = if dfa_kind {
            match dandy::parser::dfa(text) {
                Err(_) => Got::Syntax,
                Ok(p) => match Dfa::try_from(p) {
                    Ok(d) => Got::Loaded(Fa::from_dfa(&d)?),
                    Err(e) => {
                        let msg = e.to_string();
                        Got::Invalid(
                            match e {
                                DfaParseError::WrongNumberOfTransitions(s, a, b) => Flaw::WrongNumber(s.into(), a, b),
                                DfaParseError::TransitionDoesNotExist(s, t) => Flaw::NoTarget(s.into(), t.into()),
                                DfaParseError::MissingInitialState => Flaw::NoInitial,
                                DfaParseError::MultipleInitialStates => Flaw::ManyInitial,
                                DfaParseError::DuplicateAlphabetSymbol(s) => Flaw::DupSymbol(s.into()),
                                DfaParseError::DuplicateStateDefinition(s) => Flaw::DupState(s.into()),
                            },
                            msg,
                        )
                    }
                },
            }
        } else {
            match dandy::parser::nfa(text) {
                Err(_) => Got::Syntax,
                Ok(p) => match Nfa::try_from(p) {
                    Ok(d) => Got::Loaded(Fa::from_nfa(&d)?),
                    Err(e) => {
                        let msg = e.to_string();
                        Got::Invalid(
                            match e {
                                NfaParseError::WrongNumberOfTransitions(s, a, b) => Flaw::WrongNumber(s.into(), a, b),
                                NfaParseError::TransitionDoesNotExist(s, t) => Flaw::NoTarget(s.into(), t.into()),
                                NfaParseError::MissingInitialState => Flaw::NoInitial,
                                NfaParseError::MultipleInitialStates => Flaw::ManyInitial,
                                NfaParseError::DuplicateAlphabetSymbol(s) => Flaw::DupSymbol(if s == "eps" { "ε" } else { s }.into()),
                                NfaParseError::DuplicateStateDefinition(s) => Flaw::DupState(s.into()),
                            },
                            msg,
                        )
                    }
                },
            }
        };
        let kind = if dfa_kind { "DFA" } else { "NFA" };
        match (class, got) {
            (Class::Unsettled(w), _) => o.label(format!("{kind} not settled: {w}")),
            (Class::Syntax(_), Got::Loaded(_)) => return fail(format!("text that is no {kind} table loads as a {kind}: {text:?}")),
            (Class::Syntax(w), _) => o.label(format!("{kind} malformed: {w}")),
            (Class::Valid(f), Got::Loaded(g)) => {
                ensure!(f == g, "the {kind} table loads as another automaton: {}; text {text:?}", explain(&g, &f));
                o.label(format!("{kind} valid"));
                o.nontrivial(true);
            }
            (Class::Valid(_), Got::Syntax) => return fail(format!("valid {kind} table rejected by the parser: {text:?}")),
            (Class::Valid(_), Got::Invalid(_, m)) => return fail(format!("valid {kind} table rejected ({m}): {text:?}")),
            (Class::Invalid(fl), Got::Loaded(_)) => return fail(format!("{kind} table with {fl:?} loads: {text:?}")),
            (Class::Invalid(fl), Got::Syntax) => return fail(format!("well-formed {kind} table with {fl:?} is reported as malformed: {text:?}")),
            (Class::Invalid(fl), Got::Invalid(e, m)) => {
                ensure!(fl.contains(&e), "the {kind} table is rejected with {m:?} ({e:?}) but has only {fl:?}: {text:?}");
                let kind_of = match e {
                    Flaw::WrongNumber(..) => "wrong number",
                    Flaw::NoTarget(..) => "missing target",
                    Flaw::NoInitial => "no initial state",
                    Flaw::ManyInitial => "many initial states",
                    Flaw::DupSymbol(..) => "duplicate symbol",
                    Flaw::DupState(..) => "duplicate state",
                };
                o.label(format!("{kind} {kind_of}"));
                o.nontrivial(true);
            }
        }
        Ok(())
    }
}

impl Prop for BadTable {
    type Case = String;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "Texts: rendered tables after 1-4 random edits of tokens, characters or lines; tables with any number of injected rule violations (duplicate symbols and states, wrong counts, undefined targets, no or several initial states, duplicate ε columns); sequences of table tokens; raw characters. Every text is loaded both as DFA and as NFA and compared with an independent reader of the documented format: rejected, valid (same automaton) or invalid (the reported error must name a violation that is present). Non-trivial: at least one of the two readings is a well-formed table, valid or not."
    }
    fn quick_cases(&self) -> usize {
        80_000
    }
    fn seeds(&self) -> Vec<String> {
        ["", "\n", "a", "a\n", "a\na a\n", "a\n-> a a", "ε\n-> a {}", "a\n-> * a {a}\n", "a a\n→ q q q", "ε eps\n→ q {} {}", "a\n→ q r", "a\n→ q q\n→ q q", "a\n* → q q", "a\n→*q q", "#", "# a\n", "a # b\n→ q q # r", "ε a ε\n→ q {} {} {}"]
            .iter()
            .map(|s| s.to_string())
            .collect()
    }
    fn gen(&self, s: &mut Src) -> String {
        any_table_text(s)
    }
    fn simplify(&self, c: &String) -> Vec<String> {
        simplify_text(c)
    }
    fn check(&self, text: &String, o: &mut Obs) -> R {
        Self::one(text, true, o)?;
        Self::one(text, false, o)
    }
}

// ------------------------------------------------------------------ C04, C05

#[derive(Clone, Serialize, Deserialize)]
pub struct DfaPrint {
    pub a: Fa,
    pub b: Fa,
    /// which operation makes the printed automaton
    pub op: u8,
}

fn writable(f: &Fa) -> bool {
    f.alpha.iter().all(|a| expressible(a)) && f.names.iter().all(|a| expressible(a))
}

fn odd_names(f: &Fa) -> bool {
    f.names.iter().any(|n| !n.chars().all(|c| c.is_ascii_alphanumeric()))
}

pub struct DfaReprint;

impl Prop for DfaReprint {
    type Case = DfaPrint;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "Random DFAs (1-12 states, occasionally 300; 1-6 symbols, occasionally 40; names and symbols of any width, wide and combining characters, markers look-alikes), printed as loaded or after one of: minimize, invert, removal of unreachable states, merging of non-distinguishable states, a Boolean product with a second DFA, determinisation of the NFA with the same table. Default and ASCII tables must load as an equal DFA, extracted entries included. Non-trivial: two or more states."
    }
    fn quick_cases(&self) -> usize {
        80_000
    }
    fn gen(&self, s: &mut Src) -> DfaPrint {
        let op = s.us(12) as u8;
        let (a, b) = if (4..=8).contains(&op) {
            let (a, b, _) = pair(s, &Lim::new(7, 5), true, Eps::No, 0);
            (a, b)
        } else {
            let a = big_dfa(s);
            (a.clone(), a)
        };
        DfaPrint { a, b, op }
    }
    fn simplify(&self, c: &DfaPrint) -> Vec<DfaPrint> {
        let mut v = vec![];
        if !(4..=8).contains(&c.op) {
            for a in simplify_fa(&c.a, true) {
                v.push(DfaPrint { b: a.clone(), a, op: c.op });
            }
        } else {
            let p = super::equiv::Pair { a: c.a.clone(), b: c.b.clone() };
            v.extend(super::equiv::simplify_pair(&p, true).into_iter().map(|p| DfaPrint { a: p.a, b: p.b, op: c.op }));
        }
        if c.op != 0 {
            v.push(DfaPrint { op: 0, ..c.clone() });
        }
        v
    }
    fn check(&self, c: &DfaPrint, o: &mut Obs) -> R {
        let mut d = c.a.dfa()?;
        let what = match c.op {
            1 => {
                d.minimize();
                "minimised"
            }
            2 => {
                d.remove_unreachable_states();
                "pruned"
            }
            3 => {
                d.merge_nondistinguishable_states();
                "merged"
            }
            4..=8 => {
                let b = c.b.dfa()?;
                let r = match c.op {
                    4 => d.union(&b),
                    5 => d.intersection(&b),
                    6 => d.difference(&b),
                    7 => d.symmetric_difference(&b),
                    _ => d.product_construction(&b, |x, y| x.is_accepting() && !y.is_initial()),
                };
                let Some(r) = r else { return discard("no product") };
                d = r;
                "product"
            }
            9 => {
                d = d.to_nfa().to_dfa();
                "determinised"
            }
            10 => {
                d.invert();
                "inverted"
            }
            _ => "as loaded",
        };
        let f = Fa::from_dfa(&d)?;
        o.label(what);
        if !writable(&f) || f.k() == 0 {
            o.label("not expressible");
            return Ok(());
        }
        for (name, t) in [("to_table", d.to_table()), ("ascii_table", d.ascii_table())] {
            let g = match load_dfa(&t) {
                Ok(g) => g,
                Err(e) => return fail(format!("{name} of a {what} DFA is not loaded ({e}): {t:?}")),
            };
            let h = Fa::from_dfa(&g)?;
            ensure!(h == f, "{name} of a {what} DFA loads as another DFA: {}; table {t:?}", explain(&h, &f));
            ensure!(g == d, "{name} of a {what} DFA loads as an unequal DFA; table {t:?}");
        }
        ensure!(d.ascii_table().is_ascii() || !f.names.iter().chain(&f.alpha).all(|x| x.is_ascii()), "ascii_table of an ASCII automaton is not ASCII");
        o.max("states", f.n() as u64);
        o.label_if(odd_names(&f), "names beyond letters and digits");
        o.nontrivial(f.n() >= 2);
        Ok(())
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct NfaPrint {
    pub a: Fa,
    pub b: Fa,
    pub op: u8,
    pub rx: rx::Rx,
}

pub struct NfaReprint;

impl Prop for NfaReprint {
    type Case = NfaPrint;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "Random NFAs (1-12 states, occasionally 60; 0-5 symbols, occasionally 20; ε-moves; any names), printed as loaded or after one of: union, intersection, product, ε-removal, conversion of a DFA, or conversion of a regular expression (literals that the table format can write). Default and ASCII tables must load as an equal NFA, extracted entries included. Non-trivial: two or more states."
    }
    fn quick_cases(&self) -> usize {
        100_000
    }
    fn gen(&self, s: &mut Src) -> NfaPrint {
        let op = s.us(9) as u8;
        let mut r = rx::Rx::Eps;
        let small = Fa { alpha: vec!["a".into()], names: vec!["q0".into()], init: 0, acc: vec![false], eps: vec![vec![]], tr: vec![vec![vec![]]] };
        let (a, b) = match op {
            1..=3 => {
                let k = s.us(2);
                let (a, b, _) = pair(s, &Lim::new(6, 5).min_k(k), false, Eps::Maybe, 0);
                (a, b)
            }
            5 => {
                let a = dfa(s, &Lim::new(10, 5));
                (a, small)
            }
            6 => {
                let st = rx::RxStyle { ops: true, odd: true, merging: false, degenerate: false };
                let pool = rx::pool(s, st);
                let mut budget = 20;
                r = rx::gen(s, st, &pool, 5, &mut budget);
                (small.clone(), small)
            }
            _ => {
                let lim = match s.weighted(&[30, 2, 2, 2]) {
                    0 => Lim::new(12, 5).wide().crowd(800),
                    1 => Lim::new(60, 3),
                    2 => Lim::new(6, 20),
                    _ => Lim::new(8, 2).min_k(0),
                };
                let a = nfa(s, &lim, Eps::Maybe);
                (a, small)
            }
        };
        NfaPrint { a, b, op, rx: r }
    }
    fn simplify(&self, c: &NfaPrint) -> Vec<NfaPrint> {
        let mut v = vec![];
        match c.op {
            1..=3 => {
                let p = super::equiv::Pair { a: c.a.clone(), b: c.b.clone() };
                v.extend(super::equiv::simplify_pair(&p, false).into_iter().map(|p| NfaPrint { a: p.a, b: p.b, ..c.clone() }));
            }
            6 => v.extend(c.rx.simplify().into_iter().map(|rx| NfaPrint { rx, ..c.clone() })),
            _ => v.extend(simplify_fa(&c.a, c.op == 5).into_iter().map(|a| NfaPrint { a, ..c.clone() })),
        }
        v
    }
    fn check(&self, c: &NfaPrint, o: &mut Obs) -> R {
        let (n, what): (Nfa, &str) = match c.op {
            1 => match c.a.nfa()?.union(c.b.nfa()?) {
                Ok(n) => (n, "union"),
                Err(_) => return discard("no union"),
            },
            2 => match c.a.nfa()?.intersection(&c.b.nfa()?) {
                Some(n) => (n, "intersection"),
                None => return discard("no intersection"),
            },
            3 => match c.a.nfa()?.product_construction(&c.b.nfa()?, |x, y| x.is_some() || y.is_some()) {
                Some(n) => (n, "product"),
                None => return discard("no product"),
            },
            4 => {
                let mut n = c.a.nfa()?;
                n.remove_epsilon_moves();
                (n, "ε-free")
            }
            5 => (c.a.dfa()?.to_nfa(), "converted DFA"),
            6 => (c.rx.regex().to_nfa(), "converted expression"),
            _ => (c.a.nfa()?, "as loaded"),
        };
        let f = Fa::from_nfa(&n)?;
        o.label(what);
        if !writable(&f) {
            o.label("not expressible");
            return Ok(());
        }
        for (name, t) in [("to_table", n.to_table()), ("ascii_table", n.ascii_table())] {
            let g = match load_nfa(&t) {
                Ok(g) => g,
                Err(e) => return fail(format!("{name} of an NFA ({what}) is not loaded ({e}): {t:?}")),
            };
            let h = Fa::from_nfa(&g)?;
            ensure!(h == f, "{name} of an NFA ({what}) loads as another NFA: {}; table {t:?}", explain(&h, &f));
            ensure!(g == n, "{name} of an NFA ({what}) loads as an unequal NFA; table {t:?}");
        }
        ensure!(n.ascii_table().is_ascii() || !f.names.iter().chain(&f.alpha).all(|x| x.is_ascii()), "ascii_table of an ASCII automaton is not ASCII");
        o.max("states", f.n() as u64);
        o.label_if(f.k() == 0, "no symbols");
        o.label_if(f.has_eps(), "with ε-moves");
        o.label_if(odd_names(&f), "names beyond letters and digits");
        o.nontrivial(f.n() >= 2);
        Ok(())
    }
}
