//! C33: the web bindings, called natively, against a model of their handles.

use dandy_wasm::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vcore::engine::*;
use vcore::ensure;
use vcore::gen::*;
use vcore::model::*;
use vcore::rx::{self, Ctx, Listed, Read};
use vcore::tabletext::{self, Class};

/// a handle: one of those issued so far (of some kind first, if there is one), or a number
#[derive(Clone, Debug, Serialize, Deserialize)]
enum H {
    Live(u8),
    Issued(u8),
    Raw(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    LoadDfa(String),
    LoadNfa(String),
    LoadRegex(String),
    DelDfa(H),
    DelNfa(H),
    DelRegex(H),
    Minimize(H),
    EqDfa(H, H),
    EqNfa(H, H),
    DfaToNfa(H),
    NfaToDfa(H),
    RegexToNfa(H),
    DfaTable(H),
    NfaTable(H),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    D,
    N,
    R,
}

struct Item {
    lang: Det,
    /// as last printed, if its table can be read back
    now: Option<Fa>,
}

fn readable(lang: &Det) -> bool {
    !lang.alpha.is_empty() && lang.alpha.iter().all(|a| expressible(a))
}

fn in_order(d: &Det, order: &[String]) -> Det {
    let idx: Vec<usize> = order.iter().map(|a| d.alpha.iter().position(|b| b == a).unwrap()).collect();
    Det { alpha: order.to_vec(), acc: d.acc.clone(), tr: d.tr.iter().map(|r| idx.iter().map(|i| r[*i]).collect()).collect() }
}

fn equal(a: &Det, b: &Det) -> R<bool> {
    let (x, y): (BTreeSet<_>, BTreeSet<_>) = (a.alpha.iter().collect(), b.alpha.iter().collect());
    if x != y {
        return Ok(false);
    }
    Ok(find_word(&[a, &in_order(b, &a.alpha)], &|v| v[0] == v[1])?.is_none())
}

#[derive(Default)]
struct World {
    dfas: BTreeMap<usize, Item>,
    nfas: BTreeMap<usize, Item>,
    regexes: BTreeMap<usize, Det>,
    issued: Vec<usize>,
    dead: BTreeSet<usize>,
    /// regular expressions that were converted: the bindings may or may not keep them
    spent: BTreeMap<usize, Det>,
}

impl World {
    fn live(&self, k: Kind) -> Vec<usize> {
        match k {
            Kind::D => self.dfas.keys().copied().collect(),
            Kind::N => self.nfas.keys().copied().collect(),
            Kind::R => self.regexes.keys().copied().collect(),
        }
    }
    fn h(&self, h: &H, k: Kind) -> usize {
        match h {
            H::Live(i) => {
                let v = self.live(k);
                match v.len() {
                    0 => self.h(&H::Issued(*i), k),
                    n => v[*i as usize % n],
                }
            }
            H::Issued(i) => match self.issued.len() {
                0 => *i as usize,
                n => self.issued[*i as usize % n],
            },
            H::Raw(v) => *v as usize,
        }
    }
    fn fresh(&mut self, what: &str, h: usize) -> R {
        ensure!(!self.issued.contains(&h), "{what} returned handle {h}, which was returned before");
        self.issued.push(h);
        Ok(())
    }
    fn table(h: usize, k: Kind) -> Option<String> {
        match k {
            Kind::D => dfa_to_table(h),
            _ => nfa_to_table(h),
        }
    }
    fn read(what: &str, h: usize, k: Kind) -> R<Fa> {
        let Some(t) = Self::table(h, k) else { return fail(format!("{what}: handle {h} is live, but its table is not printed")) };
        match tabletext::read(&t, k == Kind::D) {
            Class::Valid(f) => Ok(f),
            c => fail(format!("{what}: handle {h} prints an invalid table ({c:?}): {t:?}")),
        }
    }
    /// a new automaton under handle h
    fn add(&mut self, what: &str, h: usize, k: Kind, lang: Det, exact: Option<&Fa>) -> R {
        self.fresh(what, h)?;
        let mut now = None;
        if readable(&lang) {
            let f = Self::read(what, h, k)?;
            same_language(what, &f, &lang)?;
            if let Some(e) = exact {
                ensure!(f == *e, "{what}: handle {h} denotes {f:?} instead of {e:?}");
            }
            now = Some(f);
        } else {
            ensure!(Self::table(h, k).is_some(), "{what}: the table of handle {h} is not printed");
        }
        let item = Item { lang, now };
        match k {
            Kind::D => self.dfas.insert(h, item),
            _ => self.nfas.insert(h, item),
        };
        Ok(())
    }
    /// everything that is live denotes what it should, everything else is unknown
    fn audit(&self, what: &str) -> R {
        for (k, m) in [(Kind::D, &self.dfas), (Kind::N, &self.nfas)] {
            for (h, it) in m {
                match &it.now {
                    Some(f) => {
                        let g = Self::read(what, *h, k)?;
                        ensure!(g == *f, "after {what}: handle {h} denotes {g:?}, it was {f:?}");
                    }
                    None => ensure!(Self::table(*h, k).is_some(), "after {what}: handle {h} is gone"),
                }
            }
        }
        for h in self.issued.iter().copied().chain([0, usize::MAX, self.issued.iter().max().map_or(1, |m| m + 1)]) {
            if !self.dfas.contains_key(&h) {
                ensure!(dfa_to_table(h).is_none(), "after {what}: {h} is not a live DFA, yet its table is printed");
            }
            if !self.nfas.contains_key(&h) {
                ensure!(nfa_to_table(h).is_none(), "after {what}: {h} is not a live NFA, yet its table is printed");
            }
        }
        Ok(())
    }
}

#[derive(Clone, Serialize, Deserialize)]
struct History {
    ops: Vec<Op>,
}

fn handle(s: &mut Src) -> H {
    match s.weighted(&[8, 4, 1]) {
        0 => H::Live(s.below(16) as u8),
        1 => H::Issued(s.below(32) as u8),
        _ => H::Raw(*s.pick(&[0, 1, 2, 3, 5, 1000, u32::MAX as u64, u64::MAX, i64::MAX as u64])),
    }
}

const REPLACE: &[&str] = &["", "->", "*", "ε", "{", "}", "a", "q0", "#", "\n", " ", "(", "|", ")", "\\", "+"];

/// spoils a text somewhere; what the result means is for the reader to say
fn spoil(s: &mut Src, t: &str) -> String {
    let cs: Vec<char> = t.chars().collect();
    if cs.is_empty() {
        return s.pick(REPLACE).to_string();
    }
    let at = s.us(cs.len());
    let len = if s.flip() { 1 } else { 0 };
    let mut out: String = cs[..at].iter().collect();
    out.push_str(s.pick(REPLACE));
    out.extend(&cs[(at + len).min(cs.len())..]);
    out
}

struct Handles;

impl Prop for Handles {
    type Case = History;
    fn id(&self) -> &'static str {
        "C33"
    }
    fn rule(&self) -> &'static str {
        "Stateful: sequences of 1-40 (one in 300: 200-400) binding calls (load valid and spoilt tables and regular expressions, convert, minimise, compare, print, delete) on handles that are live, deleted, of another kind, or never issued. After every call each live handle must denote the automaton of the model, every other number must be unknown, and results must equal those of the reference; a converted NFA must have the states that the library's conversion gives. Non-trivial: at least two conversions or minimisations on live handles, at least one deletion of a live handle, and a call after it on a handle that is not live."
    }
    fn quick_cases(&self) -> usize {
        30_000
    }
    fn gen(&self, s: &mut Src) -> History {
        let k = s.range(1, 3);
        let style = if s.flip() { AlphaStyle::Plain } else { AlphaStyle::Clusters };
        let alpha = alphabet(s, k, style);
        let n = if s.chance(1, 300) { s.range(200, 400) } else { s.range(1, 6 + s.size as usize / 3) };
        let mut texts: Vec<(u8, String)> = vec![];
        let ops = (0..n)
            .map(|i| {
                let w: &[u64] = if i < 2 {
                    &[4, 4, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]
                } else if n > 100 {
                    // handles add up
                    &[8, 8, 6, 1, 1, 1, 3, 1, 1, 8, 8, 8, 1, 1]
                } else { &[6, 6, 5, 4, 4, 3, 6, 6, 6, 6, 6, 6, 2, 2] };
                let op = s.weighted(w);
                match op {
                    0..=2 => {
                        let kind = if s.chance(1, 12) { s.us(3) } else { op };
                        let repeat = !texts.is_empty() && s.chance(1, 4);
                        let mut t = if repeat {
                            let same: Vec<&(u8, String)> = texts.iter().filter(|t| t.0 == op as u8).collect();
                            if same.is_empty() || s.chance(1, 6) {
                                s.pick(&texts).1.clone()
                            } else {
                                s.pick(&same).1.clone()
                            }
                        } else if kind == 2 {
                            let st = rx::RxStyle { ops: s.chance(1, 5), odd: false, merging: false, degenerate: false };
                            let mut budget = 10;
                            let p: Vec<String> = if st.ops { rx::pool(s, st) } else { alpha.iter().filter(|a| !rx::OPS.contains(&a.chars().next().unwrap())).cloned().collect() };
                            let p = if p.is_empty() { vec!["a".to_string()] } else { p };
                            let x = rx::gen(s, st, &p, 4, &mut budget);
                            let style: Vec<u8> = (0..s.us(10)).map(|_| s.below(80) as u8).collect();
                            let mut t = String::new();
                            rx::print(&x, Ctx::Top, &mut Listed(&style, 0), &mut t);
                            t
                        } else {
                            let over = if s.chance(1, 6) { alphabet(s, k, AlphaStyle::Any) } else { alpha.clone() };
                            let f = if kind == 0 { dfa_over(s, over, 7) } else { nfa_over(s, over, 5, Eps::Maybe) };
                            f.text(kind == 0)
                        };
                        if s.chance(1, 6) {
                            t = spoil(s, &t);
                        }
                        texts.push((op as u8, t.clone()));
                        match op {
                            0 => Op::LoadDfa(t),
                            1 => Op::LoadNfa(t),
                            _ => Op::LoadRegex(t),
                        }
                    }
                    3 => Op::DelDfa(handle(s)),
                    4 => Op::DelNfa(handle(s)),
                    5 => Op::DelRegex(handle(s)),
                    6 => Op::Minimize(handle(s)),
                    7 => Op::EqDfa(handle(s), handle(s)),
                    8 => Op::EqNfa(handle(s), handle(s)),
                    9 => Op::DfaToNfa(handle(s)),
                    10 => Op::NfaToDfa(handle(s)),
                    11 => Op::RegexToNfa(handle(s)),
                    12 => Op::DfaTable(handle(s)),
                    _ => Op::NfaTable(handle(s)),
                }
            })
            .collect();
        History { ops }
    }
    fn simplify(&self, c: &History) -> Vec<History> {
        let mut out = vec![];
        let n = c.ops.len();
        let mut w = n / 2;
        while w > 0 {
            for at in (0..n).step_by(w) {
                let mut ops = c.ops.clone();
                ops.drain(at..(at + w).min(n));
                out.push(History { ops });
            }
            w /= 2;
        }
        const SIMPLE: &[&str] = &["a\n-> q0 q0\n", "a\n-> q0 {q0}\n", "a"];
        for i in 0..n {
            let t = match &c.ops[i] {
                Op::LoadDfa(t) if t != SIMPLE[0] => Op::LoadDfa(SIMPLE[0].into()),
                Op::LoadNfa(t) if t != SIMPLE[1] => Op::LoadNfa(SIMPLE[1].into()),
                Op::LoadRegex(t) if t != SIMPLE[2] => Op::LoadRegex(SIMPLE[2].into()),
                _ => continue,
            };
            let mut ops = c.ops.clone();
            ops[i] = t;
            out.push(History { ops });
        }
        out
    }
    fn check(&self, c: &History, o: &mut Obs) -> R {
        let mut w = World::default();
        let (mut changes, mut deletions, mut misses) = (0, 0, 0);
        for (i, op) in c.ops.iter().enumerate() {
            // texts whose meaning is not settled are left out
            let what = one_line(&format!("{op:?}"), 200);
            let what = what.as_str();
            let mut miss = false;
            match op {
                Op::LoadDfa(t) | Op::LoadNfa(t) => {
                    let dfa = matches!(op, Op::LoadDfa(_));
                    let class = tabletext::read(t, dfa);
                    if matches!(class, Class::Unsettled(_)) {
                        o.label("text left out");
                        continue;
                    }
                    let got = if dfa { load_dfa(t) } else { load_nfa(t) };
                    match (class, got) {
                        (Class::Valid(f), Ok(h)) => {
                            let lang = f.det()?;
                            w.add(what, h, if dfa { Kind::D } else { Kind::N }, lang, Some(&f))?;
                        }
                        (Class::Valid(_), Err(e)) => return fail(format!("{what}: a valid table is rejected: {e}")),
                        (_, Ok(_)) => return fail(format!("{what}: an invalid table is loaded")),
                        (_, Err(_)) => o.label("invalid text"),
                    }
                }
                Op::LoadRegex(t) => match (rx::read(t), ()) {
                    (Read::Unsettled(_), _) => {
                        o.label("text left out");
                        continue;
                    }
                    (Read::Tree(x), _) => match load_regex(t) {
                        Ok(h) => {
                            w.fresh(what, h)?;
                            w.regexes.insert(h, x.det()?);
                        }
                        Err(e) => return fail(format!("{what}: a valid regular expression is rejected: {e}")),
                    },
                    (Read::Reject(why), _) => {
                        ensure!(load_regex(t).is_err(), "{what}: an invalid regular expression ({why}) is loaded");
                        o.label("invalid text");
                    }
                },
                Op::DelDfa(h) | Op::DelNfa(h) | Op::DelRegex(h) => {
                    let (k, f): (Kind, fn(usize) -> bool) = match op {
                        Op::DelDfa(_) => (Kind::D, delete_dfa),
                        Op::DelNfa(_) => (Kind::N, delete_nfa),
                        _ => (Kind::R, delete_regex),
                    };
                    let h = w.h(h, k);
                    let got = f(h);
                    if k == Kind::R && w.spent.remove(&h).is_some() {
                        w.dead.insert(h);
                    } else {
                        let had = w.live(k).contains(&h);
                        ensure!(got == had, "{what}: deleting {h} returned {got}");
                        match k {
                            Kind::D => drop(w.dfas.remove(&h)),
                            Kind::N => drop(w.nfas.remove(&h)),
                            Kind::R => drop(w.regexes.remove(&h)),
                        }
                        if had {
                            w.dead.insert(h);
                            deletions += 1;
                        } else {
                            miss = true;
                        }
                    }
                }
                Op::Minimize(h) => {
                    let h = w.h(h, Kind::D);
                    let got = minimize_dfa(h);
                    ensure!(got == w.dfas.contains_key(&h), "{what}: minimize_dfa({h}) returned {got}");
                    miss = !got;
                    if let Some(it) = w.dfas.get_mut(&h) {
                        changes += 1;
                        if it.now.is_some() {
                            let f = World::read(what, h, Kind::D)?;
                            same_language(what, &f, &it.lang)?;
                            let least = it.lang.canon().n();
                            ensure!(f.n() == least, "{what}: minimised to {} states, {least} are enough", f.n());
                            it.now = Some(f);
                        }
                    }
                }
                Op::EqDfa(a, b) | Op::EqNfa(a, b) => {
                    let dfa = matches!(op, Op::EqDfa(..));
                    let k = if dfa { Kind::D } else { Kind::N };
                    let (a, b) = (w.h(a, k), w.h(b, k));
                    let got = if dfa { check_dfa_eq(a, b) } else { check_nfa_eq(a, b) };
                    let m = if dfa { &w.dfas } else { &w.nfas };
                    let want = match (m.get(&a), m.get(&b)) {
                        (Some(x), Some(y)) => Some(equal(&x.lang, &y.lang)?),
                        _ => None,
                    };
                    miss = want.is_none();
                    o.label_if(want == Some(true) && a != b, "equal automata compared");
                    o.label_if(want == Some(false), "different automata compared");
                    ensure!(got == want, "{what}: comparing {a} with {b} gave {got:?}, expected {want:?}");
                }
                Op::DfaToNfa(h) => {
                    let h = w.h(h, Kind::D);
                    let got = dfa_to_nfa(h);
                    match (w.dfas.get(&h), got) {
                        (Some(it), Some(n)) => {
                            let (lang, now) = (it.lang.clone(), it.now.clone());
                            w.add(what, n, Kind::N, lang, now.as_ref())?;
                            changes += 1;
                        }
                        (None, None) => miss = true,
                        (want, got) => return fail(format!("{what}: dfa_to_nfa({h}) gave {got:?}, the handle is {}", if want.is_some() { "live" } else { "not a live DFA" })),
                    }
                }
                Op::NfaToDfa(h) => {
                    let h = w.h(h, Kind::N);
                    let got = nfa_to_dfa(h);
                    match (w.nfas.get(&h), got) {
                        (Some(it), Some(n)) => {
                            let (lang, now) = (it.lang.clone(), it.now.clone());
                            w.add(what, n, Kind::D, lang, None)?;
                            changes += 1;
                            // the same states as the library's conversion
                            if let (Some(f), Some(Item { now: Some(got), .. })) = (now, w.dfas.get(&n)) {
                                let want = Fa::from_dfa(&f.nfa()?.to_dfa())?;
                                let (x, y) = (got.det()?, want.det()?);
                                ensure!(
                                    got.n() == want.n() && got.alpha == want.alpha && x.tr == y.tr && x.acc == y.acc,
                                    "{what}: the DFA has the states {:?}, converted by the library it has {:?}",
                                    got.names,
                                    want.names
                                );
                            }
                        }
                        (None, None) => miss = true,
                        (want, got) => return fail(format!("{what}: nfa_to_dfa({h}) gave {got:?}, the handle is {}", if want.is_some() { "live" } else { "not a live NFA" })),
                    }
                }
                Op::RegexToNfa(h) => {
                    let h = w.h(h, Kind::R);
                    let got = regex_to_nfa(h);
                    match (w.regexes.remove(&h), w.spent.get(&h).cloned(), got) {
                        (Some(lang), _, Some(n)) => {
                            w.spent.insert(h, lang.clone());
                            w.add(what, n, Kind::N, lang, None)?;
                            changes += 1;
                        }
                        (None, Some(lang), Some(n)) => w.add(what, n, Kind::N, lang, None)?,
                        (None, _, None) => miss = true,
                        (Some(_), _, None) => return fail(format!("{what}: {h} is a live regular expression, but is not converted")),
                        (None, None, Some(n)) => return fail(format!("{what}: {h} is not a live regular expression, yet it is converted to {n}")),
                    }
                }
                Op::DfaTable(h) => {
                    let h = w.h(h, Kind::D);
                    ensure!(dfa_to_table(h).is_some() == w.dfas.contains_key(&h), "{what}: dfa_to_table({h})");
                }
                Op::NfaTable(h) => {
                    let h = w.h(h, Kind::N);
                    ensure!(nfa_to_table(h).is_some() == w.nfas.contains_key(&h), "{what}: nfa_to_table({h})");
                }
            }
            if miss && deletions > 0 {
                misses += 1;
            }
            // long histories are looked at now and then
            if c.ops.len() < 100 || i % 29 == 28 || i + 1 == c.ops.len() {
                w.audit(what)?;
            }
        }
        // regular expressions show their language only when converted
        for (h, lang) in std::mem::take(&mut w.regexes) {
            match regex_to_nfa(h) {
                Some(n) => w.add("converting what is left", n, Kind::N, lang, None)?,
                None => return fail(format!("regular expression {h} was lost")),
            }
        }
        w.audit("converting what is left")?;
        o.max("calls", c.ops.len() as u64);
        o.max("handles issued", w.issued.len() as u64);
        o.nontrivial(changes >= 2 && deletions >= 1 && misses >= 1);
        Ok(())
    }
}

fn main() {
    std::process::exit(cli_main(
        &["C33"],
        |_, cfg, inner| Some(if inner { run_check(Handles, &cfg) } else { supervise(Handles, &cfg) }),
        |_, v, p| Some(run_replay(Handles, &v, &p)),
    ));
}
