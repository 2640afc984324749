//! C10, C11, C12: acceptance and evaluators.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::rx::{self, Rx, RxStyle};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Serialize, Deserialize)]
pub struct EvalCase {
    pub fa: Fa,
    pub words: Vec<Vec<String>>,
    pub cuts: Vec<usize>,
}

fn strs(w: &[String]) -> Vec<&str> {
    w.iter().map(|s| s.as_str()).collect()
}

fn gen_words(s: &mut Src, f: &Fa) -> Vec<Vec<String>> {
    let n = s.range(1, 6);
    let mut v: Vec<Vec<String>> = (0..n)
        .map(|_| {
            if !f.alpha.is_empty() && s.chance(1, 1500) {
                // a very long one, with an unknown string, if any, anywhere
                let len = match s.us(12) {
                    0 => 65_530 + s.us(12),
                    1..=3 => *s.pick(&[8192, 10_000, 16_384, 32_768]) + s.us(200),
                    _ => long_len(s),
                };
                let mut w: Vec<String> = (0..len).map(|_| s.pick(&f.alpha).clone()).collect();
                if s.chance(1, 4) {
                    let i = if s.flip() { len - 1 - s.us(3) } else { s.us(len) };
                    w[i] = unknown_symbol(s, &f.alpha);
                }
                return w;
            }
            let long = s.chance(1, 12);
            let unknown = *s.pick(&[0, 0, 0, 4, 20]);
            word(s, &f.alpha, if long { 300 } else { 12 }, unknown)
        })
        .collect();
    // words that the automaton accepts, from a random walk guided towards acceptance
    if let Ok(d) = f.det() {
        let want = s.us(3);
        for (i, w) in Enumerate::new(&d).take(40).enumerate() {
            if i % 13 == want {
                v.push(d.word(&w));
            }
        }
    }
    v
}

fn chunks<'a>(w: &'a [&'a str], cuts: &[usize]) -> Vec<&'a [&'a str]> {
    let mut out = vec![];
    let mut at = 0;
    for c in cuts {
        let e = (at + c).min(w.len());
        out.push(&w[at..e]);
        at = e;
    }
    out.push(&w[at..]);
    out
}

fn simplify_eval(c: &EvalCase, dfa: bool) -> Vec<EvalCase> {
    let mut out = vec![];
    if c.words.len() > 1 {
        for w in &c.words {
            out.push(EvalCase { words: vec![w.clone()], ..c.clone() });
        }
    }
    for i in 0..c.words.len() {
        let l = c.words[i].len();
        if l > 64 {
            for j in 0..16 {
                let mut d = c.clone();
                d.words[i].drain(l * j / 16..l * (j + 1) / 16);
                out.push(d);
            }
            continue;
        }
        for j in 0..l {
            let mut d = c.clone();
            d.words[i].remove(j);
            out.push(d);
        }
    }
    for f in simplify_fa(&c.fa, dfa) {
        if f.alpha == c.fa.alpha {
            out.push(EvalCase { fa: f, ..c.clone() });
        }
    }
    if !c.cuts.is_empty() {
        out.push(EvalCase { cuts: vec![], ..c.clone() });
    }
    out
}

pub struct DfaEval;

impl Prop for DfaEval {
    type Case = EvalCase;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "Random DFAs (1-40 states, occasionally 300; 1-6 symbols, occasionally 30, one in 60 up to 260) with up to 9 words each (length 0-12, one in 12 up to 300; unknown strings mixed in, half of them variants of symbols (other case, appended blanks, marks or selectors, prefixes, doublings); accepted words of the automaton added). Each word is run at once, symbol by symbol, in chunks, with clones and through step_all, against the table walked by the reference model. Non-trivial: at least two states, some word of length >= 2 over the alphabet is accepted and some word is rejected."
    }
    fn quick_cases(&self) -> usize {
        80_000
    }
    fn gen(&self, s: &mut Src) -> EvalCase {
        let lim = match s.weighted(&[40, 3, 1]) {
            0 => Lim::new(40, 6).wide().tall(100).bare(),
            1 => Lim::new(12, 30),
            _ => Lim::new(300, 4),
        };
        let fa = dfa(s, &lim);
        let words = gen_words(s, &fa);
        let n = s.us(5);
        let cuts = (0..n).map(|_| s.us(6)).collect();
        EvalCase { fa, words, cuts }
    }
    fn simplify(&self, c: &EvalCase) -> Vec<EvalCase> {
        simplify_eval(c, true)
    }
    fn check(&self, c: &EvalCase, o: &mut Obs) -> R {
        let f = &c.fa;
        let d = f.dfa()?;
        let (mut yes, mut no) = (false, false);
        for w in &c.words {
            let ws = strs(w);
            // reference run: state after every prefix, None after an unknown string
            let mut run: Vec<Option<usize>> = vec![Some(f.init)];
            for x in w {
                let last = *run.last().unwrap();
                run.push(match (last, f.sym(x)) {
                    (Some(s), Some(k)) => Some(f.tr[s][k][0]),
                    _ => None,
                });
            }
            let expect = run.last().unwrap().map_or(false, |s| f.acc[s]);
            let known = run.last().unwrap().is_some();
            yes |= expect && w.len() >= 2;
            no |= !expect;
            o.label(match (known, expect) {
                (false, _) => "word with unknown string",
                (_, true) => "accepted word",
                _ => "rejected word",
            });
            o.max("word length", w.len() as u64);
            ensure!(d.accepts(&ws) == expect, "accepts({ws:?}) is {}, the table says {expect}", !expect);

            let mut ev = d.evaluator();
            ensure!(ev.current_state_idx() == f.init, "fresh evaluator is not in the initial state");
            for (i, x) in ws.iter().enumerate() {
                let before = run[i];
                // clones and step_all must not disturb the original
                let snapshot = ev.clone();
                if i < 40 {
                    let all = ev.step_all();
                    ensure!(all.len() == f.k(), "step_all gives {} evaluators for {} symbols", all.len(), f.k());
                    for (k, e) in all.iter().enumerate() {
                        match before {
                            Some(s) => {
                                let t = f.tr[s][k][0];
                                ensure!(
                                    e.current_state().map(|q| q.name()) == Some(f.names[t].as_str()) && e.current_state_idx() == t && e.is_accepting() == f.acc[t],
                                    "after {:?}, step_all()[{k}] is in {:?}, expected {:?}",
                                    &ws[..i],
                                    e.current_state().map(|q| q.name()),
                                    f.names[t]
                                );
                            }
                            None => ensure!(!e.is_accepting() && e.current_state().is_none(), "step_all after an unknown string revived the evaluator"),
                        }
                    }
                }
                let got = ev.step(x).map(|q| q.name().to_string());
                let want = run[i + 1].map(|s| f.names[s].clone());
                ensure!(got == want, "after {:?}, step({x:?}) went to {got:?}, the table says {want:?}", &ws[..i]);
                ensure!(ev.current_state().map(|q| q.name().to_string()) == want, "current_state disagrees after {:?}", &ws[..=i]);
                ensure!(ev.is_accepting() == run[i + 1].map_or(false, |s| f.acc[s]), "is_accepting is wrong after {:?}", &ws[..=i]);
                if let Some(s) = run[i + 1] {
                    ensure!(ev.current_state_idx() == s, "current_state_idx is wrong after {:?}", &ws[..=i]);
                }
                ensure!(
                    snapshot.current_state().map(|q| q.name()) == before.map(|s| f.names[s].as_str()),
                    "a clone moved along with the original after {:?}",
                    &ws[..=i]
                );
                // the clone, stepped, agrees as well
                if i < 40 {
                    let mut sn = snapshot;
                    sn.step(x);
                    ensure!(sn.is_accepting() == ev.is_accepting(), "a clone stepped on {x:?} disagrees with the original");
                }
            }
            // chunks
            let mut ev = d.evaluator();
            let mut at = 0;
            for ch in chunks(&ws, &c.cuts) {
                let got = ev.step_multiple(ch).map(|q| q.name().to_string());
                at += ch.len();
                let want = run[at].map(|s| f.names[s].clone());
                // an empty chunk leaves the evaluator alone
                if !ch.is_empty() || run[at].is_some() {
                    ensure!(got == want, "step_multiple up to {:?} gave {got:?}, expected {want:?}", &ws[..at]);
                }
                ensure!(ev.is_accepting() == run[at].map_or(false, |s| f.acc[s]), "is_accepting is wrong after chunks {:?}", &ws[..at]);
            }
        }
        o.max("states", f.n() as u64);
        o.max("symbols", f.k() as u64);
        o.nontrivial(f.n() >= 2 && yes && no);
        Ok(())
    }
}

pub struct NfaEval;

impl Prop for NfaEval {
    type Case = EvalCase;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "Random NFAs (1-30 states, occasionally 100; one in 60 with up to 260 symbols; ε-moves absent, sparse, dense, chains and cycles; empty target sets; 0-6 symbols) with up to 9 words each as for C10. Acceptance, the evaluator's state set after every step, chunked stepping, clones, step_all and the ε-closure of every state are compared with the bit-set reference simulation. Non-trivial: at least two states, some step leads to a set of two or more states or through an ε-move, and both verdicts or an accepted word occur."
    }
    fn quick_cases(&self) -> usize {
        60_000
    }
    fn gen(&self, s: &mut Src) -> EvalCase {
        let lim = match s.weighted(&[40, 3, 1, 2]) {
            0 => Lim::new(30, 6).wide().tall(100).crowd(500),
            1 => Lim::new(12, 30),
            2 => Lim::new(100, 3),
            _ => Lim::new(8, 2).min_k(0),
        };
        let fa = nfa(s, &lim, Eps::Maybe);
        let words = gen_words(s, &fa);
        let n = s.us(5);
        let cuts = (0..n).map(|_| s.us(6)).collect();
        EvalCase { fa, words, cuts }
    }
    fn simplify(&self, c: &EvalCase) -> Vec<EvalCase> {
        simplify_eval(c, false)
    }
    fn check(&self, c: &EvalCase, o: &mut Obs) -> R {
        let f = &c.fa;
        let d = f.nfa()?;
        ensure!(d.has_epsilon_moves() == f.has_eps(), "has_epsilon_moves is {}", !f.has_eps());
        // closures
        for i in 0..f.n() {
            let mut b = bs_new(f.n());
            bs_set(&mut b, i);
            f.close(&mut b);
            let want: BTreeSet<usize> = bs_iter(&b).into_iter().collect();
            let got: BTreeSet<usize> = match d.closure(i) {
                Some(x) => x.into_iter().collect(),
                None => return fail(format!("closure({i}) is None for an existing state")),
            };
            ensure!(got == want, "closure({i}) is {got:?}, expected {want:?}");
        }
        for i in [f.n(), f.n() + 7] {
            ensure!(d.closure(i).is_none(), "closure({i}) exists but there are only {} states", f.n());
        }
        let set = |h: &HashSet<usize>| h.iter().copied().collect::<BTreeSet<usize>>();
        let (mut yes, mut multi) = (false, f.has_eps());
        for w in &c.words {
            let ws = strs(w);
            let mut run: Vec<Option<Bs>> = vec![Some(f.start())];
            for x in w {
                let last = run.last().unwrap();
                let nx = match (last, f.sym(x)) {
                    (Some(s), Some(k)) => Some(f.step(s, k)),
                    _ => None,
                };
                run.push(nx);
            }
            let acc = |b: &Option<Bs>| b.as_ref().map_or(false, |b| f.accepting(b));
            let expect = acc(run.last().unwrap());
            yes |= expect;
            o.label(match (run.last().unwrap().is_some(), expect) {
                (false, _) => "word with unknown string",
                (_, true) => "accepted word",
                _ => "rejected word",
            });
            o.max("word length", w.len() as u64);
            ensure!(d.accepts(&ws) == expect, "accepts({ws:?}) is {}, a run {}", !expect, if expect { "exists" } else { "does not exist" });
            let same = |what: &str, ev: &dandy::nfa::eval::NfaEvaluator, b: &Option<Bs>, at: usize| -> R {
                ensure!(ev.is_accepting() == acc(b), "{what}: is_accepting is wrong after {:?}", &ws[..at]);
                if let Some(b) = b {
                    let want: BTreeSet<usize> = bs_iter(b).into_iter().collect();
                    ensure!(set(ev.current_states_idx()) == want, "{what}: states after {:?} are {:?}, expected {want:?}", &ws[..at], set(ev.current_states_idx()));
                    let got: BTreeSet<String> = ev.current_states().iter().map(|s| s.name().to_string()).collect();
                    let wn: BTreeSet<String> = want.iter().map(|i| f.names[*i].clone()).collect();
                    ensure!(got == wn && ev.current_states().len() == want.len(), "{what}: current_states after {:?} are {got:?}, expected {wn:?}", &ws[..at]);
                }
                Ok(())
            };
            let mut ev = d.evaluator();
            same("fresh evaluator", &ev, &run[0], 0)?;
            for (i, x) in ws.iter().enumerate() {
                if i < 30 && run[i].is_some() {
                    let all = ev.step_all();
                    ensure!(all.len() == f.k(), "step_all gives {} evaluators for {} symbols", all.len(), f.k());
                    for (k, e) in all.iter().enumerate() {
                        let t = f.step(run[i].as_ref().unwrap(), k);
                        multi |= bs_iter(&t).len() >= 2;
                        same(&format!("step_all()[{k}]"), e, &Some(t), i)?;
                    }
                }
                let snapshot = ev.clone();
                let r = ev.step(x);
                if run[i].is_some() {
                    ensure!(r.is_some() == f.sym(x).is_some(), "step({x:?}) returned {r:?} after {:?}", &ws[..i]);
                }
                same("step", &ev, &run[i + 1], i + 1)?;
                same("clone", &snapshot, &run[i], i)?;
            }
            let mut ev = d.evaluator();
            let mut at = 0;
            for ch in chunks(&ws, &c.cuts) {
                let r = ev.step_multiple(ch);
                at += ch.len();
                if run[at].is_some() {
                    ensure!(r.is_some(), "step_multiple failed on known symbols up to {:?}", &ws[..at]);
                }
                same("step_multiple", &ev, &run[at], at)?;
            }
        }
        o.label_if(f.has_eps(), "with ε-moves");
        o.max("states", f.n() as u64);
        o.max("symbols", f.k() as u64);
        o.nontrivial(f.n() >= 2 && multi && yes);
        Ok(())
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct GraphemeCase {
    pub fa: Fa,
    pub dfa: bool,
    pub strings: Vec<String>,
    /// in place of the automaton: an expression, the only way to symbols with blanks
    #[serde(default)]
    pub rx: Option<Rx>,
}

pub struct Graphemes;

const PIECES: &[&str] = &[
    "a", "b", "e", "e\u{301}", "\u{301}", "\r\n", "\r", "\n", " ", "\t", "👍", "👍🏽", "🏽", "👨\u{200d}👩\u{200d}👧", "\u{200d}", "🇸", "🇪", "🇸🇪", "한", "ᄒ", "ᅡ", "ᆫ", "क", "\u{94d}", "क्ष",
    "\u{600}", "1", "å", "a\u{30a}", "\u{fe0f}", "❤", "❤\u{fe0f}", "\u{0}", "日", "本", "นำ", "ก", "ำ", "\u{e0020}", "🏴", "ab", "",
];

impl Prop for Graphemes {
    type Case = GraphemeCase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "DFAs and NFAs whose symbols are drawn from single clusters (combining marks, emoji sequences, flags, Hangul jamo, Indic conjuncts), fragments of clusters and multi-cluster strings; strings concatenated from such pieces so that clusters form across piece boundaries. A third of the automata are those of random expression trees instead, with symbols that tables cannot express (CRLF, CR, LF, blanks, reserved characters). Acceptance of the string is compared with reference acceptance of its extended grapheme clusters (unicode-segmentation as the definition of clusters), graphemes_only with the cluster count of every symbol. Non-trivial: some string has a cluster of two or more characters that is in the alphabet."
    }
    fn quick_cases(&self) -> usize {
        120_000
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["unicode-segmentation, which the library also uses, defines extended grapheme clusters".into()]
    }
    fn gen(&self, s: &mut Src) -> GraphemeCase {
        let k = s.range(1, 5);
        let mut alpha: Vec<String> = if s.chance(1, 300) { vec![long_cluster(s)] } else { vec![] };
        while alpha.len() < k {
            let c = if s.chance(1, 6) {
                let a = *s.pick(PIECES);
                let b = *s.pick(PIECES);
                format!("{a}{b}")
            } else {
                s.pick(PIECES).to_string()
            };
            if expressible(&c) && !alpha.contains(&c) {
                alpha.push(c);
            } else {
                let c = format!("a{}", alpha.len());
                if s.chance(1, 8) {
                    alpha.push(c);
                }
            }
        }
        let dfa = s.flip();
        if s.chance(1, 3) {
            // symbols that a table cannot express
            let k = s.range(1, 5);
            let pool: Vec<String> = (0..k)
                .map(|_| match s.us(8) {
                    0 | 1 => s.pick(&["\r\n", "\r", "\n", " ", "\t", "#", "{", "}", "*", "ε", "->", "eps"]).to_string(),
                    2 => format!("{}{}", s.pick(PIECES), s.pick(PIECES)),
                    _ => s.pick(PIECES).to_string(),
                })
                .map(|x| if x.is_empty() { "a".to_string() } else { x })
                .collect();
            let st = RxStyle { ops: true, odd: true, merging: true, degenerate: false };
            let mut budget = 12;
            let depth = s.range(1, 4);
            let x = rx::gen(s, st, &pool, depth, &mut budget);
            let m = s.range(1, 5);
            let mut strings: Vec<String> = (0..m)
                .map(|_| {
                    let l = s.us(8);
                    (0..l).map(|_| if s.chance(4, 5) { s.pick(&pool).clone() } else { s.pick(PIECES).to_string() }).collect::<String>()
                })
                .collect();
            if let Ok(d) = x.det() {
                let want = s.us(3);
                for (i, w) in Enumerate::new(&d).take(12).enumerate() {
                    if i % 4 == want {
                        strings.push(d.word(&w).concat());
                    }
                }
            }
            return GraphemeCase { fa: x.fa(), dfa, strings, rx: Some(x) };
        }
        let fa = if dfa { dfa_over(s, alpha, 8) } else { nfa_over(s, alpha, 8, Eps::Maybe) };
        let m = s.range(1, 5);
        let strings = (0..m)
            .map(|_| {
                let long = s.chance(1, 700);
                let l = if long && s.chance(1, 2) {
                    *s.pick(&[8192, 10_000, 16_384, 32_768, 65_536]) + s.us(200)
                } else if long {
                    long_len(s)
                } else {
                    s.us(8)
                };
                // in long strings symbols that stay by themselves
                let calm: Vec<String> = fa.alpha.iter().filter(|x| long && format!("{x}{x}").graphemes(true).all(|g| g == *x)).cloned().collect();
                let pool = if calm.is_empty() { &fa.alpha } else { &calm };
                let other = if l > 5000 { 0 } else { 1 };
                (0..l)
                    .map(|_| if s.chance(if long { 10_000 - other } else { 6666 }, 10_000) { s.pick(pool).clone() } else { s.pick(PIECES).to_string() })
                    .collect::<String>()
            })
            .collect();
        GraphemeCase { fa, dfa, strings, rx: None }
    }
    fn simplify(&self, c: &GraphemeCase) -> Vec<GraphemeCase> {
        let mut out = vec![];
        for i in 0..c.strings.len() {
            if c.strings.len() > 1 {
                out.push(GraphemeCase { strings: vec![c.strings[i].clone()], ..c.clone() });
            }
            let l = c.strings[i].chars().count();
            if l > 64 {
                let cs: Vec<char> = c.strings[i].chars().collect();
                for j in 0..16 {
                    let mut d = c.clone();
                    d.strings[i] = cs[..l * j / 16].iter().chain(&cs[l * (j + 1) / 16..]).collect();
                    out.push(d);
                }
                continue;
            }
            for (j, _) in c.strings[i].char_indices() {
                let mut d = c.clone();
                d.strings[i].remove(j);
                out.push(d);
            }
        }
        if let Some(x) = &c.rx {
            for y in x.simplify() {
                out.push(GraphemeCase { fa: y.fa(), rx: Some(y), ..c.clone() });
            }
            return out;
        }
        for f in simplify_fa(&c.fa, c.dfa) {
            out.push(GraphemeCase { fa: f, ..c.clone() });
        }
        out
    }
    fn check(&self, c: &GraphemeCase, o: &mut Obs) -> R {
        let f = &c.fa;
        o.label(if c.rx.is_some() { "from an expression" } else { "from a table" });
        let (accept, only): (Box<dyn Fn(&str) -> bool>, bool) = if let Some(x) = &c.rx {
            let d = x.regex().to_nfa();
            if c.dfa {
                let d = d.to_dfa();
                let g = d.graphemes_only();
                (Box::new(move |s| d.accepts_graphemes(s)), g)
            } else {
                let g = d.graphemes_only();
                (Box::new(move |s| d.accepts_graphemes(s)), g)
            }
        } else if c.dfa {
            let d = f.dfa()?;
            let g = d.graphemes_only();
            (Box::new(move |s| d.accepts_graphemes(s)), g)
        } else {
            let d = f.nfa()?;
            let g = d.graphemes_only();
            (Box::new(move |s| d.accepts_graphemes(s)), g)
        };
        let want = f.alpha.iter().all(|a| a.graphemes(true).count() == 1);
        ensure!(only == want, "graphemes_only is {only} for {:?}", f.alpha);
        o.label(if want { "graphemes only" } else { "with multi-cluster symbols" });
        for st in &c.strings {
            let w: Vec<String> = st.graphemes(true).map(|x| x.to_string()).collect();
            let e = f.accepts(&w);
            ensure!(accept(st) == e, "accepts_graphemes({st:?}) is {}, its clusters are {w:?}", !e);
            o.label(if e { "accepted" } else { "rejected" });
            o.max("clusters", w.len() as u64);
            o.nontrivial(w.iter().any(|x| x.chars().count() > 1 && f.alpha.contains(x)));
        }
        Ok(())
    }
}
