//! C26: word enumeration.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
pub struct EnumCase {
    pub fa: Fa,
    pub n: usize,
    /// words that are skipped
    #[serde(default)]
    pub jump: usize,
}

/// unary-ish automata whose word lengths leave long gaps
fn gaps(s: &mut Src) -> Fa {
    let k = s.range(1, 3);
    let alpha = alphabet(s, k, AlphaStyle::Any);
    let tail = s.us(5);
    let cyc = s.range(1, 12);
    let n = tail + cyc + s.us(4);
    let mut f = Fa { alpha, names: names(s, n), init: 0, acc: vec![false; n], eps: vec![vec![]; n], tr: vec![vec![vec![]; k]; n] };
    for i in 0..tail + cyc {
        let t = if i + 1 == tail + cyc { tail } else { i + 1 };
        for c in 0..k {
            if c == 0 || s.chance(1, 4) {
                f.tr[i][c].push(t);
            }
        }
    }
    let a = s.us(tail + cyc);
    f.acc[a] = true;
    if s.chance(1, 3) {
        let b = s.us(n);
        f.acc[b] = true;
    }
    if s.chance(1, 3) {
        f.init = s.us(n);
    }
    f
}

pub struct Enum;

impl Prop for Enum {
    type Case = EnumCase;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "Random ε-free NFAs (1-14 states, occasionally 40, now and then 31-259 in long chains; 0-5 symbols, occasionally 20, also symbols whose concatenation is ambiguous), finite and infinite languages, word lengths with long gaps, unreachable and dead parts. The first n words (n up to 400, occasionally 5000) of all three views are compared one by one with the reference enumeration of the determinised automaton; a finite language must end exactly after its last word and stay ended. In a third of the cases the words are also skipped through in steps, counted, and compared with the size hints. Non-trivial: at least two different word lengths are seen."
    }
    fn quick_cases(&self) -> usize {
        20_000
    }
    fn gen(&self, s: &mut Src) -> EnumCase {
        let fa = match s.weighted(&[20, 5, 2, 2, 2]) {
            0 => nfa(s, &Lim::new(14, 5).wide().tall(200), Eps::No),
            1 => gaps(s),
            2 => nfa(s, &Lim::new(6, 20), Eps::No),
            3 => nfa(s, &Lim::new(40, 2), Eps::No),
            _ => nfa(s, &Lim::new(5, 2).min_k(0), Eps::No),
        };
        let n = match s.weighted(&[10, 10, 1]) {
            _ if fa.k() > 20 => s.us(400),
            0 => s.us(60),
            1 => s.us(400),
            _ => s.us(5000),
        };
        let jump = if s.chance(1, 3) { 1 + s.skewed(0, 30) } else { 0 };
        EnumCase { fa, n, jump }
    }
    fn simplify(&self, c: &EnumCase) -> Vec<EnumCase> {
        let mut out: Vec<EnumCase> = simplify_fa(&c.fa, false).into_iter().map(|fa| EnumCase { fa, ..c.clone() }).collect();
        for n in [c.n / 2, c.n.saturating_sub(1)] {
            if n < c.n {
                out.push(EnumCase { n, ..c.clone() });
            }
        }
        if c.jump > 0 {
            out.push(EnumCase { jump: c.jump - 1, ..c.clone() });
        }
        out
    }
    fn check(&self, c: &EnumCase, o: &mut Obs) -> R {
        let f = &c.fa;
        if f.has_eps() {
            return discard("ε-moves");
        }
        f.tame()?;
        let n = f.nfa()?;
        let d = f.det()?;
        let mut reference = Enumerate::new(&d);
        let mut ws = n.words();
        let mut cs = n.word_components();
        let mut is = n.word_component_indices();
        let mut lens = std::collections::BTreeSet::new();
        let mut ended = false;
        let mut all: Vec<Vec<usize>> = vec![];
        // cap on the library's work, long words are slow for it
        let edges = f.tr.iter().flatten().flatten().count() + f.n();
        let mut budget = if c.n % 16 == 7 || c.n > 400 { 4_000_000usize } else { 250_000 };
        for i in 0..c.n {
            let want = reference.next();
            let wi = is.next();
            let wc = cs.next();
            let w = ws.next();
            match want {
                Some(x) => {
                    let syms = d.word(&x);
                    ensure!(wi.as_ref() == Some(&x), "word {i} by indices is {wi:?}, expected {x:?} ({syms:?})");
                    let gc: Option<Vec<String>> = wc.map(|v| v.iter().map(|s| s.to_string()).collect());
                    ensure!(gc.as_ref() == Some(&syms), "word {i} by symbols is {gc:?}, expected {syms:?}");
                    ensure!(w.as_deref() == Some(syms.concat().as_str()), "word {i} as string is {w:?}, expected {:?}", syms.concat());
                    lens.insert(x.len());
                    all.push(x.clone());
                    o.max("word length", x.len() as u64);
                    budget = budget.saturating_sub((x.len() + 1) * (x.len() + 1) * edges + f.n());
                    if budget == 0 {
                        break;
                    }
                }
                None => {
                    ensure!(wi.is_none() && wc.is_none() && w.is_none(), "the language has {i} words, but enumeration continues with {wi:?} / {wc:?} / {w:?}");
                    for _ in 0..3 {
                        ensure!(is.next().is_none() && cs.next().is_none() && ws.next().is_none(), "enumeration resumes after its end");
                    }
                    ended = true;
                    break;
                }
            }
        }
        // skipping is the same as not looking
        let string = |x: &Vec<usize>| d.word(x).concat();
        let comps = |v: Vec<std::rc::Rc<str>>| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        if c.jump > 0 {
            let j = c.jump;
            let (mut ws, mut cs, mut is) = (n.words(), n.word_components(), n.word_component_indices());
            let mut at = 0;
            // (what lies beyond the words that were compared is not known, unless there are no more)
            while at + j < all.len() || ended && at < all.len() + 2 {
                at += j;
                let want = all.get(at);
                at += 1;
                let (w, v, i) = (ws.nth(j), cs.nth(j), is.nth(j));
                ensure!(
                    i.as_ref() == want && v.map(comps) == want.map(|x| d.word(x)) && w == want.map(string),
                    "after skipping to word {}, the words are {i:?} and {w:?}, expected {want:?}",
                    at - 1
                );
                o.label("words skipped");
            }
            for (i, hint) in [n.words().size_hint(), n.word_components().size_hint(), n.word_component_indices().size_hint()].into_iter().enumerate() {
                let (lo, hi) = hint;
                let least = all.len();
                ensure!(!ended || lo <= all.len(), "iterator {i} promises {lo} words of {}", all.len());
                ensure!(hi.is_none_or(|h| h >= least && (ended || d.is_finite())), "iterator {i} promises at most {hi:?} words, there are {least} at least");
            }
            if ended {
                let (ws, cs, is) = (n.words(), n.word_components(), n.word_component_indices());
                let lens = (ws.count(), cs.count(), is.count());
                ensure!(lens == (all.len(), all.len(), all.len()), "the iterators count {lens:?} words of {}", all.len());
                let (ws, cs, is) = (n.words(), n.word_components(), n.word_component_indices());
                ensure!(is.last().as_ref() == all.last() && cs.last().map(comps) == all.last().map(|x| d.word(x)) && ws.last() == all.last().map(string), "the last word is another one");
            }
        }
        o.label(if ended {
            "finite, enumerated completely"
        } else if d.is_finite() {
            "finite, not enumerated completely"
        } else {
            "infinite"
        });
        o.max("words", c.n as u64);
        o.nontrivial(lens.len() >= 2);
        Ok(())
    }
}
