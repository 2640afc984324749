//! C17, C18: equivalence.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
pub struct Pair {
    pub a: Fa,
    pub b: Fa,
}

pub fn simplify_pair(c: &Pair, dfa: bool) -> Vec<Pair> {
    let mut out = vec![];
    for a in simplify_fa(&c.a, dfa) {
        if a.alpha == c.a.alpha {
            out.push(Pair { a, b: c.b.clone() });
        } else if a.k() == c.a.k() && c.a.alpha == c.b.alpha {
            // renamed symbols: rename in both
            let mut b = c.b.clone();
            b.alpha = a.alpha.clone();
            out.push(Pair { a, b });
        }
    }
    for b in simplify_fa(&c.b, dfa) {
        if b.alpha == c.b.alpha {
            out.push(Pair { a: c.a.clone(), b });
        }
    }
    // drop the same symbol from both
    if c.a.k() > 1 && c.a.same_alphabet_set(&c.b) {
        for x in &c.a.alpha {
            let drop = |f: &Fa| {
                let i = f.sym(x).unwrap();
                let mut g = f.clone();
                g.alpha.remove(i);
                g.tr.iter_mut().for_each(|r| {
                    r.remove(i);
                });
                g
            };
            out.push(Pair { a: drop(&c.a), b: drop(&c.b) });
        }
    }
    out
}

pub fn model_equivalent(a: &Fa, b: &Fa) -> R<Option<bool>> {
    if !a.same_alphabet_set(b) {
        return Ok(None);
    }
    let x = a.det()?;
    let y = b.det_over(&a.alpha)?;
    Ok(Some(find_word(&[&x, &y], &|v| v[0] == v[1])?.is_none()))
}

macro_rules! equivalence {
    ($name:ident, $id:literal, $dfa:literal, $build:ident, $n:literal, $rule:literal, $gen:expr) => {
        pub struct $name;
        impl Prop for $name {
            type Case = Pair;
            fn id(&self) -> &'static str {
                $id
            }
            fn rule(&self) -> &'static str {
                $rule
            }
            fn quick_cases(&self) -> usize {
                $n
            }
            fn gen(&self, s: &mut Src) -> Pair {
                let f: fn(&mut Src) -> Pair = $gen;
                f(s)
            }
            fn simplify(&self, c: &Pair) -> Vec<Pair> {
                simplify_pair(c, $dfa)
            }
            fn check(&self, c: &Pair, o: &mut Obs) -> R {
                c.a.tame()?;
                c.b.tame()?;
                let (a, b) = (c.a.$build()?, c.b.$build()?);
                let m = model_equivalent(&c.a, &c.b)?;
                let want = m == Some(true);
                let why = match m {
                    None => "the alphabets differ",
                    Some(true) => "the languages are equal",
                    Some(false) => "the languages differ",
                };
                ensure!(a.equivalent_to(&b) == want, "a.equivalent_to(b) is {}, but {why}", !want);
                ensure!(b.equivalent_to(&a) == want, "b.equivalent_to(a) is {}, but {why}", !want);
                ensure!(a.equivalent_to(&a), "a is not equivalent to itself");
                ensure!(b.equivalent_to(&b.clone()), "b is not equivalent to its clone");
                o.label(why);
                o.label_if(c.a.alpha != c.b.alpha && m.is_some(), "alphabet in another order");
                o.max("states", c.a.n().max(c.b.n()) as u64);
                o.nontrivial(m.is_some() && c.a != c.b && c.a.n() >= 2 && c.b.n() >= 2);
                if m == Some(false) {
                    let x = c.a.det()?;
                    let y = c.b.det_over(&c.a.alpha)?;
                    if let Some(w) = find_word(&[&x, &y], &|v| v[0] == v[1])? {
                        o.max("shortest distinguishing word", w.len() as u64);
                    }
                }
                Ok(())
            }
        }
    };
}

equivalence!(
    DfaEquiv,
    "C17",
    true,
    dfa,
    120_000,
    "Pairs of random DFAs (1-30 states, occasionally 150, now and then 31-259 in long chains, or 255-2051 in long ways and cycles with a difference, if any, at the end; 1-6 symbols, occasionally 26, one in 60 up to 260, one in 150 none): independent, language-preserving rewrites (duplicated and unreachable states, renamed, permuted states and alphabets), rewrites with one or two small mutations, and copies over a different alphabet (a symbol more, less, another, nearly the same, or the same text divided elsewhere). The verdict in both directions, and reflexivity, are compared with the exact reference decision. Non-trivial: equal alphabets as sets, both with two or more states and not textually identical.",
    |s| {
        let lim = match s.weighted(&[30, 2, 1]) {
            0 => Lim::new(if s.flip() { 7 } else { 30 }, 6).wide().tall(120).bare().late(400),
            1 => Lim::new(10, 26),
            _ => Lim::new(150, 3),
        };
        let (a, b, _) = pair(s, &lim, true, Eps::No, 8);
        if s.flip() { Pair { a, b } } else { Pair { a: b, b: a } }
    }
);

equivalence!(
    NfaEquiv,
    "C18",
    false,
    nfa,
    100_000,
    "Pairs of random NFAs (1-10 states, occasionally 30, now and then 31-259 in long chains, 60-360 all entered at once, or 255-2051 in long ways or several coprime cycles with a difference, if any, after hundreds or thousands of steps; 0-4 symbols, occasionally 14, one in 60 up to 260), with and without ε-moves: independent, language-preserving rewrites (duplicated states, ε-detours, unreachable states, renamed, permuted), mutated rewrites, and copies over a different alphabet (a symbol more, less, another, nearly the same, or the same text divided elsewhere). The verdict in both directions, and reflexivity, are compared with the exact reference decision. Non-trivial: equal alphabets as sets, both with two or more states and not textually identical.",
    |s| {
        let lim = match s.weighted(&[30, 2, 2, 3]) {
            0 => Lim::new(10, 4).wide().tall(120).crowd(400).late(400),
            1 => Lim::new(6, 14),
            2 => Lim::new(30, 2),
            _ => Lim::new(6, 2).min_k(0),
        };
        let (a, b, _) = pair(s, &lim, false, Eps::Maybe, 8);
        if s.flip() { Pair { a, b } } else { Pair { a: b, b: a } }
    }
);
