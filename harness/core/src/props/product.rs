//! C19, C20, C21, C22: Boolean operations and products.

use super::equiv::{simplify_pair, Pair};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use dandy::dfa::DfaState;
use dandy::nfa::NfaState;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

fn dfa_pair(s: &mut Src) -> Pair {
    let lim = match s.weighted(&[30, 2, 1]) {
        0 => Lim::new(if s.flip() { 6 } else { 20 }, 5).wide().tall(150).bare().late(500),
        1 => Lim::new(8, 26),
        _ => Lim::new(60, 2),
    };
    let (a, b, _) = pair(s, &lim, true, Eps::No, 8);
    if s.flip() {
        Pair { a, b }
    } else {
        Pair { a: b, b: a }
    }
}

fn nfa_pair(s: &mut Src) -> Pair {
    let lim = match s.weighted(&[30, 2, 2, 3]) {
        0 => Lim::new(7, 4).wide().tall(200).late(500),
        1 => Lim::new(5, 14),
        2 => Lim::new(20, 2),
        _ => Lim::new(5, 2).min_k(0),
    };
    let (a, b, _) = pair(s, &lim, false, Eps::Maybe, 8);
    if s.flip() {
        Pair { a, b }
    } else {
        Pair { a: b, b: a }
    }
}

fn mixed(x: &Det) -> bool {
    let e = x.is_empty();
    let u = x.complement().is_empty();
    !e && !u
}

pub struct DfaBool;

impl Prop for DfaBool {
    type Case = Pair;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "Pairs of random DFAs as for C17 (up to 20 states, occasionally 60, now and then 31-259 in long chains, 255-2051 in long ways, or two coprime cycles; up to 5 symbols, occasionally 26, one in 60 up to 260, listed in different orders; state names also ones whose combinations are ambiguous; 8% with different alphabets). All four operations are compared with the reference product by exact language comparison over the full alphabet; operands must stay unchanged. Non-trivial: equal alphabets, both languages neither empty nor everything, and different from each other."
    }
    fn quick_cases(&self) -> usize {
        100_000
    }
    fn gen(&self, s: &mut Src) -> Pair {
        dfa_pair(s)
    }
    fn simplify(&self, c: &Pair) -> Vec<Pair> {
        simplify_pair(c, true)
    }
    fn check(&self, c: &Pair, o: &mut Obs) -> R {
        let (a, b) = (c.a.dfa()?, c.b.dfa()?);
        let ops: [(&str, Option<dandy::dfa::Dfa>, &dyn Fn(bool, bool) -> bool); 4] = [
            ("union", a.union(&b), &|x, y| x || y),
            ("intersection", a.intersection(&b), &|x, y| x && y),
            ("difference", a.difference(&b), &|x, y| x && !y),
            ("symmetric_difference", a.symmetric_difference(&b), &|x, y| x != y),
        ];
        ensure!(Fa::from_dfa(&a)? == c.a && Fa::from_dfa(&b)? == c.b, "an operation changed its operands");
        if !c.a.same_alphabet_set(&c.b) {
            for (name, r, _) in &ops {
                ensure!(r.is_none(), "{name} of automata over different alphabets {:?} and {:?} gave an automaton", c.a.alpha, c.b.alpha);
            }
            o.label("different alphabets");
            return Ok(());
        }
        let x = c.a.det()?;
        let y = c.b.det_over(&c.a.alpha)?;
        for (name, r, f) in &ops {
            let Some(r) = r else { return fail(format!("{name} gave nothing for alphabets {:?} and {:?}", c.a.alpha, c.b.alpha)) };
            let g = Fa::from_dfa(r)?;
            same_language(name, &g, &x.combine(&y, f)?)?;
            o.max("product states", g.n() as u64);
        }
        o.label_if(c.a.alpha != c.b.alpha, "alphabet in another order");
        o.nontrivial(mixed(&x) && mixed(&y) && find_word(&[&x, &y], &|v| v[0] == v[1])?.is_some());
        Ok(())
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct ProdCase {
    pub p: Pair,
    /// selects the combinator
    pub comb: u64,
}

/// a deterministic function of the two states; the first 16 are the Boolean functions of the marks
fn combinator(k: u64, an: &str, aa: bool, bn: &str, ba: bool) -> bool {
    if k < 16 {
        let i = (aa as u64) * 2 + ba as u64;
        k >> i & 1 == 1
    } else {
        fnv(format!("{k}/{an}/{aa}/{bn}/{ba}").as_bytes()) & 1 == 1
    }
}

pub struct DfaProduct;

impl Prop for DfaProduct {
    type Case = ProdCase;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "Pairs of random DFAs as for C19 with a combinator: one of the 16 Boolean functions of the marks or a pseudo-random function of the two states' names and marks. The product is walked in lockstep with the operands: every reachable pair must correspond to exactly one product state, with the combined mark; states, names, totality and alphabet are checked. Non-trivial: equal alphabets, at least three reachable pairs and both marks among them."
    }
    fn quick_cases(&self) -> usize {
        100_000
    }
    fn gen(&self, s: &mut Src) -> ProdCase {
        let p = dfa_pair(s);
        let comb = if s.flip() { s.below(16) } else { 16 + s.below(1000) };
        ProdCase { p, comb }
    }
    fn simplify(&self, c: &ProdCase) -> Vec<ProdCase> {
        simplify_pair(&c.p, true).into_iter().map(|p| ProdCase { p, comb: c.comb }).collect()
    }
    fn check(&self, c: &ProdCase, o: &mut Obs) -> R {
        let (fa, fb) = (&c.p.a, &c.p.b);
        let (a, b) = (fa.dfa()?, fb.dfa()?);
        let mut foreign = None;
        let r = a.product_construction(&b, |x: &DfaState, y: &DfaState| {
            let ok = |f: &Fa, s: &DfaState| f.names.iter().position(|n| n == s.name()).map_or(false, |i| f.acc[i] == s.is_accepting());
            if !ok(fa, x) || !ok(fb, y) {
                foreign = Some((x.name().to_string(), y.name().to_string()));
            }
            combinator(c.comb, x.name(), x.is_accepting(), y.name(), y.is_accepting())
        });
        ensure!(foreign.is_none(), "the combinator was given states that are not a pair of the operands: {foreign:?}");
        ensure!(Fa::from_dfa(&a)? == *fa && Fa::from_dfa(&b)? == *fb, "the operands changed");
        if !fa.same_alphabet_set(fb) {
            ensure!(r.is_none(), "product of automata over different alphabets gave an automaton");
            o.label("different alphabets");
            return Ok(());
        }
        let Some(r) = r else { return fail("product gave nothing although the alphabets are equal") };
        let g = Fa::from_dfa(&r)?;
        ensure!(g.same_alphabet_set(fa), "product alphabet is {:?}", g.alpha);
        let ib: Vec<usize> = fa.alpha.iter().map(|x| fb.sym(x).unwrap()).collect();
        let ig: Vec<usize> = fa.alpha.iter().map(|x| g.sym(x).unwrap()).collect();
        let mut of_pair: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        let mut work = vec![(fa.init, fb.init, g.init, Vec::<usize>::new())];
        let mut marks = BTreeSet::new();
        while let Some((x, y, z, w)) = work.pop() {
            let word = || w.iter().map(|i| fa.alpha[*i].clone()).collect::<Vec<_>>();
            if let Some(old) = of_pair.get(&(x, y)) {
                ensure!(*old == z, "pair ({}, {}) corresponds to two product states {} and {}", fa.names[x], fb.names[y], g.names[*old], g.names[z]);
                continue;
            }
            of_pair.insert((x, y), z);
            let want = combinator(c.comb, &fa.names[x], fa.acc[x], &fb.names[y], fb.acc[y]);
            marks.insert(want);
            ensure!(
                g.acc[z] == want,
                "word {:?} leads to {} and {}, the combinator says {want}, the product state {} says {}",
                word(),
                fa.names[x],
                fb.names[y],
                g.names[z],
                g.acc[z]
            );
            for k in 0..fa.k() {
                let mut w2 = w.clone();
                if w2.len() < 50 {
                    w2.push(k);
                }
                work.push((fa.tr[x][k][0], fb.tr[y][ib[k]][0], g.tr[z][ig[k]][0], w2));
            }
        }
        ensure!(of_pair.len() == g.n(), "{} product states for {} reachable pairs", g.n(), of_pair.len());
        let used: BTreeSet<usize> = of_pair.values().copied().collect();
        ensure!(used.len() == g.n(), "several pairs share a product state");
        o.label(if c.comb < 16 { "Boolean combinator" } else { "arbitrary combinator" });
        o.max("product states", g.n() as u64);
        o.nontrivial(of_pair.len() >= 3 && marks.len() == 2);
        Ok(())
    }
}

pub struct NfaUnion;

impl Prop for NfaUnion {
    type Case = Pair;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "Pairs of random NFAs as for C18, smaller (up to 7 states, occasionally 20, now and then 31-259 in long chains, 255-2051 in long ways, or coprime cycles; names that collide between the operands, with numbers, with s_new and when joined; symbols in different orders; 8% with different alphabets). The union is compared with the reference by exact language comparison; on different alphabets both operands must come back unchanged. Non-trivial: equal alphabets, non-empty different languages, both operands with two or more states."
    }
    fn quick_cases(&self) -> usize {
        100_000
    }
    fn gen(&self, s: &mut Src) -> Pair {
        nfa_pair(s)
    }
    fn simplify(&self, c: &Pair) -> Vec<Pair> {
        simplify_pair(c, false)
    }
    fn check(&self, c: &Pair, o: &mut Obs) -> R {
        c.a.tame()?;
        c.b.tame()?;
        let (a, b) = (c.a.nfa()?, c.b.nfa()?);
        let r = a.clone().union(b.clone());
        if !c.a.same_alphabet_set(&c.b) {
            o.label("different alphabets");
            return match r {
                Ok(_) => fail(format!("union over different alphabets {:?} and {:?} succeeded", c.a.alpha, c.b.alpha)),
                Err((x, y)) => {
                    ensure!(x == a && y == b, "union over different alphabets did not hand the operands back unchanged");
                    ensure!(Fa::from_nfa(&x)? == c.a && Fa::from_nfa(&y)? == c.b, "union over different alphabets changed the operands");
                    Ok(())
                }
            };
        }
        let Ok(u) = r else { return fail(format!("union failed for alphabets {:?} and {:?}", c.a.alpha, c.b.alpha)) };
        let g = Fa::from_nfa(&u)?;
        let x = c.a.det()?;
        let y = c.b.det_over(&c.a.alpha)?;
        same_language("union", &g, &x.combine(&y, &|p, q| p || q)?)?;
        let clash = c.a.names.iter().any(|n| c.b.names.contains(n));
        o.label(if clash { "colliding names" } else { "distinct names" });
        o.label_if(c.a.alpha != c.b.alpha, "alphabet in another order");
        o.nontrivial(!x.is_empty() && !y.is_empty() && c.a.n() >= 2 && c.b.n() >= 2 && find_word(&[&x, &y], &|v| v[0] == v[1])?.is_some());
        Ok(())
    }
}

pub struct NfaProduct;

/// a deterministic function of the two states; the first 512 depend on the marks only. Never holds for none and none
fn partial_combinator(k: u64, x: Option<(&str, bool)>, y: Option<(&str, bool)>) -> bool {
    let code = |s: Option<(&str, bool)>| s.map_or(0, |(_, acc)| 1 + acc as u64);
    if x.is_none() && y.is_none() {
        false
    } else if k < 512 {
        k >> (code(x) * 3 + code(y)) & 1 == 1
    } else {
        fnv(format!("{k}/{x:?}/{y:?}").as_bytes()) & 1 == 1
    }
}

/// the product with an arbitrary combinator, compared over all sets of states that words lead to
fn general_product(case: &ProdCase, a: &dandy::nfa::Nfa, b: &dandy::nfa::Nfa, o: &mut Obs) -> R {
    let (fa, fb) = (&case.p.a, &case.p.b);
    let mut foreign = None;
    let r = a.product_construction(b, |x, y| {
        let ok = |f: &Fa, s: Option<&NfaState>| s.map_or(true, |s| f.names.iter().position(|n| n == s.name()).map_or(false, |i| f.acc[i] == s.is_accepting()));
        if !ok(fa, x) || !ok(fb, y) {
            foreign = Some((x.map(|x| x.name().to_string()), y.map(|y| y.name().to_string())));
        }
        partial_combinator(case.comb, x.map(|x| (x.name(), x.is_accepting())), y.map(|y| (y.name(), y.is_accepting())))
    });
    ensure!(foreign.is_none(), "the combinator was given states that are not a pair of the operands: {foreign:?}");
    let Some(r) = r else { return fail("product with an arbitrary combinator gave nothing although the alphabets are equal") };
    let g = Fa::from_nfa(&r)?;
    ensure!(g.same_alphabet_set(fa), "product alphabet is {:?}", g.alpha);
    let ib: Vec<usize> = fa.alpha.iter().map(|x| fb.sym(x).unwrap()).collect();
    let ig: Vec<usize> = fa.alpha.iter().map(|x| g.sym(x).unwrap()).collect();
    let f = |x: Option<usize>, y: Option<usize>| {
        partial_combinator(case.comb, x.map(|x| (fa.names[x].as_str(), fa.acc[x])), y.map(|y| (fb.names[y].as_str(), fb.acc[y])))
    };
    let mut seen = BTreeSet::new();
    let mut queue = std::collections::VecDeque::from([(fa.start(), fb.start(), g.start(), Vec::<usize>::new())]);
    seen.insert((fa.start(), fb.start(), g.start()));
    let mut marks = BTreeSet::new();
    while let Some((x, y, z, w)) = queue.pop_front() {
        let some = |v: Vec<usize>| v.into_iter().map(Some).collect::<Vec<_>>();
        let (mut xs, mut ys) = (some(bs_iter(&x)), some(bs_iter(&y)));
        let any = |xs: &[Option<usize>], ys: &[Option<usize>]| xs.iter().any(|x| ys.iter().any(|y| f(*x, *y)));
        // none stands for an automaton that is in no state
        let must = match (xs.is_empty(), ys.is_empty()) {
            (true, _) => any(&[None], &ys),
            (_, true) => any(&xs, &[None]),
            _ => any(&xs, &ys),
        };
        xs.push(None);
        ys.push(None);
        let may = any(&xs, &ys);
        let got = g.accepting(&z);
        let word = || w.iter().map(|i| fa.alpha[*i].clone()).collect::<Vec<_>>();
        ensure!(got || !must, "the product rejects {:?} although the combinator ({}) holds for a pair of states it leads to", word(), case.comb);
        ensure!(may || !got, "the product accepts {:?} although the combinator ({}) holds for no pair of states it leads to", word(), case.comb);
        marks.insert(got);
        for k in 0..fa.k() {
            let next = (fa.step(&x, k), fb.step(&y, ib[k]), g.step(&z, ig[k]));
            if seen.len() < 1500 && seen.insert(next.clone()) {
                let mut w2 = w.clone();
                w2.push(k);
                queue.push_back((next.0, next.1, next.2, w2));
            }
        }
    }
    o.label(if case.comb < 512 { "table combinator" } else { "arbitrary combinator" });
    o.label_if(marks.len() == 2, "arbitrary combinator accepts and rejects");
    Ok(())
}

impl Prop for NfaProduct {
    type Case = ProdCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "Pairs of random NFAs as for C21, with and without ε-moves and with empty target sets. The intersection and the product with `either accepts` are compared with the reference intersection and union by exact language comparison; both results must be well formed. A further product takes a combinator that is a random table over the marks (with none) or a pseudo-random function of the states: over all sets of states that words lead to (at most 1500 of them) it must accept where the combinator holds for a pair of states the two may be in, and reject where it holds for none even if none is put for either. Non-trivial: equal alphabets, non-empty different languages, both operands with two or more states."
    }
    fn quick_cases(&self) -> usize {
        80_000
    }
    fn gen(&self, s: &mut Src) -> ProdCase {
        let p = nfa_pair(s);
        let comb = if s.flip() { s.below(512) } else { 512 + s.below(1000) };
        ProdCase { p, comb }
    }
    fn simplify(&self, c: &ProdCase) -> Vec<ProdCase> {
        simplify_pair(&c.p, false).into_iter().map(|p| ProdCase { p, comb: c.comb }).collect()
    }
    fn check(&self, case: &ProdCase, o: &mut Obs) -> R {
        let c = &case.p;
        c.a.tame()?;
        c.b.tame()?;
        let (a, b) = (c.a.nfa()?, c.b.nfa()?);
        let acc = |s: Option<&NfaState>| s.map_or(false, |s| s.is_accepting());
        let i = a.intersection(&b);
        let u = a.product_construction(&b, |x, y| acc(x) || acc(y));
        let j = a.product_construction(&b, |x, y| acc(x) && acc(y));
        ensure!(Fa::from_nfa(&a)? == c.a && Fa::from_nfa(&b)? == c.b, "an operation changed its operands");
        if !c.a.same_alphabet_set(&c.b) {
            ensure!(i.is_none() && u.is_none() && j.is_none(), "an operation on different alphabets gave an automaton");
            o.label("different alphabets");
            return Ok(());
        }
        let (Some(i), Some(u), Some(j)) = (i, u, j) else { return fail("nothing returned although the alphabets are equal") };
        let x = c.a.det()?;
        let y = c.b.det_over(&c.a.alpha)?;
        let and = x.combine(&y, &|p, q| p && q)?;
        same_language("intersection", &Fa::from_nfa(&i)?, &and)?;
        same_language("product with both", &Fa::from_nfa(&j)?, &and)?;
        let g = Fa::from_nfa(&u)?;
        same_language("product with either", &g, &x.combine(&y, &|p, q| p || q)?)?;
        general_product(case, &a, &b, o)?;
        o.max("product states", g.n() as u64);
        o.label_if(c.a.alpha != c.b.alpha, "alphabet in another order");
        o.label_if(!and.is_empty(), "non-empty intersection");
        o.nontrivial(!x.is_empty() && !y.is_empty() && c.a.n() >= 2 && c.b.n() >= 2 && find_word(&[&x, &y], &|v| v[0] == v[1])?.is_some());
        Ok(())
    }
}
