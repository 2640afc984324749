//! C16, C23, C24, C25: reachability, inversion, minimisation, equivalence classes.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Serialize, Deserialize)]
pub struct AnyFa {
    pub fa: Fa,
    pub dfa: bool,
}

fn simp_any(c: &AnyFa) -> Vec<AnyFa> {
    simplify_fa(&c.fa, c.dfa).into_iter().map(|fa| AnyFa { fa, dfa: c.dfa }).collect()
}

pub struct Reach;

impl Prop for Reach {
    type Case = AnyFa;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "Random DFAs and NFAs (1-40 states, occasionally 200, initial state anywhere, islands, ε-only paths). Reported reachable and unreachable states (by index and by reference), emptiness and the pruned automaton are compared with a reference search; the pruned automaton must equal the restriction of the original exactly. Non-trivial: at least one reachable non-initial and one unreachable state."
    }
    fn quick_cases(&self) -> usize {
        100_000
    }
    fn gen(&self, s: &mut Src) -> AnyFa {
        let dfa = s.flip();
        let lim = if s.chance(1, 40) { Lim::new(200, 4) } else { Lim::new(if s.flip() { 8 } else { 40 }, 4).wide().tall(60).bare() };
        let mut fa = if dfa { self::dfa(s, &lim) } else { nfa(s, &lim, Eps::Maybe) };
        // islands: redirect transitions into a prefix of a random order, so that the rest is unreachable
        if fa.n() >= 2 && s.chance(1, 2) {
            let p = s.perm(fa.n());
            let m = s.range(1, fa.n() - 1);
            let inside: BTreeSet<usize> = p[..m].iter().copied().collect();
            for i in 0..fa.n() {
                if inside.contains(&i) {
                    for t in fa.tr[i].iter_mut().flatten() {
                        if !inside.contains(t) {
                            *t = p[*t % m];
                        }
                    }
                    for t in fa.eps[i].iter_mut() {
                        if !inside.contains(t) {
                            *t = p[*t % m];
                        }
                    }
                }
            }
            fa.init = p[s.us(m)];
        }
        AnyFa { fa, dfa }
    }
    fn simplify(&self, c: &AnyFa) -> Vec<AnyFa> {
        simp_any(c)
    }
    fn check(&self, c: &AnyFa, o: &mut Obs) -> R {
        let f = &c.fa;
        let reach: BTreeSet<usize> = f.reachable().into_iter().collect();
        let unreach: BTreeSet<usize> = (0..f.n()).filter(|i| !reach.contains(i)).collect();
        let nonempty = reach.iter().any(|i| f.acc[*i]);
        macro_rules! run {
            ($d:expr, $from:path, $eqstate:expr) => {{
                let d = $d;
                let got: BTreeSet<usize> = d.reachable_state_idx().into_iter().collect();
                ensure!(got == reach, "reachable_state_idx is {got:?}, expected {reach:?}");
                let got: BTreeSet<usize> = d.unreachable_state_idx().into_iter().collect();
                ensure!(got == unreach, "unreachable_state_idx is {got:?}, expected {unreach:?}");
                let nm = |x: &BTreeSet<usize>| x.iter().map(|i| f.names[*i].clone()).collect::<BTreeSet<_>>();
                let v = d.reachable_states();
                let got: BTreeSet<String> = v.iter().map(|s| s.name().to_string()).collect();
                ensure!(got == nm(&reach) && v.len() == reach.len(), "reachable_states are {got:?}, expected {:?}", nm(&reach));
                let v = d.unreachable_states();
                let got: BTreeSet<String> = v.iter().map(|s| s.name().to_string()).collect();
                ensure!(got == nm(&unreach) && v.len() == unreach.len(), "unreachable_states are {got:?}, expected {:?}", nm(&unreach));
                ensure!(d.has_reachable_accepting_state() == nonempty, "has_reachable_accepting_state is {}", !nonempty);
                ensure!($from(&d)? == *f, "a query changed the automaton");
                let mut p = d.clone();
                p.remove_unreachable_states();
                let g = $from(&p)?;
                let want = f.restrict(&reach.iter().copied().collect::<Vec<_>>());
                ensure!(g == want, "remove_unreachable_states gave {g:?}, expected {want:?}");
                same_language("remove_unreachable_states", &g, &f.det()?)?;
            }};
        }
        if c.dfa {
            run!(f.dfa()?, Fa::from_dfa, ())
        } else {
            run!(f.nfa()?, Fa::from_nfa, ())
        }
        o.label(if c.dfa { "DFA" } else { "NFA" });
        o.label(if nonempty { "non-empty language" } else { "empty language" });
        o.max("states", f.n() as u64);
        o.nontrivial(reach.len() >= 2 && !unreach.is_empty());
        Ok(())
    }
}

pub struct Invert;

impl Prop for Invert {
    type Case = Fa;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "Random DFAs (1-40 states, 1-6 symbols, one in 150 without symbols). After invert, the automaton must equal the original with every mark flipped and accept exactly the complement (exact language comparison); inverting again must restore the original. Non-trivial: at least two states and both marks occur among the reachable ones."
    }
    fn quick_cases(&self) -> usize {
        120_000
    }
    fn gen(&self, s: &mut Src) -> Fa {
        let lim = if s.chance(1, 30) { Lim::new(200, 8) } else { Lim::new(40, 6).wide().tall(60).bare() };
        dfa(s, &lim)
    }
    fn simplify(&self, c: &Fa) -> Vec<Fa> {
        simplify_fa(c, true)
    }
    fn check(&self, f: &Fa, o: &mut Obs) -> R {
        let orig = f.dfa()?;
        let mut d = orig.clone();
        d.invert();
        let g = Fa::from_dfa(&d)?;
        let want = Fa { acc: f.acc.iter().map(|a| !a).collect(), ..f.clone() };
        ensure!(g == want, "invert gave {g:?}");
        same_language("invert", &g, &f.det()?.complement())?;
        d.invert();
        ensure!(d == orig, "inverting twice does not restore the original");
        let r = f.reachable();
        o.max("states", f.n() as u64);
        o.nontrivial(f.n() >= 2 && r.iter().any(|i| f.acc[*i]) && r.iter().any(|i| !f.acc[*i]));
        Ok(())
    }
}

/// DFAs that need many refinement rounds
fn deep_dfa(s: &mut Src) -> Fa {
    let k = s.range(1, 3);
    let alpha = alphabet(s, k, AlphaStyle::Plain);
    // very many states in few classes
    let huge = s.chance(1, 12);
    let n = if huge { s.range(300, 1100) } else { s.range(20, 300) };
    let m = s.range(1, if huge { 4 } else { 12.min(n) });
    let n = if huge { n / m * m } else { n };
    let mark = s.us(m);
    let mut f = Fa { alpha, names: names(s, n), init: 0, acc: vec![], eps: vec![vec![]; n], tr: vec![] };
    let style = if huge { 1 } else { s.us(3) };
    let k = if huge { 1 } else { k };
    f.alpha.truncate(k);
    for i in 0..n {
        f.acc.push(match style {
            0 => i == n - 1,
            1 => i % m == mark,
            _ => i % m == mark && i % 7 != 3,
        });
        f.tr.push(
            (0..k)
                .map(|c| {
                    vec![match c {
                        0 => (i + 1) % n,
                        1 => (i * 2) % n,
                        _ => i / 2,
                    }]
                })
                .collect(),
        );
    }
    f
}

pub fn gen_dfa_min(s: &mut Src) -> Fa {
    match s.weighted(&[40, 4, 1, 1]) {
        0 => dfa(s, &Lim::new(16, 4).wide().tall(150).bare()),
        1 => dfa(s, &Lim::new(60, 4)),
        2 => dfa(s, &Lim::new(12, 26)),
        _ => deep_dfa(s),
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct MinCase {
    pub a: Fa,
    /// a language-preserving rewrite of `a`
    pub b: Fa,
}

pub struct Minimize;

impl Prop for Minimize {
    type Case = MinCase;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "Random DFAs (1-16 states, occasionally 60-300 or 1100 with few classes, now and then 31-259 in long chains; uniform, chains, sinks, acyclic, permutations, duplicated states, all/none/one accepting) together with a rewritten equivalent copy (duplicated and unreachable states, renamed, permuted states and alphabet). Both are minimised; language, alphabet, state count against Moore's refinement, names, well-formedness and isomorphism of the two results are checked. Non-trivial: the original has at least three states, its minimal automaton at least two, and fewer than the original."
    }
    fn quick_cases(&self) -> usize {
        40_000
    }
    fn gen(&self, s: &mut Src) -> MinCase {
        let a = gen_dfa_min(s);
        let b = rewrite(s, &a, true);
        MinCase { a, b }
    }
    fn simplify(&self, c: &MinCase) -> Vec<MinCase> {
        let mut out: Vec<MinCase> = simplify_fa(&c.a, true).into_iter().map(|a| MinCase { b: a.clone(), a }).collect();
        out.push(MinCase { a: c.a.clone(), b: c.a.clone() });
        out.push(MinCase { a: c.b.clone(), b: c.b.clone() });
        out
    }
    fn check(&self, c: &MinCase, o: &mut Obs) -> R {
        let mut res = vec![];
        // replays and shrunk cases may pair different languages; then the copies are checked separately
        let equivalent = c.a.same_alphabet_set(&c.b) && {
            let x = c.a.det()?;
            let y = c.b.det_over(&c.a.alpha)?;
            find_word(&[&x, &y], &|b| b[0] == b[1])?.is_none()
        };
        for f in [&c.a, &c.b] {
            let mut d = f.dfa()?;
            d.minimize();
            let g = Fa::from_dfa(&d)?;
            same_alphabet_order("minimize", &g, &f.alpha)?;
            same_language("minimize", &g, &f.det()?)?;
            let n = f.n_min_states();
            ensure!(g.n() == n, "minimize: {} states, the minimum is {n}", g.n());
            for name in &g.names {
                ensure!(f.names.contains(name), "minimize: name {name:?} is not from the original");
            }
            let once = d.clone();
            d.minimize();
            ensure!(Fa::from_dfa(&d)?.isomorphic(&Fa::from_dfa(&once)?), "minimising again changed the automaton");
            o.max("states", f.n() as u64);
            o.max("minimal states", g.n() as u64);
            o.nontrivial(f.n() >= 3 && g.n() >= 2 && g.n() < f.n());
            o.label_if(g.n() == f.n(), "already minimal");
            res.push(g);
        }
        if equivalent {
            ensure!(res[0].isomorphic(&res[1]), "minimising equivalent automata gives non-isomorphic results {:?} and {:?}", res[0], res[1]);
            o.label("pair compared");
        }
        Ok(())
    }
}

pub struct Classes;

impl Prop for Classes {
    type Case = Fa;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "Random DFAs as for C24 (unreachable states included). The reported classes, by index and by reference, are compared as a partition with Moore's refinement over all states; merging must leave one state per class and the same language. Non-trivial: at least three states and at least two classes, one of them with two or more states."
    }
    fn quick_cases(&self) -> usize {
        50_000
    }
    fn gen(&self, s: &mut Src) -> Fa {
        gen_dfa_min(s)
    }
    fn simplify(&self, c: &Fa) -> Vec<Fa> {
        simplify_fa(c, true)
    }
    fn check(&self, f: &Fa, o: &mut Obs) -> R {
        let d = f.dfa()?;
        let cls = f.classes();
        let mut want: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for (i, c) in cls.iter().enumerate() {
            want.entry(*c).or_default().insert(i);
        }
        let want: BTreeSet<BTreeSet<usize>> = want.into_values().collect();
        let got: Vec<BTreeSet<usize>> = d.state_equivalence_classes_idx().into_iter().map(|c| c.into_iter().collect()).collect();
        let gs: BTreeSet<BTreeSet<usize>> = got.iter().cloned().collect();
        ensure!(gs == want && got.len() == want.len(), "state_equivalence_classes_idx is {got:?}, expected {want:?}");
        let gn: Vec<BTreeSet<String>> = d
            .state_equivalence_classes()
            .into_iter()
            .map(|c| c.into_iter().map(|s| s.name().to_string()).collect())
            .collect();
        let wn: BTreeSet<BTreeSet<String>> = want.iter().map(|c| c.iter().map(|i| f.names[*i].clone()).collect()).collect();
        ensure!(gn.iter().cloned().collect::<BTreeSet<_>>() == wn && gn.len() == wn.len(), "state_equivalence_classes is {gn:?}, expected {wn:?}");
        ensure!(Fa::from_dfa(&d)? == *f, "a query changed the automaton");
        let mut m = d.clone();
        m.merge_nondistinguishable_states();
        let g = Fa::from_dfa(&m)?;
        ensure!(g.n() == want.len(), "merging leaves {} states for {} classes", g.n(), want.len());
        same_alphabet_order("merge", &g, &f.alpha)?;
        same_language("merge", &g, &f.det()?)?;
        for c in &wn {
            ensure!(c.iter().filter(|x| g.names.contains(x)).count() == 1, "not exactly one state of class {c:?} is left: {:?}", g.names);
        }
        let gc: BTreeSet<usize> = g.classes().into_iter().collect();
        ensure!(gc.len() == g.n(), "merging left non-distinguishable states");
        o.max("states", f.n() as u64);
        o.max("symbols", f.k() as u64);
        o.max("classes", want.len() as u64);
        o.nontrivial(f.n() >= 3 && want.len() >= 2 && want.iter().any(|c| c.len() >= 2));
        Ok(())
    }
}
