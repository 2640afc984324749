//! C13, C14, C15: conversions and ε-removal.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use std::collections::BTreeSet;

pub fn gen_nfa(s: &mut Src) -> Fa {
    if s.chance(1, 300) {
        return cycles_fa(s, AlphaStyle::Any, Eps::Maybe);
    }
    let lim = match s.weighted(&[40, 4, 2, 3]) {
        0 => Lim::new(14, 4).wide().tall(120).crowd(500),
        1 => Lim::new(8, 20),
        2 => Lim::new(60, 2),
        _ => Lim::new(8, 2).min_k(0),
    };
    nfa(s, &lim, Eps::Maybe)
}

pub struct ToDfa;

impl Prop for ToDfa {
    type Case = Fa;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "Random NFAs (1-14 states, occasionally 60, now and then 31-259 in long chains, or 60-360 all entered at once with few that decide; 0-4 symbols, occasionally 20; ε-moves in half; densities, k-th-from-the-end automata that blow up exponentially, cycles, now and then coprime ones with up to thousands of combinations, acyclic, deterministic). The converted DFA is compared with the reference subset construction by exact language comparison, plus completeness, reachability, state count and naming. Non-trivial: the NFA is not already deterministic (some target set with zero or several states, or ε-moves) and the DFA has at least two states."
    }
    fn quick_cases(&self) -> usize {
        100_000
    }
    fn gen(&self, s: &mut Src) -> Fa {
        gen_nfa(s)
    }
    fn simplify(&self, c: &Fa) -> Vec<Fa> {
        simplify_fa(c, false)
    }
    fn check(&self, f: &Fa, o: &mut Obs) -> R {
        let n = f.nfa()?;
        let det = f.det()?;
        let d = n.to_dfa();
        let g = Fa::from_dfa(&d)?;
        same_alphabet_order("to_dfa", &g, &f.alpha)?;
        same_language("to_dfa", &g, &det)?;
        ensure!(g.reachable().len() == g.n(), "to_dfa: unreachable states");
        ensure!(g.n() <= det.n(), "to_dfa: {} states for {} reachable sets of NFA states", g.n(), det.n());
        let names: BTreeSet<String> = g.names.iter().cloned().collect();
        let want: BTreeSet<String> = (0..g.n()).map(|i| i.to_string()).collect();
        ensure!(names == want, "to_dfa: names are {:?}", g.names);
        ensure!(g.names[g.init] == "0", "to_dfa: the initial state is named {}", g.names[g.init]);
        ensure!(Fa::from_nfa(&n)? == *f, "to_dfa changed the NFA");
        o.max("NFA states", f.n() as u64);
        o.max("DFA states", g.n() as u64);
        o.label_if(f.has_eps(), "with ε-moves");
        o.nontrivial(!f.is_dfa() && g.n() >= 2);
        Ok(())
    }
}

pub struct ToNfa;

impl Prop for ToNfa {
    type Case = Fa;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "Random DFAs (1-40 states, now and then 31-259 in long chains; 1-6 symbols, one in 150 without symbols; adversarial names), half of them products, minimised or pruned by the library before conversion, converted by to_nfa and by From. Compared entry by entry with the DFA, the language included. Non-trivial: at least two states and two different transition targets."
    }
    fn quick_cases(&self) -> usize {
        60_000
    }
    fn gen(&self, s: &mut Src) -> Fa {
        let lim = if s.chance(1, 20) { Lim::new(120, 20) } else { Lim::new(40, 6).wide().tall(100).bare() };
        dfa(s, &lim)
    }
    fn simplify(&self, c: &Fa) -> Vec<Fa> {
        simplify_fa(c, true)
    }
    fn check(&self, f: &Fa, o: &mut Obs) -> R {
        let mut d = f.dfa()?;
        // operate on library-produced DFAs too; the choice depends on the case only
        match fnv(f.text(true).as_bytes()) % 6 {
            0 => d.minimize(),
            1 => d.remove_unreachable_states(),
            2 => {
                if let Some(p) = d.union(&d) {
                    d = p
                }
            }
            _ => {}
        }
        let want = Fa::from_dfa(&d)?;
        let a = Fa::from_nfa(&d.clone().to_nfa())?;
        ensure!(a == want, "to_nfa: got {a:?}, the DFA is {want:?}");
        let n: dandy::nfa::Nfa = d.into();
        let b = Fa::from_nfa(&n)?;
        ensure!(b == want, "From<Dfa>: got {b:?}, the DFA is {want:?}");
        ensure!(!n.has_epsilon_moves(), "the converted NFA reports ε-moves");
        same_language("to_nfa then to_dfa", &Fa::from_dfa(&n.to_dfa())?, &want.det()?)?;
        let targets: BTreeSet<usize> = want.tr.iter().flatten().flatten().copied().collect();
        o.max("states", want.n() as u64);
        o.nontrivial(want.n() >= 2 && targets.len() >= 2);
        Ok(())
    }
}

pub struct RemoveEps;

impl Prop for RemoveEps {
    type Case = Fa;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "Random NFAs (1-14 states, occasionally 60, now and then 31-259 in long chains, 60-360 all entered at once, or in coprime cycles), four in five with ε-moves (sparse, dense, chains, cycles through the initial state), names including s_new and numbers. remove_epsilon_moves and optimize are compared with the reference by exact language comparison, plus well-formedness, absence of ε-moves and dead states; optimize additionally removes exactly what was unreachable. Non-trivial: at least one ε-move between different reachable states and a non-empty language."
    }
    fn quick_cases(&self) -> usize {
        100_000
    }
    fn gen(&self, s: &mut Src) -> Fa {
        gen_nfa(s)
    }
    fn simplify(&self, c: &Fa) -> Vec<Fa> {
        simplify_fa(c, false)
    }
    fn check(&self, f: &Fa, o: &mut Obs) -> R {
        let det = f.det()?;
        for optimize in [false, true] {
            let what = if optimize { "optimize" } else { "remove_epsilon_moves" };
            let mut n = f.nfa()?;
            if optimize {
                n.optimize()
            } else {
                n.remove_epsilon_moves()
            }
            let g = Fa::from_nfa(&n)?;
            same_alphabet_order(what, &g, &f.alpha)?;
            ensure!(!g.has_eps() && !n.has_epsilon_moves(), "{what}: ε-moves remain");
            same_language(what, &g, &det)?;
            let base = if optimize { f.restrict(&f.reachable()) } else { f.clone() };
            if base.has_eps() {
                let dead = dead_states(&g);
                ensure!(dead.is_empty(), "{what}: dead states remain: {:?}", dead.iter().map(|i| &g.names[*i]).collect::<Vec<_>>());
            }
            if optimize {
                let un: BTreeSet<String> = (0..f.n()).filter(|i| !f.reachable().contains(i)).map(|i| f.names[i].clone()).collect();
                for (i, name) in g.names.iter().enumerate() {
                    ensure!(!un.contains(name) || i == g.init, "{what}: unreachable state {name} is still there");
                }
            }
        }
        let r = f.reachable();
        o.max("states", f.n() as u64);
        o.label_if(f.eps[f.init].iter().any(|t| *t != f.init), "ε-move from the initial state");
        o.label_if(f.has_eps(), "with ε-moves");
        o.nontrivial(r.iter().any(|i| f.eps[*i].iter().any(|t| t != i)) && !det.is_empty());
        Ok(())
    }
}
