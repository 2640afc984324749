//! C27: sequences of operations against a model of languages.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::rx::{self, Rx};
use dandy::dfa::Dfa;
use dandy::nfa::Nfa;
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
pub enum Start {
    D(Fa),
    N(Fa),
    /// converted directly, or printed and reparsed first
    R(Rx, bool),
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Chain {
    pub start: Vec<Start>,
    /// operation and two operands
    pub ops: Vec<(u8, u8, u8)>,
}

#[derive(Clone)]
enum Item {
    D(Dfa),
    N(Nfa),
}

impl Item {
    fn fa(&self) -> R<Fa> {
        match self {
            Item::D(d) => Fa::from_dfa(d),
            Item::N(n) => Fa::from_nfa(n),
        }
    }
}

struct Slot {
    item: Item,
    lang: Det,
}

const OPS: u8 = 22;

fn reload(it: &Item, ascii: bool) -> R<Option<Item>> {
    let f = it.fa()?;
    if !f.alpha.iter().chain(&f.names).all(|x| expressible(x)) || f.k() == 0 {
        return Ok(None);
    }
    let err = |e: String, t: &str| fail(format!("a printed table is not loaded ({e}): {t:?}"));
    Ok(Some(match it {
        Item::D(d) => {
            let t = if ascii { d.ascii_table() } else { d.to_table() };
            let p = match dandy::parser::dfa(&t) {
                Ok(p) => p,
                Err(_) => return err("syntax".into(), &t),
            };
            match Dfa::try_from(p) {
                Ok(d) => Item::D(d),
                Err(e) => return err(e.to_string(), &t),
            }
        }
        Item::N(n) => {
            let t = if ascii { n.ascii_table() } else { n.to_table() };
            let p = match dandy::parser::nfa(&t) {
                Ok(p) => p,
                Err(_) => return err("syntax".into(), &t),
            };
            match Nfa::try_from(p) {
                Ok(d) => Item::N(d),
                Err(e) => return err(e.to_string(), &t),
            }
        }
    }))
}

pub struct Chains;

impl Prop for Chains {
    type Case = Chain;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "Stateful: a pool of one to three automata and regular expressions over one alphabet (DFAs, NFAs with ε-moves, adversarial names), then 1-14 operations chosen from invert, minimize, merge, prune, the four Boolean operations, products, conversions, ε-removal, optimize, NFA union and intersection, print and reparse (both tables), complement by way of a DFA, equivalence and enumeration queries; results join the pool. Each pool member carries a reference language; after every step the result must be well formed with exactly that language, and operands taken by reference unchanged. Non-trivial: at least three operations applied, one of them binary."
    }
    fn quick_cases(&self) -> usize {
        80_000
    }
    fn gen(&self, s: &mut Src) -> Chain {
        let k = match s.weighted(&[5, 4, 2, 1]) {
            0 => 2,
            1 => 1,
            2 => 3,
            _ => 5,
        };
        let style = if s.flip() { AlphaStyle::Plain } else { AlphaStyle::Clusters };
        let alpha = alphabet(s, k, style);
        let m = s.range(1, 3);
        let start = (0..m)
            .map(|_| match s.us(5) {
                0 | 1 => {
                    let f = dfa_over(s, alpha.clone(), 8);
                    Start::D(reorder(s, f))
                }
                2 | 3 => {
                    let f = nfa_over(s, alpha.clone(), 6, Eps::Maybe);
                    Start::N(reorder(s, f))
                }
                _ => {
                    let st = rx::RxStyle { ops: false, odd: false, merging: false, degenerate: false };
                    let mut budget = 8;
                    let x = rx::gen(s, st, &alpha, 4, &mut budget);
                    // mention every symbol without changing the language
                    let mut none = vec![Rx::Empty];
                    none.extend(alpha.iter().map(|a| Rx::Lit(a.clone())));
                    Start::R(Rx::Alt(vec![x, Rx::Cat(none)]), s.flip())
                }
            })
            .collect();
        let n = s.range(1, 14);
        let ops = (0..n).map(|_| (s.us(OPS as usize) as u8, s.us(8) as u8, s.us(8) as u8)).collect();
        Chain { start, ops }
    }
    fn simplify(&self, c: &Chain) -> Vec<Chain> {
        let mut v = vec![];
        for i in 0..c.ops.len() {
            let mut d = c.clone();
            d.ops.remove(i);
            v.push(d);
        }
        if c.start.len() > 1 {
            for i in 0..c.start.len() {
                let mut d = c.clone();
                d.start.remove(i);
                v.push(d);
            }
        }
        for i in 0..c.start.len() {
            let alts: Vec<Start> = match &c.start[i] {
                Start::D(f) => simplify_fa(f, true).into_iter().filter(|g| g.same_alphabet_set(f)).map(Start::D).collect(),
                Start::N(f) => simplify_fa(f, false).into_iter().filter(|g| g.same_alphabet_set(f)).map(Start::N).collect(),
                Start::R(x, p) => match x {
                    Rx::Alt(l) if l.len() == 2 => l[0].simplify().into_iter().map(|y| Start::R(Rx::Alt(vec![y, l[1].clone()]), *p)).collect(),
                    _ => vec![],
                },
            };
            for a in alts {
                let mut d = c.clone();
                d.start[i] = a;
                v.push(d);
            }
        }
        for i in 0..c.ops.len() {
            for (a, b) in [(0, c.ops[i].2), (c.ops[i].1, 0)] {
                if (a, b) != (c.ops[i].1, c.ops[i].2) {
                    let mut d = c.clone();
                    d.ops[i] = (c.ops[i].0, a, b);
                    v.push(d);
                }
            }
        }
        v
    }
    fn check(&self, c: &Chain, o: &mut Obs) -> R {
        let mut pool: Vec<Slot> = vec![];
        let mut order: Option<Vec<String>> = None;
        for s in &c.start {
            let (item, model) = match s {
                Start::D(f) => (Item::D(f.dfa()?), f.clone()),
                Start::N(f) => (Item::N(f.nfa()?), f.clone()),
                Start::R(x, printed) => {
                    let n = if *printed {
                        let t = x.regex().to_string();
                        match dandy::parser::regex(&t) {
                            Ok(r) => r.to_nfa(),
                            Err(_) => return fail(format!("a printed regular expression does not parse: {t:?}")),
                        }
                    } else {
                        x.regex().to_nfa()
                    };
                    (Item::N(n), x.fa())
                }
            };
            let ord = order.get_or_insert_with(|| model.alpha.clone()).clone();
            if model.alpha.iter().any(|a| !ord.contains(a)) || model.k() != ord.len() {
                return discard("different alphabets");
            }
            let lang = model.det_over(&ord)?.canon();
            same_language("start", &item.fa()?, &lang)?;
            pool.push(Slot { item, lang });
        }
        let (mut applied, mut binary) = (0, 0);
        for (step, (op, x, y)) in c.ops.iter().enumerate() {
            let ds: Vec<usize> = (0..pool.len()).filter(|i| matches!(pool[*i].item, Item::D(_))).collect();
            let ns: Vec<usize> = (0..pool.len()).filter(|i| matches!(pool[*i].item, Item::N(_))).collect();
            // 0..=10 work on DFAs, 11..=18 on NFAs, the rest on either
            let from = match op {
                0..=10 => &ds,
                11..=18 => &ns,
                _ => &(0..pool.len()).collect::<Vec<_>>(),
            };
            if from.is_empty() {
                continue;
            }
            let (i, j) = (from[*x as usize % from.len()], from[*y as usize % from.len()]);
            let (fi, fj) = (pool[i].item.fa()?, pool[j].item.fa()?);
            let lang = pool[i].lang.clone();
            let other = pool[j].lang.clone();
            let name;
            // the new automaton and its language; in place or added
            let mut in_place = false;
            let result: Option<(Item, Det)> = match (&pool[i].item, &pool[j].item) {
                (Item::D(a), Item::D(b)) if *op <= 10 => {
                    let big = fi.n() * fj.n() > 900;
                    let mut d = a.clone();
                    in_place = *op <= 3;
                    match op {
                        0 => {
                            name = "invert";
                            d.invert();
                            Some((Item::D(d), lang.complement()))
                        }
                        1 => {
                            name = "minimize";
                            d.minimize();
                            ensure!(d.states().len() == lang.n(), "step {step}: minimize leaves {} states, the minimum is {}", d.states().len(), lang.n());
                            Some((Item::D(d), lang))
                        }
                        2 => {
                            name = "merge";
                            d.merge_nondistinguishable_states();
                            Some((Item::D(d), lang))
                        }
                        3 => {
                            name = "prune DFA";
                            d.remove_unreachable_states();
                            Some((Item::D(d), lang))
                        }
                        4..=8 => {
                            name = "DFA product";
                            if big {
                                None
                            } else {
                                let (r, f): (_, fn(bool, bool) -> bool) = match op {
                                    4 => (a.union(b), |p, q| p || q),
                                    5 => (a.intersection(b), |p, q| p && q),
                                    6 => (a.difference(b), |p, q| p && !q),
                                    7 => (a.symmetric_difference(b), |p, q| p != q),
                                    _ => (a.product_construction(b, |p, q| !p.is_accepting() || q.is_accepting()), |p, q| !p || q),
                                };
                                let Some(r) = r else { return fail(format!("step {step}: no product although the alphabets are equal")) };
                                binary += 1;
                                Some((Item::D(r), lang.combine(&other, &f)?))
                            }
                        }
                        9 => {
                            name = "DFA to NFA";
                            Some((Item::N(d.to_nfa()), lang))
                        }
                        _ => {
                            name = "DFA equivalence";
                            let e = a.equivalent_to(b);
                            let m = find_word(&[&lang, &other], &|v| v[0] == v[1])?.is_none();
                            ensure!(e == m, "step {step}: equivalent_to says {e}");
                            None
                        }
                    }
                }
                (Item::N(a), Item::N(b)) if (11..=18).contains(op) => {
                    let mut n = a.clone();
                    in_place = (11..=13).contains(op);
                    match op {
                        11 => {
                            name = "ε-removal";
                            n.remove_epsilon_moves();
                            ensure!(!n.has_epsilon_moves(), "step {step}: ε-moves left");
                            Some((Item::N(n), lang))
                        }
                        12 => {
                            name = "optimize";
                            n.optimize();
                            ensure!(!n.has_epsilon_moves(), "step {step}: ε-moves left");
                            Some((Item::N(n), lang))
                        }
                        13 => {
                            name = "prune NFA";
                            n.remove_unreachable_states();
                            Some((Item::N(n), lang))
                        }
                        14 => {
                            name = "NFA union";
                            if fi.n() + fj.n() > 200 {
                                None
                            } else {
                                let Ok(u) = n.union(b.clone()) else { return fail(format!("step {step}: no union although the alphabets are equal")) };
                                binary += 1;
                                Some((Item::N(u), lang.combine(&other, &|p, q| p || q)?))
                            }
                        }
                        15 | 16 => {
                            name = "NFA product";
                            if fi.n() * fj.n() > 400 {
                                None
                            } else if *op == 15 {
                                let Some(r) = a.intersection(b) else { return fail(format!("step {step}: no intersection although the alphabets are equal")) };
                                binary += 1;
                                Some((Item::N(r), lang.combine(&other, &|p, q| p && q)?))
                            } else {
                                let acc = |s: Option<&dandy::nfa::NfaState>| s.is_some_and(|s| s.is_accepting());
                                let Some(r) = a.product_construction(b, |p, q| acc(p) || acc(q)) else {
                                    return fail(format!("step {step}: no product although the alphabets are equal"));
                                };
                                binary += 1;
                                Some((Item::N(r), lang.combine(&other, &|p, q| p || q)?))
                            }
                        }
                        17 => {
                            name = "NFA to DFA";
                            if fi.det()?.n() > 600 {
                                None
                            } else {
                                Some((Item::D(a.to_dfa()), lang))
                            }
                        }
                        _ => {
                            name = "NFA equivalence";
                            let (p, q) = (fi.det()?.n(), fj.det()?.n());
                            if p * q <= 20_000 {
                                let e = a.equivalent_to(b);
                                let m = find_word(&[&lang, &other], &|v| v[0] == v[1])?.is_none();
                                ensure!(e == m, "step {step}: equivalent_to says {e}");
                            }
                            None
                        }
                    }
                }
                (it, _) => match op {
                    19 | 20 => {
                        name = "print and reparse";
                        in_place = true;
                        reload(it, *op == 19)?.map(|r| (r, lang))
                    }
                    _ => {
                        name = "words";
                        let n = match it {
                            Item::D(d) => d.clone().to_nfa(),
                            Item::N(n) => {
                                // enumeration is for NFAs without ε-moves
                                let mut n = n.clone();
                                n.remove_epsilon_moves();
                                n
                            }
                        };
                        // enumeration takes the powers of a matrix of the states
                        if n.states().len() <= 70 && fi.det()?.n() <= 300 {
                            // words in the automaton's own symbol order
                            let own = fi.det()?;
                            let want: Vec<Vec<String>> = Enumerate::new(&own).take(8).map(|w| own.word(&w)).collect();
                            let got: Vec<Vec<String>> = n.word_components().take(8).map(|w| w.iter().map(|x| x.to_string()).collect()).collect();
                            ensure!(want == got, "step {step}: words {got:?} instead of {want:?}");
                        }
                        None
                    }
                },
            };
            ensure!(pool[i].item.fa()? == fi && pool[j].item.fa()? == fj, "step {step} ({name}) changed its operands");
            applied += 1;
            o.label(name);
            if let Some((item, lang)) = result {
                let lang = lang.canon();
                let g = item.fa()?;
                same_language(&format!("step {step} ({name})"), &g, &lang)?;
                o.max("states", g.n() as u64);
                let slot = Slot { item, lang };
                if in_place {
                    pool[i] = slot;
                } else if pool.len() < 6 {
                    pool.push(slot);
                } else {
                    let at = (step + *y as usize) % pool.len();
                    pool[at] = slot;
                }
            }
        }
        o.max("operations applied", applied);
        o.nontrivial(applied >= 3 && binary >= 1);
        Ok(())
    }
}
