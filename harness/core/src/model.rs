//! Reference model of finite automata: extraction through public accessors and exact language algorithms.

use crate::engine::*;
use crate::ensure;
use dandy::dfa::Dfa;
use dandy::nfa::Nfa;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fa {
    pub alpha: Vec<String>,
    pub names: Vec<String>,
    pub init: usize,
    pub acc: Vec<bool>,
    /// ε-targets per state (all empty for a DFA)
    pub eps: Vec<Vec<usize>>,
    /// targets per state and symbol
    pub tr: Vec<Vec<Vec<usize>>>,
}

/// identity of automata; target lists count as sets
impl PartialEq for Fa {
    fn eq(&self, o: &Fa) -> bool {
        let set = |a: &Vec<usize>, b: &Vec<usize>| {
            a == b || a.iter().collect::<BTreeSet<_>>() == b.iter().collect::<BTreeSet<_>>()
        };
        self.alpha == o.alpha
            && self.names == o.names
            && self.init == o.init
            && self.acc == o.acc
            && self.eps.len() == o.eps.len()
            && self.eps.iter().zip(&o.eps).all(|(a, b)| set(a, b))
            && self.tr.len() == o.tr.len()
            && self.tr.iter().zip(&o.tr).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| set(x, y)))
    }
}
impl Eq for Fa {}

pub type Bs = Vec<u64>;

pub fn bs_new(n: usize) -> Bs {
    vec![0; n.div_ceil(64).max(1)]
}
pub fn bs_set(b: &mut Bs, i: usize) -> bool {
    let m = 1u64 << (i % 64);
    let old = b[i / 64] & m != 0;
    b[i / 64] |= m;
    !old
}
pub fn bs_get(b: &Bs, i: usize) -> bool {
    b[i / 64] & (1u64 << (i % 64)) != 0
}
pub fn bs_iter(b: &Bs) -> Vec<usize> {
    let mut v = vec![];
    for (k, w) in b.iter().enumerate() {
        let mut w = *w;
        while w != 0 {
            v.push(k * 64 + w.trailing_zeros() as usize);
            w &= w - 1;
        }
    }
    v
}

/// A complete deterministic table over an explicit symbol list; state 0 is initial.
#[derive(Clone, Debug)]
pub struct Det {
    pub alpha: Vec<String>,
    pub acc: Vec<bool>,
    pub tr: Vec<Vec<usize>>,
}

pub const DET_LIMIT: usize = 20_000;

impl Fa {
    pub fn n(&self) -> usize {
        self.names.len()
    }
    pub fn k(&self) -> usize {
        self.alpha.len()
    }

    pub fn has_eps(&self) -> bool {
        self.eps.iter().any(|e| !e.is_empty())
    }

    pub fn is_dfa(&self) -> bool {
        !self.has_eps() && self.tr.iter().all(|r| r.iter().all(|t| t.len() == 1))
    }

    /// extraction with the checks every well-formed automaton satisfies
    pub fn from_dfa(d: &Dfa) -> R<Fa> {
        let alpha: Vec<String> = d.alphabet().iter().map(|s| s.to_string()).collect();
        let k = alpha.len();
        let n = d.states().len();
        ensure!(n > 0, "DFA without states");
        let mut f = Fa { alpha, names: vec![], init: d.initial_state_index(), acc: vec![], eps: vec![vec![]; n], tr: vec![] };
        ensure!(f.init < n, "initial state index {} out of range ({} states)", f.init, n);
        for (i, s) in d.states().iter().enumerate() {
            ensure!(s.transitions().len() == k, "state {} has {} transitions for {} symbols", s.name(), s.transitions().len(), k);
            for t in s.transitions() {
                ensure!(*t < n, "state {} has a transition to missing state index {}", s.name(), t);
            }
            ensure!(
                s.is_initial() == (i == f.init),
                "state {} (index {}) has initial flag {} but the initial state index is {}",
                s.name(),
                i,
                s.is_initial(),
                f.init
            );
            f.names.push(s.name().to_string());
            f.acc.push(s.is_accepting());
            f.tr.push(s.transitions().iter().map(|t| vec![*t]).collect());
        }
        ensure!(d.initial_state() == &d.states()[f.init], "initial_state() is not the state at initial_state_index()");
        f.check_unique()?;
        Ok(f)
    }

    pub fn from_nfa(d: &Nfa) -> R<Fa> {
        let alpha: Vec<String> = d.alphabet().iter().map(|s| s.to_string()).collect();
        let k = alpha.len();
        let n = d.states().len();
        ensure!(n > 0, "NFA without states");
        let mut f = Fa { alpha, names: vec![], init: d.initial_state_index(), acc: vec![], eps: vec![], tr: vec![] };
        ensure!(f.init < n, "initial state index {} out of range ({} states)", f.init, n);
        for (i, s) in d.states().iter().enumerate() {
            ensure!(s.transitions().len() == k, "state {} has {} transitions for {} symbols", s.name(), s.transitions().len(), k);
            for t in s.transitions().iter().flatten().chain(s.epsilon_transitions()) {
                ensure!(*t < n, "state {} has a transition to missing state index {}", s.name(), t);
            }
            ensure!(
                s.is_initial() == (i == f.init),
                "state {} (index {}) has initial flag {} but the initial state index is {}",
                s.name(),
                i,
                s.is_initial(),
                f.init
            );
            f.names.push(s.name().to_string());
            f.acc.push(s.is_accepting());
            f.eps.push(s.epsilon_transitions().to_vec());
            f.tr.push(s.transitions().to_vec());
        }
        ensure!(d.initial_state() == &d.states()[f.init], "initial_state() is not the state at initial_state_index()");
        f.check_unique()?;
        Ok(f)
    }

    fn check_unique(&self) -> R {
        let set: BTreeSet<&String> = self.names.iter().collect();
        ensure!(set.len() == self.names.len(), "state names are not unique: {:?}", self.names);
        let set: BTreeSet<&String> = self.alpha.iter().collect();
        ensure!(set.len() == self.alpha.len(), "alphabet elements are not unique: {:?}", self.alpha);
        Ok(())
    }

    /// table text in the plainest layout
    pub fn text(&self, dfa: bool) -> String {
        let mut out = String::new();
        let eps = !dfa && (self.has_eps() || self.k() == 0);
        if eps {
            out.push_str("ε ");
        }
        out.push_str(&self.alpha.join(" "));
        out.push('\n');
        for i in 0..self.n() {
            if i == self.init {
                out.push_str("→ ");
            }
            if self.acc[i] {
                out.push_str("* ");
            }
            out.push_str(&self.names[i]);
            if dfa {
                for t in &self.tr[i] {
                    out.push(' ');
                    out.push_str(&self.names[t[0]]);
                }
            } else {
                let set = |ts: &Vec<usize>| ts.iter().map(|t| self.names[*t].clone()).collect::<Vec<_>>().join(" ");
                if eps {
                    out.push_str(&format!(" {{{}}}", set(&self.eps[i])));
                }
                for t in &self.tr[i] {
                    out.push_str(&format!(" {{{}}}", set(t)));
                }
            }
            out.push('\n');
        }
        out
    }

    /// the library's DFA for this model (set-up step: failures are discards)
    pub fn dfa(&self) -> R<Dfa> {
        if self.k() == 0 {
            return self.bare_dfa();
        }
        let text = self.text(true);
        let d: Dfa = match dandy::parser::dfa(&text) {
            Ok(p) => match p.try_into() {
                Ok(d) => d,
                Err(_) => return discard("set-up: DFA table not validated"),
            },
            Err(_) => return discard("set-up: DFA table not parsed"),
        };
        match Fa::from_dfa(&d) {
            Ok(f) if &f == self => Ok(d),
            _ => discard("set-up: DFA table parsed to something else"),
        }
    }

    /// no table describes a DFA without symbols, but converting an NFA gives one
    fn bare_dfa(&self) -> R<Dfa> {
        if self.n() != 1 {
            return discard("set-up: DFA without symbols, but with several states");
        }
        let n: Nfa = match dandy::parser::nfa(if self.acc[0] { "eps\n-> * 0 {}" } else { "eps\n-> 0 {}" }) {
            Ok(p) => match p.try_into() {
                Ok(n) => n,
                Err(_) => return discard("set-up: NFA table not validated"),
            },
            Err(_) => return discard("set-up: NFA table not parsed"),
        };
        let d = n.to_dfa();
        match Fa::from_dfa(&d) {
            Ok(f) if &f == self => Ok(d),
            _ => discard("set-up: DFA without symbols"),
        }
    }

    pub fn nfa(&self) -> R<Nfa> {
        let text = self.text(false);
        let d: Nfa = match dandy::parser::nfa(&text) {
            Ok(p) => match p.try_into() {
                Ok(d) => d,
                Err(_) => return discard("set-up: NFA table not validated"),
            },
            Err(_) => return discard("set-up: NFA table not parsed"),
        };
        match Fa::from_nfa(&d) {
            Ok(f) if &f == self => Ok(d),
            _ => discard("set-up: NFA table parsed to something else"),
        }
    }

    pub fn close(&self, b: &mut Bs) {
        let mut work = bs_iter(b);
        while let Some(s) = work.pop() {
            for &t in &self.eps[s] {
                if bs_set(b, t) {
                    work.push(t);
                }
            }
        }
    }

    pub fn start(&self) -> Bs {
        let mut b = bs_new(self.n());
        bs_set(&mut b, self.init);
        self.close(&mut b);
        b
    }

    pub fn step(&self, b: &Bs, sym: usize) -> Bs {
        let mut r = bs_new(self.n());
        for s in bs_iter(b) {
            for &t in &self.tr[s][sym] {
                bs_set(&mut r, t);
            }
        }
        self.close(&mut r);
        r
    }

    pub fn accepting(&self, b: &Bs) -> bool {
        bs_iter(b).into_iter().any(|s| self.acc[s])
    }

    pub fn sym(&self, s: &str) -> Option<usize> {
        self.alpha.iter().position(|a| a == s)
    }

    pub fn accepts(&self, word: &[String]) -> bool {
        let mut b = self.start();
        for w in word {
            match self.sym(w) {
                Some(i) => b = self.step(&b, i),
                None => return false,
            }
        }
        self.accepting(&b)
    }

    pub fn accepts_idx(&self, word: &[usize]) -> bool {
        let mut b = self.start();
        for w in word {
            b = self.step(&b, *w);
        }
        self.accepting(&b)
    }

    /// reachable state indices, ascending
    pub fn reachable(&self) -> Vec<usize> {
        let mut seen = vec![false; self.n()];
        let mut work = vec![self.init];
        seen[self.init] = true;
        while let Some(s) = work.pop() {
            for &t in self.tr[s].iter().flatten().chain(&self.eps[s]) {
                if !seen[t] {
                    seen[t] = true;
                    work.push(t);
                }
            }
        }
        (0..self.n()).filter(|i| seen[*i]).collect()
    }

    /// restriction to a set of states closed under transitions and containing the initial state
    pub fn restrict(&self, keep: &[usize]) -> Fa {
        let pos: BTreeMap<usize, usize> = keep.iter().enumerate().map(|(a, b)| (*b, a)).collect();
        let m = |v: &Vec<usize>| v.iter().filter_map(|t| pos.get(t).copied()).collect::<Vec<_>>();
        Fa {
            alpha: self.alpha.clone(),
            names: keep.iter().map(|i| self.names[*i].clone()).collect(),
            init: pos[&self.init],
            acc: keep.iter().map(|i| self.acc[*i]).collect(),
            eps: keep.iter().map(|i| m(&self.eps[*i])).collect(),
            tr: keep.iter().map(|i| self.tr[*i].iter().map(m).collect()).collect(),
        }
    }

    pub fn same_alphabet_set(&self, o: &Fa) -> bool {
        let a: BTreeSet<&String> = self.alpha.iter().collect();
        let b: BTreeSet<&String> = o.alpha.iter().collect();
        a == b
    }

    /// subset construction over `order`, which must be a permutation of the alphabet
    pub fn det_over(&self, order: &[String]) -> R<Det> {
        let syms: Vec<usize> = order
            .iter()
            .map(|s| self.sym(s).ok_or_else(|| Stop::Fail(format!("symbol {s:?} missing from the alphabet {:?}", self.alpha))))
            .collect::<R<_>>()?;
        ensure!(order.len() == self.k(), "alphabet is {:?}, expected {:?} in some order", self.alpha, order);
        let mut index: BTreeMap<Bs, usize> = BTreeMap::new();
        let s0 = self.start();
        let mut acc = vec![self.accepting(&s0)];
        let mut tr: Vec<Vec<usize>> = vec![];
        index.insert(s0.clone(), 0);
        let mut queue = VecDeque::from([s0]);
        while let Some(b) = queue.pop_front() {
            let mut row = Vec::with_capacity(syms.len());
            for &k in &syms {
                let t = self.step(&b, k);
                let id = match index.get(&t) {
                    Some(i) => *i,
                    None => {
                        let id = acc.len();
                        if id >= DET_LIMIT {
                            return discard("model automaton too large");
                        }
                        acc.push(self.accepting(&t));
                        index.insert(t.clone(), id);
                        queue.push_back(t);
                        id
                    }
                };
                row.push(id);
            }
            tr.push(row);
        }
        Ok(Det { alpha: order.to_vec(), acc, tr })
    }

    /// the library takes long for automata with many states that are in many combinations of them
    pub fn tame(&self) -> R {
        let one_at_a_time = self.eps.iter().all(|e| e.is_empty()) && self.tr.iter().flatten().all(|t| t.len() <= 1);
        if self.n() > 62 && !one_at_a_time && self.det()?.n() > 600 {
            return discard("large automaton with many combinations of states");
        }
        Ok(())
    }

    pub fn det(&self) -> R<Det> {
        self.det_over(&self.alpha)
    }

    /// Myhill–Nerode classes of the states of a deterministic automaton (all states, reachable or not)
    pub fn classes(&self) -> Vec<usize> {
        let mut cls: Vec<usize> = self.acc.iter().map(|a| *a as usize).collect();
        loop {
            let mut map: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
            let next: Vec<usize> = (0..self.n())
                .map(|s| {
                    let mut key = vec![cls[s]];
                    key.extend(self.tr[s].iter().map(|t| cls[t[0]]));
                    let l = map.len();
                    *map.entry(key).or_insert(l)
                })
                .collect();
            let old = cls.iter().collect::<BTreeSet<_>>().len();
            let stable = map.len() == old;
            cls = next;
            if stable {
                return cls;
            }
        }
    }

    pub fn n_min_states(&self) -> usize {
        let r = self.restrict(&self.reachable());
        r.classes().into_iter().collect::<BTreeSet<_>>().len()
    }

    /// states from which an accepting state can be reached
    pub fn coreachable(&self) -> Vec<bool> {
        let mut c = self.acc.clone();
        loop {
            let mut ch = false;
            for s in 0..self.n() {
                if !c[s] && self.tr[s].iter().flatten().chain(&self.eps[s]).any(|t| c[*t]) {
                    c[s] = true;
                    ch = true;
                }
            }
            if !ch {
                return c;
            }
        }
    }

    /// the isomorphism check for deterministic automata whose states are all reachable
    pub fn isomorphic(&self, o: &Fa) -> bool {
        if self.n() != o.n() || !self.same_alphabet_set(o) {
            return false;
        }
        let map: Vec<usize> = self.alpha.iter().map(|a| o.sym(a).unwrap()).collect();
        let mut m: BTreeMap<usize, usize> = BTreeMap::new();
        let mut inv: BTreeMap<usize, usize> = BTreeMap::new();
        let mut work = vec![(self.init, o.init)];
        while let Some((a, b)) = work.pop() {
            match (m.get(&a), inv.get(&b)) {
                (Some(x), Some(y)) if *x == b && *y == a => continue,
                (None, None) => {}
                _ => return false,
            }
            m.insert(a, b);
            inv.insert(b, a);
            if self.acc[a] != o.acc[b] {
                return false;
            }
            for k in 0..self.k() {
                work.push((self.tr[a][k][0], o.tr[b][map[k]][0]));
            }
        }
        m.len() == self.n()
    }
}

impl Det {
    pub fn n(&self) -> usize {
        self.acc.len()
    }

    /// states from which acceptance is possible
    pub fn alive(&self) -> Vec<bool> {
        let mut rev: Vec<Vec<usize>> = vec![vec![]; self.n()];
        for (s, row) in self.tr.iter().enumerate() {
            for t in row {
                rev[*t].push(s);
            }
        }
        let mut a = self.acc.clone();
        let mut work: Vec<usize> = (0..self.n()).filter(|s| a[*s]).collect();
        while let Some(s) = work.pop() {
            for &p in &rev[s] {
                if !a[p] {
                    a[p] = true;
                    work.push(p);
                }
            }
        }
        a
    }

    pub fn is_empty(&self) -> bool {
        !self.alive()[0]
    }

    /// finite language?
    pub fn is_finite(&self) -> bool {
        // a cycle among alive states (all states are reachable by construction)
        let alive = self.alive();
        let mut color = vec![0u8; self.n()];
        // iterative DFS
        for root in 0..self.n() {
            if !alive[root] || color[root] != 0 {
                continue;
            }
            let mut stack = vec![(root, 0usize)];
            color[root] = 1;
            while let Some((s, i)) = stack.pop() {
                if i < self.tr[s].len() {
                    stack.push((s, i + 1));
                    let t = self.tr[s][i];
                    if alive[t] {
                        match color[t] {
                            0 => {
                                color[t] = 1;
                                stack.push((t, 0));
                            }
                            1 => return false,
                            _ => {}
                        }
                    }
                } else {
                    color[s] = 2;
                }
            }
        }
        true
    }

    pub fn accepts(&self, word: &[usize]) -> bool {
        let mut s = 0;
        for w in word {
            s = self.tr[s][*w];
        }
        self.acc[s]
    }

    pub fn word(&self, w: &[usize]) -> Vec<String> {
        w.iter().map(|i| self.alpha[*i].clone()).collect()
    }

    pub fn complement(&self) -> Det {
        Det { alpha: self.alpha.clone(), acc: self.acc.iter().map(|a| !a).collect(), tr: self.tr.clone() }
    }

    /// all languages over the same symbol order; Boolean combination of two
    pub fn combine(&self, o: &Det, f: &dyn Fn(bool, bool) -> bool) -> R<Det> {
        assert_eq!(self.alpha, o.alpha);
        let mut index: BTreeMap<(usize, usize), usize> = BTreeMap::from([((0, 0), 0)]);
        let mut acc = vec![f(self.acc[0], o.acc[0])];
        let mut tr = vec![];
        let mut queue = VecDeque::from([(0usize, 0usize)]);
        while let Some((a, b)) = queue.pop_front() {
            let mut row = vec![];
            for k in 0..self.alpha.len() {
                let t = (self.tr[a][k], o.tr[b][k]);
                let id = match index.get(&t) {
                    Some(i) => *i,
                    None => {
                        let id = acc.len();
                        if id >= 4 * DET_LIMIT {
                            return discard("model product too large");
                        }
                        index.insert(t, id);
                        acc.push(f(self.acc[t.0], o.acc[t.1]));
                        queue.push_back(t);
                        id
                    }
                };
                row.push(id);
            }
            tr.push(row);
        }
        Ok(Det { alpha: self.alpha.clone(), acc, tr })
    }

    /// minimal table, states numbered in breadth-first order (canonical)
    pub fn canon(&self) -> Det {
        let n = self.n();
        let mut cls: Vec<usize> = self.acc.iter().map(|a| *a as usize).collect();
        loop {
            let mut map: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
            let next: Vec<usize> = (0..n)
                .map(|s| {
                    let mut key = vec![cls[s]];
                    key.extend(self.tr[s].iter().map(|t| cls[*t]));
                    let l = map.len();
                    *map.entry(key).or_insert(l)
                })
                .collect();
            let old = cls.iter().collect::<BTreeSet<_>>().len();
            let stable = map.len() == old;
            cls = next;
            if stable {
                break;
            }
        }
        let mut order: BTreeMap<usize, usize> = BTreeMap::new();
        let mut rep = vec![];
        let mut queue = VecDeque::from([0usize]);
        order.insert(cls[0], 0);
        rep.push(0usize);
        let mut tr = vec![];
        while let Some(s) = queue.pop_front() {
            let mut row = vec![];
            for &t in &self.tr[s] {
                let l = order.len();
                let id = *order.entry(cls[t]).or_insert_with(|| {
                    queue.push_back(t);
                    rep.push(t);
                    l
                });
                row.push(id);
            }
            tr.push(row);
        }
        Det { alpha: self.alpha.clone(), acc: rep.iter().map(|r| self.acc[*r]).collect(), tr }
    }
}

/// Shortest word on which `pred` of the acceptance bits is false, over tables with one symbol order.
pub fn find_word(dets: &[&Det], pred: &dyn Fn(&[bool]) -> bool) -> R<Option<Vec<usize>>> {
    let k = dets[0].alpha.len();
    for d in dets {
        assert_eq!(d.alpha, dets[0].alpha);
    }
    let start: Vec<u32> = vec![0; dets.len()];
    let mut index: BTreeMap<Vec<u32>, usize> = BTreeMap::from([(start.clone(), 0)]);
    let mut back: Vec<(usize, usize)> = vec![(usize::MAX, 0)];
    let mut queue = VecDeque::from([(start, 0usize)]);
    while let Some((st, id)) = queue.pop_front() {
        let bits: Vec<bool> = st.iter().zip(dets).map(|(s, d)| d.acc[*s as usize]).collect();
        if !pred(&bits) {
            let mut w = vec![];
            let mut i = id;
            while back[i].0 != usize::MAX {
                w.push(back[i].1);
                i = back[i].0;
            }
            w.reverse();
            return Ok(Some(w));
        }
        for s in 0..k {
            let t: Vec<u32> = st.iter().zip(dets).map(|(x, d)| d.tr[*x as usize][s] as u32).collect();
            if !index.contains_key(&t) {
                let nid = back.len();
                if nid > 400_000 {
                    return discard("model product too large");
                }
                index.insert(t.clone(), nid);
                back.push((id, s));
                queue.push_back((t, nid));
            }
        }
    }
    Ok(None)
}

/// asserts that `got` has the expected language over the expected alphabet (as a set)
pub fn same_language(what: &str, got: &Fa, expected: &Det) -> R {
    let a: BTreeSet<&String> = got.alpha.iter().collect();
    let b: BTreeSet<&String> = expected.alpha.iter().collect();
    ensure!(a == b, "{what}: alphabet is {:?}, expected {:?}", got.alpha, expected.alpha);
    let d = got.det_over(&expected.alpha)?;
    if let Some(w) = find_word(&[&d, expected], &|b| b[0] == b[1])? {
        return fail(format!(
            "{what}: word {:?} is {} but should be {}",
            expected.word(&w),
            if d.accepts(&w) { "accepted" } else { "rejected" },
            if expected.accepts(&w) { "accepted" } else { "rejected" }
        ));
    }
    Ok(())
}

pub fn same_alphabet_order(what: &str, got: &Fa, expected: &[String]) -> R {
    ensure!(got.alpha == expected, "{what}: alphabet {:?}, expected {:?}", got.alpha, expected);
    Ok(())
}

/// Words of the language in length-then-alphabet order.
pub struct Enumerate<'a> {
    d: &'a Det,
    /// reach[l][s]: acceptance in exactly l steps
    reach: Vec<Bs>,
    rev: Vec<Vec<usize>>,
    len: usize,
    gap: usize,
    stack: Vec<(usize, usize)>, // (state, next symbol)
    word: Vec<usize>,
    started: bool,
}

impl<'a> Enumerate<'a> {
    pub fn new(d: &'a Det) -> Self {
        let mut rev: Vec<Vec<usize>> = vec![vec![]; d.n()];
        for (s, row) in d.tr.iter().enumerate() {
            for t in row {
                rev[*t].push(s);
            }
        }
        let mut r0 = bs_new(d.n());
        for s in 0..d.n() {
            if d.acc[s] {
                bs_set(&mut r0, s);
            }
        }
        Enumerate { d, reach: vec![r0], rev, len: 0, gap: 0, stack: vec![], word: vec![], started: false }
    }
    fn ensure_len(&mut self, l: usize) {
        while self.reach.len() <= l {
            let mut r = bs_new(self.d.n());
            for s in bs_iter(self.reach.last().unwrap()) {
                for p in &self.rev[s] {
                    bs_set(&mut r, *p);
                }
            }
            self.reach.push(r);
        }
    }
}

impl Iterator for Enumerate<'_> {
    type Item = Vec<usize>;
    fn next(&mut self) -> Option<Vec<usize>> {
        let k = self.d.alpha.len();
        loop {
            if self.stack.is_empty() {
                if self.started {
                    self.len += 1;
                }
                self.started = true;
                loop {
                    // the determinised automaton has d.n() states, so a longer gap cannot occur
                    if self.gap > self.d.n() + 1 {
                        return None;
                    }
                    self.ensure_len(self.len);
                    if bs_get(&self.reach[self.len], 0) {
                        self.gap = 0;
                        break;
                    }
                    self.gap += 1;
                    self.len += 1;
                }
                self.word.clear();
                self.stack.push((0, 0));
                if self.len == 0 {
                    self.stack.clear();
                    return Some(vec![]);
                }
            }
            // depth-first walk producing the next word of length self.len
            while let Some(&(s, c)) = self.stack.last() {
                let depth = self.stack.len() - 1;
                if c >= k {
                    self.stack.pop();
                    self.word.pop();
                    continue;
                }
                self.stack.last_mut().unwrap().1 += 1;
                let t = self.d.tr[s][c];
                let rest = self.len - depth - 1;
                if !bs_get(&self.reach[rest], t) {
                    continue;
                }
                if rest == 0 {
                    let mut w = self.word.clone();
                    w.push(c);
                    return Some(w);
                }
                self.word.push(c);
                self.stack.push((t, 0));
            }
        }
    }
}

/// The reference dead-state fixpoint: accepting and initial states are never dead.
pub fn dead_states(f: &Fa) -> Vec<usize> {
    let mut dead = vec![false; f.n()];
    loop {
        let mut ch = false;
        for s in 0..f.n() {
            if !dead[s] && !f.acc[s] && s != f.init && f.tr[s].iter().flatten().all(|t| dead[*t]) {
                dead[s] = true;
                ch = true;
            }
        }
        if !ch {
            return (0..f.n()).filter(|i| dead[*i]).collect();
        }
    }
}
