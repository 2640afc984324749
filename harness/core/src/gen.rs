//! Structured generators for alphabets, names, automata and pairs of automata.

use crate::engine::Src;
use crate::model::Fa;
use std::collections::BTreeSet;

pub const PLAIN: &[&str] = &["a", "b", "c", "d", "e", "f", "0", "1", "x", "y"];
/// elements of one extended grapheme cluster each; no concatenation of them joins into other clusters
pub const CLUSTERS: &[&str] = &[
    "å", "e\u{301}", "ö", "ß", "日", "本", "👍🏽", "👨\u{200d}👩\u{200d}👧", "한", "\u{915}\u{94d}\u{937}\u{93f}", "s₀", "→x", "λ", "∅", "|", "(", ")",
    "\\", "+", ",", "'", "\"", "&", "%", "-", ">", "=", "~", "ж",
];
/// elements with several clusters, or ones that concatenate ambiguously
pub const MULTI: &[&str] = &["aa", "ab", "ba", "abc", "aaa", "b1", "10", "01", "**", "->x", "*a", "εε", "epsilon", "a->", "a→", "*→", "eps1", "xε", "null", "none", "[a]", "\u{1}", "a\u{7f}", "\u{200b}", "\u{feff}a", "\u{ad}", "a\u{fe0f}", "\u{0}"];
pub const NAME_POOL: &[&str] = &[
    "s_new", "none", "(a,b)", "(s_new,s_new)", "a", "b", "a,b", "b,c", "c", "(", ")", "(a", "b)", "->x", "*x", "εx", "→y", "0", "1", "2", "3", "10", "11", "-1",
    "00", "s₀", "å", "å", "日本", "*", "q", "S_new", "s_new1", "(none,none)", "(none,a)", "epsilon", "EPS", "⊥", "∅", "|", "a,", ",a", ",", ",,", "%s", "\"", "…",
    "\u{1}", "\u{0}x", "q\u{200b}", "\u{200b}q", "\u{feff}", "\u{feff}q", "\u{ad}", "q\u{200f}", "\u{1b}[0m", "q\u{fe0f}", "q\u{7f}", "e\u{301}",
    "x→", "→→", "y->", "->->", "*->", "x*", "xε", "qeps", "ε→", "→ε", "**",
    "a_rather_long_state_name_with_more_than_thirty_two_characters",
];
const RESERVED: &[&str] = &["ε", "eps", "→", "->", "*"];

pub fn expressible(s: &str) -> bool {
    !s.is_empty() && !RESERVED.contains(&s) && !s.chars().any(|c| c.is_whitespace() || "#{}".contains(c))
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum AlphaStyle {
    /// any expressible element
    Any,
    /// one grapheme cluster per element, clusters never merging when concatenated
    Clusters,
    Plain,
}

/// k distinct expressible symbols
pub fn alphabet(s: &mut Src, k: usize, style: AlphaStyle) -> Vec<String> {
    let pool: Vec<&str> = match style {
        AlphaStyle::Plain => PLAIN.to_vec(),
        AlphaStyle::Clusters => match s.weighted(&[4, 2]) {
            0 => PLAIN.to_vec(),
            _ => PLAIN[..4].iter().chain(CLUSTERS.iter().filter(|c| !["s₀", "→x"].contains(c))).copied().collect(),
        },
        AlphaStyle::Any => match s.weighted(&[6, 2, 2, 2]) {
            0 => PLAIN.to_vec(),
            1 => PLAIN[..3].iter().chain(CLUSTERS).copied().collect(),
            2 => PLAIN[..2].iter().chain(MULTI).copied().collect(),
            _ => PLAIN.iter().chain(CLUSTERS).chain(MULTI).copied().collect(),
        },
    };
    let mut out: Vec<String> = vec![];
    // mostly in pool order (simple), sometimes shuffled
    let shuffled = s.chance(1, 3);
    let mut i = 0;
    while out.len() < k {
        let cand = if i >= pool.len() * 2 {
            match style {
                AlphaStyle::Any => format!("z{}", i),
                _ => char::from_u32(0x4e00 + i as u32).unwrap().to_string(),
            }
        } else if shuffled {
            s.pick(&pool).to_string()
        } else if i < pool.len() {
            pool[i].to_string()
        } else {
            i += 1;
            continue;
        };
        i += 1;
        if expressible(&cand) && !out.contains(&cand) {
            out.push(cand);
        }
    }
    match style {
        AlphaStyle::Any => lengthen(s, &mut out),
        AlphaStyle::Clusters if k > 0 && s.chance(1, 300) => {
            let (i, t) = (s.us(k), long_cluster(s));
            if !out.contains(&t) {
                out[i] = t;
            }
        }
        _ => {}
    }
    out
}

/// around sizes at which something may end
pub fn long_len(s: &mut Src) -> usize {
    let at = *s.pick(&[64, 100, 128, 200, 255, 256, 257, 300, 512, 1000, 1024, 4096]);
    at - 2 + s.us(5)
}

/// a long text without a break, different ones for different numbers
fn long_text(s: &mut Src, i: usize) -> String {
    let piece = *s.pick(&["n", "ab", "日", "é", "(a,", "-"]);
    let len = long_len(s);
    match s.us(3) {
        0 => format!("{}{i}", piece.repeat(len)),
        1 => format!("{i}{}", piece.repeat(len)),
        // the difference in the middle
        _ => format!("{}{i}{}", piece.repeat(len / 2), piece.repeat(len - len / 2)),
    }
}

/// a cluster with more combining marks than anyone needs
pub fn long_cluster(s: &mut Src) -> String {
    let base = *s.pick(&["a", "e", "日", "1"]);
    let n = *s.pick(&[12, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 2048]);
    format!("{base}{}", s.pick(&["\u{301}", "\u{308}", "\u{fe0f}"]).repeat(n))
}

/// now and then some of the names are long ones
fn lengthen(s: &mut Src, out: &mut [String]) {
    if out.is_empty() || out.len() > 100 || !s.chance(1, 300) {
        return;
    }
    let m = s.range(1, 3);
    for _ in 0..m {
        let i = s.us(out.len());
        let t = long_text(s, i);
        if !out.contains(&t) {
            out[i] = t;
        }
    }
}

/// n distinct expressible names
pub fn names(s: &mut Src, n: usize) -> Vec<String> {
    let mut out = short_names(s, n);
    lengthen(s, &mut out);
    out
}

fn short_names(s: &mut Src, n: usize) -> Vec<String> {
    let style = s.weighted(&[8, 4, 4, 6, 3, 1]);
    if style == 4 || style == 5 {
        return joined_names(s, n, style == 5);
    }
    let mut out: Vec<String> = Vec::with_capacity(n);
    let mut seen = BTreeSet::new();
    match style {
        0 => return (0..n).map(|i| format!("q{i}")).collect(),
        1 => return (0..n).map(|i| i.to_string()).collect(),
        2 => return (0..n).map(|i| (i + 1).to_string()).rev().collect(),
        _ => {}
    }
    for i in 0..n {
        let mut c = if n > 40 && i > 20 { format!("n{i}") } else { s.pick(NAME_POOL).to_string() };
        while !expressible(&c) || seen.contains(&c) {
            c = format!("{c}{i}");
            if c == "eps" {
                c.push('_');
            }
        }
        seen.insert(c.clone());
        out.push(c);
    }
    out
}

/// names put together from few pieces, so that putting two of them together again is ambiguous
fn joined_names(s: &mut Src, n: usize, digits: bool) -> Vec<String> {
    let pieces: &[&str] = if digits { &["1", "0", "11"] } else { &["p", "q", "none", "(p", "q)"] };
    let glue = if digits { "" } else { *s.pick(&[",", ",", ",", "|", "_", "-", "),("]) };
    let mut out: Vec<String> = Vec::with_capacity(n);
    let mut seen = BTreeSet::new();
    for i in 0..n {
        let m = 1 + s.weighted(&[3, 3, 2]);
        let few = if s.chance(3, 4) { 2 } else { pieces.len() };
        let mut c = (0..m).map(|_| pieces[s.us(few)]).collect::<Vec<_>>().join(glue);
        while !expressible(&c) || seen.contains(&c) {
            c = format!("{c}{glue}{}", if n > 12 { i.to_string() } else { pieces[i % 2].to_string() });
        }
        seen.insert(c.clone());
        out.push(c);
    }
    out
}

#[derive(Clone, Copy)]
pub struct Lim {
    pub max_n: usize,
    pub max_k: usize,
    pub min_k: usize,
    pub style: AlphaStyle,
    /// now and then a large alphabet
    pub wide: bool,
    /// one time in so many: a large number of states (0: never)
    pub tall: u64,
    /// one time in so many: a DFA without symbols (0: never)
    pub bare: u64,
    /// one time in so many: an NFA that is in hundreds of states at once (0: never)
    pub crowd: u64,
    /// one time in so many: a pair that differs (if at all) only after hundreds or thousands of steps (0: never)
    pub late: u64,
}

impl Lim {
    pub fn new(max_n: usize, max_k: usize) -> Self {
        Lim { max_n, max_k, min_k: 1, style: AlphaStyle::Any, wide: false, tall: 0, bare: 0, crowd: 0, late: 0 }
    }
    pub fn style(mut self, s: AlphaStyle) -> Self {
        self.style = s;
        self
    }
    pub fn wide(mut self) -> Self {
        self.wide = true;
        self
    }
    pub fn tall(mut self, one_in: u64) -> Self {
        self.tall = one_in;
        self
    }
    pub fn bare(mut self) -> Self {
        self.bare = 150;
        self
    }
    pub fn crowd(mut self, one_in: u64) -> Self {
        self.crowd = one_in;
        self
    }
    pub fn late(mut self, one_in: u64) -> Self {
        self.late = one_in;
        self
    }
    /// a number of states around the powers of two, if it is to be large
    fn height(&self, s: &mut Src) -> Option<usize> {
        if self.tall == 0 || !s.chance(1, self.tall) {
            return None;
        }
        Some(match s.weighted(&[2, 4, 3, 1]) {
            0 => 31 + s.us(5),
            1 => 63 + s.us(10),
            2 => 100 + s.us(40),
            _ => 254 + s.us(6),
        })
    }
    /// one time in 60: few states, many symbols
    fn chosen(&self, s: &mut Src) -> Lim {
        let mut l = Lim { wide: false, ..*self };
        if self.wide && s.chance(1, 50) {
            l.min_k = match s.weighted(&[2, 3, 2]) {
                0 => 31 + s.us(5),
                1 => 62 + s.us(70),
                _ => 254 + s.us(6),
            };
            l.max_k = l.min_k;
            l.max_n = l.max_n.min(6);
        }
        l
    }
    pub fn min_k(mut self, k: usize) -> Self {
        self.min_k = k;
        self
    }
}

fn scaled(s: &Src, max: usize) -> usize {
    // the size parameter bounds the reachable sizes, at least 3
    (3 + max.saturating_sub(3) * s.size as usize / 100).min(max)
}

pub fn alphabet_size(s: &mut Src, lim: &Lim) -> usize {
    let hi = scaled(s, lim.max_k.max(3)).min(lim.max_k).max(lim.min_k);
    match s.weighted(&[3, 5, 3, 1]) {
        0 => 1.max(lim.min_k).min(hi),
        1 => 2.max(lim.min_k).min(hi),
        2 => lim.min_k + s.us(hi.min(4) - lim.min_k.min(hi.min(4)) + 1),
        _ => lim.min_k + s.us(hi - lim.min_k + 1),
    }
    .clamp(lim.min_k, hi)
}

pub fn acceptance(s: &mut Src, n: usize) -> Vec<bool> {
    match s.weighted(&[8, 2, 3, 1, 1, 2]) {
        0 => (0..n).map(|_| s.flip()).collect(),
        1 => (0..n).map(|_| s.chance(1, 6)).collect(),
        2 => {
            let k = s.us(n);
            (0..n).map(|i| i == k).collect()
        }
        3 => vec![false; n],
        4 => vec![true; n],
        _ => {
            let k = s.us(n);
            (0..n).map(|i| i != k).collect()
        }
    }
}

fn init_state(s: &mut Src, n: usize) -> usize {
    if s.chance(2, 5) {
        s.us(n)
    } else {
        0
    }
}

/// transition rows of a DFA
fn dfa_rows(s: &mut Src, n: usize, k: usize) -> Vec<Vec<usize>> {
    match s.weighted(&[6, 3, 3, 3, 2]) {
        // uniform
        0 => (0..n).map(|_| (0..k).map(|_| s.us(n)).collect()).collect(),
        // ring/chain with resets
        1 => {
            let wrap = s.flip();
            (0..n)
                .map(|i| {
                    let nxt = if i + 1 < n {
                        i + 1
                    } else if wrap {
                        0
                    } else {
                        i
                    };
                    (0..k)
                        .map(|c| {
                            if c == 0 {
                                nxt
                            } else {
                                match s.us(4) {
                                    0 => nxt,
                                    1 => 0,
                                    2 => i,
                                    _ => s.us(n),
                                }
                            }
                        })
                        .collect()
                })
                .collect()
        }
        // sink heavy
        2 => {
            let sink = s.us(n);
            (0..n).map(|i| (0..k).map(|_| if i == sink || s.chance(2, 3) { sink } else { s.us(n) }).collect()).collect()
        }
        // acyclic towards the end: finite language
        3 => (0..n)
            .map(|i| {
                (0..k)
                    .map(|_| {
                        let lo = (i + 1).min(n - 1);
                        lo + s.us((n - lo).min(3))
                    })
                    .collect()
            })
            .collect(),
        // permutations per symbol
        _ => {
            let perms: Vec<Vec<usize>> = (0..k).map(|_| s.perm(n)).collect();
            (0..n).map(|i| (0..k).map(|c| perms[c][i]).collect()).collect()
        }
    }
}

/// a number of states: now and then one, mostly few
fn states(s: &mut Src, hi: usize) -> usize {
    let top = match s.weighted(&[1, 6, 6, 4]) {
        0 => return 1,
        1 => 4.min(hi),
        2 => 9.min(hi),
        _ => hi,
    };
    2.min(top) + s.us(top - 2.min(top) + 1)
}

/// many states, most of them reached one after the other, with few branches
fn tall_fa(s: &mut Src, alpha: Vec<String>, n: usize, dfa: bool, eps: Eps) -> Fa {
    let k = alpha.len();
    let end = s.us(3);
    let steady = s.flip();
    let next = |i: usize| if i + 1 < n { i + 1 } else if end == 0 { 0 } else { i };
    let mut tr: Vec<Vec<Vec<usize>>> = vec![vec![vec![]; k]; n];
    let mut e: Vec<Vec<usize>> = vec![vec![]; n];
    let branches = s.us(4);
    for i in 0..n {
        let main = if steady || k == 0 { 0 } else { s.us(k) };
        for c in 0..k {
            if c == main {
                if dfa || end < 2 || i + 1 < n {
                    tr[i][c] = vec![next(i)];
                }
                continue;
            }
            let t = match s.weighted(&[4, 3, 2, 1]) {
                0 if dfa => next(i),
                0 => continue,
                1 => next(i),
                2 => 0,
                _ => s.us(n),
            };
            tr[i][c] = vec![t];
        }
    }
    let mut acc = acceptance(s, n);
    if s.chance(1, 3) {
        // the last states decide
        acc = (0..n).map(|i| i + 3 >= n && s.flip()).collect();
    }
    if !dfa {
        if end > 0 && k > 0 {
            for _ in 0..branches {
                let (i, c) = (s.us(n), s.us(k));
                let t = i + s.us(n - i);
                if !tr[i][c].contains(&t) {
                    tr[i][c].push(t);
                }
            }
        }
        if eps == Eps::Maybe {
            match s.us(4) {
                0 => {}
                1 => {
                    for _ in 0..1 + s.us(3) {
                        let i = s.us(n);
                        e[i].push(s.us(n));
                    }
                }
                2 => {
                    // a stretch of ε-moves only
                    let a = s.us(n);
                    let b = a + s.us(n - a);
                    for i in a..b {
                        e[i].push(i + 1);
                    }
                }
                _ => {
                    for i in 0..n - 1 {
                        if s.chance(1, 8) {
                            e[i].push(i + 1);
                        }
                    }
                }
            }
        }
    }
    let init = if s.chance(1, 6) { s.us(n) } else { 0 };
    let mut f = Fa { alpha, names: vec![], init, acc, eps: e, tr };
    if s.chance(1, 2) {
        let p = s.perm(n);
        f.names = vec![String::new(); n];
        f = permute_states(&f, &p);
    }
    f.names = names(s, n);
    enliven(s, &mut f, dfa);
    f
}

/// a DFA without symbols: no table describes one, but converting an NFA over no symbols gives it
fn bare_dfa(s: &mut Src) -> Fa {
    Fa { alpha: vec![], names: vec!["0".into()], init: 0, acc: vec![s.flip()], eps: vec![vec![]], tr: vec![vec![]] }
}

pub fn dfa(s: &mut Src, lim: &Lim) -> Fa {
    if lim.bare > 0 && s.chance(1, lim.bare) {
        return bare_dfa(s);
    }
    if let Some(n) = lim.height(s) {
        let k = s.range(lim.min_k.max(1), 3);
        let alpha = alphabet(s, k, lim.style);
        return tall_fa(s, alpha, n, true, Eps::No);
    }
    let lim = &lim.chosen(s);
    let k = alphabet_size(s, lim);
    let alpha = alphabet(s, k, lim.style);
    dfa_over(s, alpha, lim.max_n)
}

pub fn dfa_over(s: &mut Src, alpha: Vec<String>, max_n: usize) -> Fa {
    if alpha.is_empty() {
        return bare_dfa(s);
    }
    let k = alpha.len();
    let hi = scaled(s, max_n);
    let n = states(s, hi);
    let blow = s.chance(1, 4) && n >= 2;
    let mut f = if blow {
        // a small core whose states are duplicated: many non-distinguishable states
        let m = s.range(1, (n / 2).max(1));
        let rows = dfa_rows(s, m, k);
        let acc = acceptance(s, m);
        let of: Vec<usize> = (0..n).map(|i| if i < m { i } else { s.us(m) }).collect();
        let copies: Vec<Vec<usize>> = (0..m).map(|c| (0..n).filter(|i| of[*i] == c).collect()).collect();
        let tr = (0..n).map(|i| (0..k).map(|c| vec![*s.pick(&copies[rows[of[i]][c]])]).collect()).collect();
        Fa { alpha, names: vec![], init: 0, acc: of.iter().map(|c| acc[*c]).collect(), eps: vec![vec![]; n], tr }
    } else {
        let rows = dfa_rows(s, n, k);
        let acc = acceptance(s, n);
        Fa {
            alpha,
            names: vec![],
            init: 0,
            acc,
            eps: vec![vec![]; n],
            tr: rows.into_iter().map(|r| r.into_iter().map(|t| vec![t]).collect()).collect(),
        }
    };
    hush(s, &mut f);
    f.init = init_state(s, n);
    f.names = names(s, n);
    if s.chance(2, 3) {
        enliven(s, &mut f, true);
    }
    if s.chance(1, 5) {
        let p = s.perm(n);
        f = permute_states(&f, &p);
    }
    f
}

/// a symbol of a large alphabet, more often than not one of the last
fn late_symbol(s: &mut Src, k: usize) -> usize {
    if k > 30 && s.flip() {
        k - 1 - s.us(8)
    } else {
        s.us(k)
    }
}

/// every other large alphabet: all symbols but a few do the same (or nothing), those few are more often than not among
/// the last
fn hush(s: &mut Src, f: &mut Fa) {
    let (n, k) = (f.tr.len(), f.k());
    if k <= 30 || s.flip() {
        return;
    }
    let loud: Vec<usize> = (0..s.range(1, 4)).map(|_| late_symbol(s, k)).collect();
    let kind = s.us(3);
    for i in 0..n {
        let common = match kind {
            0 => f.tr[i][0].clone(),
            1 => f.tr[0][0].clone(),
            _ => vec![i],
        };
        for c in 0..k {
            if !loud.contains(&c) {
                f.tr[i][c] = common.clone();
            } else if f.tr[i][c] == common {
                f.tr[i][c] = vec![s.us(n)];
            }
        }
    }
}

/// a trivial automaton becomes one that accepts some word and, if deterministic, rejects some word
fn enliven(s: &mut Src, f: &mut Fa, dfa: bool) {
    let (n, k) = (f.n(), f.k());
    if n < 2 || k == 0 {
        return;
    }
    let reach = |f: &Fa| {
        let mut seen = vec![false; n];
        seen[f.init] = true;
        let mut order = vec![f.init];
        let mut i = 0;
        while i < order.len() {
            let q = order[i];
            i += 1;
            for t in f.tr[q].iter().flatten().chain(&f.eps[q]) {
                if !seen[*t] {
                    seen[*t] = true;
                    order.push(*t);
                }
            }
        }
        order
    };
    let mut r = reach(f);
    if r.len() == 1 {
        let c = late_symbol(s, k);
        let t = (f.init + 1 + s.us(n - 1)) % n;
        f.tr[f.init][c] = vec![t];
        r = reach(f);
    }
    if r.iter().all(|q| !f.acc[*q]) {
        f.acc[*s.pick(&r)] = true;
    } else if dfa && r.iter().all(|q| f.acc[*q]) {
        f.acc[*s.pick(&r)] = false;
    }
}

/// p[new] = old
pub fn permute_states(f: &Fa, p: &[usize]) -> Fa {
    let mut inv = vec![0; p.len()];
    for (new, old) in p.iter().enumerate() {
        inv[*old] = new;
    }
    let m = |v: &Vec<usize>| v.iter().map(|t| inv[*t]).collect::<Vec<_>>();
    Fa {
        alpha: f.alpha.clone(),
        names: p.iter().map(|o| f.names[*o].clone()).collect(),
        init: inv[f.init],
        acc: p.iter().map(|o| f.acc[*o]).collect(),
        eps: p.iter().map(|o| m(&f.eps[*o])).collect(),
        tr: p.iter().map(|o| f.tr[*o].iter().map(m).collect()).collect(),
    }
}

/// p[new] = old
pub fn permute_alphabet(f: &Fa, p: &[usize]) -> Fa {
    let mut g = f.clone();
    g.alpha = p.iter().map(|o| f.alpha[*o].clone()).collect();
    g.tr = f.tr.iter().map(|r| p.iter().map(|o| r[*o].clone()).collect()).collect();
    g
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Eps {
    No,
    Maybe,
}

/// an NFA that is in hundreds of states at once, where few of them decide
fn crowd_fa(s: &mut Src, lim: &Lim, eps: Eps) -> Fa {
    let m = match s.weighted(&[4, 2, 1, 1]) {
        0 => 257 + s.us(8),
        1 => 127 + s.us(8),
        2 => 60 + s.us(300),
        _ => 253 + s.us(4),
    };
    let n = m + 1;
    // what decides is at the end
    let last = s.flip();
    let k = s.range(2, 3);
    let alpha = alphabet(s, k, lim.style);
    let few = |s: &mut Src| -> BTreeSet<usize> {
        let c = 1 + s.us(3);
        (0..c).map(|_| 1 + if last || s.flip() { m - 1 - s.us(4) } else { s.us(m) }).collect()
    };
    let mut tr = vec![vec![vec![]; k]; n];
    let mut e = vec![vec![]; n];
    match s.us(if eps == Eps::Maybe { 3 } else { 1 }) {
        0 => tr[0][0] = (1..n).collect(),
        1 => e[0] = (1..n).collect(),
        _ => {
            for (i, v) in e.iter_mut().enumerate().take(m) {
                v.push(i + 1);
            }
        }
    }
    for c in 1..k {
        let out = few(s);
        let keep = s.chance(2, 3);
        for i in 1..n {
            if !out.contains(&i) {
                tr[i][c].push(i);
            } else if !keep {
                tr[i][c].push(1 + i % m);
            }
        }
    }
    let yes = few(s);
    let mut f = Fa { alpha, names: vec![], init: 0, acc: (0..n).map(|i| yes.contains(&i)).collect(), eps: e, tr };
    f.names = names(s, n);
    if s.chance(1, 4) {
        let p = s.perm(n);
        f = permute_states(&f, &p);
    }
    f
}

pub fn nfa(s: &mut Src, lim: &Lim, eps: Eps) -> Fa {
    if lim.crowd > 0 && s.chance(1, lim.crowd) {
        return crowd_fa(s, lim, eps);
    }
    if let Some(n) = lim.height(s) {
        let k = s.range(lim.min_k.max(1), 3);
        let alpha = alphabet(s, k, lim.style);
        return tall_fa(s, alpha, n, false, eps);
    }
    let lim = &lim.chosen(s);
    let k = alphabet_size(s, lim);
    let alpha = alphabet(s, k, lim.style);
    nfa_over(s, alpha, lim.max_n, eps)
}

pub fn nfa_over(s: &mut Src, alpha: Vec<String>, max_n: usize, eps: Eps) -> Fa {
    let k = alpha.len();
    let hi = scaled(s, max_n);
    let n = states(s, hi);
    let mut tr: Vec<Vec<Vec<usize>>> = vec![vec![vec![]; k]; n];
    let mut acc = acceptance(s, n);
    match s.weighted(&[8, 3, 2, 3, 2]) {
        // random density
        0 => {
            let w: [u64; 4] = *s.pick(&[[4, 4, 1, 0], [1, 1, 0, 0], [2, 4, 3, 1], [6, 2, 0, 0]]);
            for row in tr.iter_mut() {
                for cell in row.iter_mut() {
                    let m = s.weighted(&w);
                    for _ in 0..m {
                        let t = s.us(n);
                        if !cell.contains(&t) || s.chance(1, 10) {
                            cell.push(t);
                        }
                    }
                }
            }
        }
        // chain with a self-loop at the start: "k-th symbol from the end"
        1 if k > 0 => {
            for c in 0..k {
                tr[0][c].push(0);
            }
            let mark = s.us(k);
            for i in 0..n.saturating_sub(1) {
                for c in 0..k {
                    if i > 0 || c == mark {
                        if !tr[i][c].contains(&(i + 1)) {
                            tr[i][c].push(i + 1);
                        }
                    }
                }
            }
            acc = (0..n).map(|i| i == n - 1).collect();
        }
        // cycles of different lengths: sparse word lengths with gaps
        2 if k > 0 => {
            let mut i = 0;
            let mut heads = vec![];
            while i < n {
                let len = s.range(1, (n - i).min(7));
                for j in 0..len {
                    let nxt = if j + 1 == len { i } else { i + j + 1 };
                    let c = s.us(k);
                    tr[i + j][c].push(nxt);
                }
                heads.push(i);
                i += len;
            }
            for h in &heads[1..] {
                let c = s.us(k);
                if !tr[0][c].contains(h) {
                    tr[0][c].push(*h);
                }
            }
            acc = (0..n).map(|_| s.chance(1, 4)).collect();
        }
        // acyclic: finite language
        3 => {
            for i in 0..n {
                for c in 0..k {
                    let m = s.weighted(&[2, 3, 1]);
                    for _ in 0..m {
                        if i + 1 < n {
                            let t = i + 1 + s.us((n - i - 1).min(4));
                            if !tr[i][c].contains(&t) {
                                tr[i][c].push(t);
                            }
                        }
                    }
                }
            }
        }
        // a DFA
        _ => {
            if k > 0 {
                let rows = dfa_rows(s, n, k);
                for (i, r) in rows.into_iter().enumerate() {
                    for (c, t) in r.into_iter().enumerate() {
                        tr[i][c].push(t);
                    }
                }
            }
        }
    }
    let mut e: Vec<Vec<usize>> = vec![vec![]; n];
    if eps == Eps::Maybe {
        match s.weighted(&[3, 4, 2, 2, 1]) {
            0 => {}
            // sparse
            1 => {
                for row in e.iter_mut() {
                    if s.chance(1, 3) {
                        row.push(s.us(n));
                    }
                }
            }
            // dense
            2 => {
                for row in e.iter_mut() {
                    let m = s.us(3);
                    for _ in 0..m {
                        let t = s.us(n);
                        if !row.contains(&t) || s.chance(1, 8) {
                            row.push(t);
                        }
                    }
                }
            }
            // chain or cycle
            3 => {
                let p = s.perm(n);
                for i in 0..n - 1 {
                    if !s.chance(1, 4) {
                        e[p[i]].push(p[i + 1]);
                    }
                }
                if s.flip() {
                    e[p[n - 1]].push(p[0]);
                }
            }
            // one
            _ => {
                let a = s.us(n);
                let b = s.us(n);
                e[a].push(b);
            }
        }
    }
    let init = init_state(s, n);
    let nm = names(s, n);
    let mut f = Fa { alpha, names: nm, init, acc, eps: e, tr };
    hush(s, &mut f);
    if s.chance(1, 2) {
        enliven(s, &mut f, false);
    }
    f
}

/// relation of the second automaton of a pair to the first
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rel {
    Independent,
    Rewritten,
    Mutated,
    OtherAlphabet,
}

/// another automaton over the same alphabet, in another order perhaps
pub fn reorder(s: &mut Src, f: Fa) -> Fa {
    if f.k() > 8 && s.chance(1, 3) {
        // only two symbols change places
        let mut p: Vec<usize> = (0..f.k()).collect();
        let (a, b) = (late_symbol(s, f.k()), late_symbol(s, f.k()));
        p.swap(a, b);
        permute_alphabet(&f, &p)
    } else if s.flip() {
        let p = s.perm(f.k());
        permute_alphabet(&f, &p)
    } else {
        f
    }
}

/// a language-preserving rewrite: duplicated states, unreachable states, renaming, permutations
pub fn rewrite(s: &mut Src, f: &Fa, dfa: bool) -> Fa {
    let mut g = f.clone();
    let k = g.k();
    if dfa && k == 0 {
        return g;
    }
    let extra = s.us(4);
    for _ in 0..extra {
        let n = g.n();
        match s.weighted(&[3, 2, 2]) {
            0 => {
                // duplicate a state, redirect some of the transitions into it
                let o = s.us(n);
                g.names.push(String::new());
                g.acc.push(g.acc[o]);
                g.eps.push(g.eps[o].clone());
                g.tr.push(g.tr[o].clone());
                for i in 0..=n {
                    for c in 0..k {
                        for t in g.tr[i][c].iter_mut() {
                            if *t == o && s.flip() {
                                *t = n;
                            }
                        }
                        if !dfa && g.tr[i][c].contains(&o) && s.chance(1, 4) {
                            g.tr[i][c].push(n);
                        }
                    }
                    for t in g.eps[i].iter_mut() {
                        if *t == o && s.flip() {
                            *t = n;
                        }
                    }
                }
                if g.init == o && s.flip() {
                    g.init = n;
                }
            }
            1 => {
                // an unreachable state
                g.names.push(String::new());
                g.acc.push(s.flip());
                g.eps.push(vec![]);
                let row = (0..k).map(|_| vec![s.us(n + 1)]).collect();
                g.tr.push(row);
            }
            _ => {
                if !dfa {
                    // an ε-detour in front of a state
                    let o = s.us(n);
                    g.names.push(String::new());
                    g.acc.push(false);
                    g.eps.push(vec![o]);
                    g.tr.push(vec![vec![]; k]);
                    for i in 0..n {
                        for c in 0..k {
                            for t in g.tr[i][c].iter_mut() {
                                if *t == o && s.flip() {
                                    *t = n;
                                }
                            }
                        }
                    }
                    if g.init == o && s.flip() {
                        g.init = n;
                    }
                }
            }
        }
    }
    let n = g.n();
    if s.flip() || g.names.iter().any(|x| x.is_empty()) {
        g.names = names(s, n);
    }
    if s.flip() {
        let p = s.perm(n);
        g = permute_states(&g, &p);
    }
    reorder(s, g)
}

/// one small change that may or may not change the language
pub fn mutate(s: &mut Src, f: &Fa, dfa: bool) -> Fa {
    let mut g = f.clone();
    let n = g.n();
    let k = g.k();
    match s.weighted(&[4, 4, 1, 2]) {
        0 => {
            let i = s.us(n);
            g.acc[i] = !g.acc[i];
        }
        1 if k > 0 => {
            let i = s.us(n);
            let c = late_symbol(s, k);
            let t = s.us(n);
            if dfa {
                g.tr[i][c] = vec![t];
            } else if g.tr[i][c].contains(&t) {
                g.tr[i][c].retain(|x| *x != t);
            } else {
                g.tr[i][c].push(t);
            }
        }
        2 => g.init = s.us(n),
        _ => {
            if !dfa {
                let i = s.us(n);
                let t = s.us(n);
                if g.eps[i].contains(&t) {
                    g.eps[i].retain(|x| *x != t);
                } else {
                    g.eps[i].push(t);
                }
            } else if k > 1 {
                // swap two columns of one row
                let i = s.us(n);
                let a = s.us(k);
                let b = s.us(k);
                g.tr[i].swap(a, b);
            }
        }
    }
    g
}

/// the same table over an alphabet that differs as a set
pub fn other_alphabet(s: &mut Src, f: &Fa, dfa: bool) -> Fa {
    let mut g = f.clone();
    let fresh = |g: &Fa| {
        ["b", "z", "aa", "a1", "é", "w", "v"].iter().map(|x| x.to_string()).find(|x| !g.alpha.contains(x)).unwrap()
    };
    match s.weighted(&[2, 2, 2, 3, 2]) {
        3 if g.k() > 0 => {
            // as many symbols, which are the same text one after another, but divided elsewhere
            let k = g.k();
            let sorted = s.flip();
            let mut order: Vec<usize> = (0..k).collect();
            if sorted {
                order.sort_by(|x, y| g.alpha[*x].cmp(&g.alpha[*y]));
            }
            let text: Vec<char> = order.iter().flat_map(|i| g.alpha[*i].chars().collect::<Vec<_>>()).collect();
            for _ in 0..6 {
                let mut cuts: Vec<usize> = (0..k - 1).map(|_| s.us(text.len() + 1)).collect();
                cuts.sort();
                let mut parts = vec![];
                let mut at = 0;
                for c in cuts.into_iter().chain([text.len()]) {
                    parts.push(text[at..c].iter().collect::<String>());
                    at = c;
                }
                let set: BTreeSet<&String> = parts.iter().collect();
                if set.len() == k && parts.iter().all(|x| expressible(x)) && !parts.iter().all(|x| g.alpha.contains(x)) {
                    for (i, x) in order.into_iter().zip(parts) {
                        g.alpha[i] = x;
                    }
                    return g;
                }
            }
            let x = fresh(&g);
            let c = s.us(k);
            g.alpha[c] = x;
        }
        4 if g.k() > 0 => {
            // one symbol becomes something close to it
            let c = s.us(g.k());
            let own = vec![g.alpha[c].clone()];
            let x = near_symbol(s, &own);
            g.alpha[c] = if expressible(&x) && !g.alpha.contains(&x) { x } else { fresh(&g) };
        }
        0 => {
            let c = s.us(g.k().max(1));
            let x = fresh(&g);
            if g.k() == 0 {
                g.alpha.push(x);
                for r in g.tr.iter_mut() {
                    r.push(if dfa { vec![0] } else { vec![] });
                }
            } else {
                g.alpha[c] = x;
            }
        }
        1 => {
            // one more symbol
            let x = fresh(&g);
            let at = s.us(g.k() + 1);
            g.alpha.insert(at, x);
            let n = g.n();
            for r in g.tr.iter_mut() {
                let t = s.us(n);
                r.insert(at, if dfa || s.flip() { vec![t] } else { vec![] });
            }
        }
        _ => {
            if g.k() >= 2 {
                let at = s.us(g.k());
                g.alpha.remove(at);
                for r in g.tr.iter_mut() {
                    r.remove(at);
                }
            } else {
                let x = fresh(&g);
                if g.k() == 1 {
                    g.alpha[0] = x;
                } else {
                    g.alpha.push(x);
                    for r in g.tr.iter_mut() {
                        r.push(if dfa { vec![0] } else { vec![] });
                    }
                }
            }
        }
    }
    g
}

/// an NFA that branches into cycles of coprime lengths, so that it is in hundreds or thousands of sets of states
pub fn cycles_fa(s: &mut Src, style: AlphaStyle, eps: Eps) -> Fa {
    let lens: &[usize] = s.pick(&[
        &[3, 4, 5, 7][..],
        &[16, 17],
        &[5, 8, 9],
        &[15, 17, 2],
        &[23, 22],
        &[8, 5, 13],
        &[25, 27],
        &[7, 11, 13],
        &[31, 33],
        &[16, 9, 7],
        &[11, 13, 15],
    ]);
    let k = s.range(1, 2);
    let alpha = alphabet(s, k, style);
    let n = 1 + lens.iter().sum::<usize>();
    let mut f = Fa { alpha, names: vec![], init: 0, acc: vec![false; n], eps: vec![vec![]; n], tr: vec![vec![vec![]; k]; n] };
    let by_eps = eps == Eps::Maybe && s.flip();
    let mut at = 1;
    // everything but one residue each: the first word that is missing is long; one residue only: the same for the inverse
    let but_one = s.chance(3, 4);
    for len in lens {
        let lone = match s.us(3) {
            0 => len - 1,
            1 => 0,
            _ => s.us(*len),
        };
        for j in 0..*len {
            f.tr[at + j][0].push(at + (j + 1) % len);
            f.acc[at + j] = (j == lone) != but_one;
        }
        if by_eps {
            f.eps[0].push(at);
        } else {
            f.tr[0][0].push(at);
        }
        at += len;
    }
    f.acc[0] = but_one;
    if k == 2 && s.flip() {
        // the other symbol starts again
        for r in f.tr.iter_mut() {
            r[1].push(0);
        }
    }
    f.names = names(s, n);
    if s.chance(1, 3) {
        let p = s.perm(n);
        f = permute_states(&f, &p);
    }
    f
}

/// a long way, or a long cycle, with few ways off it
fn way_fa(s: &mut Src, style: AlphaStyle, dfa: bool) -> Fa {
    let n = match s.weighted(&[3, 3, 2, 1, 1]) {
        0 => 255 + s.us(5),
        1 => 510 + s.us(8),
        2 => 1022 + s.us(8),
        3 => 300 + s.us(1300),
        _ => 2046 + s.us(6),
    };
    let k = s.range(1, 2);
    let alpha = alphabet(s, k, style);
    let mut tr = vec![vec![vec![]; k]; n];
    let end = s.us(3);
    for (i, r) in tr.iter_mut().enumerate() {
        let main = if k == 2 && s.chance(1, 3) { 1 } else { 0 };
        for (c, cell) in r.iter_mut().enumerate() {
            if c == main {
                match end {
                    0 => cell.push((i + 1) % n),
                    1 => cell.push((i + 1).min(n - 1)),
                    _ if i + 1 < n => cell.push(i + 1),
                    _ if dfa => cell.push(i),
                    _ => {}
                }
            } else if dfa || s.flip() {
                cell.push(if s.flip() { i } else { 0 });
            }
        }
    }
    let acc = match s.us(3) {
        0 => (0..n).map(|i| i == n - 1).collect(),
        1 => vec![s.flip(); n],
        _ => (0..n).map(|_| s.chance(1, 50)).collect(),
    };
    let names = names(s, n);
    Fa { alpha, names, init: 0, acc, eps: vec![vec![]; n], tr }
}

fn late_pair(s: &mut Src, lim: &Lim, dfa: bool, eps: Eps) -> (Fa, Fa, Rel) {
    let flip_late = |s: &mut Src, g: &mut Fa| {
        let n = g.n();
        let i = if s.flip() { n - 1 - s.us(n.min(4)) } else { s.us(n) };
        g.acc[i] = !g.acc[i];
    };
    if !dfa && s.flip() {
        let a = cycles_fa(s, lim.style, eps);
        let mut b = a.clone();
        match s.us(4) {
            // all words
            0 => {
                let k = a.k();
                b = Fa { alpha: a.alpha.clone(), names: names(s, 1), init: 0, acc: vec![true], eps: vec![vec![]], tr: vec![vec![vec![0]; k]] };
                return (a, b, Rel::Independent);
            }
            1 => flip_late(s, &mut b),
            2 => {
                // other names and another order of the states
                b.names = names(s, b.n());
                let p = s.perm(b.n());
                b = permute_states(&b, &p);
            }
            _ => return (a, rewrite(s, &b, false), Rel::Rewritten),
        }
        return (a, b, Rel::Mutated);
    }
    if s.chance(1, 3) {
        // two cycles of coprime lengths: as many pairs as the product of their lengths
        let (p, q) = *s.pick(&[(16, 17), (15, 16), (23, 24), (31, 33), (32, 33), (37, 41), (45, 46)]);
        let k = s.range(1, 2);
        let alpha = alphabet(s, k, lim.style);
        let other = s.us(3);
        let mut make = |s: &mut Src, n: usize| {
            let tr = (0..n)
                .map(|i| {
                    (0..k)
                        .map(|c| match (c, other) {
                            (0, _) => vec![(i + 1) % n],
                            (_, 0) => vec![i],
                            (_, 1) => vec![0],
                            _ => vec![(i + 1) % n],
                        })
                        .collect()
                })
                .collect();
            let lone = s.us(n);
            let but = s.flip();
            let nm = names(s, n);
            Fa { alpha: alpha.clone(), names: nm, init: 0, acc: (0..n).map(|i| (i == lone) != but).collect(), eps: vec![vec![]; n], tr }
        };
        let a = make(s, p);
        let b = make(s, q);
        let b = reorder(s, b);
        return (a, b, Rel::Independent);
    }
    let a = way_fa(s, lim.style, dfa);
    let mut b = a.clone();
    match s.us(4) {
        0 => {}
        1 => return { let b = rewrite(s, &b, dfa); (a, if eps == Eps::No { strip_eps(b) } else { b }, Rel::Rewritten) },
        2 => flip_late(s, &mut b),
        _ => {
            flip_late(s, &mut b);
            b = reorder(s, b);
        }
    }
    (a, b, Rel::Mutated)
}

/// `alpha_diff`: how often (in percent) the alphabets differ
pub fn pair(s: &mut Src, lim: &Lim, dfa: bool, eps: Eps, alpha_diff: u64) -> (Fa, Fa, Rel) {
    if lim.late > 0 && s.chance(1, lim.late) {
        return late_pair(s, lim, dfa, eps);
    }
    let mut a = if dfa { self::dfa(s, lim) } else { nfa(s, lim, eps) };
    let max_n = if a.k() > 30 || ((lim.tall > 0 || lim.crowd > 0) && a.n() > lim.max_n) { lim.max_n.min(6) } else { lim.max_n };
    if s.chance(alpha_diff, 100) {
        if lim.style == AlphaStyle::Any && a.k() <= 6 && s.chance(1, 3) {
            // words over few characters, which are easily taken for each other
            let mut alpha: Vec<String> = vec![];
            while alpha.len() < a.k() {
                let l = 1 + s.us(4);
                let w: String = (0..l).map(|_| *s.pick(&['a', 'b'])).collect();
                let w = if alpha.contains(&w) { format!("{w}{}", alpha.len()) } else { w };
                if !alpha.contains(&w) {
                    alpha.push(w);
                }
            }
            a.alpha = alpha;
        }
        let r = rewrite(s, &a, dfa);
        return (a, other_alphabet(s, &r, dfa), Rel::OtherAlphabet);
    }
    match s.weighted(&[5, 4, 4, 1]) {
        0 => {
            let b = if dfa { dfa_over(s, a.alpha.clone(), max_n) } else { nfa_over(s, a.alpha.clone(), max_n, eps) };
            let b = reorder(s, b);
            (a, b, Rel::Independent)
        }
        1 => {
            let b = rewrite(s, &a, dfa);
            (a, if eps == Eps::No { strip_eps(b) } else { b }, Rel::Rewritten)
        }
        3 => {
            // all but one thing the same
            let mut b = a.clone();
            match s.weighted(&[5, 1, 1, 1]) {
                0 => {
                    let p = s.perm(a.k());
                    b.alpha = p.iter().map(|i| a.alpha[*i].clone()).collect();
                }
                1 => b.acc.iter_mut().for_each(|x| *x = !*x),
                2 => b.init = s.us(a.n()),
                _ if dfa && a.k() == 0 => {}
                _ => b.names = names(s, a.n()),
            }
            (a, b, Rel::Mutated)
        }
        _ => {
            let b = rewrite(s, &a, dfa);
            let mut b = mutate(s, &b, dfa);
            if s.chance(1, 4) {
                b = mutate(s, &b, dfa);
            }
            (a, if eps == Eps::No { strip_eps(b) } else { b }, Rel::Mutated)
        }
    }
}

fn strip_eps(mut f: Fa) -> Fa {
    for e in f.eps.iter_mut() {
        e.clear();
    }
    f
}

/// a string that is (nearly always) no symbol of the alphabet, half of the time close to one
pub fn unknown_symbol(s: &mut Src, alpha: &[String]) -> String {
    if alpha.is_empty() || s.flip() {
        return s.pick(&["?", "", "a", "aa", "ab", "ε", "eps", "A", "zz", "é", " "]).to_string();
    }
    near_symbol(s, alpha)
}

/// a string close to a symbol of the alphabet (or to a name of the list)
pub fn near_symbol(s: &mut Src, alpha: &[String]) -> String {
    let x = s.pick(alpha).clone();
    if x.is_empty() {
        return "a".into();
    }
    match s.us(12) {
        0 => format!("{x}{}", s.pick(&["\u{fe0f}", "\u{301}", "\u{200d}", "\u{200b}", "\u{fe0e}", "\u{ad}"])),
        1 => format!("{x}{}", s.pick(&[" ", "\t", "\n", "\r", "\r\n", "\0"])),
        2 => format!("{}{x}", s.pick(&[" ", "\t", "\n", "\u{feff}", "\u{200b}", "\\"])),
        3 => format!("{x}{x}"),
        4 => x.to_uppercase(),
        5 => x.to_lowercase(),
        6 => x.chars().take(1).collect(),
        7 => x.chars().skip(1).collect(),
        8 => {
            let n = x.chars().count();
            x.chars().take(n - 1).collect()
        }
        9 => x.chars().rev().collect(),
        10 => format!("{x}{}", s.pick(alpha)),
        _ => {
            // the neighbouring character
            let mut v: Vec<char> = x.chars().collect();
            let i = s.us(v.len());
            let d = if s.flip() { v[i] as u32 ^ 0x20 } else { v[i] as u32 + 0x100 };
            v[i] = char::from_u32(d).unwrap_or('?');
            v.into_iter().collect()
        }
    }
}

/// words over the alphabet, with unknown elements at the given percentage
pub fn word(s: &mut Src, alpha: &[String], max_len: usize, unknown: u64) -> Vec<String> {
    let len = s.skewed(0, max_len);
    (0..len)
        .map(|_| {
            if alpha.is_empty() || s.chance(unknown, 100) {
                unknown_symbol(s, alpha)
            } else {
                s.pick(alpha).clone()
            }
        })
        .collect()
}

/// structural simplifications of an automaton, most aggressive first
pub fn simplify_fa(f: &Fa, dfa: bool) -> Vec<Fa> {
    let mut out = vec![];
    let n = f.n();
    // drop a state, redirecting its predecessors
    if n > 1 {
        for i in 0..n {
            for repl in [f.init, if i == 0 { 1 } else { 0 }] {
                if repl == i {
                    continue;
                }
                let keep: Vec<usize> = (0..n).filter(|x| *x != i).collect();
                let pos = |t: usize| keep.iter().position(|x| *x == t);
                let m = |v: &Vec<usize>| {
                    let mut o = vec![];
                    for t in v {
                        match pos(*t) {
                            Some(p) => o.push(p),
                            None if dfa => o.push(pos(repl).unwrap()),
                            None => {}
                        }
                    }
                    o
                };
                let g = Fa {
                    alpha: f.alpha.clone(),
                    names: keep.iter().map(|x| f.names[*x].clone()).collect(),
                    init: pos(f.init).or(pos(repl)).unwrap_or(0),
                    acc: keep.iter().map(|x| f.acc[*x]).collect(),
                    eps: keep.iter().map(|x| m(&f.eps[*x])).collect(),
                    tr: keep.iter().map(|x| f.tr[*x].iter().map(m).collect()).collect(),
                };
                out.push(g);
                if !dfa {
                    break;
                }
            }
        }
    }
    if f.k() > 1 {
        for c in 0..f.k() {
            let mut g = f.clone();
            g.alpha.remove(c);
            for r in g.tr.iter_mut() {
                r.remove(c);
            }
            out.push(g);
        }
    }
    if !dfa {
        for i in 0..n {
            for c in 0..f.k() {
                for j in 0..f.tr[i][c].len() {
                    let mut g = f.clone();
                    g.tr[i][c].remove(j);
                    out.push(g);
                }
            }
            for j in 0..f.eps[i].len() {
                let mut g = f.clone();
                g.eps[i].remove(j);
                out.push(g);
            }
        }
    }
    for i in 0..n {
        if f.acc[i] {
            let mut g = f.clone();
            g.acc[i] = false;
            out.push(g);
        }
    }
    let plain: Vec<String> = (0..n).map(|i| format!("q{i}")).collect();
    if f.names != plain {
        let mut g = f.clone();
        g.names = plain;
        out.push(g);
    }
    let palpha: Vec<String> = (0..f.k().min(PLAIN.len())).map(|i| PLAIN[i].to_string()).collect();
    if f.alpha != palpha && palpha.len() == f.k() {
        let mut g = f.clone();
        g.alpha = palpha;
        out.push(g);
    }
    out
}
