//! C28–C32: the command line tool, run as a process on generated files.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::table::any_table_text;
use crate::rx::{self, *};
use crate::tabletext::{self, gen_layout, render, Class};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::io::Read as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use unicode_segmentation::UnicodeSegmentation;

// ------------------------------------------------------------------ files and invocations

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Content {
    Missing,
    Dir,
    Bytes(Vec<u8>),
    Text(String),
}

impl Content {
    /// what reading the file as text gives
    fn text(&self) -> Option<String> {
        match self {
            Content::Text(t) => Some(t.clone()),
            Content::Bytes(b) => String::from_utf8(b.clone()).ok(),
            _ => None,
        }
    }
}

/// a file relative to the scratch directory, passed as a relative or an absolute path
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct File {
    path: String,
    abs: bool,
    content: Content,
}

impl File {
    fn arg(&self, dir: &Path) -> String {
        if self.abs {
            dir.join(&self.path).display().to_string()
        } else {
            self.path.clone()
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ty {
    Dfa,
    Nfa,
    Regex,
}

impl Ty {
    fn s(self) -> &'static str {
        match self {
            Ty::Dfa => "dfa",
            Ty::Nfa => "nfa",
            Ty::Regex => "regex",
        }
    }
    fn gen(s: &mut Src, regex: bool) -> Ty {
        match s.us(if regex { 3 } else { 2 }) {
            0 => Ty::Dfa,
            1 => Ty::Nfa,
            _ => Ty::Regex,
        }
    }
}

#[derive(Debug)]
enum Loaded {
    Unreadable,
    Unparsable,
    Invalid,
    Fa(Fa),
}

impl Loaded {
    fn fa(self) -> Option<Fa> {
        match self {
            Loaded::Fa(f) => Some(f),
            _ => None,
        }
    }
}

fn load_text(text: &str, ty: Ty) -> Result<Loaded, &'static str> {
    Ok(match ty {
        Ty::Regex => match rx::read(text) {
            // (a table with long names, read as an expression: the tool takes long to convert it)
            Read::Tree(x) if x.size() > 800 => return Err("expression of very many parts"),
            Read::Tree(x) => Loaded::Fa(x.fa()),
            Read::Reject(_) => Loaded::Unparsable,
            Read::Unsettled(w) => return Err(w),
        },
        t => match tabletext::read(text, t == Ty::Dfa) {
            Class::Valid(f) => Loaded::Fa(f),
            Class::Invalid(_) => Loaded::Invalid,
            Class::Syntax(_) => Loaded::Unparsable,
            Class::Unsettled(w) => return Err(w),
        },
    })
}

fn load(c: &Content, ty: Ty) -> R<Loaded> {
    let Some(t) = c.text() else { return Ok(Loaded::Unreadable) };
    load_text(&t, ty).or_else(|w| discard(w))
}

static COUNTER: AtomicU64 = AtomicU64::new(0);

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> R<Scratch> {
        let n = COUNTER.fetch_add(1, Ordering::Relaxed);
        let p = std::env::temp_dir().join(format!("vhcli-{}-{n}", std::process::id()));
        match std::fs::create_dir(&p) {
            Ok(()) => Ok(Scratch(p)),
            Err(e) => discard(format!("scratch directory: {e}")),
        }
    }
    fn put(&self, files: &[File]) -> R {
        for f in files {
            let p = self.0.join(&f.path);
            let r = (|| {
                if let Some(d) = p.parent() {
                    std::fs::create_dir_all(d)?;
                }
                match &f.content {
                    Content::Missing => Ok(()),
                    Content::Dir => std::fs::create_dir_all(&p),
                    Content::Bytes(b) => std::fs::write(&p, b),
                    Content::Text(t) => std::fs::write(&p, t),
                }
            })();
            if let Err(e) = r {
                return discard(format!("scratch file: {e}"));
            }
        }
        Ok(())
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Out {
    stdout: String,
    stderr: String,
}

fn run(dir: &Path, args: &[String], hash: u32) -> R<Out> {
    let (Some(cli), Some(shim)) = (std::env::var_os("VH_CLI"), std::env::var_os("VH_SHIM")) else {
        return discard("VH_CLI and VH_SHIM are not set");
    };
    let mut c = Command::new(cli);
    c.args(args).current_dir(dir).env_clear().env("LD_PRELOAD", shim).env("VH_HASH_SEED", hash.to_string());
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => return discard(format!("spawn: {e}")),
    };
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let rd = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let ro = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let start = Instant::now();
    let mut nap = 200;
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break st,
            Ok(None) if start.elapsed() > Duration::from_secs(40) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return fail(format!("no answer within 40 s: {args:?}"));
            }
            Ok(None) => {
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 2).min(10_000);
            }
            Err(e) => return discard(format!("wait: {e}")),
        }
    };
    let out = Out {
        stdout: String::from_utf8_lossy(&ro.join().unwrap_or_default()).into_owned(),
        stderr: String::from_utf8_lossy(&rd.join().unwrap_or_default()).into_owned(),
    };
    match st.code() {
        None => fail(format!("dandy-cli was killed by a signal: {args:?}")),
        Some(101) => fail(format!("dandy-cli panics: {args:?}: {}", one_line(&out.stderr, 400))),
        Some(_) => Ok(out),
    }
}

// ------------------------------------------------------------------ matching output

enum Piece {
    /// this text exactly
    Text(String),
    /// one line starting with the first and containing the others in order
    Line(String, Vec<String>),
    /// a text starting with the first and ending with the second, maybe over several lines
    Span(String, String),
}

/// whether `t` starts with the pieces in order; with `all`, whether it consists of them
fn matches(t: &str, pieces: &[Piece], all: bool) -> bool {
    let Some((p, rest)) = pieces.split_first() else { return !all || t.is_empty() };
    match p {
        Piece::Text(x) => t.strip_prefix(x.as_str()).is_some_and(|t| matches(t, rest, all)),
        Piece::Line(start, inner) => {
            let Some(n) = t.find('\n') else { return false };
            let line = &t[..n];
            let Some(mut l) = line.strip_prefix(start.as_str()) else { return false };
            for x in inner {
                let Some(i) = l.find(x.as_str()) else { return false };
                l = &l[i + x.len()..];
            }
            matches(&t[n + 1..], rest, all)
        }
        Piece::Span(a, b) => {
            let Some(t) = t.strip_prefix(a.as_str()) else { return false };
            t.match_indices(b.as_str()).any(|(i, _)| matches(&t[i + b.len()..], rest, all))
        }
    }
}

/// whether the pieces follow each other somewhere, starting at a line start
fn contained(t: &str, pieces: &[Piece]) -> bool {
    std::iter::once(0).chain(t.match_indices('\n').map(|(i, _)| i + 1)).any(|i| matches(&t[i..], pieces, false))
}

fn show(p: &[Piece]) -> String {
    let mut s = String::new();
    for x in p {
        match x {
            Piece::Text(t) => s.push_str(t),
            Piece::Line(a, v) => s.push_str(&format!("{a}…{}…\n", v.join("…"))),
            Piece::Span(a, b) => s.push_str(&format!("{a}…{b}")),
        }
    }
    one_line(&format!("{s:?}"), 900)
}

// ------------------------------------------------------------------ automata and texts

/// a language, and ways to write it down
struct World {
    fa: Fa,
    rx: Option<Rx>,
}

const CLI_LITS: &[&str] = &["å", "👍🏽", "日", "λ", "∅", "|", "(", ")", "\\", "+", ",", "'", "한", "e\u{301}", "-", "?"];

/// literals that a table can hold, one cluster each
fn lits(s: &mut Src) -> Vec<String> {
    let k = s.range(1, 3);
    let odd = s.chance(1, 3);
    let mut v: Vec<String> = vec![];
    for i in 0..k {
        let c = if odd && s.flip() { s.pick(CLI_LITS) } else { LITS_PLAIN[i] };
        if !v.iter().any(|x| x == c) {
            v.push(c.to_string());
        }
    }
    v
}

fn small_rx(s: &mut Src, pool: &[String]) -> Rx {
    let st = RxStyle { ops: false, odd: false, merging: false, degenerate: false };
    let mut budget = 3 + s.us(8);
    let depth = s.range(1, 4);
    let mut x = rx::gen(s, st, pool, depth, &mut budget);
    // every literal of the pool takes part, so that alphabets are equal
    let mut have = BTreeSet::new();
    x.literals(&mut have);
    for l in pool {
        if !have.contains(l) {
            let y = Rx::Lit(l.clone());
            x = match s.us(3) {
                0 => Rx::Alt(vec![x, y]),
                1 => Rx::Cat(vec![x, Rx::Star(Box::new(y))]),
                _ => Rx::Alt(vec![x, Rx::Cat(vec![y, Rx::Empty])]),
            };
        }
    }
    x
}

/// another expression of the same language over the same literals
fn rewrite_rx(s: &mut Src, x: &Rx) -> Rx {
    fn at(s: &mut Src, x: &Rx) -> Rx {
        let y = match x {
            Rx::Cat(v) => Rx::Cat(v.iter().map(|y| at(s, y)).collect()),
            Rx::Alt(v) => {
                let p = s.perm(v.len());
                Rx::Alt(p.into_iter().map(|i| at(s, &v[i])).collect())
            }
            Rx::Star(y) => Rx::Star(Box::new(at(s, y))),
            Rx::Plus(y) if s.chance(1, 3) => Rx::Cat(vec![at(s, y), Rx::Star(y.clone())]),
            Rx::Plus(y) => Rx::Plus(Box::new(at(s, y))),
            o => o.clone(),
        };
        match s.weighted(&[12, 1, 1, 1, 1]) {
            1 => Rx::Alt(vec![y.clone(), y]),
            2 => Rx::Cat(vec![Rx::Eps, y]),
            3 => Rx::Alt(vec![Rx::Empty, y]),
            4 => match y {
                Rx::Star(z) => Rx::Alt(vec![Rx::Eps, Rx::Plus(z)]),
                y => y,
            },
            _ => y,
        }
    }
    at(s, x)
}

fn mutate_rx(s: &mut Src, x: &Rx) -> Rx {
    let v = x.simplify();
    match s.us(3) {
        0 => Rx::Star(Box::new(x.clone())),
        1 => Rx::Alt(vec![x.clone(), Rx::Eps]),
        _ if !v.is_empty() => s.pick(&v).clone(),
        _ => Rx::Plus(Box::new(x.clone())),
    }
}

fn det_fa(d: &Det, s: &mut Src) -> Fa {
    let n = d.n();
    Fa {
        alpha: d.alpha.clone(),
        names: names(s, n),
        init: 0,
        acc: d.acc.clone(),
        eps: vec![vec![]; n],
        tr: d.tr.iter().map(|r| r.iter().map(|t| vec![*t]).collect()).collect(),
    }
}

impl World {
    fn gen(s: &mut Src, regex: bool) -> World {
        if regex {
            let p = lits(s);
            let x = small_rx(s, &p);
            World { fa: x.fa(), rx: Some(x) }
        } else {
            let lim = if s.chance(1, 10) { Lim::new(12, 4) } else { Lim::new(4, 3) };
            let fa = if s.flip() { dfa(s, &lim) } else { nfa(s, &lim, Eps::Maybe) };
            World { fa, rx: None }
        }
    }

    /// an expression with whitespace in it, which counts there
    fn blanks(self, s: &mut Src) -> World {
        let Some(x) = self.rx else { return self };
        let blank = Rx::Lit(s.pick(&["\n", "\n", "\r\n", " ", "\t", "\u{2028}"]).to_string());
        let x = match s.us(3) {
            0 => Rx::Alt(vec![Rx::Cat(vec![x.clone(), blank]), x]),
            1 => Rx::Alt(vec![x, blank]),
            _ => Rx::Cat(vec![x.clone(), Rx::Alt(vec![blank, Rx::Eps]), Rx::Star(Box::new(x))]),
        };
        World { fa: x.fa(), rx: Some(x) }
    }

    /// over the same alphabet
    fn sibling(&self, s: &mut Src) -> World {
        match &self.rx {
            Some(_) => {
                let x = small_rx(s, &self.fa.alpha);
                World { fa: x.fa(), rx: Some(x) }
            }
            None => {
                let a = self.fa.alpha.clone();
                let fa = if s.flip() { dfa_over(s, a, 4) } else { nfa_over(s, a, 4, Eps::Maybe) };
                World { fa: reorder(s, fa), rx: None }
            }
        }
    }

    fn write(&self, s: &mut Src, ty: Ty, mutated: bool, other: bool) -> String {
        match ty {
            Ty::Regex => {
                let x = self.rx.as_ref().unwrap();
                let mut x = rewrite_rx(s, x);
                if mutated {
                    x = mutate_rx(s, &x);
                }
                if other {
                    x = Rx::Cat(vec![x, if s.flip() { Rx::Lit("z".into()) } else { Rx::Star(Box::new(Rx::Lit("z".into()))) }]);
                }
                regex_text(s, &x)
            }
            Ty::Dfa => {
                // the reference expression may blow up; that is then no case worth having
                let d = match self.fa.det() {
                    Ok(d) if d.n() <= 300 => d.canon(),
                    _ => return "a\n->x x\n".into(),
                };
                let mut f = det_fa(&d, s);
                if s.flip() {
                    f = rewrite(s, &f, true);
                } else {
                    let p = s.perm(f.n());
                    f = reorder(s, permute_states(&f, &p));
                }
                if mutated {
                    f = mutate(s, &f, true);
                }
                if other {
                    f = other_alphabet(s, &f, true);
                }
                table(s, &f, true)
            }
            Ty::Nfa => {
                let mut f = self.fa.clone();
                if f.n() > 14 {
                    // expressions make large automata
                    if let Ok(d) = f.det() {
                        f = det_fa(&d.canon(), s);
                    }
                }
                f = rewrite(s, &f, false);
                if mutated {
                    f = mutate(s, &f, false);
                }
                if other {
                    f = other_alphabet(s, &f, false);
                }
                table(s, &f, false)
            }
        }
    }
}

/// adds what does not count: comments and blank lines in tables, space around expressions
fn lengthen(s: &mut Src, t: &str, ty: Ty) -> String {
    let len = s.pick(&[1024, 4096, 8192, 16_384, 65_536]) - 5 + s.us(10);
    if ty == Ty::Regex {
        let blank = s.pick(&[" ", "\n", "\t"]).repeat(len);
        return if s.flip() { format!("{blank}{t}") } else { format!("{t}{blank}") };
    }
    let mut lines: Vec<String> = t.split('\n').map(|x| x.to_string()).collect();
    let extra = match s.us(4) {
        0 => format!("#{}", "å".repeat(len / 2)),
        1 => format!("  # {}", "-> x y\t{".repeat(len / 9)),
        2 => " ".repeat(len),
        _ => "\n".repeat(len),
    };
    // before a line, so that an ending without newline stays as it is
    let at = s.us(lines.len());
    lines.insert(at, extra);
    lines.join("\n")
}

/// now and then makes one of the files a long one; types by position
fn lengthen_one(s: &mut Src, inv: &mut Inv, uses: &[Ty]) {
    if !s.chance(1, 50) {
        return;
    }
    if inv.pos.is_empty() {
        return;
    }
    let j = s.us(uses.len().min(inv.pos.len()));
    let (i, ty) = (inv.pos[j], uses[j]);
    // not if the same file is read as something else, too
    if inv.pos.iter().zip(uses).any(|(p, t)| *p == i && *t != ty) {
        return;
    }
    if let Content::Text(t) = &inv.files[i].content {
        inv.files[i].content = Content::Text(lengthen(s, t, ty));
    }
}

fn regex_text(s: &mut Src, x: &Rx) -> String {
    let n = s.us(20);
    let style: Vec<u8> = (0..n).map(|_| s.below(80) as u8).collect();
    let mut t = String::new();
    rx::print(x, Ctx::Top, &mut Listed(&style, 0), &mut t);
    if s.flip() {
        t.push('\n');
    }
    t
}

fn table(s: &mut Src, f: &Fa, dfa: bool) -> String {
    let l = if s.chance(1, 3) { gen_layout(s) } else { vec![] };
    let e = if f.has_eps() || s.flip() { Some(s.us(f.k() + 1)) } else { None };
    render(f, dfa, e, &l)
}

const BAD_REGEX: &[&str] = &["(a", "a)", "*", "|", "", " \n", "a||b", "a**", "()", "a\\", "(a|b))\n", "+a\nb"];

/// a text that is not valid as this type, or a valid one by accident
fn bad_text(s: &mut Src, ty: Ty) -> String {
    let t = match ty {
        Ty::Regex => s.pick(BAD_REGEX).to_string(),
        _ => any_table_text(s),
    };
    match load_text(&t, ty) {
        Ok(_) => t,
        // not settled by the documentation
        Err(_) => match s.us(4) {
            0 => "".into(),
            1 => "a b\n-> x y x\n".into(),
            2 => "a b\nx x x\n".into(),
            _ => "# nothing\n".into(),
        },
    }
}

fn unreadable(s: &mut Src) -> Content {
    match s.us(3) {
        0 => Content::Missing,
        1 => Content::Dir,
        _ => Content::Bytes(vec![b'a', b'\n', 0xff, 0xc3, b'(']),
    }
}

const DIRS: &[&str] = &["", "", "d/", "d/e/", "sub dir/", "å/", "a.b/c/d/"];
const STEMS: &[&str] = &["f", "x y", "mañana", "g: Equivalent", "q", "a'b", "日本", "Z", "true"];
const EXTS: &[&str] = &["", ".dfa", ".txt", ".nfa.bak"];

fn path(s: &mut Src, i: usize) -> String {
    match s.weighted(&[9, 2, 1, 6]) {
        0 => return format!("{i}.txt"),
        // the same name in every folder
        1 => return format!("{}{i}/same.txt", s.pick(DIRS)),
        2 => return format!("{}d/../{i}.txt", s.pick(DIRS)),
        _ => {}
    }
    format!("{}{}{i}{}", s.pick(DIRS), s.pick(STEMS), s.pick(EXTS))
}

/// a file that must be fine
fn file(s: &mut Src, i: usize, text: String) -> File {
    File { path: path(s, i), abs: s.chance(1, 6), content: Content::Text(text) }
}

fn opt(s: &mut Src, args: &mut Vec<String>, short: &str, long: &str, val: &str) {
    match s.us(3) {
        0 if !short.is_empty() => {
            args.push(short.into());
            args.push(val.into());
        }
        1 => args.push(format!("{long}={val}")),
        _ => {
            args.push(long.into());
            args.push(val.into());
        }
    }
}

fn flag(s: &mut Src, args: &mut Vec<String>, short: &str, long: &str) {
    args.push(if s.flip() { short.into() } else { long.into() });
}

/// options as text, then files by index
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inv {
    files: Vec<File>,
    opts: Vec<String>,
    /// positional arguments: indices into `files`
    pos: Vec<usize>,
    /// a positional argument given as text
    text: Option<String>,
    hash: u32,
}

impl Inv {
    fn args(&self, dir: &Path, front: &[String]) -> Vec<String> {
        let mut v: Vec<String> = front.to_vec();
        v.extend(self.opts.iter().cloned());
        if let Some(t) = &self.text {
            v.push("--".into());
            v.push(t.clone());
        }
        v.extend(self.pos.iter().map(|i| self.files[*i].arg(dir)));
        v
    }
    fn simplify_files(&self) -> Vec<Vec<File>> {
        let mut out = vec![];
        for i in 0..self.files.len() {
            if self.files[i].abs || self.files[i].path != format!("{i}.txt") {
                let mut f = self.files.clone();
                f[i].abs = false;
                f[i].path = format!("{i}.txt");
                out.push(f);
            }
            if let Content::Text(t) = &self.files[i].content {
                for t in crate::props::table::simplify_text(t).into_iter().take(40) {
                    let mut f = self.files.clone();
                    f[i].content = Content::Text(t);
                    out.push(f);
                }
            }
        }
        out
    }
    fn simplify(&self) -> Vec<Inv> {
        self.simplify_files().into_iter().map(|files| Inv { files, ..self.clone() }).collect()
    }
}

// ------------------------------------------------------------------ C28

#[derive(Clone, Serialize, Deserialize)]
pub struct EqCase {
    inv: Inv,
    in_type: Ty,
    ty: Ty,
    minimized: bool,
    boolean: bool,
    depth: Option<usize>,
    logs: bool,
}

fn gen_equivalence(s: &mut Src) -> EqCase {
    let with_rx = s.chance(2, 3);
    let mut w = World::gen(s, with_rx);
    let ty = Ty::gen(s, with_rx);
    let in_type = if s.flip() { ty } else { Ty::gen(s, with_rx) };
    if in_type == Ty::Regex && ty == Ty::Regex && s.chance(1, 3) {
        w = w.blanks(s);
    }
    let minimized = s.chance(1, 3) && (ty == Ty::Dfa || s.chance(1, 10));
    let boolean = s.chance(1, 4);
    let depth = if s.chance(1, 3) { Some(*s.pick(&[0, 1, 2, 3, 50])) } else { None };
    let mut files = vec![];
    let base_bad = s.chance(1, 20);
    let t = if base_bad { bad_text(s, in_type) } else { w.write(s, in_type, false, false) };
    let mut f = file(s, 0, t);
    if base_bad && s.chance(1, 3) {
        f.content = unreadable(s);
    }
    files.push(f);
    let n = if s.chance(1, 100) { s.range(9, 70) } else { s.skewed(1, 8) };
    let mut pos = vec![0];
    for i in 1..=n {
        if i > 1 && s.chance(1, 12) {
            // a file given twice, maybe the reference itself
            pos.push(s.us(files.len()));
            continue;
        }
        let content = match s.weighted(&[8, 6, 2, 2, 3, 2]) {
            0 => Content::Text(w.write(s, ty, false, false)),
            1 => Content::Text(w.write(s, ty, true, false)),
            2 => Content::Text(w.sibling(s).write(s, ty, false, false)),
            3 => Content::Text(w.write(s, ty, false, true)),
            4 => Content::Text(bad_text(s, ty)),
            _ => unreadable(s),
        };
        let j = files.len();
        files.push(File { path: path(s, j), abs: s.chance(1, 6), content });
        pos.push(j);
    }
    let mut opts = vec!["equivalence".to_string()];
    if in_type != ty || s.flip() {
        opt(s, &mut opts, "-i", "--in-type", in_type.s());
    }
    if ty != Ty::Dfa || s.flip() {
        opt(s, &mut opts, "-t", "--type", ty.s());
    }
    if minimized {
        flag(s, &mut opts, "-m", "--minimized");
    }
    if boolean {
        flag(s, &mut opts, "-b", "--bool");
    }
    if let Some(d) = depth {
        // whether an absolute path with exactly as many names as asked for keeps its root is not settled
        if d == 3 {
            files.iter_mut().for_each(|f| f.abs = false);
        }
        opt(s, &mut opts, "-p", "--path-length", &d.to_string());
    }
    let logs = s.chance(1, 4);
    let mut inv = Inv { files, opts, pos, text: None, hash: s.below(1 << 16) as u32 };
    let mut uses = vec![ty; inv.pos.len()];
    uses[0] = in_type;
    lengthen_one(s, &mut inv, &uses);
    EqCase { inv, in_type, ty, minimized, boolean, depth, logs }
}

fn shorten(p: &str, depth: Option<usize>) -> String {
    match depth {
        None => format!("{p}: "),
        Some(0) => String::new(),
        Some(n) => {
            let names: Vec<&str> = p.split('/').filter(|x| !x.is_empty()).collect();
            if n >= names.len() {
                format!("{p}: ")
            } else {
                format!("{}: ", names[names.len() - n..].join("/"))
            }
        }
    }
}

pub struct Equivalence;

impl Prop for Equivalence {
    type Case = EqCase;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "Runs of `dandy-cli equivalence` on up to nine generated files (one in 100 up to 71; one in 50 with a file of 1-64 KiB of comments or blanks): a reference of any type (DFA, NFA with ε-moves, regular expression, also with line breaks), and files of any type that hold a rewriting of its language, a small change of it, an independent language, another alphabet, a malformed or invalid text, or nothing readable (missing, a directory, not UTF-8); files in folders (also of the same name), given twice, by absolute path; all flags. Each verdict is computed from the file texts by the reference readers and models. Non-trivial: at least two different verdicts are due."
    }
    fn quick_cases(&self) -> usize {
        15_000
    }
    fn max_discard(&self) -> usize {
        10
    }
    fn gen(&self, s: &mut Src) -> EqCase {
        gen_equivalence(s)
    }
    fn simplify(&self, c: &EqCase) -> Vec<EqCase> {
        let mut out = vec![];
        for i in 1..c.inv.pos.len() {
            let mut d = c.clone();
            d.inv.pos.remove(i);
            out.push(d);
        }
        out.extend(c.inv.simplify().into_iter().map(|inv| EqCase { inv, ..c.clone() }));
        out
    }
    fn check(&self, c: &EqCase, o: &mut Obs) -> R {
        let dir = Scratch::new()?;
        dir.put(&c.inv.files)?;
        let base = load(&c.inv.files[c.inv.pos[0]].content, c.in_type)?;
        let bad_config = c.minimized && c.ty != Ty::Dfa;
        let base = match base {
            Loaded::Fa(f) if !bad_config => Some(f),
            _ => None,
        };
        let front: Vec<String> = if c.logs { vec![] } else { vec!["--less-logs".into()] };
        let args = c.inv.args(&dir.0, &front);
        let mut pieces = vec![];
        let mut kinds = BTreeSet::new();
        let mut passed = 0;
        let n_min = match &base {
            Some(f) => f.det()?.canon().n(),
            None => 0,
        };
        for i in &c.inv.pos[1..] {
            let f = &c.inv.files[*i];
            let verdict = match load(&f.content, c.ty)? {
                Loaded::Unreadable => "Failed to read",
                Loaded::Unparsable => "Failed to parse",
                Loaded::Invalid => "Failed to validate",
                Loaded::Fa(g) => match &base {
                    None => "Not Equivalent",
                    Some(b) if !b.same_alphabet_set(&g) => "Not Equivalent",
                    Some(b) => {
                        let (x, y) = (b.det()?, g.det_over(&b.alpha)?);
                        if find_word(&[&x, &y], &|a| a[0] == a[1])?.is_some() {
                            "Not Equivalent"
                        } else if c.minimized && g.n() != n_min {
                            "Equivalent but not minimized"
                        } else {
                            "Equivalent"
                        }
                    }
                },
            };
            o.label(verdict);
            passed += (verdict == "Equivalent") as usize;
            kinds.insert(verdict);
            let prefix = shorten(&f.arg(&dir.0), c.depth);
            pieces.push(if c.boolean {
                Piece::Text(format!("{prefix}{}\n", verdict == "Equivalent"))
            } else if verdict.starts_with("Failed") {
                Piece::Span(format!("{prefix}{verdict} ("), ")\n".into())
            } else {
                Piece::Text(format!("{prefix}{verdict}\n"))
            });
        }
        let out = run(&dir.0, &args, c.inv.hash)?;
        if base.is_none() {
            o.label(if bad_config { "--minimized without DFAs" } else { "bad reference" });
            ensure!(!out.stderr.is_empty(), "no error message for a bad reference or configuration: {args:?}");
            if !c.logs {
                ensure!(out.stdout.is_empty(), "verdicts without a usable reference: {args:?} prints {:?}", one_line(&out.stdout, 500));
            }
            return Ok(());
        }
        o.label(format!("{} against {}", c.in_type.s(), c.ty.s()));
        o.label_if(c.boolean, "--bool");
        o.label_if(c.minimized, "--minimized");
        let ok = if c.logs { contained(&out.stdout, &pieces) } else { matches(&out.stdout, &pieces, true) };
        ensure!(ok, "{args:?}: expected {}, stdout is {:?}, stderr {:?}", show(&pieces), one_line(&out.stdout, 900), one_line(&out.stderr, 200));
        if c.logs {
            let last = out.stdout.lines().last().unwrap_or("");
            ensure!(
                number_in(last, passed) && number_in(last, pieces.len()),
                "{args:?}: {passed} of {} files are equivalent, but the last line is {last:?}",
                pieces.len()
            );
            o.label("with the total");
        }
        o.nontrivial(kinds.len() >= 2);
        Ok(())
    }
}

// ------------------------------------------------------------------ C29

#[derive(Clone, Serialize, Deserialize)]
pub struct OpCase {
    inv: Inv,
    op: u8,
    tys: [Ty; 3],
    minimized: bool,
    enumerate: Option<usize>,
    logs: bool,
}

/// one cluster each, none of which can be a symbol of a table
const UNLISTED: &[&str] = &[" ", "\t", "\u{a0}", "\u{2003}", "#", "{", "}", "*", "ε"];

const OPS4: [&str; 4] = ["union", "intersection", "difference", "symmetric-difference"];

fn op_fn(op: u8) -> impl Fn(bool, bool) -> bool {
    move |a, b| match op {
        0 => a || b,
        1 => a && b,
        2 => a && !b,
        _ => a != b,
    }
}

fn gen_op(s: &mut Src) -> OpCase {
    // symbols that no table can hold come from expressions only
    let odd = s.chance(1, 12);
    let with_rx = odd || s.chance(2, 3);
    let w = if odd {
        let k = s.range(1, 3);
        let mut pool: Vec<String> = vec![];
        for i in 0..k {
            let c = if i == 0 || s.flip() { s.pick(UNLISTED) } else { LITS_PLAIN[i] };
            if !pool.iter().any(|x| x == c) {
                pool.push(c.to_string());
            }
        }
        let x = small_rx(s, &pool);
        World { fa: x.fa(), rx: Some(x) }
    } else {
        World::gen(s, with_rx)
    };
    let tys = if odd { [Ty::Regex; 3] } else { [Ty::gen(s, with_rx), Ty::gen(s, with_rx), Ty::gen(s, with_rx)] };
    // whitespace at the ends of an expression does not count
    let hull = |t: String| if odd { format!("({})", t.trim_end_matches('\n')) } else { t };
    let op = s.below(4) as u8;
    let mut files = vec![];
    let a = hull(w.write(s, tys[0], false, false));
    files.push(file(s, 0, a.clone()));
    let sib = w.sibling(s);
    let b = match s.weighted(if odd { &[8, 2, 2, 0] } else { &[8, 2, 2, 3] }) {
        0 => sib.write(s, tys[1], false, false),
        1 => w.write(s, tys[1], false, false),
        2 => w.write(s, tys[1], true, false),
        _ => w.write(s, tys[1], false, true),
    };
    let b = hull(b);
    files.push(file(s, 1, b.clone()));
    let mut pos = vec![0, 1];
    if s.chance(1, 15) {
        let i = s.us(2);
        files[i].content = if s.flip() { unreadable(s) } else { Content::Text(bad_text(s, tys[i])) };
    }
    if s.chance(1, 15) {
        pos = vec![0, 0];
    }
    if s.flip() {
        // a third automaton: mostly the true combination, or nearly
        let mut ty2 = tys[2];
        let truth = (|| {
            let x = load_text(&a, tys[0]).ok()?.fa()?;
            let y = load_text(&b, tys[1]).ok()?.fa()?;
            if !x.same_alphabet_set(&y) {
                return None;
            }
            let c = x.det().ok()?.combine(&y.det_over(&x.alpha).ok()?, &op_fn(op)).ok()?;
            // (the tool takes long to compare with large ones)
            Some(c.canon()).filter(|d| d.n() <= 200)
        })();
        let text = match truth {
            Some(d) if ty2 != Ty::Regex && s.chance(3, 4) => {
                let f = det_fa(&d, s);
                let mutated = s.chance(1, 3);
                World { fa: f, rx: None }.write(s, ty2, mutated, false)
            }
            _ => {
                if ty2 == Ty::Regex && !with_rx {
                    ty2 = Ty::Dfa;
                }
                // for expressions of both operands the union is an expression as well
                match (&w.rx, &sib.rx) {
                    (Some(x), Some(y)) if ty2 == Ty::Regex && op == 0 && s.chance(3, 4) => {
                        let u = Rx::Alt(vec![x.clone(), y.clone()]);
                        regex_text(s, &u)
                    }
                    _ => match s.us(4) {
                        0 => w.write(s, ty2, true, false),
                        1 => sib.write(s, ty2, false, false),
                        2 => w.write(s, ty2, false, true),
                        _ => bad_text(s, ty2),
                    },
                }
            }
        };
        let text = hull(text);
        let i = files.len();
        let mut f = file(s, i, text);
        if s.chance(1, 20) {
            f.content = unreadable(s);
        }
        files.push(f);
        pos.push(i);
    }
    let minimized = s.flip();
    let mut enumerate = if s.flip() { Some(s.skewed(0, 120)) } else { None };
    if enumerate.is_some() && s.chance(1, 5) {
        // far more words than there are
        let few = |i: usize| {
            let t = files[pos[i]].content.text()?;
            let d = load_text(&t, tys[i]).ok()?.fa()?.det().ok()?;
            Some(Enumerate::new(&d).take(150).count() < 150)
        };
        if few(0) == Some(true) && few(1) == Some(true) {
            enumerate = Some(far(s));
        }
    }
    if enumerate.is_some() && s.chance(1, 12) {
        // many of infinitely many words, where these are short (the tool takes long for long ones)
        let fa = |i: usize| load_text(&files[pos[i]].content.text()?, tys[i]).ok()?.fa();
        let d = (|| {
            let (x, y) = (fa(0)?, fa(1)?);
            if !x.same_alphabet_set(&y) {
                return None;
            }
            x.det().ok()?.combine(&y.det_over(&x.alpha).ok()?, &op_fn(op)).ok()
        })();
        let n = s.range(200, 1200);
        let letters = |d: &Det| Enumerate::new(d).take(n).try_fold(0, |k, w| Some(k + w.len()).filter(|k| *k < 9000)).is_some();
        if matches!(d, Some(d) if d.n() <= 30 && letters(&d)) {
            enumerate = Some(n);
        }
    }
    let mut opts = vec![OPS4[op as usize].to_string()];
    if tys[0] != Ty::Dfa || s.flip() {
        opt(s, &mut opts, "-t", "--type", tys[0].s());
    }
    if tys[1] != tys[0] || s.flip() {
        opt(s, &mut opts, "-s", "--second-type", tys[1].s());
    }
    if tys[2] != Ty::Dfa || s.flip() {
        opt(s, &mut opts, "", "--compared-type", tys[2].s());
    }
    if minimized {
        flag(s, &mut opts, "-m", "--minimized");
    }
    if let Some(n) = enumerate {
        opt(s, &mut opts, "-e", "--enumerate", &n.to_string());
    }
    let mut inv = Inv { files, opts, pos, text: None, hash: s.below(1 << 16) as u32 };
    lengthen_one(s, &mut inv, &tys);
    OpCase { inv, op, tys, minimized, enumerate, logs: s.chance(1, 5) }
}

/// a number of words around the limits of the integer types
fn far(s: &mut Src) -> usize {
    match s.us(5) {
        0 => 254 + s.us(5),
        1 => 65534 + s.us(5),
        2 => (1 << 31) - 2 + s.us(5),
        3 => (1 << 32) - 2 + s.us(8),
        _ => usize::MAX - s.us(2),
    }
}

/// the lines that list words, and how many there are
fn word_lines(f: &Fa, order: &[String], n: usize) -> R<(String, usize)> {
    Ok(det_lines(&f.det_over(order)?, n))
}

fn det_lines(d: &Det, n: usize) -> (String, usize) {
    let mut t = String::new();
    let mut k = 0;
    for w in Enumerate::new(d).take(n) {
        let w = d.word(&w).concat();
        t.push_str(if w.is_empty() { "(empty word)" } else { &w });
        t.push('\n');
        k += 1;
    }
    (t, k)
}

pub struct SetOps;

impl Prop for SetOps {
    type Case = OpCase;
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "Runs of the four set operation commands on two or three generated files of any types (DFA, NFA, regular expression), over the same symbols in different orders or over different ones, the third holding the true combination, a small change of it or something else; malformed and unreadable files; --minimized, --enumerate (up to 120, occasionally 1200, or around the limits of the integer types where the words are few), --compared-type; one run in twelve on expressions with symbols that no table can hold (blanks, #, {, *), where only the words and the comparison are judged. The printed table is read by the reference reader and compared with the combination computed by the reference model, so are the words and the comparison. Non-trivial: the table has at least two states and its language is neither empty nor everything."
    }
    fn quick_cases(&self) -> usize {
        15_000
    }
    fn max_discard(&self) -> usize {
        10
    }
    fn gen(&self, s: &mut Src) -> OpCase {
        gen_op(s)
    }
    fn simplify(&self, c: &OpCase) -> Vec<OpCase> {
        let mut out = vec![];
        if c.inv.pos.len() == 3 {
            let mut d = c.clone();
            d.inv.pos.pop();
            out.push(d);
        }
        out.extend(c.inv.simplify().into_iter().map(|inv| OpCase { inv, ..c.clone() }));
        out
    }
    fn check(&self, c: &OpCase, o: &mut Obs) -> R {
        let dir = Scratch::new()?;
        dir.put(&c.inv.files)?;
        let content = |i: usize| &c.inv.files[c.inv.pos[i]].content;
        let a = load(content(0), c.tys[0])?.fa();
        let b = load(content(1), c.tys[1])?.fa();
        let front: Vec<String> = if c.logs { vec![] } else { vec!["--less-logs".into()] };
        let args = c.inv.args(&dir.0, &front);
        let third = if c.inv.pos.len() > 2 { Some(load(content(2), c.tys[2])?) } else { None };
        let (a, b) = match (a, b) {
            (Some(a), Some(b)) if a.same_alphabet_set(&b) => (a, b),
            (a, b) => {
                o.label(if a.is_some() && b.is_some() { "different alphabets" } else { "bad operand" });
                let out = run(&dir.0, &args, c.inv.hash)?;
                ensure!(!out.stderr.is_empty(), "no error message: {args:?} prints {:?}", one_line(&out.stdout, 500));
                if !c.logs {
                    ensure!(out.stdout.is_empty(), "results despite an error: {args:?} prints {:?}", one_line(&out.stdout, 500));
                }
                return Ok(());
            }
        };
        if a.k() == 0 {
            return discard("empty alphabet");
        }
        let want = a.det()?.combine(&b.det_over(&a.alpha)?, &op_fn(c.op))?;
        let out = run(&dir.0, &args, c.inv.hash)?;
        let mut text = out.stdout.as_str();
        let what = || format!("{args:?} prints {:?} (stderr {:?})", one_line(&out.stdout, 900), one_line(&out.stderr, 200));
        // from the end: the comparison
        if let Some(third) = third {
            let t = third.fa();
            o.label(if t.is_some() { "compared with a third" } else { "bad third" });
            match t {
                None => ensure!(!out.stderr.is_empty(), "no error message for a bad third file: {}", what()),
                Some(t) => {
                    let body = text.strip_suffix('\n').unwrap_or(text);
                    let cut = body.rfind('\n').map_or(0, |i| i + 1);
                    let line = &body[cut..];
                    text = &text[..cut];
                    let same = t.same_alphabet_set(&a) && find_word(&[&want, &t.det_over(&a.alpha)?], &|x| x[0] == x[1])?.is_none();
                    o.label(if same { "third equivalent" } else { "third not equivalent" });
                    let (ne, eq) = (line.contains("NOT EQUIVALENT"), line.contains("EQUIVALENT"));
                    ensure!(eq, "no comparison with the third automaton: {}", what());
                    ensure!(same == !ne, "the third automaton is {}equivalent to the result: {}", if same { "" } else { "not " }, what());
                }
            }
        }
        // the words
        let mut words = None;
        if c.enumerate.is_some() {
            let at = if text.starts_with("First ") { Some(0) } else { text.find("\nFirst ").map(|i| i + 1) };
            let Some(at) = at else { return fail(format!("no words are listed: {}", what())) };
            let (t, w) = text.split_at(at);
            text = t;
            let Some(nl) = w.find('\n') else { return fail(format!("no words are listed: {}", what())) };
            words = Some(&w[nl + 1..]);
        }
        if !a.alpha.iter().all(|x| expressible(x)) {
            // no table can be read, but the words are known
            o.label("symbols that no table can hold");
            if let Some(n) = c.enumerate {
                // in some order of the symbols, as the header that gives it cannot be read
                let got = words.unwrap_or("");
                let k = a.k();
                let fits = (0..k.pow(k as u32)).any(|code| {
                    let p: Vec<usize> = (0..k).map(|i| code / k.pow(i as u32) % k).collect();
                    if (0..k).any(|i| !p.contains(&i)) {
                        return false;
                    }
                    let d = Det {
                        alpha: p.iter().map(|i| want.alpha[*i].clone()).collect(),
                        acc: want.acc.clone(),
                        tr: want.tr.iter().map(|r| p.iter().map(|i| r[*i]).collect()).collect(),
                    };
                    let (lines, found) = det_lines(&d, n);
                    got.starts_with(lines.as_str()) && (found < n || got == lines)
                });
                ensure!(fits || k > 4, "the first {n} words are not listed, in whatever order of the symbols: {}", what());
            }
            o.nontrivial(!want.is_empty() && !want.complement().is_empty());
            return Ok(());
        }
        // the table; with logs, lines ending in a colon or speaking of a conversion precede it
        let mut table = text;
        if c.logs {
            let mut ok = None;
            let mut rest = text;
            loop {
                if let Class::Valid(f) = tabletext::read(rest, true) {
                    ok = Some((rest, f));
                    break;
                }
                match rest.find('\n') {
                    Some(i) => rest = &rest[i + 1..],
                    None => break,
                }
            }
            match ok {
                Some((t, _)) => table = t,
                None => return fail(format!("no table: {}", what())),
            }
        }
        let f = match tabletext::read(table, true) {
            Class::Valid(f) => f,
            x => return fail(format!("the output is no DFA table ({x:?}): {}", what())),
        };
        ensure!(f.same_alphabet_set(&a), "alphabet {:?} instead of {:?}: {}", f.alpha, a.alpha, what());
        if let Some(w) = find_word(&[&want, &f.det_over(&a.alpha)?], &|x| x[0] == x[1])? {
            return fail(format!("the printed automaton is wrong on {:?}: {}", want.word(&w), what()));
        }
        if c.minimized {
            let m = want.canon().n();
            ensure!(f.n() == m, "the result has {} states, the minimal automaton has {m}: {}", f.n(), what());
        }
        if let Some(n) = c.enumerate {
            let (lines, k) = word_lines(&f, &f.alpha, n)?;
            let got = words.unwrap_or("");
            let Some(note) = got.strip_prefix(lines.as_str()) else {
                return fail(format!("expected the {k} words {:?}: {}", one_line(&lines, 300), what()));
            };
            if k == n {
                ensure!(note.is_empty(), "something follows the {n} words: {}", what());
            } else {
                let one = note.matches('\n').count() == 1 && note.ends_with('\n');
                ensure!(one && number_in(note, k), "no note that there are only {k} words: {}", what());
                o.label("fewer words than asked for");
            }
            o.label("words listed");
        }
        o.label(format!("{} {} {}", OPS4[c.op as usize], c.tys[0].s(), c.tys[1].s()));
        o.label_if(c.minimized, "--minimized");
        o.max("states", f.n() as u64);
        o.nontrivial(f.n() >= 2 && !want.is_empty() && !want.complement().is_empty());
        Ok(())
    }
}

/// whether the line names this number
fn number_in(line: &str, k: usize) -> bool {
    line.split(|c: char| !c.is_ascii_digit()).any(|x| x == k.to_string())
}

// ------------------------------------------------------------------ C30

#[derive(Clone, Serialize, Deserialize)]
pub struct EnumCli {
    inv: Inv,
    ty: Ty,
    n: usize,
    logs: bool,
}

/// about how many states the library's automaton for this text has
fn weight(text: &str, ty: Ty) -> usize {
    fn w(x: &Rx) -> usize {
        match x {
            Rx::Cat(v) | Rx::Alt(v) => v.iter().map(w).sum(),
            Rx::Star(y) => w(y),
            Rx::Plus(y) => 2 * w(y),
            _ => 1,
        }
    }
    match (ty, rx::read(text)) {
        (Ty::Regex, Read::Tree(x)) => w(&x),
        _ => 8,
    }
}

fn gen_enum(s: &mut Src) -> EnumCli {
    let as_arg = s.chance(1, 3);
    let ty = if as_arg { Ty::Regex } else { Ty::gen(s, true) };
    let bad = s.chance(1, 20);
    let mut text = match ty {
        _ if bad => bad_text(s, ty),
        Ty::Regex => {
            let merging = s.chance(1, 5);
            let st = RxStyle { ops: s.flip(), odd: s.chance(1, 3), merging, degenerate: false };
            let p = pool(s, st);
            let mut budget = 4 + s.us(14);
            let depth = s.range(1, 5);
            let x = rx::gen(s, st, &p, depth, &mut budget);
            regex_text(s, &x)
        }
        Ty::Dfa => {
            let f = dfa(s, &Lim::new(7, 4));
            table(s, &f, true)
        }
        Ty::Nfa => {
            let f = nfa(s, &Lim::new(7, 4), Eps::Maybe);
            table(s, &f, false)
        }
    };
    if load_text(&text, ty).is_err() {
        text = "a".into();
    }
    let n = match s.weighted(&[4, 11, 4, 1]) {
        0 => s.us(3),
        1 => s.us(40),
        3 => far(s),
        _ if s.chance(1, 8) => s.us(2000),
        _ => s.us(300),
    };
    // the library takes long for long words, whose number is bounded here
    let n = match load_text(&text, ty).ok().and_then(Loaded::fa).map(|f| f.det()) {
        Some(Ok(d)) => {
            let more = if s.chance(1, 60) { 10 } else { 1 };
            let mut left = (150_000 / (weight(&text, ty) + 5).pow(2) * more).min(500 * more);
            let mut k = 0;
            for w in Enumerate::new(&d).take(n) {
                left = left.saturating_sub(w.len());
                if left == 0 {
                    break;
                }
                k += 1;
            }
            if left == 0 {
                k
            } else {
                n
            }
        }
        _ => n,
    };
    let mut opts = vec![];
    let (mut files, mut pos) = (vec![], vec![]);
    let mut arg = None;
    let mut amount = n;
    if as_arg {
        opts.push("enumerate-regex".to_string());
        if s.chance(7, 8) {
            opt(s, &mut opts, "-n", "--amount", &n.to_string());
        } else {
            amount = 20;
        }
        arg = Some(text);
    } else {
        opts.push("enumerate".to_string());
        if ty != Ty::Dfa || s.flip() {
            opt(s, &mut opts, "", "--type", ty.s());
        }
        if s.chance(7, 8) {
            opt(s, &mut opts, "-a", "--amount", &n.to_string());
        } else {
            amount = 30;
        }
        let mut f = file(s, 0, text);
        if bad && s.flip() {
            f.content = unreadable(s);
        }
        files.push(f);
        pos.push(0);
    }
    let mut inv = Inv { files, opts, pos, text: arg, hash: s.below(1 << 16) as u32 };
    lengthen_one(s, &mut inv, &[ty]);
    EnumCli { inv, ty, n: amount, logs: s.flip() }
}

pub struct EnumerateCmd;

impl Prop for EnumerateCmd {
    type Case = EnumCli;
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "Runs of `dandy-cli enumerate` on generated DFA, NFA (with and without ε-moves) and regular expression files, and of `enumerate-regex` on expressions given as argument (also with newlines, operators and combining characters as literals), n from 0 to 300, occasionally 2000 or, where the words are few, around 2^8, 2^16, 2^31, 2^32 and 2^64, or left at its default, with and without logs; malformed and unreadable inputs. The words are those of the reference enumeration, in the order of the table header (for expressions, of the alphabet the library gives the automaton). Non-trivial: at least two words are due."
    }
    fn quick_cases(&self) -> usize {
        15_000
    }
    fn gen(&self, s: &mut Src) -> EnumCli {
        gen_enum(s)
    }
    fn simplify(&self, c: &EnumCli) -> Vec<EnumCli> {
        let mut out: Vec<EnumCli> = c.inv.simplify().into_iter().map(|inv| EnumCli { inv, ..c.clone() }).collect();
        if let Some(t) = &c.inv.text {
            for (i, ch) in t.char_indices() {
                let mut u = t.clone();
                u.replace_range(i..i + ch.len_utf8(), "");
                out.push(EnumCli { inv: Inv { text: Some(u), ..c.inv.clone() }, ..c.clone() });
            }
        }
        out
    }
    fn check(&self, c: &EnumCli, o: &mut Obs) -> R {
        let dir = Scratch::new()?;
        dir.put(&c.inv.files)?;
        let text = match &c.inv.text {
            Some(t) => Some(t.clone()),
            None => c.inv.files[0].content.text(),
        };
        let f = match &text {
            Some(t) => load_text(t, c.ty).or_else(|w| discard(w))?.fa(),
            None => None,
        };
        let front: Vec<String> = if c.logs { vec![] } else { vec!["--less-logs".into()] };
        let args = c.inv.args(&dir.0, &front);
        let out = run(&dir.0, &args, c.inv.hash)?;
        let Some(f) = f else {
            o.label("bad input");
            ensure!(!out.stderr.is_empty(), "no error message: {args:?}");
            if !c.logs {
                ensure!(out.stdout.is_empty(), "words of a bad input: {args:?} prints {:?}", one_line(&out.stdout, 500));
            }
            return Ok(());
        };
        let order: Vec<String> = match c.ty {
            Ty::Regex => match dandy::parser::regex(text.as_deref().unwrap_or("")) {
                Ok(r) => r.to_nfa().alphabet().iter().map(|x| x.to_string()).collect(),
                Err(_) => return fail("the library rejects the expression"),
            },
            _ => f.alpha.clone(),
        };
        if order.iter().collect::<BTreeSet<_>>() != f.alpha.iter().collect() {
            return fail(format!("the library gives the expression the alphabet {order:?}"));
        }
        let (lines, k) = word_lines(&f, &order, c.n)?;
        let what = || format!("{args:?} prints {:?} (stderr {:?})", one_line(&out.stdout, 700), one_line(&out.stderr, 200));
        let got = if c.logs {
            match out.stdout.find('\n') {
                Some(i) => &out.stdout[i + 1..],
                None => return fail(format!("no heading: {}", what())),
            }
        } else {
            out.stdout.as_str()
        };
        let Some(rest) = got.strip_prefix(lines.as_str()) else {
            return fail(format!("expected the words {:?}: {}", one_line(&lines, 400), what()));
        };
        if !c.logs || k == c.n {
            // the note is a log line here, unlike that of the set operations
            ensure!(rest.is_empty(), "something follows the {k} words: {}", what());
        } else {
            let one = rest.matches('\n').count() == 1 && rest.ends_with('\n');
            ensure!(one && number_in(rest, k), "no note that there are only {k} words: {}", what());
            o.label("fewer words than asked for");
        }
        o.label(if c.inv.text.is_some() { "enumerate-regex" } else { c.ty.s() });
        o.label_if(f.has_eps() && c.ty == Ty::Nfa, "ε-moves");
        o.label_if(c.n == 0, "n = 0");
        o.max("words", k as u64);
        o.nontrivial(k >= 2);
        Ok(())
    }
}

// ------------------------------------------------------------------ C31

#[derive(Clone, Serialize, Deserialize)]
pub struct TestCase {
    inv: Inv,
    ty: Ty,
    per_file: bool,
    logs: bool,
}

fn line(s: &mut Src, d: &Det, accept_bias: bool) -> String {
    // a random walk, biased to stay where acceptance is possible
    let alive = d.alive();
    let mut q = 0;
    let mut t = String::new();
    let len = if s.chance(1, 400) { s.range(200, 5000) } else { s.skewed(0, 10) };
    if !d.alpha.is_empty() {
        for _ in 0..len {
            let mut c = s.us(d.alpha.len());
            if accept_bias && !alive[d.tr[q][c]] {
                c = (0..d.alpha.len()).find(|c| alive[d.tr[q][*c]]).unwrap_or(c);
            }
            t.push_str(&d.alpha[c]);
            q = d.tr[q][c];
            if accept_bias && d.acc[q] && s.chance(1, 4) {
                break;
            }
        }
    }
    if s.chance(1, 10) {
        let at = t.char_indices().map(|x| x.0).chain([t.len()]).collect::<Vec<_>>();
        let i = *s.pick(&at);
        t.insert_str(i, s.pick(&["\r", " ", "\u{301}", "?", "🏽", "\t", "\u{2028}", "é", "\u{b}", "a"]));
    }
    t
}

fn gen_testfile(s: &mut Src) -> TestCase {
    let ty = Ty::gen(s, true);
    let bad = s.chance(1, 25);
    let w = if s.flip() {
        let mut w = World::gen(s, true);
        if s.chance(1, 4) {
            w = w.blanks(s);
        }
        w
    } else {
        let lim = Lim::new(5, 4).style(AlphaStyle::Clusters);
        let fa = if ty != Ty::Nfa { dfa(s, &lim) } else { nfa(s, &lim, Eps::Maybe) };
        World { fa, rx: None }
    };
    let ty = if ty == Ty::Regex && w.rx.is_none() { Ty::Dfa } else { ty };
    let text = if bad { bad_text(s, ty) } else { w.write(s, ty, false, false) };
    let mut files = vec![file(s, 0, text)];
    if bad && s.flip() {
        files[0].content = unreadable(s);
    }
    let mut pos = vec![0];
    let n = s.skewed(1, 5);
    let d = w.fa.det().unwrap_or(Det { alpha: vec![], acc: vec![false], tr: vec![vec![]] });
    for _ in 0..n {
        let mostly_good = s.flip();
        let mut t = String::new();
        let k = if s.chance(1, 60) { s.range(60, 700) } else { s.skewed(0, 8) };
        for j in 0..k {
            let b = mostly_good || s.flip();
            t.push_str(&line(s, &d, b));
            let last = j + 1 == k;
            t.push_str(match s.weighted(&[6, 3, if last { 4 } else { 0 }]) {
                0 => "\n",
                1 => "\r\n",
                _ => "",
            });
        }
        let i = files.len();
        files.push(file(s, i, t));
        pos.push(i);
        if s.chance(1, 10) {
            pos.push(i);
        }
    }
    if s.chance(1, 12) {
        let i = files.len();
        let c = unreadable(s);
        let mut f = file(s, i, String::new());
        f.content = c;
        files.push(f);
        pos.push(i);
    }
    let per_file = s.flip();
    let mut opts = vec!["test-file".to_string()];
    if ty != Ty::Dfa || s.flip() {
        opt(s, &mut opts, "", "--type", ty.s());
    }
    if per_file || s.flip() {
        opt(s, &mut opts, "-t", "--test-type", if per_file { "files" } else { "lines" });
    }
    let mut inv = Inv { files, opts, pos, text: None, hash: s.below(1 << 16) as u32 };
    lengthen_one(s, &mut inv, &[ty]);
    TestCase { inv, ty, per_file, logs: s.chance(1, 4) }
}

/// line endings are LF and CRLF; a last line without ending counts, an empty rest does not
fn lines_of(t: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = t;
    while !rest.is_empty() {
        match rest.find('\n') {
            Some(i) => {
                let l = &rest[..i];
                out.push(l.strip_suffix('\r').unwrap_or(l).to_string());
                rest = &rest[i + 1..];
            }
            None => {
                out.push(rest.to_string());
                rest = "";
            }
        }
    }
    out
}

pub struct TestFile;

impl Prop for TestFile {
    type Case = TestCase;
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> &'static str {
        "Runs of `dandy-cli test-file` with generated automata of any type over symbols of one grapheme cluster (expressions also with whitespace, above all line breaks, within), and up to six text files (up to 8 lines, one in 60 up to 700; lines up to 10 symbols, one in 400 up to 5000) of random walks through the automaton (accepted and rejected lines, foreign and combining characters, carriage returns inside lines, empty lines, LF, CRLF, no final newline, empty files), in both modes, with and without logs; bad automata, and an unreadable file at the end. Every line's verdict and the totals come from the reference model. Non-trivial: some line is accepted and some is not."
    }
    fn quick_cases(&self) -> usize {
        15_000
    }
    fn gen(&self, s: &mut Src) -> TestCase {
        gen_testfile(s)
    }
    fn max_discard(&self) -> usize {
        10
    }
    fn simplify(&self, c: &TestCase) -> Vec<TestCase> {
        let mut out = vec![];
        for i in 1..c.inv.pos.len() {
            let mut d = c.clone();
            d.inv.pos.remove(i);
            out.push(d);
        }
        out.extend(c.inv.simplify().into_iter().map(|inv| TestCase { inv, ..c.clone() }));
        out
    }
    fn check(&self, c: &TestCase, o: &mut Obs) -> R {
        let dir = Scratch::new()?;
        dir.put(&c.inv.files)?;
        let f = load(&c.inv.files[c.inv.pos[0]].content, c.ty)?.fa();
        let front: Vec<String> = if c.logs { vec![] } else { vec!["--less-logs".into()] };
        let args = c.inv.args(&dir.0, &front);
        let mut pieces = vec![];
        let (mut good, mut bad) = (false, false);
        let mut error = false;
        if let Some(f) = &f {
            for i in &c.inv.pos[1..] {
                let file = &c.inv.files[*i];
                let p = file.arg(&dir.0);
                let Some(t) = file.content.text() else {
                    // what becomes of files after an unreadable one is not settled
                    error = true;
                    break;
                };
                let ls = lines_of(&t);
                let ok: Vec<bool> = ls.iter().map(|l| f.accepts(&l.graphemes(true).map(String::from).collect::<Vec<_>>())).collect();
                good |= ok.contains(&true);
                bad |= ok.contains(&false);
                o.label_if(t.contains("\r\n"), "CRLF");
                o.label_if(!t.is_empty() && !t.ends_with('\n'), "no final newline");
                o.label_if(ls.iter().any(|l| l.is_empty()), "empty line");
                o.label_if(t.is_empty(), "empty file");
                if c.per_file {
                    match ok.iter().position(|x| !x) {
                        None => pieces.push(Piece::Text(format!("[ OK ] {p}\n"))),
                        Some(j) => {
                            pieces.push(Piece::Text(format!("[FAIL] {p}")));
                            pieces.push(Piece::Span(String::new(), format!("{}\n", ls[j])));
                        }
                    }
                } else {
                    pieces.push(Piece::Line(String::new(), vec![p]));
                    for (l, ok) in ls.iter().zip(&ok) {
                        pieces.push(Piece::Text(format!("{} {l}\n", if *ok { "[ OK ]" } else { "[FAIL]" })));
                    }
                    let a = ok.iter().filter(|x| **x).count();
                    pieces.push(Piece::Line(format!("{a}/{}", ok.len()), vec![]));
                }
            }
        }
        let out = run(&dir.0, &args, c.inv.hash)?;
        if f.is_none() {
            o.label("bad automaton");
            ensure!(!out.stderr.is_empty(), "no error message for a bad automaton: {args:?}");
            if !c.logs {
                ensure!(out.stdout.is_empty(), "results without an automaton: {args:?} prints {:?}", one_line(&out.stdout, 500));
            }
            return Ok(());
        }
        if error {
            o.label("unreadable file");
            ensure!(!out.stderr.is_empty() || out.stdout.contains(&c.inv.files[*c.inv.pos.last().unwrap()].path), "no sign of the unreadable file: {args:?}");
        }
        let ok = if c.logs {
            contained(&out.stdout, &pieces)
        } else {
            matches(&out.stdout, &pieces, !error)
        };
        ensure!(ok, "{args:?}: expected {}, stdout is {:?}, stderr {:?}", show(&pieces), one_line(&out.stdout, 900), one_line(&out.stderr, 200));
        o.label(if c.per_file { "per file" } else { "per line" });
        o.label(c.ty.s());
        o.nontrivial(good && bad);
        Ok(())
    }
}

// ------------------------------------------------------------------ C32

#[derive(Clone, Serialize, Deserialize)]
pub struct OutCase {
    inv: Inv,
    /// 0 new, 1 over an empty file, 2 over a long file, 3 in a folder, 4 cannot be created
    target: u8,
    late: bool,
}

pub struct OutFile;

impl Prop for OutFile {
    type Case = OutCase;
    fn id(&self) -> &'static str {
        "C32"
    }
    fn rule(&self) -> &'static str {
        "Any generated run of any command (as in C28-C31, so also failing ones), repeated with the same hash keys: without output file and logs, with output file and no logs, with output file and logs; output file new, over an empty or a longer file, in a folder, or impossible to create. File and printed results must agree byte by byte, the logged output must contain the results in order. Non-trivial: at least two result lines."
    }
    fn quick_cases(&self) -> usize {
        6_000
    }
    fn gen(&self, s: &mut Src) -> OutCase {
        let inv = match s.us(4) {
            0 => gen_equivalence(s).inv,
            1 => gen_op(s).inv,
            2 => gen_enum(s).inv,
            _ => gen_testfile(s).inv,
        };
        OutCase { inv, target: s.weighted(&[4, 1, 4, 2, 1]) as u8, late: s.flip() }
    }
    fn simplify(&self, c: &OutCase) -> Vec<OutCase> {
        let mut out = vec![];
        for i in 0..c.inv.pos.len() {
            let mut d = c.clone();
            d.inv.pos.remove(i);
            out.push(d);
        }
        out.extend(c.inv.simplify().into_iter().map(|inv| OutCase { inv, ..c.clone() }));
        out
    }
    fn check(&self, c: &OutCase, o: &mut Obs) -> R {
        let dir = Scratch::new()?;
        dir.put(&c.inv.files)?;
        let name = match c.target {
            3 => "out dir/results.txt",
            4 => "no such folder/results.txt",
            _ => "results.txt",
        };
        let target = dir.0.join(name);
        let old = |t: &str| std::fs::write(&target, t).or_else(|e| discard(format!("scratch file: {e}")));
        let prepare = || -> R {
            match c.target {
                1 => old("")?,
                2 => old(&"old content, to be gone\n".repeat(3000))?,
                3 => {
                    let _ = std::fs::create_dir_all(dir.0.join("out dir"));
                }
                _ => {}
            }
            Ok(())
        };
        let less = "--less-logs".to_string();
        let out_opt = [if c.late { "-o".to_string() } else { "--out".to_string() }, name.to_string()];
        let with = |less_logs: bool| {
            let mut v = vec![];
            if less_logs && c.late {
                v.push(less.clone());
            }
            v.extend(out_opt.iter().cloned());
            if less_logs && !c.late {
                v.push(less.clone());
            }
            c.inv.args(&dir.0, &v)
        };
        let args0 = c.inv.args(&dir.0, std::slice::from_ref(&less));
        let plain = run(&dir.0, &args0, c.inv.hash)?;
        let check_file = |want: &str, args: &[String]| -> R {
            let got = match std::fs::read(&target) {
                Ok(b) => String::from_utf8_lossy(&b).into_owned(),
                Err(e) => return fail(format!("{args:?}: the output file cannot be read: {e}")),
            };
            ensure!(got == want, "{args:?}: the output file holds {:?}, the results are {:?}", one_line(&got, 500), one_line(want, 500));
            Ok(())
        };
        prepare()?;
        let args1 = with(true);
        let a = run(&dir.0, &args1, c.inv.hash)?;
        ensure!(
            a.stdout == plain.stdout,
            "{args1:?} prints {:?}, without output file {:?}",
            one_line(&a.stdout, 500),
            one_line(&plain.stdout, 500)
        );
        if c.target == 4 {
            o.label("output file cannot be created");
            ensure!(!target.exists(), "{args1:?}: the output file exists");
            return Ok(());
        }
        check_file(&plain.stdout, &args1)?;
        prepare()?;
        let args2 = with(false);
        let b = run(&dir.0, &args2, c.inv.hash)?;
        check_file(&plain.stdout, &args2)?;
        let mut rest = b.stdout.as_str();
        for l in plain.stdout.split_inclusive('\n') {
            let at = if rest.starts_with(l) { Some(0) } else { rest.find(&format!("\n{l}")).map(|i| i + 1) };
            match at {
                Some(i) => rest = &rest[i + l.len()..],
                None => return fail(format!("{args2:?}: the result line {l:?} is missing or out of order in {:?}", one_line(&b.stdout, 700))),
            }
        }
        let n = plain.stdout.lines().count();
        o.label(c.inv.opts[0].clone());
        o.label(["new file", "over an empty file", "over a longer file", "file in a folder"][c.target as usize % 4]);
        o.label_if(plain.stdout.is_empty(), "no results");
        o.max("result lines", n as u64);
        o.nontrivial(n >= 2);
        Ok(())
    }
}
