//! C34–C36: drawings and ASCII art.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use dandy_draw::pos2::Pos2;
use dandy_draw::{DrawOptions, Drawer};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ recording

#[derive(Clone, Debug, PartialEq)]
pub enum Prim {
    Circle { c: (f32, f32), r: f32, w: f32 },
    Text { c: (f32, f32), t: String },
    Rect { c: (f32, f32), s: (f32, f32) },
    Line { a: (f32, f32), b: (f32, f32), w: f32 },
}

#[derive(Default)]
pub struct Recorder {
    color: Option<[u8; 3]>,
    pub prims: Vec<(Prim, Option<[u8; 3]>)>,
    starts: usize,
    finishes: usize,
    outside: usize,
}

impl Recorder {
    /// a drawing that was recorded elsewhere
    pub fn of(prims: Vec<Prim>) -> Recorder {
        Recorder { prims: prims.into_iter().map(|p| (p, None)).collect(), starts: 1, finishes: 1, ..Default::default() }
    }
    fn add(&mut self, p: Prim) {
        if self.starts != 1 || self.finishes != 0 {
            self.outside += 1;
        }
        self.prims.push((p, self.color));
    }
    fn well_formed(&self) -> R {
        ensure!(
            self.starts == 1 && self.finishes == 1 && self.outside == 0,
            "{} start and {} finish calls, {} primitives outside of them",
            self.starts,
            self.finishes,
            self.outside
        );
        Ok(())
    }
}

impl Drawer for Recorder {
    fn start_drawing(&mut self) {
        self.starts += 1;
    }
    fn finish_drawing(&mut self) {
        self.finishes += 1;
    }
    fn draw_circle(&mut self, pos: Pos2, radius: f32, thickness: f32) {
        self.add(Prim::Circle { c: pos.into(), r: radius, w: thickness });
    }
    fn draw_centered_text(&mut self, pos: Pos2, text: &str) {
        self.add(Prim::Text { c: pos.into(), t: text.to_string() });
    }
    fn draw_rect(&mut self, upper_left: Pos2, size: Pos2) {
        self.add(Prim::Rect { c: upper_left.into(), s: size.into() });
    }
    fn draw_line(&mut self, from: Pos2, to: Pos2, thickness: f32) {
        self.add(Prim::Line { a: from.into(), b: to.into(), w: thickness });
    }
    fn set_color(&mut self, rgb: [u8; 3]) {
        self.color = Some(rgb);
    }
}

fn eq(a: f32, b: f32) -> bool {
    (a - b).abs() <= 0.02 + 1e-5 * a.abs().max(b.abs())
}
fn eq2(a: (f32, f32), b: (f32, f32)) -> bool {
    eq(a.0, b.0) && eq(a.1, b.1)
}

fn same(a: &Prim, b: &Prim) -> bool {
    match (a, b) {
        (Prim::Circle { c, r, w }, Prim::Circle { c: c2, r: r2, w: w2 }) => eq2(*c, *c2) && eq(*r, *r2) && eq(*w, *w2),
        (Prim::Text { c, t }, Prim::Text { c: c2, t: t2 }) => eq2(*c, *c2) && same_label(t, t2),
        (Prim::Rect { c, s }, Prim::Rect { c: c2, s: s2 }) => eq2(*c, *c2) && eq2(*s, *s2),
        (Prim::Line { a, b, w }, Prim::Line { a: a2, b: b2, w: w2 }) => {
            eq(*w, *w2) && ((eq2(*a, *a2) && eq2(*b, *b2)) || (eq2(*a, *b2) && eq2(*b, *a2)))
        }
        _ => false,
    }
}

fn chunks(t: &str) -> Vec<&str> {
    let mut v: Vec<&str> = t.split(", ").collect();
    v.sort();
    v
}

/// the same symbols in whatever order
fn same_label(a: &str, b: &str) -> bool {
    a == b || chunks(a) == chunks(b)
}

/// (from, to) with the symbols that lead there
fn grouped(f: &Fa) -> BTreeMap<(usize, usize), String> {
    let mut m: BTreeMap<(usize, usize), Vec<&str>> = BTreeMap::new();
    for i in 0..f.n() {
        for (c, ts) in f.tr[i].iter().enumerate() {
            for t in ts {
                m.entry((i, *t)).or_default().push(&f.alpha[c]);
            }
        }
        for t in &f.eps[i] {
            m.entry((i, *t)).or_default().push("ε");
        }
    }
    m.into_iter().map(|(k, v)| (k, v.join(", "))).collect()
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Picture {
    pub fa: Fa,
    pub dfa: bool,
}

pub fn picture(s: &mut Src, max_n: usize) -> Picture {
    let dfa_kind = s.flip();
    let lim = match s.weighted(&[20, 4, 4, 1]) {
        0 => Lim::new(max_n, 4).tall(400),
        1 => Lim::new(4, 12),
        3 => Lim::new(3, 45).min_k(if s.chance(1, 4) { 64 + s.us(200) } else { 13 }),
        _ => Lim::new(max_n * 2, 2),
    };
    let mut fa = if dfa_kind { dfa(s, &lim) } else { nfa(s, &lim, Eps::Maybe) };
    // a target listed twice in a set is one transition
    for r in fa.tr.iter_mut().flatten().chain(fa.eps.iter_mut()) {
        let mut seen = BTreeSet::new();
        r.retain(|t| seen.insert(*t));
    }
    Picture { fa, dfa: dfa_kind }
}

impl Picture {
    pub fn simplify(&self) -> Vec<Picture> {
        simplify_fa(&self.fa, self.dfa).into_iter().map(|fa| Picture { fa, dfa: self.dfa }).collect()
    }
    pub fn features(&self, o: &mut Obs) -> bool {
        let g = grouped(&self.fa);
        let opposite = g.keys().any(|(a, b)| a != b && g.contains_key(&(*b, *a)));
        let spot = g.keys().any(|(a, b)| a == b);
        let multi = g.values().any(|l| l.contains(", "));
        o.label(if self.dfa { "DFA" } else { "NFA" });
        o.label_if(opposite, "opposite arrows");
        o.label_if(spot, "self-loop");
        o.label_if(multi, "several symbols on an arrow");
        o.label_if(self.fa.init != 0, "initial state not first");
        o.label_if(self.fa.has_eps(), "ε-moves");
        o.max("states", self.fa.n() as u64);
        o.max("arrows", g.len() as u64);
        o.max("symbols on an arrow", g.values().map(|l| l.split(", ").count()).max().unwrap_or(0) as u64);
        self.fa.n() >= 3 && g.keys().filter(|(a, b)| a != b).count() >= 2
    }
}

// ------------------------------------------------------------------ C34

pub struct Drawing;

/// reads the picture back without knowing the option values
pub fn read_picture(f: &Fa, rec: &Recorder) -> R {
    rec.well_formed()?;
    let mut circles: Vec<((f32, f32), Vec<f32>)> = vec![];
    let mut texts = vec![];
    let mut lines = vec![];
    for (p, _) in &rec.prims {
        match p {
            Prim::Circle { c, r, .. } => match circles.iter_mut().find(|x| eq2(x.0, *c)) {
                Some(x) => x.1.push(*r),
                None => circles.push((*c, vec![*r])),
            },
            Prim::Text { c, t } => texts.push((*c, t.as_str())),
            Prim::Line { a, b, .. } => lines.push((*a, *b)),
            Prim::Rect { .. } => return fail("a rectangle in the drawing"),
        }
    }
    ensure!(circles.len() == f.n(), "{} states are drawn, there are {}", circles.len(), f.n());
    circles.sort_by(|a, b| a.0 .0.total_cmp(&b.0 .0));
    let y0 = circles[0].0 .1;
    let mut r0 = 0f32;
    let mut centres = vec![];
    for (i, (c, rs)) in circles.iter().enumerate() {
        ensure!(eq(c.1, y0), "the circle of state {i} is not in the row");
        let want = if f.acc[i] { 2 } else { 1 };
        ensure!(rs.len() == want, "state {} has {} circles, expected {want}", f.names[i], rs.len());
        ensure!(want == 1 || !eq(rs[0], rs[1]), "the circles of state {} coincide", f.names[i]);
        r0 = r0.max(rs.iter().fold(0f32, |a, b| a.max(*b)));
        let at = texts.iter().position(|(p, t)| eq2(*p, *c) && *t == f.names[i]);
        let Some(at) = at else { return fail(format!("no name {:?} in the circle of state {i}", f.names[i])) };
        texts.remove(at);
        centres.push(c.0);
    }
    for i in 1..centres.len() {
        ensure!(centres[i] - centres[i - 1] > 2.0 * r0 - 0.02, "the circles of states {} and {i} overlap", i - 1);
    }
    let top = y0 - r0;
    // the initial arrows: at or below the centre line
    let mut below: Vec<((f32, f32), (f32, f32))> = vec![];
    let mut left = vec![];
    let mut above = vec![];
    for (a, b) in lines {
        let y = a.1.min(b.1);
        if y > y0 + r0 - 0.02 {
            below.push((a, b));
        } else if a.0.max(b.0) < centres[0] - r0 + 0.02 {
            left.push((a, b));
        } else {
            ensure!(a.1.max(b.1) < top + 0.02, "a line runs through the circles: {a:?} {b:?}");
            above.push((a, b));
        }
    }
    // below: three lines from one point under the initial state
    ensure!(below.len() == 3, "{} lines below the states, expected the three of the initial arrow", below.len());
    let tip = [below[0].0, below[0].1].into_iter().find(|p| below.iter().all(|(a, b)| eq2(*a, *p) || eq2(*b, *p)));
    let Some(tip) = tip else { return fail("the lines of the initial arrow do not meet") };
    ensure!(
        eq(tip.0, centres[f.init]) && below.iter().all(|(a, b)| a.1.min(b.1) > tip.1 - 0.02),
        "the initial arrow points at x = {}, the initial state {} is at {}",
        tip.0,
        f.names[f.init],
        centres[f.init]
    );
    if f.init == 0 {
        ensure!(left.len() == 3 || left.is_empty(), "{} lines left of the states", left.len());
    } else {
        ensure!(left.is_empty(), "an initial arrow points at the first state, but {} is initial", f.names[f.init]);
    }
    // above: horizontal lines, each with its uprights, a label and an arrowhead
    let groups = grouped(f);
    let baseline = above.iter().map(|(a, b)| a.1.max(b.1)).fold(f32::MIN, f32::max);
    let (hor, other): (Vec<_>, Vec<_>) = above.into_iter().partition(|(a, b)| eq(a.1, b.1));
    let (mut ver, mut slant): (Vec<_>, Vec<_>) = other.into_iter().partition(|(a, b)| eq(a.0, b.0));
    ensure!(hor.len() == groups.len(), "{} arrows are drawn, expected {}", hor.len(), groups.len());
    let near = |x: f32| (0..f.n()).min_by(|i, j| (centres[*i] - x).abs().total_cmp(&(centres[*j] - x).abs())).unwrap();
    let mut seen: BTreeMap<(usize, usize), String> = BTreeMap::new();
    let mut spans: Vec<(f32, f32, f32)> = vec![];
    for (a, b) in &hor {
        let (x1, x2, y) = (a.0.min(b.0), a.0.max(b.0), a.1);
        for x in [x1, x2] {
            let at = ver.iter().position(|(a, b)| eq(a.0, x) && eq(a.1.min(b.1), y) && eq(a.1.max(b.1), baseline));
            match at {
                Some(i) => {
                    ver.swap_remove(i);
                }
                None => return fail(format!("the line at height {y} from {x1} to {x2} has no upright at {x}")),
            }
        }
        for (u1, u2, v) in &spans {
            ensure!(!eq(*v, y) || x2 <= u1 + 0.02 || x1 >= u2 - 0.02, "two arrows overlap at height {y}: {x1}..{x2} and {u1}..{u2}");
        }
        spans.push((x1, x2, y));
        let (l, r) = (near(x1), near(x2));
        let mid = (x1 + x2) / 2.0;
        // the arrowhead in the middle: two slanted lines that meet on the line
        let heads: Vec<usize> = (0..slant.len())
            .filter(|i| {
                let (a, b) = slant[*i];
                let (on, off) = if eq(a.1, y) { (a, b) } else { (b, a) };
                eq(on.1, y) && (on.0 - mid).abs() < 6.0 && (off.0 - mid).abs() < 6.0
            })
            .collect();
        ensure!(heads.len() == 2, "{} arrowhead lines on the line at height {y} from {x1} to {x2}", heads.len());
        let tips: Vec<((f32, f32), (f32, f32))> =
            heads.iter().map(|i| if eq(slant[*i].0 .1, y) { slant[*i] } else { (slant[*i].1, slant[*i].0) }).collect();
        ensure!(
            eq2(tips[0].0, tips[1].0) && eq(tips[0].1 .0, tips[1].1 .0) && (tips[0].1 .1 - y) * (tips[1].1 .1 - y) < 0.0,
            "no proper arrowhead on the line at height {y}: {tips:?}"
        );
        let leftwards = tips[0].0 .0 < tips[0].1 .0;
        for i in heads.into_iter().rev() {
            slant.swap_remove(i);
        }
        let arrow = if l != r && leftwards { (r, l) } else { (l, r) };
        let at = texts.iter().enumerate().filter(|(_, (p, _))| eq(p.0, mid) && p.1 < y + 0.02 && p.1 > y - 24.0).map(|x| x.0).collect::<Vec<_>>();
        ensure!(at.len() == 1, "{} labels over the line at height {y} from {x1} to {x2}", at.len());
        let label = texts.swap_remove(at[0]).1.to_string();
        let Some(want) = groups.get(&arrow) else {
            return fail(format!("an arrow from {} to {} is drawn, which does not exist", f.names[arrow.0], f.names[arrow.1]));
        };
        ensure!(
            same_label(&label, want),
            "the arrow from {} to {} is labelled {label:?} instead of {want:?}",
            f.names[arrow.0],
            f.names[arrow.1]
        );
        ensure!(seen.insert(arrow, label).is_none(), "the arrow from {} to {} is drawn twice", f.names[arrow.0], f.names[arrow.1]);
    }
    ensure!(texts.is_empty(), "texts that belong to nothing: {texts:?}");
    ensure!(ver.is_empty(), "uprights that belong to nothing: {ver:?}");
    // the heads at the ends: two slanted lines each, meeting on the baseline at the side of the target
    let mut due: BTreeMap<(usize, bool), usize> = BTreeMap::new();
    for (a, b) in seen.keys() {
        // right arrows arrive left of their target
        *due.entry((*b, a < b)).or_default() += 2;
    }
    for (a, b) in &slant {
        let (tip, arm) = if a.1 > b.1 { (a, b) } else { (b, a) };
        ensure!(eq(tip.1, baseline) && arm.1 < tip.1, "a slanted line that belongs to nothing: {a:?} {b:?}");
        let i = near(tip.0);
        match due.get_mut(&(i, tip.0 < centres[i])) {
            Some(n) if *n > 0 => *n -= 1,
            _ => return fail(format!("an arrowhead at state {} where no arrow ends", f.names[i])),
        }
    }
    ensure!(due.values().all(|n| *n == 0), "arrowheads are missing at {:?}", due.iter().filter(|x| *x.1 > 0).collect::<Vec<_>>());
    Ok(())
}

fn draw_on(p: &Picture, opts: Option<DrawOptions>, rec: &mut impl Drawer) -> R {
    if p.dfa {
        let d = p.fa.dfa()?;
        match opts {
            Some(o) => dandy_draw::draw_dfa_with_opts(&d, rec, o),
            None => dandy_draw::draw_dfa(&d, rec),
        }
    } else {
        let n = p.fa.nfa()?;
        match opts {
            Some(o) => dandy_draw::draw_nfa_with_opts(&n, rec, o),
            None => dandy_draw::draw_nfa(&n, rec),
        }
    }
    Ok(())
}

fn draw_with(p: &Picture, opts: Option<DrawOptions>) -> R<Recorder> {
    let mut rec = Recorder::default();
    draw_on(p, opts, &mut rec)?;
    Ok(rec)
}

impl Prop for Drawing {
    type Case = Picture;
    fn id(&self) -> &'static str {
        "C34"
    }
    fn rule(&self) -> &'static str {
        "Random DFAs and NFAs (1-9 states, occasionally 18; 0-4 symbols, occasionally 12, one in 29 13-45; now and then long chains of 31-259 states; ε-moves, initial state anywhere, self-loops, opposite arrows), drawn with a recording drawer. The picture is read back from the primitives alone (circles, names, arrows with their states, direction and label, initial arrow) and compared with the automaton. Hash keys vary from case to case, and so does the placement. Non-trivial: three or more states and at least two arrows between different states."
    }
    fn quick_cases(&self) -> usize {
        120_000
    }
    fn gen(&self, s: &mut Src) -> Picture {
        picture(s, 9)
    }
    fn simplify(&self, c: &Picture) -> Vec<Picture> {
        c.simplify()
    }
    fn check(&self, c: &Picture, o: &mut Obs) -> R {
        let rec = draw_with(c, None)?;
        read_picture(&c.fa, &rec)?;
        let n = c.features(o);
        o.nontrivial(n);
        Ok(())
    }
}

// ------------------------------------------------------------------ C35

/// the options, in the order of their definition
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opts {
    x_scale: f32,
    y_scale: f32,
    x_offset: f32,
    y_offset: f32,
    center_line_padding: f32,
    circle_radius: f32,
    circle_width: f32,
    accepting_circle_radius: f32,
    accepting_circle_width: f32,
    init_arrow_length: f32,
    init_arrow_arms_length: f32,
    init_arrow_width: f32,
    trans_arrow_arms_length: f32,
    trans_line_width: f32,
    from_line_offset: f32,
    to_line_offset: f32,
    floor_height: f32,
    text_margin: f32,
    line_circle_margin: f32,
    end_arrow: bool,
    middle_arrow: bool,
    text_color: [u8; 3],
    circle_color: [u8; 3],
    line_color: [u8; 3],
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            x_scale: 1.0,
            y_scale: 1.0,
            x_offset: 0.0,
            y_offset: 0.0,
            center_line_padding: 20.0,
            circle_radius: 30.0,
            circle_width: 2.0,
            accepting_circle_radius: 25.0,
            accepting_circle_width: 2.0,
            init_arrow_length: 50.0,
            init_arrow_arms_length: 15.0,
            init_arrow_width: 3.0,
            trans_arrow_arms_length: 5.0,
            trans_line_width: 3.0,
            from_line_offset: 15.0,
            to_line_offset: 15.0,
            floor_height: 25.0,
            text_margin: 15.0,
            line_circle_margin: 10.0,
            end_arrow: true,
            middle_arrow: true,
            text_color: [255, 255, 255],
            circle_color: [150, 255, 255],
            line_color: [0, 255, 255],
        }
    }
}

impl Opts {
    fn build(&self, builder: bool) -> DrawOptions {
        if builder {
            DrawOptions::default()
                .with_x_scale(self.x_scale)
                .with_y_scale(self.y_scale)
                .with_x_offset(self.x_offset)
                .with_y_offset(self.y_offset)
                .with_center_line_padding(self.center_line_padding)
                .with_circle_radius(self.circle_radius)
                .with_circle_width(self.circle_width)
                .with_accepting_circle_radius(self.accepting_circle_radius)
                .with_accepting_circle_width(self.accepting_circle_width)
                .with_init_arrow_length(self.init_arrow_length)
                .with_init_arrow_arms_length(self.init_arrow_arms_length)
                .with_init_arrow_width(self.init_arrow_width)
                .with_trans_arrow_arms_length(self.trans_arrow_arms_length)
                .with_trans_line_width(self.trans_line_width)
                .with_from_line_offset(self.from_line_offset)
                .with_to_line_offset(self.to_line_offset)
                .with_floor_height(self.floor_height)
                .with_text_margin(self.text_margin)
                .with_line_circle_margin(self.line_circle_margin)
                .with_end_arrow(self.end_arrow)
                .with_middle_arrow(self.middle_arrow)
                .with_text_color(self.text_color)
                .with_circle_color(self.circle_color)
                .with_line_color(self.line_color)
        } else {
            DrawOptions::new(
                self.x_scale,
                self.y_scale,
                self.x_offset,
                self.y_offset,
                self.center_line_padding,
                self.circle_radius,
                self.circle_width,
                self.accepting_circle_radius,
                self.accepting_circle_width,
                self.init_arrow_length,
                self.init_arrow_arms_length,
                self.init_arrow_width,
                self.trans_arrow_arms_length,
                self.trans_line_width,
                self.from_line_offset,
                self.to_line_offset,
                self.floor_height,
                self.text_margin,
                self.line_circle_margin,
                self.end_arrow,
                self.middle_arrow,
                self.text_color,
                self.circle_color,
                self.line_color,
            )
        }
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct OptCase {
    pic: Picture,
    opts: Opts,
    builder: bool,
}

pub struct Options;

/// the primitives not yet accounted for
struct Pool(Vec<Option<(Prim, Option<[u8; 3]>)>>);

impl Pool {
    fn has(&self, prim: &Prim) -> bool {
        self.0.iter().flatten().any(|x| same(&x.0, prim))
    }
    /// each of them, as often as it is listed
    fn has_all(&self, v: &[(Prim, [u8; 3])]) -> bool {
        let mut used = BTreeSet::new();
        v.iter().all(|(q, _)| {
            let at = (0..self.0.len()).find(|i| !used.contains(i) && self.0[*i].as_ref().is_some_and(|x| same(&x.0, q)));
            at.is_some_and(|i| used.insert(i))
        })
    }
    fn take(&mut self, prim: Prim, col: [u8; 3], what: &str) -> R {
        match self.0.iter().position(|x| x.as_ref().is_some_and(|(q, c)| *c == Some(col) && same(q, &prim))) {
            Some(i) => {
                self.0[i] = None;
                Ok(())
            }
            None => match self.0.iter().flatten().find(|x| same(&x.0, &prim)) {
                Some(x) => fail(format!("{what}: {prim:?} has colour {:?} instead of {col:?}", x.1)),
                None => fail(format!("{what} is missing: {prim:?} in {col:?}")),
            },
        }
    }
}

/// the drawing that the options ask for; the heights of the arrows are taken from the drawing itself
fn check_layout(f: &Fa, op: &Opts, rec: &Recorder) -> R {
    rec.well_formed()?;
    // everything is compared in the units the options are given in
    let un = |c: (f32, f32)| (c.0 / op.x_scale - op.x_offset, c.1 / op.y_scale - op.y_offset);
    let prims: Vec<(Prim, Option<[u8; 3]>)> = rec
        .prims
        .iter()
        .map(|(q, col)| {
            let q = match q {
                Prim::Circle { c, r, w } => Prim::Circle { c: un(*c), r: *r / op.x_scale, w: *w },
                Prim::Text { c, t } => Prim::Text { c: un(*c), t: t.clone() },
                Prim::Line { a, b, w } => Prim::Line { a: un(*a), b: un(*b), w: *w },
                Prim::Rect { c, s } => Prim::Rect { c: un(*c), s: (s.0 / op.x_scale, s.1 / op.y_scale) },
            };
            (q, *col)
        })
        .collect();
    let p = |x: f32, y: f32| (x, y);
    let xp = |i: usize| op.init_arrow_length + op.center_line_padding + op.circle_radius + (2.0 * op.circle_radius + op.center_line_padding) * i as f32;
    let from = |i: usize| xp(i) + op.from_line_offset;
    let to = |i: usize| xp(i) - op.to_line_offset;
    let groups = grouped(f);
    // the row of the states tells how many levels there are
    let Some(centre) = prims.iter().find_map(|(q, _)| if let Prim::Circle { c, .. } = q { Some(c.1) } else { None }) else {
        return fail("no circle is drawn");
    };
    let base = centre - op.circle_radius - op.line_circle_margin;
    let levels = (base / op.floor_height).round() - 1.0;
    ensure!(
        levels >= 0.0 && (base - (levels + 1.0) * op.floor_height).abs() < 0.2,
        "the states are at height {centre}, which is no multiple of the floor height {} below the top",
        op.floor_height
    );
    let mut pool = Pool(prims.into_iter().map(Some).collect());
    let total = pool.0.len();
    let line = |a: (f32, f32), b: (f32, f32), w: f32| Prim::Line { a: p(a.0, a.1), b: p(b.0, b.1), w };
    let arms = op.init_arrow_arms_length;
    for i in 0..f.n() {
        let c = p(xp(i), centre);
        pool.take(Prim::Circle { c, r: op.circle_radius, w: op.circle_width }, op.circle_color, "a circle")?;
        if f.acc[i] {
            pool.take(Prim::Circle { c, r: op.accepting_circle_radius, w: op.accepting_circle_width }, op.circle_color, "an inner circle")?;
        }
        pool.take(Prim::Text { c, t: f.names[i].clone() }, op.text_color, "a name")?;
        if i == f.init {
            let s = (xp(i), centre + op.circle_radius + op.center_line_padding);
            pool.take(line(s, (s.0, s.1 + op.init_arrow_length), op.init_arrow_width), op.line_color, "the initial arrow")?;
            pool.take(line(s, (s.0 + arms, s.1 + arms), op.init_arrow_width), op.line_color, "the initial arrow")?;
            pool.take(line(s, (s.0 - arms, s.1 + arms), op.init_arrow_width), op.line_color, "the initial arrow")?;
            if i == 0 {
                let e = (op.init_arrow_length, centre);
                pool.take(line((0.0, centre), e, op.init_arrow_width), op.line_color, "the arrow from the left")?;
                pool.take(line(e, (e.0 - arms, e.1 - arms), op.init_arrow_width), op.line_color, "the arrow from the left")?;
                pool.take(line(e, (e.0 - arms, e.1 + arms), op.init_arrow_width), op.line_color, "the arrow from the left")?;
            }
        }
    }
    let t = op.trans_arrow_arms_length;
    for ((a, b), label) in &groups {
        let (l, r) = (*a.min(b), *a.max(b));
        let leftwards = a > b;
        let mid = (from(l) + to(r)) / 2.0;
        // its height: where line, label and head are found
        let mut parts = None;
        for k in 1..=levels as usize {
            let h = op.floor_height * k as f32;
            let mut v = vec![
                (line((from(l), h), (to(r), h), op.trans_line_width), op.line_color),
                (Prim::Text { c: p(mid, h - op.text_margin), t: label.clone() }, op.text_color),
            ];
            if op.middle_arrow {
                let mul = if leftwards { 1.0 } else { -1.0 };
                let m = mid - t * mul * 0.5;
                v.push((line((m, h), (m + mul * t, h + t), op.trans_line_width), op.line_color));
                v.push((line((m, h), (m + mul * t, h - t), op.trans_line_width), op.line_color));
            }
            if v.iter().all(|(q, _)| pool.has(q)) && pool.has_all(&v) {
                parts = Some((h, v));
                break;
            }
        }
        let Some((h, v)) = parts else {
            return fail(format!("the arrow from {} to {} with label {label:?} is not where the options put it", f.names[*a], f.names[*b]));
        };
        for (q, c) in v {
            pool.take(q, c, "an arrow's line or label")?;
        }
        pool.take(line((from(l), base), (from(l), h), op.trans_line_width), op.line_color, "an upright")?;
        pool.take(line((to(r), base), (to(r), h), op.trans_line_width), op.line_color, "an upright")?;
        if op.end_arrow {
            let x = if a < b { to(r) } else { from(l) };
            pool.take(line((x, base), (x - t, base - t), op.trans_line_width), op.line_color, "an arrowhead at the end")?;
            pool.take(line((x, base), (x + t, base - t), op.trans_line_width), op.line_color, "an arrowhead at the end")?;
        }
    }
    let rest: Vec<_> = pool.0.into_iter().flatten().collect();
    ensure!(rest.is_empty(), "{} of {total} primitives are not asked for, such as {:?}", rest.len(), rest[0]);
    Ok(())
}

fn gen_opts(s: &mut Src) -> Opts {
    let mut o = Opts::default();
    let few = s.flip();
    fn set(s: &mut Src, few: bool, f: &mut f32, vals: &[f32]) {
        if s.chance(if few { 1 } else { 4 }, 8) {
            *f = *s.pick(vals);
        }
    }
    const LEN: &[f32] = &[0.0, 1.0, 3.5, 7.0, 10.0, 21.0, 40.0, 77.25, 120.0];
    const WID: &[f32] = &[0.0, 0.5, 1.0, 2.5, 4.0, 6.0, 9.0];
    const SCALE: &[f32] = &[0.1, 0.5, 0.75, 1.5, 2.0, 3.25, 10.0, 0.015625, 0.03, 0.05, 1.0, 30.0, 128.0];
    const OFF: &[f32] = &[-300.0, -40.5, -1.0, 1.0, 8.0, 33.0, 250.0, -0.25, 0.5, 0.0, 1100.0];
    set(s, few, &mut o.x_scale, SCALE);
    set(s, few, &mut o.y_scale, SCALE);
    set(s, few, &mut o.x_offset, OFF);
    set(s, few, &mut o.y_offset, OFF);
    set(s, few, &mut o.center_line_padding, &[1.0, 5.0, 10.0, 35.5, 60.0]);
    set(s, few, &mut o.circle_radius, &[10.0, 12.5, 20.0, 45.0, 80.0]);
    set(s, few, &mut o.circle_width, WID);
    set(s, few, &mut o.accepting_circle_radius, &[4.0, 8.0, 15.0, 28.0, 50.0]);
    set(s, few, &mut o.accepting_circle_width, WID);
    set(s, few, &mut o.init_arrow_length, LEN);
    set(s, few, &mut o.init_arrow_arms_length, LEN);
    set(s, few, &mut o.init_arrow_width, WID);
    set(s, few, &mut o.trans_arrow_arms_length, &LEN[1..]);
    set(s, few, &mut o.trans_line_width, WID);
    set(s, few, &mut o.from_line_offset, &[1.0, 4.0, 6.5, 9.0]);
    set(s, few, &mut o.to_line_offset, &[2.0, 3.0, 5.5, 8.0]);
    set(s, few, &mut o.floor_height, &[6.0, 10.0, 31.5, 50.0]);
    set(s, few, &mut o.text_margin, LEN);
    set(s, few, &mut o.line_circle_margin, LEN);
    if s.chance(1, 3) {
        o.end_arrow = false;
    }
    if s.chance(1, 3) {
        o.middle_arrow = false;
    }
    for c in [&mut o.text_color, &mut o.circle_color, &mut o.line_color] {
        if s.flip() {
            *c = [s.below(256) as u8, s.below(256) as u8, s.below(256) as u8];
        }
    }
    o
}

impl OptCase {
    pub fn gen(s: &mut Src) -> OptCase {
        OptCase { opts: gen_opts(s), builder: s.flip(), pic: picture(s, 7) }
    }
    pub fn draw(&self, drawer: &mut impl Drawer) -> R {
        draw_on(&self.pic, Some(self.opts.build(self.builder)), drawer)
    }
    pub fn simplify(&self) -> Vec<OptCase> {
        let mut out: Vec<OptCase> = self.pic.simplify().into_iter().map(|pic| OptCase { pic, ..self.clone() }).collect();
        // one option back to its default
        let d = serde_json::to_value(Opts::default()).unwrap();
        let v = serde_json::to_value(&self.opts).unwrap();
        for (k, x) in v.as_object().unwrap() {
            if *x != d[k] {
                let mut w = v.clone();
                w[k] = d[k].clone();
                if let Ok(opts) = serde_json::from_value(w) {
                    out.push(OptCase { opts, ..self.clone() });
                }
            }
        }
        out
    }
}

impl Prop for Options {
    type Case = OptCase;
    fn id(&self) -> &'static str {
        "C35"
    }
    fn rule(&self) -> &'static str {
        "Random DFAs and NFAs as for C34 with random settings of the 24 options (scales from 1/64 to 128, offsets, lengths, widths, colours, arrowheads), set by the builder methods or the constructor. Every primitive of the layout is computed from the options, only the heights of the arrows are taken from the drawing; positions, radii, widths and colours must agree, and no primitive may be missing or added. Non-trivial: at least one arrow, and an option that differs from its default."
    }
    fn quick_cases(&self) -> usize {
        120_000
    }
    fn gen(&self, s: &mut Src) -> OptCase {
        OptCase::gen(s)
    }
    fn simplify(&self, c: &OptCase) -> Vec<OptCase> {
        c.simplify()
    }
    fn check(&self, c: &OptCase, o: &mut Obs) -> R {
        let rec = draw_with(&c.pic, Some(c.opts.build(c.builder)))?;
        check_layout(&c.pic.fa, &c.opts, &rec)?;
        c.pic.features(o);
        o.label_if(!c.opts.end_arrow, "no end arrow");
        o.label_if(!c.opts.middle_arrow, "no middle arrow");
        o.label(if c.builder { "builder" } else { "constructor" });
        let changed = serde_json::to_value(&c.opts).unwrap() != serde_json::to_value(Opts::default()).unwrap();
        o.nontrivial(changed && !grouped(&c.pic.fa).is_empty());
        Ok(())
    }
}

// ------------------------------------------------------------------ C36

pub struct Ascii;

fn read_art(f: &Fa, art: &str, o: &mut Obs) -> R {
    let lines: Vec<Vec<char>> = art.split('\n').map(|l| l.chars().collect()).collect();
    let (last, above) = lines.split_last().unwrap();
    // the states
    let mut cols = vec![];
    let mut at = 0;
    let take = |at: &mut usize, t: &str| -> bool {
        let t: Vec<char> = t.chars().collect();
        let ok = last[*at..].starts_with(&t);
        if ok {
            *at += t.len();
        }
        ok
    };
    // what precedes the states
    while at < last.len() && last[at] != '(' {
        ensure!(" ->→".contains(last[at]), "the row of states starts with {:?}", last[..=at].iter().collect::<String>());
        at += 1;
    }
    let width = f.names.iter().map(|n| n.chars().count()).max().unwrap_or(0);
    for i in 0..f.n() {
        let (a, b) = if f.acc[i] { ("(( ", " ))") } else { ("(  ", "  )") };
        ensure!(take(&mut at, a), "state {:?} is not bracketed as {a:?} in {:?}", f.names[i], last.iter().collect::<String>());
        let start = at;
        ensure!(take(&mut at, &f.names[i]), "state {:?} is not next in {:?}", f.names[i], last.iter().collect::<String>());
        while at < last.len() && at < start + width && last[at] == ' ' {
            at += 1;
        }
        ensure!(take(&mut at, b), "state {:?} is not closed by {b:?} in {:?}", f.names[i], last.iter().collect::<String>());
        // the columns left and right of the padded name
        cols.push((start - 1, start + width));
        while at < last.len() && last[at] == ' ' {
            at += 1;
        }
    }
    ensure!(at == last.len(), "something follows the states in {:?}", last.iter().collect::<String>());
    // the arrows, level by level
    ensure!(above.len() % 2 == 0, "{} rows above the states, expected pairs", above.len());
    let groups = grouped(f);
    let mut seen: BTreeSet<(usize, usize)> = BTreeSet::new();
    for pair in above.chunks(2) {
        let (top, bot) = (&pair[0], &pair[1]);
        let fill = |c: usize| top.get(c).is_some_and(|x| "-<>".contains(*x));
        let mut arrows = vec![];
        let mut c = 0;
        while c < top.len() {
            if !fill(c) {
                ensure!(" |".contains(top[c]), "a stray {:?} in the row {:?}", top[c], top.iter().collect::<String>());
                c += 1;
                continue;
            }
            let a = c;
            while fill(c) {
                c += 1;
            }
            let b = c - 1;
            let shown = || top.iter().collect::<String>();
            // a loop over a state, an arrow between two, or an arrow and a loop over its right end
            let mut end = b;
            if let Some(q) = cols.iter().position(|x| x.1 == b) {
                ensure!(top[cols[q].0 + 1..b].contains(&'>') || cols[q].0 + 1 == b, "no arrowhead in the loop over {:?} in {:?}", f.names[q], shown());
                seen.insert((q, q));
                end = cols[q].0;
            }
            if end == a {
                continue;
            }
            let (Some(l), Some(r)) = (cols.iter().position(|x| x.1 == a), cols.iter().position(|x| x.0 == end)) else {
                return fail(format!("the line from column {a} to {end} connects no states in {:?}", shown()));
            };
            let (lt, gt) = (top[a..=end].contains(&'<'), top[a..end].contains(&'>'));
            ensure!(l < r && lt != gt, "the line from column {a} to {end} has no direction in {:?}", shown());
            let arrow = if gt { (l, r) } else { (r, l) };
            ensure!(groups.contains_key(&arrow), "an arrow from {:?} to {:?} is drawn that does not exist", f.names[arrow.0], f.names[arrow.1]);
            ensure!(seen.insert(arrow), "the arrow from {:?} to {:?} is drawn twice", f.names[arrow.0], f.names[arrow.1]);
            arrows.push((arrow, a, end));
        }
        // labels below, where they do not run into each other
        for (i, (arrow, a, end)) in arrows.iter().enumerate() {
            let label = &groups[arrow];
            let n = label.chars().count();
            let prev = i.checked_sub(1).map(|j| arrows[j].1 + groups[&arrows[j].0].chars().count());
            if n < end - a && prev.is_none_or(|p| p < *a) {
                let got: String = bot.iter().skip(a + 1).take(n).collect();
                ensure!(same_label(&got, label), "below the arrow from {:?} to {:?} stands {got:?} instead of {label:?}", f.names[arrow.0], f.names[arrow.1]);
            } else {
                o.label("label longer than its arrow");
            }
        }
    }
    for (a, b) in groups.keys() {
        ensure!(a == b || seen.contains(&(*a, *b)), "the arrow from {:?} to {:?} is not drawn", f.names[*a], f.names[*b]);
    }
    for (a, b) in &seen {
        ensure!(groups.contains_key(&(*a, *b)), "an arrow from {:?} to {:?} is drawn that does not exist", f.names[*a], f.names[*b]);
    }
    Ok(())
}

impl Prop for Ascii {
    type Case = Picture;
    fn id(&self) -> &'static str {
        "C36"
    }
    fn rule(&self) -> &'static str {
        "Random DFAs and NFAs as for C34, with symbols of several characters, up to 45 on one arrow, ε among them and other non-ASCII text, and names of any length. The rows are read back (states, brackets, arrows with heads, labels where they fit) and compared with the automaton. Non-trivial: three or more states and at least two arrows between different states."
    }
    fn quick_cases(&self) -> usize {
        140_000
    }
    fn gen(&self, s: &mut Src) -> Picture {
        picture(s, 8)
    }
    fn simplify(&self, c: &Picture) -> Vec<Picture> {
        c.simplify()
    }
    fn check(&self, c: &Picture, o: &mut Obs) -> R {
        let art = if c.dfa { dandy_draw::dfa_ascii_art(&c.fa.dfa()?) } else { dandy_draw::nfa_ascii_art(&c.fa.nfa()?) };
        if let Err(Stop::Fail(m)) = read_art(&c.fa, &art, o) {
            return fail(format!("{m}\n{art}"));
        }
        let n = c.features(o);
        o.nontrivial(n);
        Ok(())
    }
}
