//! C38, C39: the canvas backend and the drawing calls of the web bindings, over a stand-in for the browser.

use dandy_draw::canvas::CanvasDrawer;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vcore::engine::*;
use vcore::ensure;
use vcore::props::draw::{picture, read_picture, Picture, Prim, Recorder};
use vcore::strokes::{self, Part, Tee};
use web_sys::wasm_bindgen::JsCast;
use web_sys::{CanvasRenderingContext2d, Gives, Paint, Shape};

fn eq(a: f64, b: f32) -> bool {
    let b = b as f64;
    a == b || (a - b).abs() <= 0.01 + 1e-5 * a.abs().max(b.abs())
}
fn eq2(a: (f64, f64), b: (f32, f32)) -> bool {
    eq(a.0, b.0) && eq(a.1, b.1)
}

// ------------------------------------------------------------------ C38

#[derive(Clone, Serialize, Deserialize)]
struct Case {
    parts: Vec<Part>,
    /// one drawer for all parts, or one for each
    one: bool,
    /// made from an element instead of a context
    element: bool,
    /// what happened to the context before
    before: Vec<u8>,
    /// an element without a context
    bad: Option<u8>,
}

fn prepare(c: &CanvasRenderingContext2d, v: &[u8]) {
    for x in v {
        match x {
            0 => c.begin_path(),
            1 => c.move_to(3.0, 4.0),
            2 => c.line_to(70.0, 11.0),
            3 => c.set_line_width(17.0),
            4 => c.set_text_align("left"),
            5 => c.set_text_baseline("top"),
            6 => c.set_stroke_style_str("#123456"),
            7 => c.set_fill_style_str("rgb(1 2 3)"),
            8 => c.rect(1.0, 2.0, 3.0, 4.0),
            _ => c.close_path(),
        }
    }
}

fn matches(prim: &Prim, col: Option<[u8; 3]>, p: &Paint) -> Result<(), String> {
    let ok = match (prim, &p.shape) {
        (Prim::Circle { c, r, .. }, Shape::Circle { c: d, r: s }) => eq2(*d, *c) && eq(*s, *r),
        (Prim::Line { a, b, .. }, Shape::Line { a: x, b: y }) => eq2(*x, *a) && eq2(*y, *b) || eq2(*x, *b) && eq2(*y, *a),
        (Prim::Rect { c, s }, Shape::Rect { at, size }) => eq2(*at, *c) && eq2(*size, *s),
        (Prim::Text { c, t }, Shape::Text { at, text, align, baseline }) => eq2(*at, *c) && text == t && align == "center" && baseline == "middle",
        _ => false,
    };
    if !ok {
        return Err(format!("{:?} is painted", p.shape));
    }
    if let Prim::Circle { w, .. } | Prim::Line { w, .. } = prim {
        // a canvas has no lines of width zero
        if *w > 0.0 && !eq(p.width, *w) {
            return Err(format!("the line width is {}", p.width));
        }
    }
    if col.is_some_and(|c| c != p.color) {
        return Err(format!("the colour is {:?}", p.color));
    }
    if !p.plain {
        return Err("it is transparent or dashed".into());
    }
    Ok(())
}

/// leaves no mark on a canvas
fn invisible(p: &Prim) -> bool {
    match p {
        Prim::Circle { r, w, .. } => *r <= 0.0 || *w <= 0.0,
        Prim::Line { a, b, w } => a == b || *w <= 0.0,
        Prim::Rect { s, .. } => s.0 == 0.0 || s.1 == 0.0,
        Prim::Text { t, .. } => t.trim().is_empty(),
    }
}

struct Backend;

impl Prop for Backend {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C38"
    }
    fn rule(&self) -> &'static str {
        "Sequences of 1-25 drawing requests (circles, lines, rectangles, texts, colours, start and finish, in any order) and whole drawings of random automata, passed to CanvasDrawer over a stand-in for the browser that keeps paths, styles and transformations and notes what each stroke and fill paints, with contexts in any state beforehand, made from a context or an element, with one drawer or several. What was painted is compared with the requests one by one. Non-trivial: at least three requests, two of different kinds, and a colour change between two of them."
    }
    fn quick_cases(&self) -> usize {
        120_000
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["web-sys, js-sys and wasm-bindgen are replaced by stand-ins (canvas/stubs) that follow the canvas specification for the calls they offer".into()]
    }
    fn gen(&self, s: &mut Src) -> Case {
        let parts = strokes::gen(s);
        let n = if s.flip() { s.us(7) } else { 0 };
        let before = (0..n).map(|_| s.below(10) as u8).collect();
        Case { parts, one: s.flip(), element: s.flip(), before, bad: s.chance(1, 8).then(|| s.below(3) as u8) }
    }
    fn simplify(&self, c: &Case) -> Vec<Case> {
        let mut out: Vec<Case> = strokes::simplify(&c.parts).into_iter().map(|parts| Case { parts, ..c.clone() }).collect();
        if !c.before.is_empty() {
            out.push(Case { before: vec![], ..c.clone() });
            for i in 0..c.before.len() {
                let mut d = c.clone();
                d.before.remove(i);
                out.push(d);
            }
        }
        if c.element {
            out.push(Case { element: false, ..c.clone() });
        }
        if !c.one {
            out.push(Case { one: true, ..c.clone() });
        }
        if c.bad.is_some() {
            out.push(Case { bad: None, ..c.clone() });
        }
        out
    }
    fn check(&self, c: &Case, o: &mut Obs) -> R {
        if let Some(b) = c.bad {
            let g = [Gives::Null, Gives::Exception, Gives::Other][b as usize % 3];
            let d = CanvasDrawer::from_element(web_sys::stub_canvas(g, web_sys::stub_context()));
            ensure!(d.is_none(), "a drawer for an element whose getContext gives {g:?}");
        }
        let ctx = web_sys::stub_context();
        prepare(&ctx, &c.before);
        ensure!(ctx.stub_painted().is_empty(), "the preparation painted something");
        let element = web_sys::stub_canvas(Gives::Context, ctx.clone());
        let new = || -> R<CanvasDrawer> {
            if c.element {
                match CanvasDrawer::from_element(element.clone()) {
                    Some(d) => Ok(d),
                    None => fail("no drawer for an element with a context"),
                }
            } else {
                Ok(CanvasDrawer::new(ctx.clone()))
            }
        };
        let mut asked = vec![];
        let mut colors = 0;
        if c.one {
            let mut d = new()?;
            let mut tee = Tee::new(&mut d);
            for p in &c.parts {
                tee.run(p)?;
            }
            colors = tee.colors;
            asked = tee.asked;
        } else {
            for p in &c.parts {
                let mut d = new()?;
                let mut tee = Tee::new(&mut d);
                tee.run(p)?;
                colors += tee.colors;
                asked.append(&mut tee.asked);
            }
        }
        let painted = ctx.stub_painted();
        let mut at = 0;
        for (i, (prim, col)) in asked.iter().enumerate() {
            let mut r = Err("nothing is painted".to_string());
            while let Some(p) = painted.get(at) {
                r = matches(prim, *col, p);
                // painting the same again at once changes nothing
                if r.is_ok() || invisible(prim) || at == 0 || painted[at - 1] != *p {
                    break;
                }
                at += 1;
            }
            match r {
                Ok(()) => at += 1,
                Err(_) if invisible(prim) => {}
                Err(e) => return fail(format!("request {i}, {prim:?} in {col:?}: {e}")),
            }
        }
        while let Some(p) = painted.get(at) {
            ensure!(at > 0 && painted[at - 1] == *p, "painted without a request: {p:?}");
            at += 1;
        }
        let kind = |p: &Prim| std::mem::discriminant(p);
        o.max("requests", asked.len() as u64);
        o.label_if(c.parts.iter().any(|p| matches!(p, Part::Picture(_))), "drawing of an automaton");
        o.label(if c.element { "from an element" } else { "from a context" });
        o.nontrivial(asked.len() >= 3 && colors > 0 && asked.windows(2).any(|w| w[0].1 != w[1].1) && asked.iter().any(|p| kind(&p.0) != kind(&asked[0].0)));
        Ok(())
    }
}

// ------------------------------------------------------------------ C39

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// handle by its place among those issued, beyond them numbers that were never issued
    Draw { dfa: bool, h: u8, id: u8 },
    Delete { dfa: bool, h: u8 },
}

const IDS: &[&str] = &["canvas", "left", "right", "a div", "0", "nothing", "канва", "#canvas", " left", "left ", "Canvas", ".right", "canvas canvas", "", "#nothing", "nothing#", "left>right", "*"];
/// canvases, an element of another kind, a canvas, no element, a canvas
const IS_CANVAS: &[Option<bool>] = &[Some(true), Some(true), Some(true), Some(false), Some(true), None, Some(true), Some(true), Some(true), None, None, Some(false), None, None, Some(true), Some(true), Some(true), Some(true)];

#[derive(Clone, Serialize, Deserialize)]
struct Page {
    automata: Vec<Picture>,
    ops: Vec<Op>,
}

struct Web;

fn convert(p: &Paint) -> R<Prim> {
    let q = |p: (f64, f64)| (p.0 as f32, p.1 as f32);
    Ok(match &p.shape {
        Shape::Circle { c, r } => Prim::Circle { c: q(*c), r: *r as f32, w: p.width as f32 },
        Shape::Line { a, b } => Prim::Line { a: q(*a), b: q(*b), w: p.width as f32 },
        Shape::Rect { at, size } => Prim::Rect { c: q(*at), s: q(*size) },
        Shape::Text { at, text, align, baseline } => {
            ensure!(align == "center" && baseline == "middle", "the text {text:?} is painted {align} and {baseline}");
            Prim::Text { c: q(*at), t: text.clone() }
        }
        s => return fail(format!("painted: {s:?}")),
    })
}

impl Prop for Web {
    type Case = Page;
    fn id(&self) -> &'static str {
        "C39"
    }
    fn rule(&self) -> &'static str {
        "One to four random DFAs and NFAs loaded into the web bindings, then 1-12 draw and delete calls with handles that are live, deleted, of the other kind or never issued, and ids of canvases (some spelt like selectors of others or differing in case or blanks), of elements of another kind and of nothing, over a stand-in for the browser. The result must say whether a picture was drawn; the picture is read back from what was painted on the named canvas and compared with the automaton, and nothing else may be painted or change. Non-trivial: at least one drawing of three or more states and at least one call that has to fail."
    }
    fn quick_cases(&self) -> usize {
        80_000
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["web-sys, js-sys and wasm-bindgen are replaced by stand-ins (canvas/stubs) that follow the canvas specification for the calls they offer".into()]
    }
    fn gen(&self, s: &mut Src) -> Page {
        let m = s.range(1, 4);
        let automata: Vec<Picture> = (0..m).map(|_| picture(s, 5)).collect();
        let n = s.range(1, 12);
        let ops = (0..n)
            .map(|_| {
                let h = s.below(m as u64 + 2) as u8;
                let dfa = if s.chance(1, 6) { s.flip() } else { automata.get(h as usize).is_some_and(|a| a.dfa) };
                if s.chance(1, 6) {
                    Op::Delete { dfa, h }
                } else {
                    Op::Draw { dfa, h, id: s.below(IDS.len() as u64) as u8 }
                }
            })
            .collect();
        Page { automata, ops }
    }
    fn simplify(&self, c: &Page) -> Vec<Page> {
        let mut out = vec![];
        for i in 0..c.ops.len() {
            let mut d = c.clone();
            d.ops.remove(i);
            out.push(d);
        }
        for i in 0..c.automata.len() {
            for p in c.automata[i].simplify() {
                let mut d = c.clone();
                d.automata[i] = p;
                out.push(d);
            }
        }
        out
    }
    fn check(&self, c: &Page, o: &mut Obs) -> R {
        let mut ctxs: BTreeMap<&str, CanvasRenderingContext2d> = BTreeMap::new();
        for (id, is) in IDS.iter().zip(IS_CANVAS) {
            match is {
                Some(true) => {
                    let ctx = web_sys::stub_context();
                    let e = web_sys::stub_canvas(Gives::Context, ctx.clone());
                    web_sys::stub_add(id, e.unchecked_into());
                    ctxs.insert(id, ctx);
                }
                Some(false) => web_sys::stub_add(id, web_sys::stub_div()),
                None => {}
            }
        }
        let mut handles: Vec<usize> = vec![];
        let mut live: Vec<bool> = vec![];
        for p in &c.automata {
            let t = p.fa.text(p.dfa);
            let h = if p.dfa { dandy_wasm::load_dfa(&t) } else { dandy_wasm::load_nfa(&t) };
            match h {
                Ok(h) => handles.push(h),
                Err(e) => return discard(format!("not loaded: {e}")),
            }
            live.push(true);
        }
        let tables = |live: &[bool]| -> Vec<Option<String>> {
            c.automata.iter().zip(&handles).zip(live).map(|((p, h), _)| if p.dfa { dandy_wasm::dfa_to_table(*h) } else { dandy_wasm::nfa_to_table(*h) }).collect()
        };
        let (mut big, mut refused) = (false, false);
        for (i, op) in c.ops.iter().enumerate() {
            let number = |h: u8| handles.get(h as usize).copied().unwrap_or(1_000_000 + h as usize);
            match op {
                Op::Delete { dfa, h } => {
                    let k = *h as usize;
                    let want = k < live.len() && live[k] && c.automata[k].dfa == *dfa;
                    let got = if *dfa { dandy_wasm::delete_dfa(number(*h)) } else { dandy_wasm::delete_nfa(number(*h)) };
                    ensure!(got == want, "call {i}, {op:?}, returned {got}");
                    if want {
                        live[k] = false;
                    }
                }
                Op::Draw { dfa, h, id } => {
                    let k = *h as usize;
                    let (id, is) = (IDS[*id as usize % IDS.len()], IS_CANVAS[*id as usize % IDS.len()]);
                    let want = k < live.len() && live[k] && c.automata[k].dfa == *dfa && is == Some(true);
                    let before: BTreeMap<&str, usize> = ctxs.iter().map(|(i, x)| (*i, x.stub_painted().len())).collect();
                    let printed = tables(&live);
                    let got = if *dfa { dandy_wasm::draw_dfa(number(*h), id) } else { dandy_wasm::draw_nfa(number(*h), id) };
                    ensure!(got == want, "call {i}, {op:?} on {id:?}, returned {got}");
                    ensure!(printed == tables(&live), "call {i}, {op:?}, changed an automaton");
                    for (other, x) in &ctxs {
                        let p = x.stub_painted();
                        let new = &p[before[other]..];
                        if want && *other == id {
                            let mut prims: Vec<Prim> = vec![];
                            for (j, q) in new.iter().enumerate() {
                                if j == 0 || new[j - 1] != *q {
                                    prims.push(convert(q)?);
                                }
                                ensure!(q.plain, "painted transparently or dashed: {q:?}");
                            }
                            if let Err(Stop::Fail(m)) = read_picture(&c.automata[k].fa, &Recorder::of(prims)) {
                                return fail(format!("call {i}, {op:?} on {id:?}: {m}"));
                            }
                        } else {
                            ensure!(new.is_empty(), "call {i}, {op:?} on {id:?}, painted on {other:?}");
                        }
                    }
                    if want {
                        big |= c.automata[k].fa.n() >= 3;
                        o.label("drawn");
                    } else {
                        refused = true;
                        o.label("refused");
                    }
                }
            }
        }
        o.nontrivial(big && refused);
        Ok(())
    }
}

fn main() {
    std::process::exit(cli_main(
        &["C38", "C39"],
        |id, cfg, inner| {
            Some(match (id, inner) {
                ("C38", true) => run_check(Backend, &cfg),
                ("C38", false) => supervise(Backend, &cfg),
                (_, true) => run_check(Web, &cfg),
                (_, false) => supervise(Web, &cfg),
            })
        },
        |id, v, p| Some(if id == "C38" { run_replay(Backend, &v, &p) } else { run_replay(Web, &v, &p) }),
    ));
}
