//! C37: what the egui backend leaves in the shape list of a headless context.

use dandy_draw::egui::EguiDrawer;
use egui::{Color32, Context, LayerId, Painter, RawInput, Rounding, Shape, Stroke};
use serde::{Deserialize, Serialize};
use std::sync::Mutex;
use vcore::engine::*;
use vcore::ensure;
use vcore::props::draw::Prim;
use vcore::strokes::{self, Part, Tee};

/// fonts are slow to load
static CONTEXTS: Mutex<Vec<Context>> = Mutex::new(vec![]);

#[derive(Clone, Serialize, Deserialize)]
struct Case {
    parts: Vec<Part>,
    /// one drawer for all parts, or one for each
    one: bool,
    /// the painter clips
    clip: Option<(f32, f32, f32, f32)>,
    scale: f32,
}

fn eq(a: f32, b: f32) -> bool {
    a == b || (a - b).abs() <= 0.01 + 1e-5 * a.abs().max(b.abs())
}

fn color(c: Option<[u8; 3]>) -> Option<Color32> {
    c.map(|[r, g, b]| Color32::from_rgb(r, g, b))
}

fn compare(i: usize, prim: &Prim, col: Option<[u8; 3]>, sh: &Shape) -> R {
    let bad = |what: &str, got: String| fail(format!("request {i}, {prim:?} in {col:?}: {what} is {got}"));
    let check_color = |c: Color32| match color(col) {
        Some(w) if w != c => bad("the colour", format!("{c:?}")),
        // nothing was asked for yet; it has to be visible
        None if c.a() == 0 => bad("the colour", "transparent".into()),
        _ => Ok(()),
    };
    let pos = |p: egui::Pos2, q: (f32, f32)| eq(p.x, q.0) && eq(p.y, q.1);
    match (prim, sh) {
        (Prim::Circle { c, r, w }, Shape::Circle(s)) => {
            if !pos(s.center, *c) {
                return bad("the centre", format!("{:?}", s.center));
            }
            if !eq(s.radius, *r) {
                return bad("the radius", s.radius.to_string());
            }
            if !eq(s.stroke.width, *w) {
                return bad("the line width", s.stroke.width.to_string());
            }
            if s.fill.a() != 0 {
                return bad("the filling", format!("{:?}", s.fill));
            }
            check_color(s.stroke.color)
        }
        (Prim::Line { a, b, w }, Shape::LineSegment { points: [p, q], stroke }) => {
            if !(pos(*p, *a) && pos(*q, *b) || pos(*p, *b) && pos(*q, *a)) {
                return bad("the line", format!("from {p:?} to {q:?}"));
            }
            if !eq(stroke.width, *w) {
                return bad("the line width", stroke.width.to_string());
            }
            check_color(stroke.color)
        }
        (Prim::Rect { c, s: size }, Shape::Rect(s)) => {
            if !pos(s.rect.min, *c) || !eq(s.rect.max.x, c.0 + size.0) || !eq(s.rect.max.y, c.1 + size.1) {
                return bad("the rectangle", format!("{:?}", s.rect));
            }
            if s.rounding != Rounding::ZERO {
                return bad("the rounding", format!("{:?}", s.rounding));
            }
            if s.stroke != Stroke::NONE && s.stroke.width > 0.0 && s.stroke.color != s.fill {
                return bad("the border", format!("{:?}", s.stroke));
            }
            check_color(s.fill)
        }
        (Prim::Text { c, t }, Shape::Text(s)) => {
            if s.galley.text() != t {
                return bad("the text", format!("{:?}", s.galley.text()));
            }
            let lines = t.split('\n').count();
            if s.galley.rows.len() != lines {
                return bad("the number of lines of the text", format!("{} rather than {lines}", s.galley.rows.len()));
            }
            if s.galley.elided {
                return bad("the text", "cut short".to_string());
            }
            let m = s.galley.rect.translate(s.pos.to_vec2()).center();
            // pixel rounding is allowed
            if (m.x - c.0).abs() > 0.75 + 1e-5 * c.0.abs() || (m.y - c.1).abs() > 0.75 + 1e-5 * c.1.abs() {
                return bad("the centre of the text", format!("{m:?}"));
            }
            if s.angle != 0.0 {
                return bad("the angle of the text", s.angle.to_string());
            }
            if t.trim().is_empty() {
                return Ok(());
            }
            let own: Vec<Color32> = match s.override_text_color {
                Some(c) => vec![c],
                None => s.galley.job.sections.iter().map(|x| x.format.color).map(|c| if c == Color32::PLACEHOLDER { s.fallback_color } else { c }).collect(),
            };
            own.into_iter().try_for_each(check_color)
        }
        _ => bad("the shape", format!("{sh:?}")),
    }
}

fn flatten<'a>(clip: egui::Rect, s: &'a Shape, out: &mut Vec<(egui::Rect, &'a Shape)>) {
    match s {
        Shape::Noop => {}
        Shape::Vec(v) => v.iter().for_each(|s| flatten(clip, s, out)),
        s => out.push((clip, s)),
    }
}

struct Backend;

impl Prop for Backend {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C37"
    }
    fn rule(&self) -> &'static str {
        "Sequences of 1-25 drawing requests (circles, lines, rectangles, texts, colours, start and finish, in any order) and whole drawings of random automata, passed to EguiDrawer over a painter of a headless egui context, with one drawer or several, with and without clipping, at several pixel densities. The shapes of the frame are compared with the requests one by one. Non-trivial: at least three requests, two of different kinds, and a colour change between two of them."
    }
    fn quick_cases(&self) -> usize {
        20_000
    }
    fn gen(&self, s: &mut Src) -> Case {
        let parts = strokes::gen(s);
        let clip = s.chance(1, 3).then(|| {
            let (x, y) = (s.below(300) as f32, s.below(300) as f32);
            (x, y, x + 10.0 + s.below(500) as f32, y + 10.0 + s.below(500) as f32)
        });
        Case { parts, one: s.flip(), clip, scale: *s.pick(&[1.0, 1.0, 2.0, 1.5, 1.25]) }
    }
    fn simplify(&self, c: &Case) -> Vec<Case> {
        let mut out: Vec<Case> = strokes::simplify(&c.parts).into_iter().map(|parts| Case { parts, ..c.clone() }).collect();
        if c.clip.is_some() {
            out.push(Case { clip: None, ..c.clone() });
        }
        if c.scale != 1.0 {
            out.push(Case { scale: 1.0, ..c.clone() });
        }
        if !c.one {
            out.push(Case { one: true, ..c.clone() });
        }
        out
    }
    fn check(&self, c: &Case, o: &mut Obs) -> R {
        // one frame per context and case
        let ctx = CONTEXTS.lock().unwrap().pop().unwrap_or_default();
        let input = RawInput {
            screen_rect: Some(egui::Rect::from_min_size(egui::Pos2::ZERO, egui::vec2(800.0, 600.0))),
            ..Default::default()
        };
        ctx.set_pixels_per_point(c.scale);
        ctx.begin_frame(input);
        let painter = match c.clip {
            None => ctx.layer_painter(LayerId::background()),
            Some((a, b, x, y)) => Painter::new(ctx.clone(), LayerId::background(), egui::Rect::from_min_max(egui::pos2(a, b), egui::pos2(x, y))),
        };
        let mut asked = vec![];
        let mut colors = 0;
        let mut result = Ok(());
        {
            let mut drawer = EguiDrawer::new(&painter);
            let mut tee = Tee::new(&mut drawer);
            for p in &c.parts {
                if c.one {
                    result = tee.run(p);
                } else {
                    let mut drawer = EguiDrawer::new(&painter);
                    let mut tee = Tee::new(&mut drawer);
                    result = tee.run(p);
                    colors += tee.colors;
                    asked.append(&mut tee.asked);
                }
                if result.is_err() {
                    break;
                }
            }
            if c.one {
                colors = tee.colors;
                asked = tee.asked;
            }
        }
        let shapes = ctx.end_frame().shapes;
        let clip = painter.clip_rect();
        CONTEXTS.lock().unwrap().push(ctx);
        result?;
        let mut flat = vec![];
        shapes.iter().for_each(|s| flatten(s.clip_rect, &s.shape, &mut flat));
        let mut it = flat.iter().peekable();
        for (i, (prim, col)) in asked.iter().enumerate() {
            // an empty text leaves nothing to paint
            if matches!(prim, Prim::Text { t, .. } if t.is_empty()) && !matches!(it.peek(), Some(s) if matches!(s.1, Shape::Text(x) if x.galley.text().is_empty())) {
                continue;
            }
            let Some(s) = it.next() else { return fail(format!("request {i}, {prim:?}, is not painted")) };
            compare(i, prim, *col, s.1)?;
            ensure!(s.0 == clip, "request {i}, {prim:?}, is clipped to {:?}, the painter to {clip:?}", s.0);
        }
        if let Some(s) = it.next() {
            return fail(format!("a shape nobody asked for: {:?}", s.1));
        }
        let kind = |p: &Prim| std::mem::discriminant(p);
        o.max("requests", asked.len() as u64);
        o.label_if(c.parts.iter().any(|p| matches!(p, Part::Picture(_))), "drawing of an automaton");
        o.nontrivial(asked.len() >= 3 && colors > 0 && asked.windows(2).any(|w| w[0].1 != w[1].1) && asked.iter().any(|p| kind(&p.0) != kind(&asked[0].0)));
        Ok(())
    }
}

fn main() {
    std::process::exit(cli_main(
        &["C37"],
        |_, cfg, inner| Some(if inner { run_check(Backend, &cfg) } else { supervise(Backend, &cfg) }),
        |_, v, p| Some(run_replay(Backend, &v, &p)),
    ));
}
