//! Sequences of drawing requests for the drawing backends, and what they ask for.

use crate::engine::*;
use crate::props::draw::{OptCase, Prim};
use dandy_draw::pos2::pos2;
use dandy_draw::Drawer;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Circle(f32, f32, f32, f32),
    Text(f32, f32, String),
    Rect(f32, f32, f32, f32),
    Line(f32, f32, f32, f32, f32),
    Color([u8; 3]),
    Start,
    Finish,
}

#[derive(Clone, Serialize, Deserialize)]
pub enum Part {
    Calls(Vec<Call>),
    /// a whole drawing by the library
    Picture(OptCase),
}

/// passes every request on and notes it
pub struct Tee<'a, D> {
    inner: &'a mut D,
    pub asked: Vec<(Prim, Option<[u8; 3]>)>,
    color: Option<[u8; 3]>,
    pub colors: usize,
}

impl<'a, D: Drawer> Tee<'a, D> {
    pub fn new(inner: &'a mut D) -> Self {
        Tee { inner, asked: vec![], color: None, colors: 0 }
    }
    pub fn run(&mut self, p: &Part) -> R {
        match p {
            Part::Calls(v) => {
                for c in v {
                    match c {
                        Call::Circle(x, y, r, w) => self.draw_circle(pos2(*x, *y), *r, *w),
                        Call::Text(x, y, t) => self.draw_centered_text(pos2(*x, *y), t),
                        Call::Rect(x, y, w, h) => self.draw_rect(pos2(*x, *y), pos2(*w, *h)),
                        Call::Line(a, b, c, d, w) => self.draw_line(pos2(*a, *b), pos2(*c, *d), *w),
                        Call::Color(c) => self.set_color(*c),
                        Call::Start => self.start_drawing(),
                        Call::Finish => self.finish_drawing(),
                    }
                }
                Ok(())
            }
            Part::Picture(p) => p.draw(self),
        }
    }
}

impl<D: Drawer> Drawer for Tee<'_, D> {
    fn start_drawing(&mut self) {
        self.inner.start_drawing()
    }
    fn finish_drawing(&mut self) {
        self.inner.finish_drawing()
    }
    fn draw_circle(&mut self, pos: dandy_draw::pos2::Pos2, radius: f32, thickness: f32) {
        self.asked.push((Prim::Circle { c: pos.into(), r: radius, w: thickness }, self.color));
        self.inner.draw_circle(pos, radius, thickness)
    }
    fn draw_centered_text(&mut self, pos: dandy_draw::pos2::Pos2, text: &str) {
        self.asked.push((Prim::Text { c: pos.into(), t: text.to_string() }, self.color));
        self.inner.draw_centered_text(pos, text)
    }
    fn draw_rect(&mut self, upper_left: dandy_draw::pos2::Pos2, size: dandy_draw::pos2::Pos2) {
        self.asked.push((Prim::Rect { c: upper_left.into(), s: size.into() }, self.color));
        self.inner.draw_rect(upper_left, size)
    }
    fn draw_line(&mut self, from: dandy_draw::pos2::Pos2, to: dandy_draw::pos2::Pos2, thickness: f32) {
        self.asked.push((Prim::Line { a: from.into(), b: to.into(), w: thickness }, self.color));
        self.inner.draw_line(from, to, thickness)
    }
    fn set_color(&mut self, rgb: [u8; 3]) {
        self.color = Some(rgb);
        self.colors += 1;
        self.inner.set_color(rgb)
    }
}

fn coord(s: &mut Src) -> f32 {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => s.below(400) as f32,
        1 => s.below(4000) as f32 / 2.0 - 500.0,
        2 => s.below(1_000_000) as f32 / 777.0,
        _ => -(s.below(200_000) as f32),
    }
}

fn length(s: &mut Src) -> f32 {
    match s.weighted(&[6, 3, 1]) {
        0 => 1.0 + s.below(60) as f32,
        1 => 0.25 + s.below(1000) as f32 / 8.0,
        _ => 1.0 + s.below(50_000) as f32,
    }
}

fn width(s: &mut Src) -> f32 {
    match s.weighted(&[5, 3]) {
        0 => 1.0 + s.below(4) as f32,
        _ => 0.125 + s.below(200) as f32 / 16.0,
    }
}

const TEXTS: &[&str] = &["a", "0, 1", "q0", "s₀", "ε, a, b", "a rather long label of a state", "å", "日本", "👍🏽", "two\nlines", " ", "", "iiii", "WWWWWW"];

/// occasionally much longer than any window is wide
fn text(s: &mut Src) -> String {
    if !s.chance(1, 25) {
        return s.pick(TEXTS).to_string();
    }
    let n = s.range(2, 150);
    let sep = *s.pick(&["", " ", ", "]);
    (0..n).map(|_| *s.pick(TEXTS)).collect::<Vec<_>>().join(sep)
}

pub fn gen(s: &mut Src) -> Vec<Part> {
    let n = s.range(1, 3);
    (0..n)
        .map(|_| {
            if s.chance(1, 5) {
                return Part::Picture(OptCase::gen(s));
            }
            let n = s.range(1, 4 + s.size as usize / 5);
            let framed = s.flip();
            let mut v: Vec<Call> = vec![];
            if framed {
                v.push(Call::Start);
            }
            for _ in 0..n {
                v.push(match s.weighted(&[6, 6, 4, 6, 5, 1, 1]) {
                    0 => Call::Line(coord(s), coord(s), coord(s), coord(s), width(s)),
                    1 => Call::Circle(coord(s), coord(s), length(s), width(s)),
                    2 => Call::Rect(coord(s), coord(s), length(s), length(s)),
                    3 => Call::Text(coord(s), coord(s), text(s)),
                    4 => Call::Color(match s.us(3) {
                        0 => *s.pick(&[[0, 0, 0], [255, 255, 255], [255, 0, 0], [0, 0, 255], [0, 255, 0]]),
                        _ => [s.below(256) as u8, s.below(256) as u8, s.below(256) as u8],
                    }),
                    5 => Call::Start,
                    _ => Call::Finish,
                });
                // repeats and steps back to an earlier request
                if s.chance(1, 12) {
                    let c = s.pick(&v).clone();
                    v.push(c);
                }
            }
            if framed {
                v.push(Call::Finish);
            }
            Part::Calls(v)
        })
        .collect()
}

pub fn simplify(c: &[Part]) -> Vec<Vec<Part>> {
    let mut out = vec![];
    for i in 0..c.len() {
        if c.len() > 1 {
            let mut d = c.to_vec();
            d.remove(i);
            out.push(d);
        }
        let alt: Vec<Part> = match &c[i] {
            Part::Calls(v) => {
                let mut alt = vec![];
                let mut w = v.len() / 2;
                while w > 0 {
                    for at in (0..v.len()).step_by(w) {
                        let mut u = v.clone();
                        u.drain(at..(at + w).min(v.len()));
                        alt.push(Part::Calls(u));
                    }
                    w /= 2;
                }
                for (j, call) in v.iter().enumerate() {
                    let simple = match call {
                        Call::Circle(..) => Call::Circle(40.0, 50.0, 10.0, 1.0),
                        Call::Text(..) => Call::Text(40.0, 50.0, "a".into()),
                        Call::Rect(..) => Call::Rect(40.0, 50.0, 10.0, 20.0),
                        Call::Line(..) => Call::Line(40.0, 50.0, 60.0, 80.0, 1.0),
                        _ => continue,
                    };
                    if format!("{simple:?}") != format!("{call:?}") {
                        let mut u = v.clone();
                        u[j] = simple;
                        alt.push(Part::Calls(u));
                    }
                }
                alt
            }
            Part::Picture(p) => p.simplify().into_iter().map(Part::Picture).collect(),
        };
        for a in alt {
            let mut d = c.to_vec();
            d[i] = a;
            out.push(d);
        }
    }
    out
}
