//! A stand-in for the browser: a document with elements, and canvases that note what is painted on them.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::f64::consts::PI;
use std::rc::Rc;
pub use {js_sys, wasm_bindgen};
use js_sys::Object;
use wasm_bindgen::{js_class, JsCast, JsValue};

js_class!(Node, "Node", Object);
js_class!(Element, "Element", Node);
js_class!(HtmlElement, "HTMLElement", Element);
js_class!(HtmlCanvasElement, "HTMLCanvasElement", HtmlElement);
js_class!(CanvasRenderingContext2d, "CanvasRenderingContext2D", Object);
js_class!(Window, "Window", Object);
js_class!(Document, "Document", Node);
js_class!(TextMetrics, "TextMetrics", Object);

macro_rules! upcasts {
    ($($class:ident => $($parent:ident)*;)*) => {
        $($(
            impl From<$class> for $parent {
                fn from(v: $class) -> $parent {
                    $parent::unchecked_from_js(v.into())
                }
            }
            impl AsRef<$parent> for $class {
                fn as_ref(&self) -> &$parent {
                    self.unchecked_ref()
                }
            }
        )*)*
    };
}

upcasts! {
    Node => Object;
    Element => Node Object;
    HtmlElement => Element Node Object;
    HtmlCanvasElement => HtmlElement Element Node Object;
    CanvasRenderingContext2d => Object;
    Window => Object;
    Document => Node Object;
    TextMetrics => Object;
}

// ------------------------------------------------------------------ what gets painted

pub type P = (f64, f64);

#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Circle { c: P, r: f64 },
    Line { a: P, b: P },
    Rect { at: P, size: P },
    Text { at: P, text: String, align: String, baseline: String },
    Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Paint {
    pub shape: Shape,
    pub width: f64,
    pub color: [u8; 3],
    /// fully opaque, not dashed
    pub plain: bool,
}

#[derive(Clone)]
struct State {
    fill: [u8; 3],
    stroke: [u8; 3],
    width: f64,
    align: String,
    baseline: String,
    font: String,
    cap: String,
    join: String,
    alpha: f64,
    dash: bool,
    dash_offset: f64,
    miter: f64,
    operation: String,
    shadow: String,
    blur: f64,
    shadow_x: f64,
    shadow_y: f64,
    filter: String,
    direction: String,
    smooth: bool,
    /// painting is confined to a region
    clipped: bool,
    m: [f64; 6],
}

impl Default for State {
    fn default() -> Self {
        State {
            fill: [0; 3],
            stroke: [0; 3],
            width: 1.0,
            align: "start".into(),
            baseline: "alphabetic".into(),
            font: "10px sans-serif".into(),
            cap: "butt".into(),
            join: "miter".into(),
            alpha: 1.0,
            dash: false,
            dash_offset: 0.0,
            miter: 10.0,
            operation: "source-over".into(),
            shadow: "rgba(0, 0, 0, 0)".into(),
            blur: 0.0,
            shadow_x: 0.0,
            shadow_y: 0.0,
            filter: "none".into(),
            direction: "inherit".into(),
            smooth: true,
            clipped: false,
            m: [1.0, 0.0, 0.0, 1.0, 0.0, 0.0],
        }
    }
}

#[derive(Default)]
struct Ctx {
    st: State,
    stack: Vec<State>,
    /// finished segments
    path: Vec<Shape>,
    /// start of the subpath and current point
    open: Option<(P, P)>,
    painted: Vec<Paint>,
}

impl State {
    fn point(&self, x: f64, y: f64) -> P {
        let m = &self.m;
        (m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5])
    }
    /// the factor by which lengths grow, if it is the same in all directions
    fn factor(&self) -> Option<f64> {
        let m = &self.m;
        let (a, b) = (m[0].hypot(m[1]), m[2].hypot(m[3]));
        ((a - b).abs() < 1e-9 && (m[0] * m[2] + m[1] * m[3]).abs() < 1e-9).then_some(a)
    }
}

impl Ctx {
    /// as new, and everything on the canvas gone
    fn reset(&mut self) {
        let painted = std::mem::take(&mut self.painted);
        *self = Ctx { painted, ..Ctx::default() };
        self.paint(Shape::Other("reset".into()), 0.0, [0; 3]);
    }
    fn text(&mut self, text: &str, x: f64, y: f64) {
        if x.is_finite() && y.is_finite() {
            let st = self.st.clone();
            self.paint(Shape::Text { at: st.point(x, y), text: text.into(), align: st.align, baseline: st.baseline }, 0.0, st.fill);
        }
    }
    fn paint(&mut self, shape: Shape, width: f64, color: [u8; 3]) {
        let st = &self.st;
        // a shadow shows if it is of a colour and blurred or offset
        let shadow = st.shadow != "rgba(0, 0, 0, 0)" && (st.blur != 0.0 || st.shadow_x != 0.0 || st.shadow_y != 0.0);
        let plain = st.alpha == 1.0 && !st.dash && st.operation == "source-over" && !shadow && st.filter == "none" && !st.clipped;
        self.painted.push(Paint { shape, width, color, plain });
    }
    fn line(&mut self, a: P, b: P) {
        if a != b {
            self.path.push(Shape::Line { a, b });
        }
    }
    fn to(&mut self, p: P) {
        match self.open {
            None => self.open = Some((p, p)),
            Some((s, at)) => {
                self.line(at, p);
                self.open = Some((s, p));
            }
        }
    }
    fn arc(&mut self, x: f64, y: f64, r: f64, a0: f64, a1: f64, ccw: bool) -> Result<(), JsValue> {
        if ![x, y, r, a0, a1].iter().all(|v| v.is_finite()) {
            return Ok(());
        }
        if r < 0.0 {
            return Err("IndexSizeError".into());
        }
        let (p0, p1) = (self.st.point(x + r * a0.cos(), y + r * a0.sin()), self.st.point(x + r * a1.cos(), y + r * a1.sin()));
        self.to(p0);
        let span = if ccw { a0 - a1 } else { a1 - a0 };
        let full = span >= 2.0 * PI - 1e-6;
        let shape = match self.st.factor() {
            Some(f) if full => Shape::Circle { c: self.st.point(x, y), r: r * f },
            _ => Shape::Other(format!("arc around {x},{y} of radius {r} from {a0} to {a1}")),
        };
        self.path.push(shape);
        let s = self.open.unwrap().0;
        // a full circle ends where it starts
        self.open = Some((s, if full { p0 } else { p1 }));
        Ok(())
    }
}

/// every character is as wide as every other
fn text_width(text: &str) -> f64 {
    text.chars().count() as f64 * 6.0
}

fn colour(s: &str) -> Option<[u8; 3]> {
    let s = s.trim().to_ascii_lowercase();
    if let Some(h) = s.strip_prefix('#') {
        if !h.is_ascii() {
            return None;
        }
        let d: Vec<u8> = h.chars().map(|c| c.to_digit(16).map(|d| d as u8)).collect::<Option<_>>()?;
        return match d.len() {
            3 => Some([d[0] * 17, d[1] * 17, d[2] * 17]),
            6 => Some([d[0] * 16 + d[1], d[2] * 16 + d[3], d[4] * 16 + d[5]]),
            8 if d[6] == 15 && d[7] == 15 => Some([d[0] * 16 + d[1], d[2] * 16 + d[3], d[4] * 16 + d[5]]),
            _ => None,
        };
    }
    if let Some(b) = s.strip_prefix("rgba(").or(s.strip_prefix("rgb(")) {
        let b = b.strip_suffix(')')?;
        let mut parts: Vec<&str> = if b.contains(',') { b.split(',').map(str::trim).collect() } else { b.split(['/', ' ', '\t', '\n']).filter(|p| !p.is_empty()).collect() };
        if parts.len() == 4 {
            let a: f64 = parts.pop()?.parse().ok()?;
            if a < 1.0 {
                return None;
            }
        }
        if parts.len() != 3 {
            return None;
        }
        let v: Vec<f64> = parts.iter().map(|p| p.parse::<f64>().ok().filter(|x| x.is_finite())).collect::<Option<_>>()?;
        let c = |x: f64| x.round().clamp(0.0, 255.0) as u8;
        return Some([c(v[0]), c(v[1]), c(v[2])]);
    }
    Some(match s.as_str() {
        "black" => [0, 0, 0],
        "white" => [255, 255, 255],
        "red" => [255, 0, 0],
        "lime" => [0, 255, 0],
        "green" => [0, 128, 0],
        "blue" => [0, 0, 255],
        _ => return None,
    })
}

macro_rules! plain_states {
    ($($get:ident, $set:ident, $field:ident, $ty:tt, $arg:ident => $cond:expr;)*) => {
        impl CanvasRenderingContext2d {
            $(pub fn $get(&self) -> $ty {
                self.with(|c| c.st.$field.clone())
            })*
            $(pub fn $set(&self, $arg: plain_states!(@ $ty)) {
                if $cond {
                    self.with(|c| c.st.$field = $arg.into());
                }
            })*
        }
    };
    (@ f64) => { f64 };
    (@ bool) => { bool };
    (@ String) => { &str };
}

plain_states! {
    // values that make no sense are ignored
    line_width, set_line_width, width, f64, v => v.is_finite() && v > 0.0;
    global_alpha, set_global_alpha, alpha, f64, v => (0.0..=1.0).contains(&v);
    text_align, set_text_align, align, String, v => ["start", "end", "left", "right", "center"].contains(&v);
    text_baseline, set_text_baseline, baseline, String, v => ["top", "hanging", "middle", "alphabetic", "ideographic", "bottom"].contains(&v);
    font, set_font, font, String, v => !v.is_empty();
    line_cap, set_line_cap, cap, String, v => ["butt", "round", "square"].contains(&v);
    line_join, set_line_join, join, String, v => ["miter", "round", "bevel"].contains(&v);
    line_dash_offset, set_line_dash_offset, dash_offset, f64, v => v.is_finite();
    miter_limit, set_miter_limit, miter, f64, v => v.is_finite() && v > 0.0;
    shadow_blur, set_shadow_blur, blur, f64, v => v.is_finite() && v >= 0.0;
    shadow_offset_x, set_shadow_offset_x, shadow_x, f64, v => v.is_finite();
    shadow_offset_y, set_shadow_offset_y, shadow_y, f64, v => v.is_finite();
    shadow_color, set_shadow_color, shadow, String, v => colour(v).is_some() || v == "transparent";
    filter, set_filter, filter, String, v => !v.is_empty();
    direction, set_direction, direction, String, v => ["ltr", "rtl", "inherit"].contains(&v);
    image_smoothing_enabled, set_image_smoothing_enabled, smooth, bool, v => v || !v;
}

impl CanvasRenderingContext2d {
    fn with<T>(&self, f: impl FnOnce(&mut Ctx) -> T) -> T {
        let v: &JsValue = self.as_ref();
        let JsValue::Object(_, o) = v else { panic!("not a context") };
        f(&mut o.downcast_ref::<RefCell<Ctx>>().expect("a context").borrow_mut())
    }
    pub fn set_stroke_style(&self, v: &JsValue) {
        if let Some(s) = v.as_string() {
            self.set_stroke_style_str(&s)
        }
    }
    pub fn set_stroke_style_str(&self, v: &str) {
        if let Some(c) = colour(v) {
            self.with(|x| x.st.stroke = c)
        }
    }
    pub fn set_fill_style(&self, v: &JsValue) {
        if let Some(s) = v.as_string() {
            self.set_fill_style_str(&s)
        }
    }
    pub fn set_fill_style_str(&self, v: &str) {
        if let Some(c) = colour(v) {
            self.with(|x| x.st.fill = c)
        }
    }
    pub fn stroke_style(&self) -> JsValue {
        self.with(|x| format!("#{:02x}{:02x}{:02x}", x.st.stroke[0], x.st.stroke[1], x.st.stroke[2]).into())
    }
    pub fn fill_style(&self) -> JsValue {
        self.with(|x| format!("#{:02x}{:02x}{:02x}", x.st.fill[0], x.st.fill[1], x.st.fill[2]).into())
    }
    pub fn set_line_dash(&self, v: &JsValue) -> Result<(), JsValue> {
        let Some(a) = v.dyn_ref::<js_sys::Array>() else { return Err("TypeError".into()) };
        // all of them zero: a solid line
        let dashes: Vec<f64> = a.to_vec().iter().map(|x| x.as_f64().unwrap_or(f64::NAN)).collect();
        if dashes.iter().all(|x| x.is_finite() && *x >= 0.0) {
            self.with(|c| c.st.dash = dashes.iter().any(|x| *x > 0.0));
        }
        Ok(())
    }
    pub fn set_global_composite_operation(&self, v: &str) -> Result<(), JsValue> {
        const KNOWN: [&str; 26] = [
            "source-over", "source-in", "source-out", "source-atop", "destination-over", "destination-in", "destination-out",
            "destination-atop", "lighter", "copy", "xor", "multiply", "screen", "overlay", "darken", "lighten", "color-dodge",
            "color-burn", "hard-light", "soft-light", "difference", "exclusion", "hue", "saturation", "color", "luminosity",
        ];
        if KNOWN.contains(&v) {
            self.with(|c| c.st.operation = v.into());
        }
        Ok(())
    }
    pub fn global_composite_operation(&self) -> Result<String, JsValue> {
        Ok(self.with(|c| c.st.operation.clone()))
    }
    /// paints from now on only within the path: what of it remains visible is not computed
    pub fn clip(&self) {
        self.with(|c| c.st.clipped = true)
    }
    pub fn save(&self) {
        self.with(|c| c.stack.push(c.st.clone()))
    }
    pub fn restore(&self) {
        self.with(|c| {
            if let Some(s) = c.stack.pop() {
                c.st = s
            }
        })
    }
    pub fn reset(&self) {
        self.with(Ctx::reset)
    }
    pub fn is_context_lost(&self) -> bool {
        false
    }
    pub fn translate(&self, x: f64, y: f64) -> Result<(), JsValue> {
        self.transform(1.0, 0.0, 0.0, 1.0, x, y)
    }
    pub fn scale(&self, x: f64, y: f64) -> Result<(), JsValue> {
        self.transform(x, 0.0, 0.0, y, 0.0, 0.0)
    }
    pub fn rotate(&self, a: f64) -> Result<(), JsValue> {
        self.transform(a.cos(), a.sin(), -a.sin(), a.cos(), 0.0, 0.0)
    }
    pub fn transform(&self, a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> Result<(), JsValue> {
        self.with(|x| {
            let m = x.st.m;
            x.st.m = [
                m[0] * a + m[2] * b,
                m[1] * a + m[3] * b,
                m[0] * c + m[2] * d,
                m[1] * c + m[3] * d,
                m[0] * e + m[2] * f + m[4],
                m[1] * e + m[3] * f + m[5],
            ];
        });
        Ok(())
    }
    pub fn set_transform(&self, a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> Result<(), JsValue> {
        self.with(|x| x.st.m = [a, b, c, d, e, f]);
        Ok(())
    }
    pub fn reset_transform(&self) -> Result<(), JsValue> {
        self.set_transform(1.0, 0.0, 0.0, 1.0, 0.0, 0.0)
    }

    pub fn begin_path(&self) {
        self.with(|c| {
            c.path.clear();
            c.open = None;
        })
    }
    pub fn close_path(&self) {
        self.with(|c| {
            if let Some((s, at)) = c.open {
                c.line(at, s);
                c.open = Some((s, s));
            }
        })
    }
    pub fn move_to(&self, x: f64, y: f64) {
        self.with(|c| {
            if x.is_finite() && y.is_finite() {
                let p = c.st.point(x, y);
                c.open = Some((p, p));
            }
        })
    }
    pub fn line_to(&self, x: f64, y: f64) {
        self.with(|c| {
            if x.is_finite() && y.is_finite() {
                let p = c.st.point(x, y);
                c.to(p);
            }
        })
    }
    pub fn arc(&self, x: f64, y: f64, r: f64, a0: f64, a1: f64) -> Result<(), JsValue> {
        self.with(|c| c.arc(x, y, r, a0, a1, false))
    }
    pub fn arc_with_anticlockwise(&self, x: f64, y: f64, r: f64, a0: f64, a1: f64, ccw: bool) -> Result<(), JsValue> {
        self.with(|c| c.arc(x, y, r, a0, a1, ccw))
    }
    #[allow(clippy::too_many_arguments)]
    pub fn ellipse(&self, x: f64, y: f64, rx: f64, ry: f64, rot: f64, a0: f64, a1: f64) -> Result<(), JsValue> {
        if rx == ry {
            self.arc(x, y, rx, a0 + rot, a1 + rot)
        } else {
            self.with(|c| c.path.push(Shape::Other(format!("ellipse around {x},{y} of radii {rx},{ry}"))));
            Ok(())
        }
    }
    #[allow(clippy::too_many_arguments)]
    pub fn ellipse_with_anticlockwise(&self, x: f64, y: f64, rx: f64, ry: f64, rot: f64, a0: f64, a1: f64, ccw: bool) -> Result<(), JsValue> {
        if rx == ry {
            self.arc_with_anticlockwise(x, y, rx, a0 + rot, a1 + rot, ccw)
        } else {
            self.ellipse(x, y, rx, ry, rot, a0, a1)
        }
    }
    pub fn arc_to(&self, a: f64, b: f64, x: f64, y: f64, r: f64) -> Result<(), JsValue> {
        if r < 0.0 {
            return Err("IndexSizeError".into());
        }
        if r == 0.0 {
            self.line_to(a, b);
        } else {
            self.with(|c| {
                c.path.push(Shape::Other(format!("arc by {a},{b} towards {x},{y} of radius {r}")));
                let p = c.st.point(a, b);
                c.open = Some((c.open.map_or(p, |o| o.0), p));
            });
        }
        Ok(())
    }
    pub fn quadratic_curve_to(&self, a: f64, b: f64, x: f64, y: f64) {
        self.with(|c| {
            c.path.push(Shape::Other(format!("curve by {a},{b} to {x},{y}")));
            let p = c.st.point(x, y);
            c.open = Some((c.open.map_or(p, |o| o.0), p));
        })
    }
    pub fn bezier_curve_to(&self, a: f64, b: f64, d: f64, e: f64, x: f64, y: f64) {
        self.with(|c| {
            c.path.push(Shape::Other(format!("curve by {a},{b} and {d},{e} to {x},{y}")));
            let p = c.st.point(x, y);
            c.open = Some((c.open.map_or(p, |o| o.0), p));
        })
    }
    pub fn rect(&self, x: f64, y: f64, w: f64, h: f64) {
        self.with(|c| {
            let (a, b) = (c.st.point(x, y), c.st.point(x + w, y + h));
            c.path.push(Shape::Rect { at: a, size: (b.0 - a.0, b.1 - a.1) });
            c.open = Some((a, a));
        })
    }
    pub fn stroke(&self) {
        self.with(|c| {
            let (w, col) = (c.st.width * c.st.factor().unwrap_or(1.0), c.st.stroke);
            let mut done: Vec<Shape> = vec![];
            for s in c.path.clone() {
                let back = match &s {
                    Shape::Line { a, b } => Shape::Line { a: *b, b: *a },
                    s => s.clone(),
                };
                // going over the same line again in one stroke leaves nothing new
                if done.contains(&s) || done.contains(&back) {
                    continue;
                }
                done.push(s.clone());
                let s = match s {
                    Shape::Rect { .. } => Shape::Other(format!("outline of {s:?}")),
                    s => s,
                };
                c.paint(s, w, col);
            }
        })
    }
    pub fn fill(&self) {
        self.with(|c| {
            let col = c.st.fill;
            for s in c.path.clone() {
                match s {
                    Shape::Rect { .. } => c.paint(s, 0.0, col),
                    Shape::Line { .. } => {}
                    s => c.paint(Shape::Other(format!("filled {s:?}")), 0.0, col),
                }
            }
        })
    }
    pub fn fill_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        self.with(|c| {
            let (a, b) = (c.st.point(x, y), c.st.point(x + w, y + h));
            let col = c.st.fill;
            c.paint(Shape::Rect { at: a, size: (b.0 - a.0, b.1 - a.1) }, 0.0, col);
        })
    }
    pub fn stroke_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        self.with(|c| {
            let (width, col) = (c.st.width, c.st.stroke);
            c.paint(Shape::Other(format!("outline of the rectangle at {x},{y} of size {w},{h}")), width, col);
        })
    }
    pub fn clear_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        self.with(|c| c.paint(Shape::Other(format!("cleared {x},{y} {w},{h}")), 0.0, [0; 3]))
    }
    pub fn fill_text(&self, text: &str, x: f64, y: f64) -> Result<(), JsValue> {
        self.with(|c| c.text(text, x, y));
        Ok(())
    }
    pub fn stroke_text(&self, text: &str, x: f64, y: f64) -> Result<(), JsValue> {
        self.with(|c| {
            let col = c.st.stroke;
            c.paint(Shape::Other(format!("outline of the text {text:?} at {x},{y}")), 0.0, col);
        });
        Ok(())
    }
    pub fn stroke_text_with_max_width(&self, text: &str, x: f64, y: f64, _w: f64) -> Result<(), JsValue> {
        self.stroke_text(text, x, y)
    }
    pub fn fill_text_with_max_width(&self, text: &str, x: f64, y: f64, w: f64) -> Result<(), JsValue> {
        self.with(|c| {
            if w.is_nan() || w <= 0.0 {
                return;
            }
            if text_width(text) <= w {
                return c.text(text, x, y);
            }
            let col = c.st.fill;
            c.paint(Shape::Other(format!("squeezed text {text:?} at {x},{y}")), 0.0, col);
        });
        Ok(())
    }
    pub fn measure_text(&self, text: &str) -> Result<TextMetrics, JsValue> {
        let w: Rc<f64> = Rc::new(text_width(text));
        Ok(TextMetrics::unchecked_from_js(JsValue::Object(&["TextMetrics", "Object"], w)))
    }
    pub fn canvas(&self) -> Option<HtmlCanvasElement> {
        None
    }
    /// for the harness: what was painted so far
    pub fn stub_painted(&self) -> Vec<Paint> {
        self.with(|c| c.painted.clone())
    }
}

impl TextMetrics {
    pub fn width(&self) -> f64 {
        let v: &JsValue = self.as_ref();
        match v {
            JsValue::Object(_, o) => o.downcast_ref::<f64>().copied().unwrap_or(0.0),
            _ => 0.0,
        }
    }
}

// ------------------------------------------------------------------ elements

/// what getContext("2d") does
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Gives {
    Context,
    Null,
    Exception,
    /// an object of another class
    Other,
}

struct Canvas {
    gives: Gives,
    ctx: CanvasRenderingContext2d,
    size: Cell<(u32, u32)>,
}

pub fn stub_context() -> CanvasRenderingContext2d {
    CanvasRenderingContext2d::unchecked_from_js(JsValue::Object(&["CanvasRenderingContext2D", "Object"], Rc::new(RefCell::new(Ctx::default()))))
}

pub fn stub_canvas(gives: Gives, ctx: CanvasRenderingContext2d) -> HtmlCanvasElement {
    HtmlCanvasElement::unchecked_from_js(JsValue::Object(
        &["HTMLCanvasElement", "HTMLElement", "Element", "Node", "Object"],
        Rc::new(Canvas { gives, ctx, size: Cell::new((300, 150)) }),
    ))
}

pub fn stub_div() -> Element {
    Element::unchecked_from_js(JsValue::Object(&["HTMLElement", "Element", "Node", "Object"], Rc::new(())))
}

thread_local! {
    static ELEMENTS: RefCell<BTreeMap<String, Element>> = const { RefCell::new(BTreeMap::new()) };
}

pub fn stub_add(id: &str, e: Element) {
    ELEMENTS.with(|m| m.borrow_mut().insert(id.to_string(), e));
}

impl HtmlCanvasElement {
    pub fn get_context(&self, kind: &str) -> Result<Option<Object>, JsValue> {
        let c = self.inner();
        match c.gives {
            Gives::Context if kind == "2d" => Ok(Some(Object::unchecked_from_js(c.ctx.clone().into()))),
            Gives::Context | Gives::Null => Ok(None),
            Gives::Exception => Err("exception".into()),
            Gives::Other => Ok(Some(Object::unchecked_from_js(JsValue::Object(&["WebGLRenderingContext", "Object"], Rc::new(()))))),
        }
    }
    pub fn get_context_with_context_options(&self, kind: &str, _options: &JsValue) -> Result<Option<Object>, JsValue> {
        self.get_context(kind)
    }
    fn inner(&self) -> &Canvas {
        let v: &JsValue = self.as_ref();
        let JsValue::Object(_, o) = v else { panic!("not a canvas") };
        o.downcast_ref::<Canvas>().expect("a canvas")
    }
    pub fn width(&self) -> u32 {
        self.inner().size.get().0
    }
    pub fn height(&self) -> u32 {
        self.inner().size.get().1
    }
    /// which also clears it, even if the size stays
    pub fn set_width(&self, w: u32) {
        let c = self.inner();
        c.size.set((w, c.size.get().1));
        c.ctx.reset();
    }
    pub fn set_height(&self, h: u32) {
        let c = self.inner();
        c.size.set((c.size.get().0, h));
        c.ctx.reset();
    }
}

pub fn window() -> Option<Window> {
    Some(Window::unchecked_from_js(JsValue::Object(&["Window", "Object"], Rc::new(()))))
}

impl Window {
    pub fn document(&self) -> Option<Document> {
        Some(Document::unchecked_from_js(JsValue::Object(&["Document", "Node", "Object"], Rc::new(()))))
    }
}

impl Element {
    /// the id it is in the document with
    pub fn id(&self) -> String {
        ELEMENTS.with(|m| m.borrow().iter().find(|(_, e)| *e == self).map(|(i, _)| i.clone()).unwrap_or_default())
    }
    pub fn tag_name(&self) -> String {
        let v: &JsValue = self.as_ref();
        if v.is_instance("HTMLCanvasElement") { "CANVAS" } else { "DIV" }.into()
    }
    pub fn local_name(&self) -> String {
        self.tag_name().to_ascii_lowercase()
    }
    pub fn is_connected(&self) -> bool {
        ELEMENTS.with(|m| m.borrow().values().any(|e| e == self))
    }
    pub fn get_attribute(&self, name: &str) -> Option<String> {
        let canvas = self.dyn_ref::<HtmlCanvasElement>();
        match (name.to_ascii_lowercase().as_str(), canvas) {
            ("id", _) => Some(self.id()).filter(|i| !i.is_empty()),
            ("width", Some(c)) => Some(c.width().to_string()),
            ("height", Some(c)) => Some(c.height().to_string()),
            _ => None,
        }
    }
    pub fn has_attribute(&self, name: &str) -> bool {
        self.get_attribute(name).is_some()
    }
    pub fn set_attribute(&self, name: &str, value: &str) -> Result<(), JsValue> {
        let n = value.trim().parse().ok();
        match (name.to_ascii_lowercase().as_str(), self.dyn_ref::<HtmlCanvasElement>()) {
            ("width", Some(c)) => c.set_width(n.unwrap_or(300)),
            ("height", Some(c)) => c.set_height(n.unwrap_or(150)),
            ("id", _) => panic!("an id is changed"),
            _ => {}
        }
        Ok(())
    }
}

impl Document {
    pub fn get_element_by_id(&self, id: &str) -> Option<Element> {
        // no element has the empty id
        ELEMENTS.with(|m| m.borrow().get(id).cloned()).filter(|_| !id.is_empty())
    }
    /// of the selectors, those of an id
    pub fn query_selector(&self, selector: &str) -> Result<Option<Element>, JsValue> {
        let s = selector.trim_matches([' ', '\t', '\n', '\r', '\u{c}']);
        let name = |c: char| c.is_ascii_alphanumeric() || c == '-' || c == '_' || !c.is_ascii();
        match s.strip_prefix('#') {
            Some(id) if !id.is_empty() && id != "-" && id.chars().all(name) && !id.trim_start_matches('-').starts_with(|c: char| c.is_ascii_digit()) => {
                Ok(self.get_element_by_id(id))
            }
            _ => Err("SyntaxError".into()),
        }
    }
}
