//! A stand-in for JavaScript values, natively.

use std::any::Any;
use std::fmt;
use std::rc::Rc;

pub mod prelude {
    pub use crate::{JsCast, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}
pub use wasm_bindgen_macro::wasm_bindgen;

#[derive(Clone, Default)]
pub enum JsValue {
    #[default]
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    String(Rc<str>),
    /// an object with the classes it is an instance of
    Object(&'static [&'static str], Rc<dyn Any>),
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn null() -> JsValue {
        JsValue::Null
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        s.into()
    }
    pub fn from_f64(n: f64) -> JsValue {
        n.into()
    }
    pub fn from_bool(b: bool) -> JsValue {
        b.into()
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::String(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Number(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(n) => Some(*n),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Object(..))
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::String(_))
    }
    pub fn is_truthy(&self) -> bool {
        !self.is_falsy()
    }
    pub fn is_falsy(&self) -> bool {
        match self {
            JsValue::Undefined | JsValue::Null => true,
            JsValue::Bool(b) => !b,
            JsValue::Number(n) => *n == 0.0 || n.is_nan(),
            JsValue::String(s) => s.is_empty(),
            JsValue::Object(..) => false,
        }
    }
    pub fn is_function(&self) -> bool {
        false
    }
    pub fn is_instance(&self, class: &str) -> bool {
        matches!(self, JsValue::Object(c, _) if c.contains(&class))
    }
}

impl PartialEq for JsValue {
    fn eq(&self, other: &JsValue) -> bool {
        match (self, other) {
            (JsValue::Undefined, JsValue::Undefined) | (JsValue::Null, JsValue::Null) => true,
            (JsValue::Bool(a), JsValue::Bool(b)) => a == b,
            (JsValue::Number(a), JsValue::Number(b)) => a == b,
            (JsValue::String(a), JsValue::String(b)) => a == b,
            (JsValue::Object(_, a), JsValue::Object(_, b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            JsValue::Undefined => write!(f, "JsValue(undefined)"),
            JsValue::Null => write!(f, "JsValue(null)"),
            JsValue::Bool(b) => write!(f, "JsValue({b})"),
            JsValue::Number(b) => write!(f, "JsValue({b})"),
            JsValue::String(s) => write!(f, "JsValue({s:?})"),
            JsValue::Object(c, _) => write!(f, "JsValue({})", c.first().unwrap_or(&"Object")),
        }
    }
}

impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::String(s.into())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::String(s.into())
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> JsValue {
        JsValue::String(s.as_str().into())
    }
}
impl From<f64> for JsValue {
    fn from(n: f64) -> JsValue {
        JsValue::Number(n)
    }
}
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(v: Option<T>) -> JsValue {
        v.map_or(JsValue::Undefined, Into::into)
    }
}
macro_rules! numbers {
    ($($t:ty)*) => {
        $(impl From<$t> for JsValue {
            fn from(n: $t) -> JsValue {
                JsValue::Number(n as f64)
            }
        })*
    };
}
numbers!(i8 u8 i16 u16 i32 u32 f32 usize isize);

impl PartialEq<str> for JsValue {
    fn eq(&self, other: &str) -> bool {
        matches!(self, JsValue::String(s) if **s == *other)
    }
}
impl PartialEq<&str> for JsValue {
    fn eq(&self, other: &&str) -> bool {
        *self == **other
    }
}
impl PartialEq<f64> for JsValue {
    fn eq(&self, other: &f64) -> bool {
        matches!(self, JsValue::Number(n) if n == other)
    }
}
impl PartialEq<bool> for JsValue {
    fn eq(&self, other: &bool) -> bool {
        matches!(self, JsValue::Bool(n) if n == other)
    }
}
impl From<bool> for JsValue {
    fn from(n: bool) -> JsValue {
        JsValue::Bool(n)
    }
}

pub trait JsCast
where
    Self: AsRef<JsValue> + Into<JsValue>,
{
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() {
            Some(self.unchecked_ref())
        } else {
            None
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn instanceof(val: &JsValue) -> bool;
    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
}

impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

/// a class of objects, all of them wrappers of a value, with its superclass
#[macro_export]
macro_rules! js_class {
    ($name:ident, $class:literal, $parent:ty) => {
        #[derive(Clone, Debug)]
        #[repr(transparent)]
        pub struct $name($crate::JsValue);
        impl AsRef<$crate::JsValue> for $name {
            fn as_ref(&self) -> &$crate::JsValue {
                &self.0
            }
        }
        impl From<$name> for $crate::JsValue {
            fn from(v: $name) -> $crate::JsValue {
                v.0
            }
        }
        impl From<$crate::JsValue> for $name {
            fn from(v: $crate::JsValue) -> $name {
                $name(v)
            }
        }
        impl AsRef<$name> for $name {
            fn as_ref(&self) -> &$name {
                self
            }
        }
        impl PartialEq for $name {
            fn eq(&self, other: &$name) -> bool {
                self.0 == other.0
            }
        }
        impl ::std::ops::Deref for $name {
            type Target = $parent;
            fn deref(&self) -> &$parent {
                <$parent as $crate::JsCast>::unchecked_from_js_ref(&self.0)
            }
        }
        impl $crate::JsCast for $name {
            fn instanceof(val: &$crate::JsValue) -> bool {
                val.is_instance($class)
            }
            fn unchecked_from_js(val: $crate::JsValue) -> Self {
                $name(val)
            }
            fn unchecked_from_js_ref(val: &$crate::JsValue) -> &Self {
                // a transparent wrapper
                unsafe { &*(val as *const $crate::JsValue as *const Self) }
            }
        }
    };
}
