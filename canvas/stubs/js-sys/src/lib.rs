//! A stand-in with the few classes that are needed.

use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{js_class, JsValue};

js_class!(Object, "Object", JsValue);
js_class!(Array, "Array", Object);

impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Object {
        JsValue::Object(&["Object"], Rc::new(())).into()
    }
}

impl AsRef<Object> for Array {
    fn as_ref(&self) -> &Object {
        self
    }
}

impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Array {
        let v: Rc<dyn Any> = Rc::new(RefCell::new(Vec::<JsValue>::new()));
        JsValue::Object(&["Array", "Object"], v).into()
    }
    fn with<T>(&self, f: impl FnOnce(&mut Vec<JsValue>) -> T) -> T {
        let v: &JsValue = self.as_ref();
        let JsValue::Object(_, o) = v else { panic!("not an array") };
        f(&mut o.downcast_ref::<RefCell<Vec<JsValue>>>().expect("an array").borrow_mut())
    }
    pub fn of1(a: &JsValue) -> Array {
        [a].into_iter().collect()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        [a, b].into_iter().collect()
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.with(|x| {
            x.push(v.clone());
            x.len() as u32
        })
    }
    pub fn length(&self) -> u32 {
        self.with(|x| x.len() as u32)
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.with(|x| x.get(i as usize).cloned().unwrap_or_default())
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.with(|x| x.clone())
    }
}

impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Array {
        let a = Array::new();
        i.into_iter().for_each(|v| {
            a.push(v.as_ref());
        });
        a
    }
}
