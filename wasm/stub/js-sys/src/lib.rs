//! Host stand-in of js-sys: the part of it a binding of plain values uses.
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{JsCast, JsValue};

#[derive(Clone, Debug)]
pub struct Error {
    val: JsValue,
    message: String,
}
impl Error {
    pub fn new(message: &str) -> Error {
        Error { val: JsValue::Err(message.to_string()), message: message.to_string() }
    }
    pub fn message(&self) -> JsString {
        JsString(self.message.clone())
    }
    pub fn set_name(&self, _: &str) {}
}
impl From<Error> for JsValue {
    fn from(e: Error) -> Self {
        e.val
    }
}
impl std::ops::Deref for Error {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        &self.val
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct JsString(String);
impl From<JsString> for String {
    fn from(s: JsString) -> String {
        s.0
    }
}
impl From<&str> for JsString {
    fn from(s: &str) -> JsString {
        JsString(s.to_string())
    }
}
impl From<String> for JsString {
    fn from(s: String) -> JsString {
        JsString(s)
    }
}
impl From<JsString> for JsValue {
    fn from(s: JsString) -> JsValue {
        JsValue::Str(s.0)
    }
}

#[derive(Clone, Debug)]
pub struct Array {
    val: JsValue,
    v: Rc<RefCell<Vec<JsValue>>>,
}
impl Default for Array {
    fn default() -> Self {
        Array::new()
    }
}
impl Array {
    fn of(v: Vec<JsValue>) -> Array {
        let v = Rc::new(RefCell::new(v));
        Array { val: JsValue::Array(v.clone()), v }
    }
    pub fn new() -> Array {
        Array::of(vec![])
    }
    pub fn new_with_length(n: u32) -> Array {
        Array::of(vec![JsValue::Undefined; n as usize])
    }
    pub fn length(&self) -> u32 {
        self.v.borrow().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.v.borrow().get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn at(&self, i: i32) -> JsValue {
        let n = self.length() as i64;
        let k = if i < 0 { n + i as i64 } else { i as i64 };
        if k < 0 {
            return JsValue::Undefined;
        }
        self.get(k as u32)
    }
    pub fn set(&self, i: u32, x: JsValue) {
        let mut v = self.v.borrow_mut();
        while v.len() <= i as usize {
            v.push(JsValue::Undefined);
        }
        v[i as usize] = x;
    }
    pub fn push(&self, x: &JsValue) -> u32 {
        self.v.borrow_mut().push(x.clone());
        self.length()
    }
    pub fn pop(&self) -> JsValue {
        self.v.borrow_mut().pop().unwrap_or(JsValue::Undefined)
    }
    pub fn shift(&self) -> JsValue {
        let mut v = self.v.borrow_mut();
        if v.is_empty() { JsValue::Undefined } else { v.remove(0) }
    }
    pub fn unshift(&self, x: &JsValue) -> u32 {
        self.v.borrow_mut().insert(0, x.clone());
        self.length()
    }
    pub fn reverse(&self) -> Array {
        self.v.borrow_mut().reverse();
        self.clone()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.v.borrow().clone()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn for_each(&self, f: &mut dyn FnMut(JsValue, u32, Array)) {
        for (i, x) in self.to_vec().into_iter().enumerate() {
            f(x, i as u32, self.clone());
        }
    }
    pub fn of1(a: &JsValue) -> Array {
        Array::of(vec![a.clone()])
    }
    pub fn is_array(x: &JsValue) -> bool {
        matches!(x, JsValue::Array(_))
    }
    pub fn from(x: &JsValue) -> Array {
        match x {
            JsValue::Array(v) => Array::of(v.borrow().clone()),
            JsValue::Str(s) => s.chars().map(|c| JsValue::from(c.to_string())).collect(),
            _ => Array::new(),
        }
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<A: Into<JsValue>> FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(i: T) -> Array {
        Array::of(i.into_iter().map(Into::into).collect())
    }
}
impl<A: Into<JsValue>> Extend<A> for Array {
    fn extend<T: IntoIterator<Item = A>>(&mut self, i: T) {
        for x in i {
            self.push(&x.into());
        }
    }
}
impl From<Array> for JsValue {
    fn from(a: Array) -> Self {
        a.val
    }
}
impl AsRef<JsValue> for Array {
    fn as_ref(&self) -> &JsValue {
        &self.val
    }
}
impl std::ops::Deref for Array {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        &self.val
    }
}
impl JsCast for Array {
    fn instanceof(val: &JsValue) -> bool {
        matches!(val, JsValue::Array(_))
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        match val {
            JsValue::Array(v) => Array { val: JsValue::Array(v.clone()), v },
            _ => Array::new(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Uint8Array(Vec<u8>);
impl Uint8Array {
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.clone()
    }
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
}
impl From<&[u8]> for Uint8Array {
    fn from(b: &[u8]) -> Self {
        Uint8Array(b.to_vec())
    }
}
