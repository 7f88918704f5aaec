//! Host stand-in of wasm-bindgen: JavaScript values as Rust values.
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub use wasm_bindgen_macro_stand_in::wasm_bindgen;

#[derive(Clone, Default)]
pub enum JsValue {
    #[default]
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    BigInt(u128),
    Err(String),
    Array(Rc<RefCell<Vec<JsValue>>>),
    /// an exported object
    Object(Rc<dyn Any>),
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn object<T: 'static>(v: T) -> JsValue {
        JsValue::Object(Rc::new(v))
    }
    pub fn downcast<T: 'static>(&self) -> Option<&T> {
        match self {
            JsValue::Object(o) => o.downcast_ref::<T>(),
            _ => None,
        }
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Str(s.to_string())
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue::Num(n)
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
    pub const fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub const fn null() -> JsValue {
        JsValue::Null
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(n) => Some(*n),
            _ => None,
        }
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::Str(_))
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Object(_) | JsValue::Array(_) | JsValue::Err(_))
    }
    pub fn is_array(&self) -> bool {
        matches!(self, JsValue::Array(_))
    }
    pub fn is_truthy(&self) -> bool {
        match self {
            JsValue::Undefined | JsValue::Null => false,
            JsValue::Bool(b) => *b,
            JsValue::Num(n) => *n != 0.0 && !n.is_nan(),
            JsValue::Str(s) => !s.is_empty(),
            JsValue::BigInt(n) => *n != 0,
            _ => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
}

impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool {
        match (self, o) {
            (JsValue::Undefined, JsValue::Undefined) | (JsValue::Null, JsValue::Null) => true,
            (JsValue::Bool(a), JsValue::Bool(b)) => a == b,
            (JsValue::Num(a), JsValue::Num(b)) => a == b,
            (JsValue::Str(a), JsValue::Str(b)) => a == b,
            (JsValue::BigInt(a), JsValue::BigInt(b)) => a == b,
            (JsValue::Array(a), JsValue::Array(b)) => Rc::ptr_eq(a, b),
            (JsValue::Object(a), JsValue::Object(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            JsValue::Undefined => write!(f, "JsValue(undefined)"),
            JsValue::Null => write!(f, "JsValue(null)"),
            JsValue::Bool(b) => write!(f, "JsValue({b})"),
            JsValue::Num(b) => write!(f, "JsValue({b})"),
            JsValue::Str(b) => write!(f, "JsValue({b:?})"),
            JsValue::BigInt(b) => write!(f, "JsValue({b})"),
            JsValue::Err(b) => write!(f, "JsValue(Error: {b})"),
            JsValue::Array(b) => write!(f, "JsValue({:?})", b.borrow()),
            JsValue::Object(_) => write!(f, "JsValue(Object)"),
        }
    }
}

impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::Str(s.to_string())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::Str(s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        JsValue::Str(s.clone())
    }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> Self {
        JsValue::Bool(s)
    }
}
macro_rules! nums {
    ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(n: $t) -> Self { JsValue::Num(n as f64) } })* };
}
nums! { u8 u16 u32 i8 i16 i32 f32 f64 usize isize }
macro_rules! bigs {
    ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(n: $t) -> Self { JsValue::BigInt(n as u128) } })* };
}
bigs! { u64 i64 u128 i128 }
impl<T> From<Option<T>> for JsValue
where
    JsValue: From<T>,
{
    fn from(s: Option<T>) -> Self {
        s.map(JsValue::from).unwrap_or(JsValue::Undefined)
    }
}

#[derive(Clone, Debug)]
pub struct JsError(String);
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(s.to_string())
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError(e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        JsValue::Err(e.0)
    }
}

pub trait JsCast: Sized + AsRef<JsValue> + Into<JsValue> {
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}

pub fn throw_str(s: &str) -> ! {
    panic!("{s}")
}

pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsError, JsValue, UnwrapThrowExt};
}
