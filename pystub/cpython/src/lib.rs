//! Stand-in for the part of the `cpython` crate the Python member uses. It keeps the shape of the API
//! (module initialiser, class declaration, exceptions) and records the declared classes, so that the
//! class methods written in /repo/python run unchanged, called the way the interpreter calls them.
use std::any::Any;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Python<'p>(PhantomData<&'p ()>);
impl<'p> Python<'p> {
    pub fn stub() -> Python<'p> {
        Python(PhantomData)
    }
    pub fn acquire() -> Python<'p> {
        Python(PhantomData)
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> PyObject {
        Val::None
    }
    #[allow(non_snake_case)]
    pub fn NotImplemented(self) -> PyObject {
        Val::NotImplemented
    }
    #[allow(non_snake_case)]
    pub fn True(self) -> bool {
        true
    }
    #[allow(non_snake_case)]
    pub fn False(self) -> bool {
        false
    }
    pub fn allow_threads<T, F: FnOnce() -> T>(self, f: F) -> T {
        f()
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CompareOp {
    Lt = 0,
    Le = 1,
    Eq = 2,
    Ne = 3,
    Gt = 4,
    Ge = 5,
}
#[derive(Debug, Clone)]
pub struct PyErr {
    pub kind: &'static str,
    pub text: String,
}
pub type PyResult<T> = Result<T, PyErr>;
impl PyErr {
    pub fn new<T: exc::Exception, V: ToPyObject>(_py: Python<'_>, v: V) -> PyErr {
        PyErr { kind: T::NAME, text: v.to_text() }
    }
}
pub mod exc {
    pub trait Exception {
        const NAME: &'static str;
    }
    macro_rules! excs { ($($n:ident)*) => { $( pub struct $n; impl Exception for $n { const NAME: &'static str = stringify!($n); } )* } }
    excs!(BaseException Exception_ ArithmeticError AssertionError AttributeError BufferError EOFError IndexError IOError
        KeyError LookupError MemoryError NameError NotImplementedError OSError OverflowError RuntimeError SyntaxError
        SystemError TypeError UnicodeDecodeError UnicodeError ValueError ZeroDivisionError);
}
pub trait ToPyObject {
    fn to_text(&self) -> String;
    fn to_py_object(&self, _py: Python<'_>) -> PyString {
        PyString(self.to_text())
    }
    fn into_py_object(self, _py: Python<'_>) -> PyString
    where
        Self: Sized,
    {
        PyString(self.to_text())
    }
}
/// a Python string
#[derive(Clone, Debug)]
pub struct PyString(pub String);
impl PyString {
    pub fn new(_py: Python<'_>, s: &str) -> PyString {
        PyString(s.to_string())
    }
    pub fn to_string(&self, _py: Python<'_>) -> PyResult<std::borrow::Cow<'_, str>> {
        Ok(self.0.as_str().into())
    }
    pub fn to_string_lossy(&self, _py: Python<'_>) -> std::borrow::Cow<'_, str> {
        self.0.as_str().into()
    }
    pub fn into_object(self) -> PyObject {
        Val::Str(self.0)
    }
}
impl ToPyObject for PyString {
    fn to_text(&self) -> String {
        self.0.clone()
    }
}
impl ToPyObject for NoArgs {
    fn to_text(&self) -> String {
        String::new()
    }
}
#[derive(Clone, Copy, Debug)]
pub struct NoArgs;
pub type PyBool = bool;
pub type PyObject = Val;
impl Val {
    pub fn extract<'a, T: FromVal<'a>>(&'a self, _py: Python<'_>) -> PyResult<T> {
        T::from_val(self)
    }
    pub fn cast_as<'a, T: Class>(&'a self, _py: Python<'_>) -> PyResult<&'a T> {
        FromVal::from_val(self)
    }
}
pub trait ObjectProtocol {}
pub trait PyClone {
    fn clone_ref(&self, py: Python<'_>) -> Self;
}
impl PyClone for Val {
    fn clone_ref(&self, _py: Python<'_>) -> Val {
        self.clone()
    }
}
pub trait FromPyObject<'a>: FromVal<'a> {}
impl<'a, T: FromVal<'a>> FromPyObject<'a> for T {}
macro_rules! to_text { ($($t:ty)*) => { $( impl ToPyObject for $t { fn to_text(&self) -> String { self.to_string() } } )* } }
to_text!(str String bool i8 i16 i32 i64 u8 u16 u32 u64 usize isize);
impl<T: ToPyObject + ?Sized> ToPyObject for &T {
    fn to_text(&self) -> String {
        (**self).to_text()
    }
}
impl<A: ToPyObject> ToPyObject for (A,) {
    fn to_text(&self) -> String {
        self.0.to_text()
    }
}
pub trait PythonObject: Sized {
    fn as_object(&self) -> &PyObject;
    fn into_object(self) -> PyObject;
}

/// A value crossing the interpreter boundary.
#[derive(Clone)]
pub enum Val {
    None,
    Bool(bool),
    Int(i64),
    Str(String),
    Op(CompareOp),
    NotImplemented,
    Obj(Rc<dyn Any>),
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::None => write!(f, "None"),
            Val::Bool(b) => write!(f, "{:?}", b),
            Val::Int(b) => write!(f, "{:?}", b),
            Val::Str(b) => write!(f, "{:?}", b),
            Val::Op(b) => write!(f, "{:?}", b),
            Val::NotImplemented => write!(f, "NotImplemented"),
            Val::Obj(_) => write!(f, "<object>"),
        }
    }
}
fn type_error<T>(m: &str) -> PyResult<T> {
    Err(PyErr { kind: "TypeError", text: m.to_string() })
}
pub trait FromVal<'a>: Sized {
    fn from_val(v: &'a Val) -> PyResult<Self>;
}
impl<'a> FromVal<'a> for &'a str {
    fn from_val(v: &'a Val) -> PyResult<Self> {
        match v {
            Val::Str(s) => Ok(s),
            _ => type_error("expected str"),
        }
    }
}
impl<'a> FromVal<'a> for String {
    fn from_val(v: &'a Val) -> PyResult<Self> {
        <&str>::from_val(v).map(|s| s.to_string())
    }
}
impl<'a> FromVal<'a> for std::borrow::Cow<'a, str> {
    fn from_val(v: &'a Val) -> PyResult<Self> {
        <&str>::from_val(v).map(|s| s.into())
    }
}
impl<'a> FromVal<'a> for CompareOp {
    fn from_val(v: &'a Val) -> PyResult<Self> {
        match v {
            Val::Op(o) => Ok(*o),
            _ => type_error("expected a comparison"),
        }
    }
}
impl<'a, T: Class> FromVal<'a> for &'a T {
    fn from_val(v: &'a Val) -> PyResult<Self> {
        match v {
            Val::Obj(o) => match o.downcast_ref::<T>() {
                Some(t) => Ok(t),
                None => type_error("wrong class"),
            },
            _ => type_error("expected an object"),
        }
    }
}
impl<'a> FromVal<'a> for &'a Val {
    fn from_val(v: &'a Val) -> PyResult<Self> {
        Ok(v)
    }
}
impl<'a> FromVal<'a> for Val {
    fn from_val(v: &'a Val) -> PyResult<Self> {
        Ok(v.clone())
    }
}
impl<'a> FromVal<'a> for PyString {
    fn from_val(v: &'a Val) -> PyResult<Self> {
        <&str>::from_val(v).map(|s| PyString(s.to_string()))
    }
}
impl<'a> FromVal<'a> for bool {
    fn from_val(v: &'a Val) -> PyResult<Self> {
        match v {
            Val::Bool(b) => Ok(*b),
            _ => type_error("expected bool"),
        }
    }
}
impl<'a, T: FromVal<'a>> FromVal<'a> for Option<T> {
    fn from_val(v: &'a Val) -> PyResult<Self> {
        match v {
            Val::None => Ok(None),
            v => T::from_val(v).map(Some),
        }
    }
}
pub trait IntoVal {
    fn into_val(self) -> Val;
}
impl IntoVal for bool {
    fn into_val(self) -> Val {
        Val::Bool(self)
    }
}
impl IntoVal for Val {
    fn into_val(self) -> Val {
        self
    }
}
impl IntoVal for PyString {
    fn into_val(self) -> Val {
        Val::Str(self.0)
    }
}
impl IntoVal for std::borrow::Cow<'_, str> {
    fn into_val(self) -> Val {
        Val::Str(self.into_owned())
    }
}
impl<T: IntoVal> IntoVal for Option<T> {
    fn into_val(self) -> Val {
        self.map_or(Val::None, IntoVal::into_val)
    }
}
impl IntoVal for String {
    fn into_val(self) -> Val {
        Val::Str(self)
    }
}
impl IntoVal for &str {
    fn into_val(self) -> Val {
        Val::Str(self.to_string())
    }
}
impl IntoVal for () {
    fn into_val(self) -> Val {
        Val::None
    }
}
macro_rules! ints { ($($t:ty)*) => { $( impl IntoVal for $t { fn into_val(self) -> Val { Val::Int(self as i64) } } )* } }
ints!(i8 i16 i32 i64 u8 u16 u32 u64 usize isize);
impl<T: Class> IntoVal for T {
    fn into_val(self) -> Val {
        Val::Obj(Rc::new(self))
    }
}

pub type Method = fn(&Val, &[Val]) -> PyResult<Val>;
#[derive(Clone)]
pub struct ClassInfo {
    pub name: &'static str,
    pub methods: Vec<(&'static str, Method)>,
}
impl ClassInfo {
    pub fn call(&self, name: &str, this: &Val, args: &[Val]) -> PyResult<Val> {
        match self.methods.iter().find(|m| m.0 == name) {
            Some(m) => m.1(this, args),
            None => Err(PyErr { kind: "AttributeError", text: name.to_string() }),
        }
    }
}
pub trait Class: Sized + 'static {
    fn info() -> ClassInfo;
}
#[derive(Default)]
pub struct PyModule {
    pub classes: RefCell<Vec<ClassInfo>>,
    pub attrs: RefCell<Vec<(String, String)>>,
}
impl PyModule {
    pub fn add<V: ToPyObject>(&self, _py: Python<'_>, n: &str, v: V) -> PyResult<()> {
        self.attrs.borrow_mut().push((n.to_string(), v.to_text()));
        Ok(())
    }
    pub fn add_class<C: Class>(&self, _py: Python<'_>) -> PyResult<()> {
        self.classes.borrow_mut().push(C::info());
        Ok(())
    }
}

#[macro_export]
macro_rules! py_module_initializer {
    ($name:ident, $py2:ident, $py3:ident, |$py:ident, $m:ident| $body:expr) => {
        /// # Safety
        /// `out` points to a live module
        #[no_mangle]
        pub unsafe extern "C" fn $py3(out: *const $crate::PyModule) -> i32 {
            fn init($py: $crate::Python<'_>, $m: &$crate::PyModule) -> $crate::PyResult<()> {
                $body
            }
            match init($crate::Python::stub(), &*out) {
                Ok(()) => 0,
                Err(_) => 1,
            }
        }
    };
}

#[macro_export]
macro_rules! py_class {
    ($(#[$a:meta])* $v:vis class $c:ident |$py:ident| { $($body:tt)* }) => {
        $crate::py_class_impl! { $c $py [] [] $($body)* }
    };
}
#[doc(hidden)]
#[macro_export]
macro_rules! py_class_impl {
    // fields
    ($c:ident $py:ident [$($f:tt)*] [$($m:tt)*] data $n:ident : $t:ty; $($rest:tt)*) => {
        $crate::py_class_impl! { $c $py [$($f)* ($n, $t)] [$($m)*] $($rest)* }
    };
    // methods
    ($c:ident $py:ident [$($f:tt)*] [$($m:tt)*] $(#[$a:meta])* def $n:ident(&$slf:ident $(, $an:ident : $at:ty)* $(,)?) -> $r:ty $b:block $($rest:tt)*) => {
        $crate::py_class_impl! { $c $py [$($f)*] [$($m)* (inst $slf $n ($($an: $at),*) ($r) $b)] $($rest)* }
    };
    ($c:ident $py:ident [$($f:tt)*] [$($m:tt)*] @staticmethod def $n:ident($($an:ident : $at:ty),* $(,)?) -> $r:ty $b:block $($rest:tt)*) => {
        $crate::py_class_impl! { $c $py [$($f)*] [$($m)* (stat nothing $n ($($an: $at),*) ($r) $b)] $($rest)* }
    };
    ($c:ident $py:ident [$($f:tt)*] [$($m:tt)*] $(@ classmethod)? $(#[$a:meta])* def $n:ident($cls:ident $(, $an:ident : $at:ty)* $(,)?) -> $r:ty $b:block $($rest:tt)*) => {
        $crate::py_class_impl! { $c $py [$($f)*] [$($m)* (stat $cls $n ($($an: $at),*) ($r) $b)] $($rest)* }
    };
    // end
    ($c:ident $py:ident [$(($fname:ident, $ft:ty))*] [$(($kind:ident $slf:ident $n:ident ($($an:ident : $at:ty),*) ($r:ty) $b:block))*]) => {
        pub struct $c { $($fname: std::rc::Rc<$ft>,)* object: std::cell::RefCell<Option<&'static $crate::PyObject>> }
        impl $c {
            #[allow(dead_code)]
            pub fn create_instance(_py: $crate::Python<'_>, $($fname: $ft),*) -> $crate::PyResult<$c> {
                Ok($c { $($fname: std::rc::Rc::new($fname),)* object: Default::default() })
            }
            $(
                #[allow(dead_code)]
                pub fn $fname<'a>(&'a self, _py: $crate::Python<'a>) -> &'a $ft { &self.$fname }
            )*
        }
        impl $crate::PyClone for $c {
            fn clone_ref(&self, _py: $crate::Python<'_>) -> $c {
                $c { $($fname: self.$fname.clone(),)* object: Default::default() }
            }
        }
        impl $crate::PythonObject for $c {
            fn as_object(&self) -> &$crate::PyObject {
                // rarely used: leaked so that a reference can be given out
                self.object.borrow_mut().get_or_insert_with(|| {
                    let twin = $crate::PyClone::clone_ref(self, $crate::Python::stub());
                    Box::leak(Box::new($crate::Val::Obj(std::rc::Rc::new(twin))))
                })
            }
            fn into_object(self) -> $crate::PyObject {
                $crate::Val::Obj(std::rc::Rc::new(self))
            }
        }
        $( $crate::py_method! { $kind $c $py $slf $n ($($an: $at),*) ($r) $b } )*
        impl $crate::Class for $c {
            fn info() -> $crate::ClassInfo {
                $crate::ClassInfo { name: stringify!($c), methods: vec![
                    $( (stringify!($n), $crate::py_glue!($kind $c $n ($($an: $at),*)) as $crate::Method) ),*
                ] }
            }
        }
    };
}
#[doc(hidden)]
#[macro_export]
macro_rules! py_method {
    (inst $c:ident $py:ident $slf:ident $n:ident ($($an:ident : $at:ty),*) ($r:ty) $b:block) => {
        impl $c { #[allow(non_snake_case, unused_variables)] pub fn $n(&$slf, $py: $crate::Python<'_>, $($an: $at),*) -> $r $b }
    };
    (stat $c:ident $py:ident $cls:ident $n:ident ($($an:ident : $at:ty),*) ($r:ty) $b:block) => {
        impl $c { #[allow(non_snake_case, unused_variables)] pub fn $n($py: $crate::Python<'_>, $($an: $at),*) -> $r {
            let $cls = ();
            $b
        } }
    };
}
#[doc(hidden)]
#[macro_export]
macro_rules! py_glue {
    (inst $c:ident $n:ident ($($an:ident : $at:ty),*)) => {
        |this: &$crate::Val, args: &[$crate::Val]| {
            let this: &$c = $crate::FromVal::from_val(this)?;
            let mut it = args.iter();
            $( let $an = $crate::FromVal::from_val(it.next().unwrap_or(&$crate::Val::None))?; )*
            let _ = it.next();
            $c::$n(this, $crate::Python::stub(), $($an),*).map($crate::IntoVal::into_val)
        }
    };
    (stat $c:ident $n:ident ($($an:ident : $at:ty),*)) => {
        |_: &$crate::Val, args: &[$crate::Val]| {
            let mut it = args.iter();
            $( let $an = $crate::FromVal::from_val(it.next().unwrap_or(&$crate::Val::None))?; )*
            let _ = it.next();
            $c::$n($crate::Python::stub(), $($an),*).map($crate::IntoVal::into_val)
        }
    };
}
