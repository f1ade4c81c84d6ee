//! A stand-in for the `cpython` crate: the same names, without an interpreter.  `py_class!` turns a
//! class into a plain struct whose methods keep the bodies written in /repo/python/src, so the code
//! between Python and the Rust library can be executed symbolically.
use std::marker::PhantomData;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CompareOp {
    Lt = 0,
    Le = 1,
    Eq = 2,
    Ne = 3,
    Gt = 4,
    Ge = 5,
}
#[derive(Debug)]
pub struct PyErr;
impl PyErr {
    pub fn new<T, V>(_py: Python, _v: V) -> PyErr { let _ = PhantomData::<T>; PyErr }
}
pub type PyResult<T> = Result<T, PyErr>;
#[derive(Clone, Copy)]
pub struct Python<'p>(PhantomData<&'p ()>);
pub fn python<'p>() -> Python<'p> { Python(PhantomData) }
pub struct PyObject;
pub struct PyString;
pub struct PyType;
pub trait ToPyObject {}
pub trait PythonObject {}
pub mod exc {
    macro_rules! kinds { ($($n:ident)*) => { $(pub struct $n; impl $n { pub fn new<V>(_py: crate::Python, _v: V) -> crate::PyErr { crate::PyErr } })* } }
    kinds! { Exception ValueError TypeError RuntimeError IOError OSError KeyError LookupError ArithmeticError NotImplementedError }
}
pub struct NoArgs;
pub struct PyModule;
pub trait ModuleValue {}
impl<'a> ModuleValue for &'a str {}
impl PyModule {
    pub fn add<V>(&self, _py: Python, _name: &str, _v: V) -> PyResult<()> { Ok(()) }
    pub fn add_class<T>(&self, _py: Python) -> PyResult<()> { let _ = PhantomData::<T>; Ok(()) }
}

#[macro_export]
macro_rules! py_module_initializer {
    ($name:ident, $i2:ident, $i3:ident, |$py:ident, $m:ident| $body:expr) => { $crate::py_module_initializer! { $name, |$py, $m| $body } };
    ($name:ident, |$py:ident, $m:ident| $body:expr) => {
        #[allow(dead_code)]
        fn module_init($py: $crate::Python, $m: &$crate::PyModule) -> $crate::PyResult<()> { $body }
    };
}

#[macro_export]
macro_rules! py_class {
    ($(#[$a:meta])* $v:vis class $name:ident |$py:ident| { $($body:tt)* }) => { $crate::py_class_munch! { $name $py [] [] $($body)* } };
}
#[macro_export]
#[doc(hidden)]
macro_rules! py_class_munch {
    ($name:ident $py:ident [$($d:ident : $t:ty,)*] [$($m:tt)*]) => {
        pub struct $name { $($d: $t,)* }
        #[allow(dead_code, unused_variables)]
        impl $name {
            pub fn create_instance(_py: $crate::Python, $($d: $t,)*) -> $crate::PyResult<$name> { Ok($name { $($d,)* }) }
            $(pub fn $d<'a>(&'a self, _py: $crate::Python<'a>) -> &'a $t { &self.$d })*
            $($m)*
        }
    };
    ($name:ident $py:ident [$($ds:tt)*] [$($m:tt)*] $(#[$a:meta])* data $d:ident : $t:ty; $($rest:tt)*) => {
        $crate::py_class_munch! { $name $py [$($ds)* $d: $t,] [$($m)*] $($rest)* }
    };
    ($name:ident $py:ident [$($ds:tt)*] [$($m:tt)*] $(#[$a:meta])* def $f:ident (&$slf:ident $(, $p:ident : $pt:ty)* $(,)?) -> $r:ty $b:block $($rest:tt)*) => {
        $crate::py_class_munch! { $name $py [$($ds)*] [$($m)* pub fn $f(&$slf, $py: $crate::Python, $($p: $pt),*) -> $r $b] $($rest)* }
    };
    ($name:ident $py:ident [$($ds:tt)*] [$($m:tt)*] $(#[$a:meta])* $(@classmethod)? def $f:ident ($cls:ident $(, $p:ident : $pt:ty)* $(,)?) -> $r:ty $b:block $($rest:tt)*) => {
        $crate::py_class_munch! { $name $py [$($ds)*] [$($m)* pub fn $f($py: $crate::Python, $($p: $pt),*) -> $r { let $cls = (); let _ = $cls; $b }] $($rest)* }
    };
    ($name:ident $py:ident [$($ds:tt)*] [$($m:tt)*] $(#[$a:meta])* @staticmethod def $f:ident ($($p:ident : $pt:ty),* $(,)?) -> $r:ty $b:block $($rest:tt)*) => {
        $crate::py_class_munch! { $name $py [$($ds)*] [$($m)* pub fn $f($py: $crate::Python, $($p: $pt),*) -> $r $b] $($rest)* }
    };
}
