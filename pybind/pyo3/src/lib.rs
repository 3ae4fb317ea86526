//! Stand-in for pyo3: the types and functions a binding is written with, reduced to what they mean for
//! the values that reach Python. Never executed; the binding is compiled against it and analysed.
#![allow(unused, clippy::all)]
use std::marker::PhantomData;
pub use pyo3_stub_macros::{pyclass, pyfunction, pymethods, pymodule, wrap_pyfunction};
extern crate self as pyo3;

/// Analysis intrinsics, recognised by name.
pub mod v {
    pub fn leak<T>(_x: T) -> &'static T { loop {} }
    pub fn export<T>(_name: &str, _x: T) { loop {} }
}

#[derive(Clone, Copy, Debug)]
pub struct Python<'py>(PhantomData<&'py ()>);
impl<'py> Python<'py> {
    pub fn attach<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R { f(Python(PhantomData)) }
    pub fn with_gil<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R { f(Python(PhantomData)) }
    pub fn assume_gil_acquired() -> Python<'py> { Python(PhantomData) }
    pub fn detach<R>(self, f: impl FnOnce() -> R) -> R { f() }
    pub fn allow_threads<R>(self, f: impl FnOnce() -> R) -> R { f() }
}

pub struct Py<T: 'static>(pub &'static T);
impl<T> Py<T> {
    pub fn clone_ref(&self, _py: Python<'_>) -> Py<T> { Py(self.0) }
    pub fn bind<'py>(&self, py: Python<'py>) -> Bound<'py, T> { Bound(self.0, py) }
    pub fn into_bound<'py>(self, py: Python<'py>) -> Bound<'py, T> { Bound(self.0, py) }
}
pub type PyObject = Py<PyAny>;

pub struct Bound<'py, T: 'static>(pub &'static T, pub Python<'py>);
impl<'py, T> Bound<'py, T> {
    pub fn unbind(self) -> Py<T> { Py(self.0) }
    pub fn py(&self) -> Python<'py> { self.1 }
    pub fn as_ref_stub(&self) -> &'static T { self.0 }
}
impl<'py, T> Clone for Bound<'py, T> {
    fn clone(&self) -> Self { Bound(self.0, self.1) }
}
impl<'py, T> From<Bound<'py, T>> for Py<T> {
    fn from(b: Bound<'py, T>) -> Py<T> { Py(b.0) }
}
impl<'py, T> std::ops::Deref for Bound<'py, T> {
    type Target = T;
    fn deref(&self) -> &T { self.0 }
}

pub struct PyErr { pub kind: u8, pub msg: String }
pub type PyResult<T> = Result<T, PyErr>;
impl std::fmt::Debug for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("PyErr") }
}
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("PyErr") }
}
impl std::error::Error for PyErr {}

pub struct PyAny(());

/// Messages of exceptions
pub trait Message { fn text(self) -> String; }
impl Message for String { fn text(self) -> String { self } }
impl Message for &str { fn text(self) -> String { String::from(self) } }
impl Message for &String { fn text(self) -> String { self.clone() } }
impl Message for () { fn text(self) -> String { String::new() } }
impl<T: Message> Message for (T,) { fn text(self) -> String { self.0.text() } }

pub mod exceptions {
    use super::*;
    macro_rules! exc {
        ($($n:ident = $k:expr),*) => { $(
            pub struct $n(());
            impl $n { pub fn new_err<A: Message>(args: A) -> PyErr { PyErr { kind: $k, msg: args.text() } } }
        )* }
    }
    exc!(PyException = 0, PyValueError = 1, PyTypeError = 2, PyKeyError = 3, PyRuntimeError = 4, PyIndexError = 5, PyOverflowError = 6);
}

/// A tuple: of pairs of code points, of texts, or of something else.
pub struct PyTuple { pub pairs: Vec<(u32, u32)>, pub names: Vec<String>, pub kind: u8, pub raw: *const () }
pub struct PyList(pub PyTuple);
pub trait IntoPyObject: Sized { fn gather<I: Iterator<Item = Self>>(it: I) -> PyTuple; }
impl IntoPyObject for (u32, u32) {
    fn gather<I: Iterator<Item = Self>>(it: I) -> PyTuple { PyTuple { pairs: it.collect(), names: Vec::new(), kind: 1, raw: std::ptr::null() } }
}
impl IntoPyObject for String {
    fn gather<I: Iterator<Item = Self>>(it: I) -> PyTuple { PyTuple { pairs: Vec::new(), names: it.collect(), kind: 2, raw: std::ptr::null() } }
}
impl<'a> IntoPyObject for &'a str {
    fn gather<I: Iterator<Item = Self>>(it: I) -> PyTuple { PyTuple { pairs: Vec::new(), names: it.map(String::from).collect(), kind: 2, raw: std::ptr::null() } }
}
impl<'a> IntoPyObject for &'a String {
    fn gather<I: Iterator<Item = Self>>(it: I) -> PyTuple { PyTuple { pairs: Vec::new(), names: it.map(String::clone).collect(), kind: 2, raw: std::ptr::null() } }
}
impl PyTuple {
    pub fn new<'py, T: IntoPyObject, U: IntoIterator<Item = T>>(py: Python<'py>, elements: U) -> PyResult<Bound<'py, PyTuple>> {
        Ok(Bound(v::leak(T::gather(elements.into_iter())), py))
    }
    pub fn empty(py: Python<'_>) -> Bound<'_, PyTuple> {
        Bound(v::leak(PyTuple { pairs: Vec::new(), names: Vec::new(), kind: 0, raw: std::ptr::null() }), py)
    }
}

pub struct PyModule(());
/// what a function of a module is exported as
pub struct PyCFunction { pub name: &'static str }
pub trait Wrapped { fn name(&self) -> &'static str; }
impl Wrapped for PyCFunction { fn name(&self) -> &'static str { self.name } }
pub trait PyClassStub { const NAME: &'static str; }
pub struct Exported<T>(pub T);
impl PyModule {
    pub fn add<V>(&self, name: &str, value: V) -> PyResult<()> { v::export(name, value); Ok(()) }
    pub fn add_class<T: PyClassStub>(&self) -> PyResult<()> { v::export(T::NAME, 0u8); Ok(()) }
    pub fn add_wrapped<W: Wrapped>(&self, w: &W) -> PyResult<()> { v::export(w.name(), 1u8); Ok(()) }
    pub fn add_function(&self, w: PyResult<PyCFunction>) -> PyResult<()> { match w { Ok(w) => { v::export(w.name, 1u8); Ok(()) } Err(e) => Err(e) } }
    pub fn stub() -> Bound<'static, PyModule> { Bound(v::leak(PyModule(())), Python(PhantomData)) }
}

pub mod types {
    pub use super::{PyList, PyModule, PyTuple, PyAny};
    pub type PyString = String;
    pub trait PyModuleMethods {}
    pub trait PyTupleMethods {}
    pub trait PyAnyMethods {}
}
pub mod prelude {
    pub use super::types::{PyAnyMethods, PyModuleMethods, PyTupleMethods};
    pub use super::{pyclass, pyfunction, pymethods, pymodule, wrap_pyfunction, Bound, IntoPyObject, Py, PyAny, PyErr, PyModule, PyObject, PyResult, Python};
}
pub fn stub_py() -> Python<'static> { Python(PhantomData) }
unsafe impl Sync for PyTuple {}
unsafe impl Send for PyTuple {}
