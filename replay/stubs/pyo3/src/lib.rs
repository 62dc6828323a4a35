// Stand-in for the part of pyo3 that src/pyo3.rs uses: an interpreter whose only content is sys.executable (from VX_EXE).
use std::marker::PhantomData;
#[derive(Debug)]
pub struct PyErr(pub String);
impl std::fmt::Display for PyErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
pub type PyResult<T> = Result<T, PyErr>;
#[derive(Clone, Copy)]
pub struct Python<'py>(pub PhantomData<&'py ()>);
impl<'py> Python<'py> {
    pub fn vx() -> Python<'static> { Python(PhantomData) }
    pub fn import<S: AsRef<str>>(self, name: S) -> PyResult<Bound<'py, PyModule>> { if name.as_ref() == "sys" { Ok(Bound { at: "sys".into(), _p: PhantomData }) } else { Err(PyErr(format!("No module named {}", name.as_ref()))) } }
}
pub struct PyModule;
pub struct PyAny;
pub struct Bound<'py, T> { at: String, _p: PhantomData<(&'py (), T)> }
impl<'py, T> Bound<'py, T> {
    pub fn getattr<S: AsRef<str>>(&self, name: S) -> PyResult<Bound<'py, PyAny>> { let at = format!("{}.{}", self.at, name.as_ref()); if at == "sys.executable" && std::env::var("VX_EXE").is_ok() { Ok(Bound { at, _p: PhantomData }) } else { Err(PyErr(format!("no attribute {}", at))) } }
    pub fn extract<X: FromPyText>(&self) -> PyResult<X> { match std::env::var("VX_EXE") { Ok(v) if v != "None" => Ok(X::from_text(v)), _ => Err(PyErr("not a str".into())) } }
    pub fn add_function<X>(&self, _f: X) -> PyResult<()> { Ok(()) }
}
pub trait FromPyText { fn from_text(s: String) -> Self; }
impl FromPyText for String { fn from_text(s: String) -> Self { s } }
impl FromPyText for std::path::PathBuf { fn from_text(s: String) -> Self { s.into() } }
#[macro_export]
macro_rules! wrap_pyfunction { ($f:ident, $m:expr) => {{ let _ = &$m; let _ = $f; Ok::<(), $crate::PyErr>(()) }}; ($f:ident) => {{ let _ = $f; Ok::<(), $crate::PyErr>(()) }}; }
pub mod prelude { pub use crate::{wrap_pyfunction, Bound, PyAny, PyErr, PyModule, PyResult, Python}; pub use pyo3_macros::{pyfunction, pymodule, pyo3}; }
pub use prelude::*;
pub mod types { pub use crate::{PyAny, PyModule}; }
