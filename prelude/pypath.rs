// ---- prelude/pypath.rs : pathlib paths and sorting, as the worker uses them (trusted) ----
verus! {
pub struct PyPath { pub t: Ghost<Seq<char>> }
pub uninterp spec fn path_parent(p: PyPath) -> PyPath;
pub uninterp spec fn path_resolved(p: PyPath) -> PyPath;
pub uninterp spec fn path_rel(p: PyPath, r: PyPath) -> Option<PyPath>;
impl PyText for PyPath { open spec fn text(&self) -> Seq<char> { self.t@ } #[verifier::external_body] fn py_str(&self) -> (r: String) { unimplemented!() } }
impl PyPath {
  #[verifier::external_body] pub fn p_parent(&self) -> (r: PyPath) ensures r == path_parent(*self) { unimplemented!() }
  #[verifier::external_body] pub fn p_resolve(&self) -> (r: PyPath) ensures r == path_resolved(*self) { unimplemented!() }
  #[verifier::external_body] pub fn p_rel(&self, o: PyPath) -> (r: Result<PyPath, Exc>)
    ensures match path_rel(*self, o) { Some(q) => r == Ok::<PyPath, Exc>(q), None => r is Err && (r->Err_0).cls == named("ValueError"@) } { unimplemented!() }
}
// the path relative to the root, or the path itself when it is not below the root
pub open spec fn rel_text(p: PyPath, root: PyPath) -> Seq<char> { match path_rel(p, root) { Some(q) => q.t@, None => p.t@ } }
// order of texts, by code point
pub open spec fn text_le(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
  if a.len() == 0 { true } else if b.len() == 0 { false } else if a[0] != b[0] { (a[0] as int) < (b[0] as int) } else { text_le(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) } }
pub open spec fn texts_sorted(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> text_le(#[trigger] s[i], #[trigger] s[j]) }
pub trait PySorted { spec fn holds(&self, x: String) -> bool; fn py_sorted(&self) -> (r: PyList<String>) ensures texts_sorted(r@.map_values(|x: String| x@)), forall|x: String| #[trigger] r@.contains(x) <==> self.holds(x); }
impl PySorted for PySet<String> { open spec fn holds(&self, x: String) -> bool { self@.contains(x) } #[verifier::external_body] fn py_sorted(&self) -> (r: PyList<String>) { unimplemented!() } }
impl PySorted for PyList<String> { open spec fn holds(&self, x: String) -> bool { self@.contains(x) } #[verifier::external_body] fn py_sorted(&self) -> (r: PyList<String>) { unimplemented!() } }
} // verus!
