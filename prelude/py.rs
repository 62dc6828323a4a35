// ---- prelude/py.rs : the Python values and builtins the extracted Python code uses (trusted unless proved) ----
// Numbers are mathematical integers.  Lists, tuples and other sequences are values (the translator rejects a
// function in which a list that is changed could be seen under a second name).
verus! {
#[verifier::accept_recursive_types(T)]
pub struct PyList<T> { pub s: Ghost<Seq<T>> }
impl<T> View for PyList<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.s@ } }
pub open spec fn pl<T>(s: Seq<T>) -> PyList<T> { PyList { s: Ghost(s) } }
impl<T> PyList<T> {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r == pl(Seq::<T>::empty()) { unimplemented!() }
  #[verifier::external_body] pub fn py_append(&mut self, x: T) ensures *final(self) == pl(old(self)@.push(x)) { unimplemented!() }
  #[verifier::external_body] pub fn py_extend(&mut self, o: PyList<T>) ensures *final(self) == pl(old(self)@ + o@) { unimplemented!() }
  #[verifier::external_body] pub fn it_into_iter(self) -> (r: It<T>) ensures r@ == self@, r@.len() <= usize::MAX { unimplemented!() }
}
#[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct PyDict<K, V> { pub m: Ghost<Map<K, V>> }
impl<K, V> View for PyDict<K, V> { type V = Map<K, V>; open spec fn view(&self) -> Map<K, V> { self.m@ } }
pub open spec fn pd<K, V>(m: Map<K, V>) -> PyDict<K, V> { PyDict { m: Ghost(m) } }
// the dict of a sequence of key/value pairs: a later pair wins
pub open spec fn dict_of<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() {
  if s.len() == 0 { Map::empty() } else { dict_of(s.drop_last()).insert(s.last().0, s.last().1) } }
impl<K, V> PyDict<K, V> {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r == pd(Map::<K, V>::empty()) { unimplemented!() }
  #[verifier::external_body] pub fn py_of(s: PyList<(K, V)>) -> (r: Self) ensures r == pd(dict_of(s@)) { unimplemented!() }
  #[verifier::external_body] pub fn py_set(&mut self, k: K, v: V) ensures *final(self) == pd(old(self)@.insert(k, v)) { unimplemented!() }
  #[verifier::external_body] pub fn py_update(&mut self, o: PyDict<K, V>) ensures *final(self) == pd(old(self)@.union_prefer_right(o@)) { unimplemented!() }
  #[verifier::external_body] pub fn py_dget(&self, k: K) -> (r: Option<V>) ensures r == (if self@.dom().contains(k) { Some(self@[k]) } else { None::<V> }) { unimplemented!() }
}
impl<K> PyDict<K, Val> {
  #[verifier::external_body] pub fn py_getv(&self, k: K) -> (r: Val) ensures r == (if self@.dom().contains(k) { self@[k] } else { Val::None }) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
pub struct PySet<K> { pub m: Ghost<Set<K>> }
impl<K> View for PySet<K> { type V = Set<K>; open spec fn view(&self) -> Set<K> { self.m@ } }
pub open spec fn ps<K>(m: Set<K>) -> PySet<K> { PySet { m: Ghost(m) } }
impl<K> PySet<K> {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r == ps(Set::<K>::empty()) { unimplemented!() }
  #[verifier::external_body] pub fn py_add_item(&mut self, k: K) ensures *final(self) == ps(old(self)@.insert(k)) { unimplemented!() }
}
pub struct Int { pub n: Ghost<int> }
impl View for Int { type V = int; open spec fn view(&self) -> int { self.n@ } }
pub open spec fn mki(n: int) -> Int { Int { n: Ghost(n) } }
#[verifier::external_body] pub fn pyint(k: i64) -> (r: Int) ensures r == mki(k as int) { unimplemented!() }
pub struct Fl { pub n: Ghost<int> }
#[verifier::external_body] pub fn pyfloat(k: &'static core::primitive::str) -> (r: Fl) { unimplemented!() }
// any other object: functions, classes, modules, instances
pub struct Obj { pub id: Ghost<int> }
pub enum Val { None, Bool(bool), Int(Int), Float(Fl), Str(String), List(PyList<Val>), Tuple(PyList<Val>), Obj(Obj) }

// ---- conversions at annotated places
pub trait To<T>: Sized { spec fn conv(self) -> T; spec fn can(self) -> bool; fn to(self) -> (r: T) requires self.can() ensures r == self.conv(); }
impl<T> To<T> for T { open spec fn conv(self) -> T { self } open spec fn can(self) -> bool { true } #[verifier::external_body] fn to(self) -> (r: T) { unimplemented!() } }
impl<T> To<Option<T>> for T { open spec fn conv(self) -> Option<T> { Some(self) } open spec fn can(self) -> bool { true } #[verifier::external_body] fn to(self) -> (r: Option<T>) { unimplemented!() } }
impl<T> To<T> for Option<T> { open spec fn conv(self) -> T { self->0 } open spec fn can(self) -> bool { self is Some } #[verifier::external_body] fn to(self) -> (r: T) { unimplemented!() } }
impl To<Val> for String { open spec fn conv(self) -> Val { Val::Str(self) } open spec fn can(self) -> bool { true } #[verifier::external_body] fn to(self) -> (r: Val) { unimplemented!() } }
impl To<Val> for Obj { open spec fn conv(self) -> Val { Val::Obj(self) } open spec fn can(self) -> bool { true } #[verifier::external_body] fn to(self) -> (r: Val) { unimplemented!() } }
impl To<Val> for Option<Obj> { open spec fn conv(self) -> Val { match self { Some(o) => Val::Obj(o), None => Val::None } } open spec fn can(self) -> bool { true } #[verifier::external_body] fn to(self) -> (r: Val) { unimplemented!() } }
impl To<Val> for Int { open spec fn conv(self) -> Val { Val::Int(self) } open spec fn can(self) -> bool { true } #[verifier::external_body] fn to(self) -> (r: Val) { unimplemented!() } }
impl To<Val> for bool { open spec fn conv(self) -> Val { Val::Bool(self) } open spec fn can(self) -> bool { true } #[verifier::external_body] fn to(self) -> (r: Val) { unimplemented!() } }
impl To<Val> for PyList<Val> { open spec fn conv(self) -> Val { Val::List(self) } open spec fn can(self) -> bool { true } #[verifier::external_body] fn to(self) -> (r: Val) { unimplemented!() } }
impl To<String> for Val { open spec fn conv(self) -> String { self->Str_0 } open spec fn can(self) -> bool { self is Str } #[verifier::external_body] fn to(self) -> (r: String) { unimplemented!() } }
impl To<Obj> for Val { open spec fn conv(self) -> Obj { self->Obj_0 } open spec fn can(self) -> bool { self is Obj } #[verifier::external_body] fn to(self) -> (r: Obj) { unimplemented!() } }
impl To<PyList<Val>> for Val { open spec fn conv(self) -> PyList<Val> { seq_val(self) } open spec fn can(self) -> bool { is_seq(self) } #[verifier::external_body] fn to(self) -> (r: PyList<Val>) { unimplemented!() } }
impl To<PyList<String>> for PyList<Val> { open spec fn conv(self) -> PyList<String> { pl(self@.map_values(|v: Val| v->Str_0)) }
  open spec fn can(self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]) is Str } #[verifier::external_body] fn to(self) -> (r: PyList<String>) { unimplemented!() } }
pub open spec fn is_seq(v: Val) -> bool { v is List || v is Tuple }
pub open spec fn seq_val(v: Val) -> PyList<Val> { match v { Val::List(l) => l, Val::Tuple(l) => l, _ => pl(Seq::empty()) } }
pub trait AsVal { spec fn asval(&self) -> Val; }
impl AsVal for Val { open spec fn asval(&self) -> Val { *self } }
impl AsVal for Obj { open spec fn asval(&self) -> Val { Val::Obj(*self) } }
impl AsVal for String { open spec fn asval(&self) -> Val { Val::Str(*self) } }
pub uninterp spec fn exc_obj(e: Exc) -> Obj;
#[verifier::external_body] pub broadcast proof fn ax_exc_cls(e: Exc) ensures class_of(Val::Obj(#[trigger] exc_obj(e))) == e.cls && is_class(e.cls) { unimplemented!() }
impl AsVal for Exc { open spec fn asval(&self) -> Val { Val::Obj(exc_obj(*self)) } }
impl AsVal for Int { open spec fn asval(&self) -> Val { Val::Int(*self) } }

// ---- classes and exceptions
pub uninterp spec fn named(s: Seq<char>) -> Obj;      // the builtin class of that name
pub uninterp spec fn subc(c: Obj, d: Obj) -> bool;       // issubclass
#[verifier::external_body] pub fn cls(s: &String) -> (r: Obj) ensures r == named(s@), is_class(r) { unimplemented!() }
pub uninterp spec fn is_class(o: Obj) -> bool;
pub uninterp spec fn class_of(o: Val) -> Obj;
#[verifier::external_body] pub fn py_type<A: AsVal>(x: &A) -> (r: Obj) ensures r == class_of(x.asval()), is_class(r) { unimplemented!() }
pub struct Exc { pub cls: Obj, pub text: String, pub id: Ghost<int> }
#[verifier::external_body] pub fn exc_new(c: Obj, text: String) -> (r: Exc) ensures r.cls == c, r.text == text { unimplemented!() }
#[verifier::external_body] pub fn exc_isa(e: &Exc, c: &Obj) -> (r: bool) ensures r == subc(e.cls, *c) { unimplemented!() }
pub open spec fn isa(e: Exc, s: Seq<char>) -> bool { subc(e.cls, named(s)) }
#[verifier::external_body] pub proof fn ax_sub(c: Obj) ensures subc(c, c) { unimplemented!() }
#[verifier::external_body] pub proof fn ax_sub_trans(a: Obj, b: Obj, c: Obj) requires subc(a, b), subc(b, c) ensures subc(a, c) { unimplemented!() }
// what every raised exception is, and the part of the builtin hierarchy the code names
#[verifier::external_body] pub broadcast proof fn ax_exc(e: Exc) ensures #[trigger] subc(e.cls, named("BaseException"@)) { unimplemented!() }
#[verifier::external_body] pub proof fn ax_hier()
  ensures forall|c: Obj| #[trigger] subc(c, c),
    forall|c: Obj| #[trigger] subc(c, named("AssertionError"@)) ==> subc(c, named("Exception"@)),
    forall|c: Obj| #[trigger] subc(c, named("ValueError"@)) ==> subc(c, named("Exception"@)),
    forall|c: Obj| #[trigger] subc(c, named("TypeError"@)) ==> subc(c, named("Exception"@)),
    forall|c: Obj| #[trigger] subc(c, named("AttributeError"@)) ==> subc(c, named("Exception"@)),
    forall|c: Obj| #[trigger] subc(c, named("KeyError"@)) ==> subc(c, named("Exception"@)),
    forall|c: Obj| #[trigger] subc(c, named("IndexError"@)) ==> subc(c, named("Exception"@)),
    forall|c: Obj| #[trigger] subc(c, named("Exception"@)) ==> subc(c, named("BaseException"@)),
    forall|c: Obj| #[trigger] subc(c, named("KeyboardInterrupt"@)) ==> subc(c, named("BaseException"@)),
    !subc(named("AssertionError"@), named("ValueError"@)), !subc(named("AssertionError"@), named("TypeError"@)), !subc(named("AssertionError"@), named("KeyboardInterrupt"@)),
    !subc(named("AttributeError"@), named("AssertionError"@)), !subc(named("AttributeError"@), named("KeyboardInterrupt"@)),
    !subc(named("ValueError"@), named("AssertionError"@)), !subc(named("ValueError"@), named("KeyboardInterrupt"@)), !subc(named("ValueError"@), named("TypeError"@)),
    !subc(named("TypeError"@), named("ValueError"@)), !subc(named("TypeError"@), named("KeyboardInterrupt"@)),
{ unimplemented!() }
// issubclass: the second argument a class or a tuple of classes
pub open spec fn cls_spec(b: Val) -> bool { match b { Val::Obj(o) => is_class(o), Val::Tuple(l) => forall|i: int| 0 <= i < l@.len() ==> match (#[trigger] l@[i]) { Val::Obj(o) => is_class(o), _ => false }, _ => false } }
pub open spec fn sub_any(c: Obj, b: Val) -> bool { match b { Val::Obj(o) => subc(c, o), Val::Tuple(l) => exists|i: int| 0 <= i < l@.len() && subc(c, (#[trigger] l@[i])->Obj_0), _ => false } }
#[verifier::external_body] pub fn py_issubclass(a: Val, b: Val) -> (r: Result<bool, Exc>)
  ensures a is Obj && is_class(a->Obj_0) && cls_spec(b) ==> r == Ok::<bool, Exc>(sub_any(a->Obj_0, b)), r is Err ==> isa(r->Err_0, "TypeError"@) { unimplemented!() }
pub enum Flow<R> { Next, Ret(R), Brk, Cont }

// ---- isinstance
pub enum K { Str, Int, Float, Bool, List, Tuple, Type }
pub trait PyIs { spec fn is_k(&self, k: K) -> bool; fn py_is(&self, k: K) -> (r: bool) ensures r == self.is_k(k); }
impl PyIs for Val { open spec fn is_k(&self, k: K) -> bool { match k { K::Str => self is Str, K::Int => self is Int || self is Bool, K::Float => self is Float, K::Bool => self is Bool,
     K::List => self is List, K::Tuple => self is Tuple, K::Type => match *self { Val::Obj(o) => is_class(o), _ => false } } }
  #[verifier::external_body] fn py_is(&self, k: K) -> (r: bool) { unimplemented!() } }
impl PyIs for Obj { open spec fn is_k(&self, k: K) -> bool { match k { K::Type => is_class(*self), _ => false } }
  #[verifier::external_body] fn py_is(&self, k: K) -> (r: bool) { unimplemented!() } }
impl PyIs for String { open spec fn is_k(&self, k: K) -> bool { k is Str }
  #[verifier::external_body] fn py_is(&self, k: K) -> (r: bool) { unimplemented!() } }

// ---- len, truth, iteration, membership, indexing
pub trait PyLen { spec fn plen(&self) -> int; spec fn haslen(&self) -> bool; fn py_len(&self) -> (r: Int) requires self.haslen() ensures r == mki(self.plen()), self.plen() >= 0; }
impl<T> PyLen for PyList<T> { open spec fn plen(&self) -> int { self@.len() as int } open spec fn haslen(&self) -> bool { true } #[verifier::external_body] fn py_len(&self) -> (r: Int) { unimplemented!() } }
impl PyLen for String { open spec fn plen(&self) -> int { self@.len() as int } open spec fn haslen(&self) -> bool { true } #[verifier::external_body] fn py_len(&self) -> (r: Int) { unimplemented!() } }
impl<T: PyLen> PyLen for Option<T> { open spec fn plen(&self) -> int { (self->0).plen() } open spec fn haslen(&self) -> bool { self is Some && (self->0).haslen() } #[verifier::external_body] fn py_len(&self) -> (r: Int) { unimplemented!() } }
impl PyLen for Val { open spec fn plen(&self) -> int { match *self { Val::Str(s) => s@.len() as int, _ => seq_val(*self)@.len() as int } } open spec fn haslen(&self) -> bool { is_seq(*self) || self is Str } #[verifier::external_body] fn py_len(&self) -> (r: Int) { unimplemented!() } }
pub trait PyBool { spec fn tru(&self) -> bool; fn truth(&self) -> (r: bool) ensures r == self.tru(); }
impl PyBool for bool { open spec fn tru(&self) -> bool { *self } fn truth(&self) -> (r: bool) { *self } }
impl PyBool for String { open spec fn tru(&self) -> bool { self@.len() > 0 } #[verifier::external_body] fn truth(&self) -> (r: bool) { unimplemented!() } }
impl PyBool for Int { open spec fn tru(&self) -> bool { self@ != 0 } #[verifier::external_body] fn truth(&self) -> (r: bool) { unimplemented!() } }
impl<T> PyBool for PyList<T> { open spec fn tru(&self) -> bool { self@.len() > 0 } #[verifier::external_body] fn truth(&self) -> (r: bool) { unimplemented!() } }
impl<T: PyBool> PyBool for Option<T> { open spec fn tru(&self) -> bool { self is Some && (self->0).tru() } #[verifier::external_body] fn truth(&self) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn obj_truth(o: Obj) -> bool;
pub uninterp spec fn fl_truth(o: Fl) -> bool;
impl PyBool for Obj { open spec fn tru(&self) -> bool { obj_truth(*self) } #[verifier::external_body] fn truth(&self) -> (r: bool) { unimplemented!() } }
impl PyBool for Val { open spec fn tru(&self) -> bool { match *self { Val::None => false, Val::Bool(b) => b, Val::Int(i) => i@ != 0, Val::Float(f) => fl_truth(f), Val::Str(s) => s@.len() > 0,
     Val::List(l) => l@.len() > 0, Val::Tuple(l) => l@.len() > 0, Val::Obj(o) => obj_truth(o) } } #[verifier::external_body] fn truth(&self) -> (r: bool) { unimplemented!() } }
// what a for loop over the value walks; a value that is not a list, tuple or text may be anything iterable or not
pub uninterp spec fn char_vals(s: Seq<char>) -> Seq<Val>;
pub trait PyIter<T>: Sized { spec fn iterable(&self) -> bool; spec fn walked(&self) -> Seq<T>; fn items(self) -> (r: Result<PyList<T>, Exc>) ensures self.iterable() ==> r == Ok::<PyList<T>, Exc>(pl(self.walked())); }
impl<T> PyIter<T> for PyList<T> { open spec fn iterable(&self) -> bool { true } open spec fn walked(&self) -> Seq<T> { self@ } #[verifier::external_body] fn items(self) -> (r: Result<PyList<T>, Exc>) { unimplemented!() } }
impl<T> PyIter<T> for Option<PyList<T>> { open spec fn iterable(&self) -> bool { self is Some } open spec fn walked(&self) -> Seq<T> { (self->0)@ } #[verifier::external_body] fn items(self) -> (r: Result<PyList<T>, Exc>) { unimplemented!() } }
impl PyIter<Val> for Val { open spec fn iterable(&self) -> bool { is_seq(*self) || self is Str } open spec fn walked(&self) -> Seq<Val> { match *self { Val::Str(s) => char_vals(s@), _ => seq_val(*self)@ } } #[verifier::external_body] fn items(self) -> (r: Result<PyList<Val>, Exc>) { unimplemented!() } }
pub trait PyIn<T> { spec fn has(&self, x: T) -> bool; fn py_in(&self, x: T) -> (r: bool) ensures r == self.has(x); }
impl<T> PyIn<T> for PyList<T> { open spec fn has(&self, x: T) -> bool { self@.contains(x) } #[verifier::external_body] fn py_in(&self, x: T) -> (r: bool) { unimplemented!() } }
impl<T> PyIn<T> for PySet<T> { open spec fn has(&self, x: T) -> bool { self@.contains(x) } #[verifier::external_body] fn py_in(&self, x: T) -> (r: bool) { unimplemented!() } }
impl<T, V> PyIn<T> for PyDict<T, V> { open spec fn has(&self, x: T) -> bool { self@.dom().contains(x) } #[verifier::external_body] fn py_in(&self, x: T) -> (r: bool) { unimplemented!() } }
pub open spec fn idx_of(n: nat, i: int) -> int { if i < 0 { n + i } else { i } }
pub trait PyIndex<I, V> { spec fn inb(&self, i: I) -> bool; spec fn idx(&self, i: I) -> V; fn py_idx(&self, i: I) -> (r: Result<V, Exc>)
   ensures self.inb(i) ==> r == Ok::<V, Exc>(self.idx(i)), !self.inb(i) ==> r is Err && (isa(r->Err_0, "IndexError"@) || isa(r->Err_0, "KeyError"@)); }
impl<T> PyIndex<Int, T> for PyList<T> { open spec fn inb(&self, i: Int) -> bool { 0 <= idx_of(self@.len(), i@) < self@.len() } open spec fn idx(&self, i: Int) -> T { self@[idx_of(self@.len(), i@)] }
  #[verifier::external_body] fn py_idx(&self, i: Int) -> (r: Result<T, Exc>) { unimplemented!() } }
impl<T> PyIndex<Int, T> for Option<PyList<T>> { open spec fn inb(&self, i: Int) -> bool { self is Some && 0 <= idx_of((self->0)@.len(), i@) < (self->0)@.len() } open spec fn idx(&self, i: Int) -> T { (self->0)@[idx_of((self->0)@.len(), i@)] }
  #[verifier::external_body] fn py_idx(&self, i: Int) -> (r: Result<T, Exc>) { unimplemented!() } }
impl<Q, V> PyIndex<Q, V> for PyDict<Q, V> { open spec fn inb(&self, i: Q) -> bool { self@.dom().contains(i) } open spec fn idx(&self, i: Q) -> V { self@[i] }
  #[verifier::external_body] fn py_idx(&self, i: Q) -> (r: Result<V, Exc>) { unimplemented!() } }
// slices without a step: ends outside the value are clamped
pub open spec fn sl_end(n: nat, i: int) -> int { let k = idx_of(n, i); if k < 0 { 0 } else if k > n { n as int } else { k } }
pub open spec fn sliced<T>(s: Seq<T>, lo: Option<Int>, hi: Option<Int>) -> Seq<T> {
  let a = match lo { Some(i) => sl_end(s.len(), i@), None => 0 }; let b = match hi { Some(i) => sl_end(s.len(), i@), None => s.len() as int };
  if a <= b { s.subrange(a, b) } else { Seq::empty() } }
pub trait PySlice: Sized { spec fn slok(&self) -> bool; spec fn sl(&self, lo: Option<Int>, hi: Option<Int>) -> Self; fn py_slice(&self, lo: Option<Int>, hi: Option<Int>) -> (r: Self) requires self.slok() ensures r == self.sl(lo, hi); }
impl PySlice for String { open spec fn slok(&self) -> bool { true } open spec fn sl(&self, lo: Option<Int>, hi: Option<Int>) -> Self { mk(sliced(self@, lo, hi)) } #[verifier::external_body] fn py_slice(&self, lo: Option<Int>, hi: Option<Int>) -> (r: Self) { unimplemented!() } }
impl<T> PySlice for PyList<T> { open spec fn slok(&self) -> bool { true } open spec fn sl(&self, lo: Option<Int>, hi: Option<Int>) -> Self { pl(sliced(self@, lo, hi)) } #[verifier::external_body] fn py_slice(&self, lo: Option<Int>, hi: Option<Int>) -> (r: Self) { unimplemented!() } }
impl PySlice for Val { open spec fn slok(&self) -> bool { *self is Str || is_seq(*self) }
  open spec fn sl(&self, lo: Option<Int>, hi: Option<Int>) -> Self { match *self { Val::Str(s) => Val::Str(s.sl(lo, hi)), Val::List(l) => Val::List(l.sl(lo, hi)), Val::Tuple(l) => Val::Tuple(l.sl(lo, hi)), v => v } } #[verifier::external_body] fn py_slice(&self, lo: Option<Int>, hi: Option<Int>) -> (r: Self) { unimplemented!() } }
pub trait IsNone { spec fn none(&self) -> bool; fn is_none_(&self) -> (r: bool) ensures r == self.none(); }
impl<T> IsNone for Option<T> { open spec fn none(&self) -> bool { self is None } #[verifier::external_body] fn is_none_(&self) -> (r: bool) { unimplemented!() } }
impl IsNone for Val { open spec fn none(&self) -> bool { self is None } #[verifier::external_body] fn is_none_(&self) -> (r: bool) { unimplemented!() } }
impl IsNone for Obj { open spec fn none(&self) -> bool { false } #[verifier::external_body] fn is_none_(&self) -> (r: bool) { unimplemented!() } }
impl IsNone for String { open spec fn none(&self) -> bool { false } #[verifier::external_body] fn is_none_(&self) -> (r: bool) { unimplemented!() } }
impl<T> IsNone for PyList<T> { open spec fn none(&self) -> bool { false } #[verifier::external_body] fn is_none_(&self) -> (r: bool) { unimplemented!() } }

// ---- arithmetic and comparison
pub trait PyAdd<O> { type R; spec fn add_(&self, o: O) -> Self::R; fn py_add(&self, o: O) -> (r: Self::R) ensures r == self.add_(o); }
impl PyAdd<Int> for Int { type R = Int; open spec fn add_(&self, o: Int) -> Int { mki(self@ + o@) } #[verifier::external_body] fn py_add(&self, o: Int) -> (r: Int) { unimplemented!() } }
impl PyAdd<String> for String { type R = String; open spec fn add_(&self, o: String) -> String { mk(self@ + o@) } #[verifier::external_body] fn py_add(&self, o: String) -> (r: String) { unimplemented!() } }
impl<T> PyAdd<PyList<T>> for PyList<T> { type R = PyList<T>; open spec fn add_(&self, o: PyList<T>) -> PyList<T> { pl(self@ + o@) } #[verifier::external_body] fn py_add(&self, o: PyList<T>) -> (r: PyList<T>) { unimplemented!() } }
pub trait PySub<O> { type R; spec fn sub_(&self, o: O) -> Self::R; fn py_sub(&self, o: O) -> (r: Self::R) ensures r == self.sub_(o); }
impl PySub<Int> for Int { type R = Int; open spec fn sub_(&self, o: Int) -> Int { mki(self@ - o@) } #[verifier::external_body] fn py_sub(&self, o: Int) -> (r: Int) { unimplemented!() } }
pub uninterp spec fn fl_op(k: int, a: Fl, b: int) -> Fl;
impl PySub<Fl> for Fl { type R = Fl; open spec fn sub_(&self, o: Fl) -> Fl { fl_op(1, *self, o.n@) } #[verifier::external_body] fn py_sub(&self, o: Fl) -> (r: Fl) { unimplemented!() } }
pub trait PyMul<O> { type R; spec fn mul_(&self, o: O) -> Self::R; fn py_mul(&self, o: O) -> (r: Self::R) ensures r == self.mul_(o); }
impl PyMul<Int> for Int { type R = Int; open spec fn mul_(&self, o: Int) -> Int { mki(self@ * o@) } #[verifier::external_body] fn py_mul(&self, o: Int) -> (r: Int) { unimplemented!() } }
impl PyMul<Int> for Fl { type R = Fl; open spec fn mul_(&self, o: Int) -> Fl { fl_op(2, *self, o@) } #[verifier::external_body] fn py_mul(&self, o: Int) -> (r: Fl) { unimplemented!() } }
pub trait PyEq<O> { spec fn eq_(&self, o: O) -> bool; fn py_eq(&self, o: O) -> (r: bool) ensures r == self.eq_(o); }
impl PyEq<Int> for Int { open spec fn eq_(&self, o: Int) -> bool { self@ == o@ } #[verifier::external_body] fn py_eq(&self, o: Int) -> (r: bool) { unimplemented!() } }
impl PyEq<String> for String { open spec fn eq_(&self, o: String) -> bool { self@ == o@ } #[verifier::external_body] fn py_eq(&self, o: String) -> (r: bool) { unimplemented!() } }
impl<T> PyEq<PyList<T>> for PyList<T> { open spec fn eq_(&self, o: PyList<T>) -> bool { self@ == o@ } #[verifier::external_body] fn py_eq(&self, o: PyList<T>) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn obj_eq_str(o: Obj, s: Seq<char>) -> bool;
impl PyEq<String> for Val { open spec fn eq_(&self, o: String) -> bool { match *self { Val::Str(s) => s@ == o@, Val::Obj(b) => obj_eq_str(b, o@), _ => false } } #[verifier::external_body] fn py_eq(&self, o: String) -> (r: bool) { unimplemented!() } }
impl<T: PyEq<String>> PyEq<String> for Option<T> { open spec fn eq_(&self, o: String) -> bool { self is Some && (self->0).eq_(o) } #[verifier::external_body] fn py_eq(&self, o: String) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub fn py_lt(a: &Int, b: &Int) -> (r: bool) ensures r == (a@ < b@) { unimplemented!() }
#[verifier::external_body] pub fn py_le(a: &Int, b: &Int) -> (r: bool) ensures r == (a@ <= b@) { unimplemented!() }

// ---- text
pub uninterp spec fn repr_of<T>(x: T) -> Seq<char>;
#[verifier::external_body] pub fn py_repr<T>(x: &T) -> (r: String) ensures r@ == repr_of(*x) { unimplemented!() }
pub uninterp spec fn fl_text(x: Fl) -> Seq<char>;
pub trait PyText { spec fn text(&self) -> Seq<char>; fn py_str(&self) -> (r: String) ensures r@ == self.text(); }
impl PyText for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn py_str(&self) -> (r: String) { unimplemented!() } }
impl PyText for Int { open spec fn text(&self) -> Seq<char> { num_text(self@) } #[verifier::external_body] fn py_str(&self) -> (r: String) { unimplemented!() } }
impl PyText for bool { open spec fn text(&self) -> Seq<char> { if *self { "True"@ } else { "False"@ } } #[verifier::external_body] fn py_str(&self) -> (r: String) { unimplemented!() } }
impl PyText for Obj { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn py_str(&self) -> (r: String) { unimplemented!() } }
impl PyText for Exc { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn py_str(&self) -> (r: String) { unimplemented!() } }
impl<T> PyText for PyList<T> { open spec fn text(&self) -> Seq<char> { repr_of(*self) } #[verifier::external_body] fn py_str(&self) -> (r: String) { unimplemented!() } }
impl<T: PyText> PyText for Option<T> { open spec fn text(&self) -> Seq<char> { match *self { Some(x) => x.text(), None => "None"@ } } #[verifier::external_body] fn py_str(&self) -> (r: String) { unimplemented!() } }
impl PyText for Val { open spec fn text(&self) -> Seq<char> { match *self { Val::None => "None"@, Val::Bool(b) => b.text(), Val::Int(i) => i.text(), Val::Float(f) => fl_text(f), Val::Str(s) => s@,
     Val::Obj(o) => o.text(), _ => repr_of(*self) } } #[verifier::external_body] fn py_str(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn sp_strip(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn sp_replace(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
impl String {
  #[verifier::external_body] pub fn py_join(&self, p: PyList<String>) -> (r: String) ensures r@ == joined(self@, p@) { unimplemented!() }
  #[verifier::external_body] pub fn py_strip(&self) -> (r: String) ensures r@ == sp_strip(self@) { unimplemented!() }
  #[verifier::external_body] pub fn py_split(&self, p: String) -> (r: PyList<String>) ensures r@ == split_strs(self@, p@) { unimplemented!() }
  #[verifier::external_body] pub fn py_replace(&self, a: String, b: String) -> (r: String) ensures r@ == sp_replace(self@, a@, b@) { unimplemented!() }
  #[verifier::external_body] pub fn py_startswith(&self, p: String) -> (r: bool) ensures r == has_prefix(self@, p@) { unimplemented!() }
  #[verifier::external_body] pub fn py_endswith(&self, p: String) -> (r: bool) ensures r == has_suffix(self@, p@) { unimplemented!() }
}
impl Val {
  // text methods of a value that was checked to be a text
  #[verifier::external_body] pub fn py_split(&self, p: String) -> (r: PyList<String>) requires self is Str ensures r@ == split_strs((self->Str_0)@, p@) { unimplemented!() }
}
#[verifier::external_body] pub fn py_opaque_str() -> (r: String) { unimplemented!() }

// ---- builtin functions over sequences
pub open spec fn enum_seq<T>(s: Seq<T>) -> Seq<(Int, T)> { Seq::new(s.len(), |i: int| (mki(i), s[i])) }
#[verifier::external_body] pub fn py_enumerate<T>(s: PyList<T>) -> (r: PyList<(Int, T)>) ensures r == pl(enum_seq(s@)) { unimplemented!() }
pub open spec fn zip_seq<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> { Seq::new(if a.len() <= b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
#[verifier::external_body] pub fn py_zip<A, B>(a: PyList<A>, b: PyList<B>) -> (r: PyList<(A, B)>) ensures r == pl(zip_seq(a@, b@)) { unimplemented!() }
pub open spec fn int_range(a: int, b: int) -> Seq<Int> { Seq::new(if b > a { (b - a) as nat } else { 0 }, |i: int| mki(a + i)) }
#[verifier::external_body] pub fn py_range(a: Int, b: Int) -> (r: PyList<Int>) ensures r == pl(int_range(a@, b@)) { unimplemented!() }
#[verifier::external_body] pub fn py_reversed<T>(a: PyList<T>) -> (r: PyList<T>) ensures r == pl(a@.reverse()) { unimplemented!() }
// itertools.product: the last factor varies fastest
pub open spec fn ext_all<T>(pre: Seq<PyList<T>>, f: Seq<T>) -> Seq<PyList<T>> decreases pre.len() {
  if pre.len() == 0 { Seq::empty() } else { ext_all(pre.drop_last(), f) + Seq::new(f.len(), |j: int| pl(pre.last()@.push(f[j]))) } }
#[verifier::opaque] pub open spec fn prod<T>(fs: Seq<PyList<T>>) -> Seq<PyList<T>> decreases fs.len() {
  if fs.len() == 0 { seq![pl(Seq::<T>::empty())] } else { ext_all(prod(fs.drop_last()), fs.last()@) } }
#[verifier::external_body] pub fn py_product<T>(fs: PyList<PyList<T>>) -> (r: PyList<PyList<T>>) ensures r == pl(prod(fs@)) { unimplemented!() }
// unpacking of pairs
pub trait Unp2<A, B>: Sized { spec fn u0(self) -> A; spec fn u1(self) -> B; fn py_0(&self) -> (r: A) ensures r == self.u0(); fn py_1(&self) -> (r: B) ensures r == self.u1(); }
impl<A, B> Unp2<A, B> for (A, B) { open spec fn u0(self) -> A { self.0 } open spec fn u1(self) -> B { self.1 }
  #[verifier::external_body] fn py_0(&self) -> (r: A) { unimplemented!() } #[verifier::external_body] fn py_1(&self) -> (r: B) { unimplemented!() } }
} // verus!
verus! {
// the value of a variable before its first assignment (every path assigns it before a read: checked by the translator)
#[verifier::external_body] pub fn undef<T>() -> (r: T) { unimplemented!() }
#[verifier::external_body] pub fn unreached<T>() -> (r: Result<T, Exc>) requires false { unimplemented!() }
} // verus!
