@unit pydec
@source python/rtest/mark.py
@prelude core py
@include class ParametrizeSpec
@opt attr w __rtest_cases__ => LH
@opt attr w __rtest_skip__ => bool
@opt attr w __rtest_skip_reason__ => String
@opt typemap str | Sequence[str] => Names
@opt pytype Mark::cases.return => Clo_Mark_cases_decorator
@opt pytype Mark::skip.return => Clo_Mark_skip_decorator
@opt pytype Mark::cases::decorator.spec => ParametrizeSpec
@opt pytype Mark::skip::decorator.reason => String
@opt pytype Mark::cases::decorator.cases_list => LH
@opt pytype Mark::cases.parsed_argnames => PyList<String>
@opt pyhandle cases_list
@opt pyhandletype LH
@opt pymut .append => w lh_append
@opt pyspecial setattr
@opt effect decorator
@spec
broadcast use {vstd::seq_lib::group_seq_properties};
// the attributes of objects and the lists they refer to
pub struct Hist { pub n: Ghost<int> }
#[verifier::external_body] pub struct World { x: u8 }
impl World { pub uninterp spec fn hist(&self) -> Hist; }
pub struct LH { pub id: Ghost<int> }
pub struct Mark { pub u: u8 }
pub uninterp spec fn list_at(h: Hist, l: LH) -> Seq<ParametrizeSpec>;
pub open spec fn same_lists(a: Hist, b: Hist) -> bool { forall|l: LH| #[trigger] list_at(b, l) == list_at(a, l) }
pub open spec fn same_cases(a: Hist, b: Hist) -> bool { forall|o: Val| #[trigger] at___rtest_cases__(o, b) == at___rtest_cases__(o, a) }
pub open spec fn same_skips(a: Hist, b: Hist) -> bool { forall|o: Val| #[trigger] at___rtest_skip__(o, b) == at___rtest_skip__(o, a) && #[trigger] at___rtest_skip_reason__(o, b) == at___rtest_skip_reason__(o, a) }
#[verifier::external_body] pub fn new_LH(w: &mut World) -> (r: LH)
  ensures list_at(final(w).hist(), r).len() == 0, forall|l: LH| l != r ==> #[trigger] list_at(final(w).hist(), l) == list_at(old(w).hist(), l),
    forall|o: Val| (#[trigger] at___rtest_cases__(o, old(w).hist())) != Some(r), same_cases(old(w).hist(), final(w).hist()), same_skips(old(w).hist(), final(w).hist()) { unimplemented!() }
impl LH { #[verifier::external_body] pub fn lh_append(&self, x: ParametrizeSpec, w: &mut World)
  ensures list_at(final(w).hist(), *self) == list_at(old(w).hist(), *self).push(x), forall|l: LH| l != *self ==> #[trigger] list_at(final(w).hist(), l) == list_at(old(w).hist(), l),
    same_cases(old(w).hist(), final(w).hist()), same_skips(old(w).hist(), final(w).hist()) { unimplemented!() } }
pub trait TruthW { spec fn tru_w(&self, h: Hist) -> bool; fn truth_w(&self, w: &mut World) -> (r: bool) ensures r == self.tru_w(old(w).hist()), *final(w) == *old(w); }
impl TruthW for LH { open spec fn tru_w(&self, h: Hist) -> bool { list_at(h, *self).len() > 0 } #[verifier::external_body] fn truth_w(&self, w: &mut World) -> (r: bool) { unimplemented!() } }
impl TruthW for Option<LH> { open spec fn tru_w(&self, h: Hist) -> bool { *self is Some && list_at(h, self->0).len() > 0 } #[verifier::external_body] fn truth_w(&self, w: &mut World) -> (r: bool) { unimplemented!() } }
// attribute assignment: refused (nothing changes) or done
#[verifier::external_body] pub fn set___rtest_cases__(o: &Obj, v: LH, w: &mut World) -> (r: Result<(), Exc>)
  ensures r is Err ==> *final(w) == *old(w), same_lists(old(w).hist(), final(w).hist()), same_skips(old(w).hist(), final(w).hist()),
    r is Ok ==> at___rtest_cases__(Val::Obj(*o), final(w).hist()) == Some(v) && forall|p: Val| p != Val::Obj(*o) ==> #[trigger] at___rtest_cases__(p, final(w).hist()) == at___rtest_cases__(p, old(w).hist()) { unimplemented!() }
#[verifier::external_body] pub fn set___rtest_skip__(o: &Obj, v: bool, w: &mut World) -> (r: Result<(), Exc>)
  ensures r is Err ==> *final(w) == *old(w), same_lists(old(w).hist(), final(w).hist()), same_cases(old(w).hist(), final(w).hist()),
    r is Ok ==> at___rtest_skip__(Val::Obj(*o), final(w).hist()) == Some(v) && (forall|p: Val| p != Val::Obj(*o) ==> #[trigger] at___rtest_skip__(p, final(w).hist()) == at___rtest_skip__(p, old(w).hist()))
      && (forall|p: Val| #[trigger] at___rtest_skip_reason__(p, final(w).hist()) == at___rtest_skip_reason__(p, old(w).hist())) { unimplemented!() }
#[verifier::external_body] pub fn set___rtest_skip_reason__(o: &Obj, v: String, w: &mut World) -> (r: Result<(), Exc>)
  ensures r is Err ==> *final(w) == *old(w), same_lists(old(w).hist(), final(w).hist()), same_cases(old(w).hist(), final(w).hist()),
    r is Ok ==> at___rtest_skip_reason__(Val::Obj(*o), final(w).hist()) == Some(v) && (forall|p: Val| p != Val::Obj(*o) ==> #[trigger] at___rtest_skip_reason__(p, final(w).hist()) == at___rtest_skip_reason__(p, old(w).hist()))
      && (forall|p: Val| #[trigger] at___rtest_skip__(p, final(w).hist()) == at___rtest_skip__(p, old(w).hist())) { unimplemented!() }
// the argument names as given: one text or a sequence of names
pub enum Names { Str(String), Seq(PyList<String>) }
impl PyIs for Names { open spec fn is_k(&self, k: K) -> bool { k is Str && self is Str || k is List && false } #[verifier::external_body] fn py_is(&self, k: K) -> (r: bool) { unimplemented!() } }
impl Names { #[verifier::external_body] pub fn py_split(&self, p: String) -> (r: PyList<String>) requires self is Str ensures r@ == split_strs((self->Str_0)@, p@) { unimplemented!() } }
impl PyIter<String> for Names { open spec fn iterable(&self) -> bool { self is Seq } open spec fn walked(&self) -> Seq<String> { (self->Seq_0)@ } #[verifier::external_body] fn items(self) -> (r: Result<PyList<String>, Exc>) { unimplemented!() } }
pub open spec fn strip_all(p: Seq<String>) -> Seq<String> { p.map_values(|x: String| mk(sp_strip(x@))) }
pub open spec fn names_of(n: Names) -> Seq<String> { match n { Names::Str(s) => strip_all(split_strs(s@, seq![','])), Names::Seq(l) => l@ } }
pub open spec fn cases_of(h: Hist, o: Obj) -> Seq<ParametrizeSpec> { match at___rtest_cases__(Val::Obj(o), h) { Some(l) => list_at(h, l), None => Seq::empty() } }

@fn Mark::cases(argnames, argvalues, ids)
@ensures
  C15_spec: r is Ok && (r->Ok_0).spec.argnames@ =~= names_of(argnames) && (r->Ok_0).spec.argvalues@ =~= argvalues@ && (r->Ok_0).spec.ids == ids
@entry
proof { assert(","@ =~= seq![',']); }
@loop name
@inv
  acc: argnames is Str && $all =~= split_strs((argnames->Str_0)@, seq![',']) && $acc@ =~= strip_all($done)

@fn Mark::cases::decorator(func, spec)
@ensures
  C15_same: r is Ok ==> r->Ok_0 == func
  C15_added: r is Ok ==> cases_of(final(w).hist(), func) =~= cases_of(old(w).hist(), func).push(spec)
  C15_others: r is Ok ==> forall|g: Obj| g != func && (at___rtest_cases__(Val::Obj(g), old(w).hist()) is None || at___rtest_cases__(Val::Obj(g), old(w).hist()) != at___rtest_cases__(Val::Obj(func), old(w).hist())) ==> #[trigger] cases_of(final(w).hist(), g) =~= cases_of(old(w).hist(), g)
  C15_skips: r is Ok ==> same_skips(old(w).hist(), final(w).hist())

@fn Mark::skip(reason)
@ensures
  C15_skip: r is Ok && (r->Ok_0).reason == reason

@fn Mark::skip::decorator(func_or_class, reason)
@ensures
  C15_same: r is Ok ==> r->Ok_0 == func_or_class
  C15_marked: r is Ok ==> at___rtest_skip__(Val::Obj(func_or_class), final(w).hist()) == Some(true) && at___rtest_skip_reason__(Val::Obj(func_or_class), final(w).hist()) == Some(reason)
  C15_cases: r is Ok ==> same_lists(old(w).hist(), final(w).hist()) && same_cases(old(w).hist(), final(w).hist())
