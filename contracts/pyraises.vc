@unit pyraises
@source python/rtest/raises.py
@prelude core py
@include class RaisesContext
@opt attr __name__ => String
@opt pyfn re.compile => ! re_compile
@opt pyfn re.search => ! re_search
@opt pyexc re.error => re.error
@opt pytype RaisesContext::__enter__.return => SelfRef
@spec
// the object itself, not a copy
pub struct SelfRef {}
#[verifier::external_body] pub proof fn ax_class_name() ensures forall|c: Obj| is_class(c) ==> (#[trigger] at___name__(Val::Obj(c))) is Some { unimplemented!() }
// the regular expression engine
pub uninterp spec fn re_ok(p: Val) -> bool;
pub uninterp spec fn re_found(p: Val, s: Seq<char>) -> bool;
#[verifier::external_body] pub fn re_compile(p: Val) -> (r: Result<Obj, Exc>) ensures r is Ok <==> re_ok(p) { unimplemented!() }
pub struct ReMatch { pub b: Ghost<bool> }
impl PyBool for ReMatch { open spec fn tru(&self) -> bool { self.b@ } #[verifier::external_body] fn truth(&self) -> (r: bool) { unimplemented!() } }
impl IsNone for ReMatch { open spec fn none(&self) -> bool { !self.b@ } #[verifier::external_body] fn is_none_(&self) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub fn re_search(p: Val, s: String) -> (r: Result<ReMatch, Exc>) ensures re_ok(p) ==> r is Ok && (r->Ok_0).b@ == re_found(p, s@) { unimplemented!() }
pub open spec fn exc_class(v: Val) -> bool { match v { Val::Obj(o) => is_class(o) && subc(o, named("BaseException"@)), _ => false } }
pub open spec fn expectable(v: Val) -> bool { match v {
  Val::Tuple(l) => l@.len() > 0 && forall|i: int| 0 <= i < l@.len() ==> #[trigger] exc_class(l@[i]),
  _ => exc_class(v) } }
pub open spec fn pattern_ok(p: Val) -> bool { p is None || re_ok(p) }

@fn raises(expected_exception, match)
@ensures
  C17_accepts: expectable(expected_exception) && pattern_ok(match) ==> r is Ok
  C17_rejects: r is Ok ==> expectable(expected_exception) && pattern_ok(match)
  C17_made: r is Ok ==> (r->Ok_0).expected_exception == expected_exception && (r->Ok_0).match_expr == match && (r->Ok_0).value is None
@entry
proof { ax_hier(); }
@loop exc
@inv
  ok: expected_exception is Tuple && $all =~= seq_val(expected_exception)@ && forall|i: int| 0 <= i < $done.len() ==> #[trigger] exc_class($done[i])
@pre
proof { assert($all[$prev.len() as int] == $done.last()); if expectable(expected_exception) { assert(exc_class(seq_val(expected_exception)@[$prev.len() as int])); } }

@fn RaisesContext::__init__(expected_exception, match)
@ensures
  C17_pattern: r is Ok <==> pattern_ok(match)
  C17_fields: r is Ok ==> (r->Ok_0).expected_exception == expected_exception && (r->Ok_0).match_expr == match && (r->Ok_0).value is None

@fn RaisesContext::__enter__()
@ensures
  C17_same: r is Ok

@fn RaisesContext::__exit__(exc_type, exc_val, tb)
@requires
  made: expectable(old(self).expected_exception) && pattern_ok(old(self).match_expr)
  proto: exc_type is Some <==> exc_val is Some
  protc: exc_val is Some ==> exc_type == Some((exc_val->0).cls) && is_class((exc_val->0).cls)
@ensures
  C17_nothing: exc_val is None ==> r is Err && isa(r->Err_0, "AssertionError"@) && *final(self) == *old(self)
  C17_other: exc_val is Some && !sub_any((exc_val->0).cls, old(self).expected_exception) ==> r == Ok::<bool, Exc>(false) && *final(self) == *old(self)
  C17_match: exc_val is Some && sub_any((exc_val->0).cls, old(self).expected_exception) && (old(self).match_expr is None || re_found(old(self).match_expr, (exc_val->0).text())) ==> r == Ok::<bool, Exc>(true) && final(self).value == exc_val
  C17_text: exc_val is Some && sub_any((exc_val->0).cls, old(self).expected_exception) && !(old(self).match_expr is None) && !re_found(old(self).match_expr, (exc_val->0).text()) ==> r is Err && isa(r->Err_0, "AssertionError"@)
@entry
proof { ax_hier(); ax_class_name(); assert(cls_spec(old(self).expected_exception)) by { match old(self).expected_exception { Val::Tuple(l) => { assert forall|i: int| 0 <= i < l@.len() implies (match (#[trigger] l@[i]) { Val::Obj(o) => is_class(o), _ => false }) by { assert(exc_class(l@[i])); } }, _ => {} } } }
@loop names
@inv
  cl: exc_type is None && (*self).expected_exception is Tuple && $all =~= seq_val((*self).expected_exception)@ && *self == *old(self)
@pre
proof { assert($all[$prev.len() as int] == $done.last()); assert(exc_class($done.last())); }
