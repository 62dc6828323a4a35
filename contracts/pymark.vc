@unit pymark
@source python/rtest/mark.py
@prelude core py ids
@include class ParametrizeSpec
@include class PytestMarkerArgs
@include class ExpandedCase
@opt attr __name__ => Val
@opt attr __rtest_cases__ => PyList<ParametrizeSpec>
@opt attr pytestmark => PyList<Val>
@opt attr name => Val
@opt attr args => PyList<Val>
@opt attr kwargs => PyDict<String, Val>
@opt pyfn warnings.warn => ! py_warn drop stacklevel
@opt pyfn MappingProxyType => py_proxy pure
@spec
// a class has a name
#[verifier::external_body] pub proof fn ax_class_name(v: Val) ensures at___name__(Val::Obj(class_of(v))) is Some { unimplemented!() }
#[verifier::external_body] pub fn py_warn(msg: String, c: Obj) -> (r: Result<(), Exc>) { unimplemented!() }
#[verifier::external_body] pub fn py_proxy<K, V>(d: PyDict<K, V>) -> (r: PyDict<K, V>) ensures r == d { unimplemented!() }
pub open spec fn id_text(v: Val) -> Seq<char> decreases v {
  match v {
    Val::Str(s) => s@,
    Val::List(l) => ids_joined(l@),
    Val::Tuple(l) => ids_joined(l@),
    Val::Obj(o) => match at___name__(v) { Some(n) => n.text(), None => repr_of(v) },
    _ => v.text(),
  }
}
pub open spec fn ids_joined(p: Seq<Val>) -> Seq<char> decreases p {
  if p.len() == 0 { Seq::empty() } else if p.len() == 1 { id_text(p[0]) } else { ids_joined(p.drop_last()) + seq!['-'] + id_text(p.last()) }
}
broadcast use {vstd::seq_lib::group_seq_properties};
pub open spec fn counts_ok(m: Map<String, Int>, r: Seq<String>) -> bool {
  m.dom() =~= r.to_set() && forall|x: String| m.dom().contains(x) ==> (#[trigger] m[x])@ >= 0
}

// ---- one decorator
pub open spec fn want_id(s: ParametrizeSpec, i: int) -> Seq<char> {
  if s.ids is Some && i < (s.ids->0)@.len() { (s.ids->0)@[i]@ } else { id_text(s.argvalues@[i]) } }
pub open spec fn want_ids(s: ParametrizeSpec) -> Seq<String> { Seq::new(s.argvalues@.len(), |i: int| mk(want_id(s, i))) }
// the arguments a value gives: None when its shape is wrong
pub open spec fn bound(names: Seq<String>, v: Val) -> Option<Map<String, Val>> {
  if names.len() == 1 { Some(map![names[0] => v]) }
  else if is_seq(v) && seq_val(v)@.len() == names.len() { Some(dict_of(zip_seq(names, seq_val(v)@))) }
  else { None } }
pub open spec fn shapes_ok(s: ParametrizeSpec) -> bool { forall|i: int| 0 <= i < s.argvalues@.len() ==> (#[trigger] bound(s.argnames@, s.argvalues@[i])) is Some }
pub open spec fn ids_of(r: Seq<ExpandedCase>) -> Seq<String> { r.map_values(|c: ExpandedCase| c.case_id) }
pub open spec fn binds_prefix(s: ParametrizeSpec, r: Seq<ExpandedCase>) -> bool {
  r.len() <= s.argvalues@.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] bound(s.argnames@, s.argvalues@[i])) == Some(r[i].kwargs@) }
#[verifier::opaque] pub open spec fn single_ok(s: ParametrizeSpec, r: Seq<ExpandedCase>) -> bool {
  r.len() == s.argvalues@.len() && binds_prefix(s, r) && deduped(want_ids(s), ids_of(r)) }

// ---- the decorators of a test, outermost last
pub open spec fn mark_ids(k: Map<String, Val>) -> Val { if k.dom().contains(mk("ids"@)) { k[mk("ids"@)] } else { Val::None } }
pub open spec fn strip_all(p: Seq<String>) -> Seq<String> { p.map_values(|x: String| mk(sp_strip(x@))) }
pub open spec fn text_all(p: Seq<Val>) -> Seq<String> { p.map_values(|x: Val| mk(x.text())) }
pub open spec fn mark_args_of(m: Val) -> Seq<Val> { match at_args(m) { Some(l) => l@, None => Seq::empty() } }
pub open spec fn mark_kwargs_of(m: Val) -> Map<String, Val> { match at_kwargs(m) { Some(l) => l@, None => Map::empty() } }
pub open spec fn arg_at(a: Seq<Val>, i: int, d: Val) -> Val { if i < a.len() { a[i] } else { d } }
// what a pytest marker says; a name list that is not a text may be anything iterable
pub open spec fn mark_spec(m: Val, s: ParametrizeSpec) -> bool {
  let names = arg_at(mark_args_of(m), 0, Val::Str(mk(Seq::empty())));
  let vals = arg_at(mark_args_of(m), 1, Val::List(pl(Seq::empty())));
  let ids = mark_ids(mark_kwargs_of(m));
  &&& names is Str ==> s.argnames@ == strip_all(split_strs((names->Str_0)@, seq![',']))
  &&& is_seq(names) ==> s.argnames@ == text_all(seq_val(names)@)
  &&& s.argvalues@ == (if is_seq(vals) { seq_val(vals)@ } else { Seq::empty() })
  &&& s.ids is Some <==> is_seq(ids)
  &&& is_seq(ids) ==> (s.ids->0)@ == text_all(seq_val(ids)@)
}
pub open spec fn is_par(m: Val) -> bool { match at_name(m) { Some(v) => v.eq_(mk("parametrize"@)), None => false } }
pub open spec fn par_marks(p: Seq<Val>) -> Seq<Val> decreases p.len() {
  if p.len() == 0 { Seq::empty() } else if is_par(p.last()) { par_marks(p.drop_last()).push(p.last()) } else { par_marks(p.drop_last()) } }
pub proof fn lemma_par_mono(p: Seq<Val>, k: int)
  requires 0 <= k <= p.len()
  ensures par_marks(p.take(k)).len() <= par_marks(p).len()
  decreases p.len()
{ if k == p.len() { assert(p.take(k) =~= p); } else { lemma_par_mono(p.drop_last(), k); assert(p.drop_last().take(k) =~= p.take(k)); } }
pub open spec fn own_specs(f: Obj) -> Seq<ParametrizeSpec> { match at___rtest_cases__(Val::Obj(f)) { Some(l) => l@, None => Seq::empty() } }
pub open spec fn marks_of(f: Obj) -> Seq<Val> { match at_pytestmark(Val::Obj(f)) { Some(l) => l@, None => Seq::empty() } }
#[verifier::opaque] pub open spec fn specs_for(f: Obj, s: Seq<ParametrizeSpec>) -> bool {
  if own_specs(f).len() > 0 { s == own_specs(f) } else { marks_made(marks_of(f), s) } }
pub open spec fn marks_made(p: Seq<Val>, s: Seq<ParametrizeSpec>) -> bool {
  s.len() == par_marks(p).len() && forall|i: int| 0 <= i < s.len() ==> mark_spec(par_marks(p)[i], #[trigger] s[i]) }
// ---- the product
// every combination occurs, in product order: element i of the product extends element i / n of the shorter product by
// element i % n of the last list (n its length)
pub proof fn lemma_ext<T>(pre: Seq<PyList<T>>, f: Seq<T>, i: int)
  ensures ext_all(pre, f).len() == pre.len() * f.len(),
    0 <= i < ext_all(pre, f).len() ==> f.len() > 0 && 0 <= i / (f.len() as int) < pre.len() && ext_all(pre, f)[i] == pl(pre[i / (f.len() as int)]@.push(f[i % (f.len() as int)])),
  decreases pre.len()
{ let n = f.len() as int;
  if pre.len() > 0 { let m = pre.len() - 1; lemma_ext(pre.drop_last(), f, i); assert(m * n + n == (m + 1) * n) by(nonlinear_arith);
    if 0 <= i < ext_all(pre, f).len() {
      assert(n > 0) by { if n == 0 { assert((m + 1) * n == 0) by(nonlinear_arith) requires n == 0; } }
      if i >= m * n { assert(i / n == m && i % n == i - m * n) by(nonlinear_arith) requires m * n <= i < m * n + n, n > 0; } else { assert(i / n < m) by(nonlinear_arith) requires 0 <= i < m * n, n > 0; assert(0 <= i / n) by(nonlinear_arith) requires 0 <= i, n > 0; } } }
  else { assert(pre.len() * f.len() == 0) by(nonlinear_arith) requires pre.len() == 0; } }
pub proof fn lemma_prod<T>(fs: Seq<PyList<T>>, i: int)
  requires fs.len() > 0
  ensures prod(fs).len() == prod(fs.drop_last()).len() * fs.last()@.len(),
    0 <= i < prod(fs).len() ==> fs.last()@.len() > 0 && 0 <= i / (fs.last()@.len() as int) < prod(fs.drop_last()).len() && prod(fs)[i] == pl(prod(fs.drop_last())[i / (fs.last()@.len() as int)]@.push(fs.last()@[i % (fs.last()@.len() as int)])),
{ reveal(prod); lemma_ext(prod(fs.drop_last()), fs.last()@, i); }
pub open spec fn merged(c: Seq<ExpandedCase>) -> Map<String, Val> decreases c.len() {
  if c.len() == 0 { Map::empty() } else { merged(c.drop_last()).union_prefer_right(c.last().kwargs@) } }
pub open spec fn case_text(c: Seq<ExpandedCase>) -> String { mk(joined(seq!['-'], ids_of(c))) }
pub open spec fn one_case(c: ExpandedCase) -> bool { c.case_id@.len() == 0 && c.kwargs@ =~= Map::<String, Val>::empty() }
pub open spec fn singles(s: Seq<ParametrizeSpec>, e: Seq<PyList<ExpandedCase>>) -> bool {
  e.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> single_ok(s[i], (#[trigger] e[i])@) }
#[verifier::opaque] pub open spec fn product_of(e: Seq<PyList<ExpandedCase>>, r: Seq<ExpandedCase>) -> bool {
  &&& r.len() == prod(e).len()
  &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).kwargs@ =~= merged(prod(e)[i]@)
}
#[verifier::opaque] pub open spec fn product_ids(e: Seq<PyList<ExpandedCase>>, r: Seq<ExpandedCase>) -> bool {
  deduped(prod(e).map_values(|c: PyList<ExpandedCase>| case_text(c@)), ids_of(r)) }
#[verifier::opaque] pub open spec fn expanded(f: Obj, s: Seq<ParametrizeSpec>, e: Seq<PyList<ExpandedCase>>, r: Seq<ExpandedCase>) -> bool {
  specs_for(f, s) && singles(s, e) && (if s.len() == 0 { r.len() == 1 && one_case(r[0]) } else { product_of(e, r) }) }
#[verifier::opaque] pub open spec fn expanded_ids(f: Obj, s: Seq<ParametrizeSpec>, e: Seq<PyList<ExpandedCase>>, r: Seq<ExpandedCase>) -> bool {
  specs_for(f, s) && singles(s, e) && (s.len() > 0 ==> product_ids(e, r)) }

@fn _deduplicate_ids(ids)->r
@attr copies
@ensures
  C16_unique: r is Ok && deduped(ids@, (r->Ok_0)@)
@entry
proof { reveal(deduped); }
@loop ids
@inv
  seen: counts_ok($m0@, $m1@)
  res: deduped($done, $m1@)
@pre
let ghost used = $m0@.dom(); let ghost res0 = $m1@;
@post
proof { assert($m1@.drop_last() =~= res0); assert($m1@.to_set() =~= res0.to_set().insert($m1@.last())) by { assert(forall|x: String| $m1@.contains(x) <==> res0.contains(x) || x == $m1@.last()); }
  assert forall|i: int| 0 <= i < $m1@.len() implies ($m1@[i] == $done[i] || ($m1@.take(i).contains($done[i]) && exists|k: int| k >= 1 && $m1@[i] == mk(#[trigger] numbered($done[i]@, k)))) by {
    if i < res0.len() { assert($m1@[i] == res0[i]); assert($m1@.take(i) =~= res0.take(i)); assert($done[i] == $prev[i]); } else { assert($m1@.take(i) =~= res0); } } }
@loop unique
@inv
  dom: $m0@.dom() =~= used && used =~= res0.to_set()
  cnt: forall|x: String| used.contains(x) ==> (#[trigger] $m0@[x])@ >= 0
  form: $m1 == $odone.last() || (used.contains($odone.last()) && $m0@[$odone.last()]@ >= 1 && $m1 == mk(numbered($odone.last()@, $m0@[$odone.last()]@)))
@dec later(used, $odone.last(), $m0@[$odone.last()]@).len() + (if $m1 == $odone.last() { 1int } else { 0 })
@pre
proof { lemma_later(used, $odone.last(), $m0@[$odone.last()]@); lemma_numbered($odone.last()@, $m0@[$odone.last()]@, 0); lemma_numbered($odone.last()@, $m0@[$odone.last()]@ + 1, 0);  }
@post
proof { assert("_"@ =~= seq!['_']); assert($m1@ =~= numbered($odone.last()@, $m0@[$odone.last()]@)); }

@fn _value_to_id_string(value)
@ensures
  C16_text: r is Ok && (r->Ok_0)@ == id_text(value)
@dec value
@entry
proof { assert("-"@ =~= seq!['-']); }
@loop v
@inv
  part: is_seq(value) && $all =~= seq_val(value)@ && $acc@.len() == $done.len() && joined("-"@, $acc@) == ids_joined($done)
@pre
let ghost acc0 = $acc@;
@post
proof { assert($acc@.drop_last() =~= acc0); if acc0.len() == 0 { assert($done.len() == 1); } }

@fn _expand_single_spec(spec)
@ensures
  C15_shape: r is Ok <==> shapes_ok(spec)
  C15_rejected: r is Err ==> isa(r->Err_0, "ValueError"@)
  C15_bind: r is Ok ==> (r->Ok_0)@.len() == spec.argvalues@.len() && binds_prefix(spec, (r->Ok_0)@)
  C16_ids: r is Ok ==> deduped(want_ids(spec), ids_of((r->Ok_0)@))
@entry
proof { ax_hier(); reveal(deduped); }
@loop raw
@inv
  C16_raw: $m0@ =~= want_ids(spec).take($done.len() as int) && $all =~= enum_seq(spec.argvalues@)
@loop entries
@inv
  bind: binds_prefix(spec, $m0@) && $m0@.len() == $done.len() && $all =~= enum_seq(spec.argvalues@)
  C16_pos: ids_of($m0@) =~= $r__deduplicate_ids@.take($done.len() as int)
@pre
let ghost e0 = $m0@;
proof { assert($all[$prev.len() as int] == (mki($prev.len() as int), spec.argvalues@[$prev.len() as int])); ax_class_name(spec.argvalues@[$prev.len() as int]); 
  assert(bound(spec.argnames@, spec.argvalues@[$prev.len() as int]) == bound(spec.argnames@, spec.argvalues@[$prev.len() as int])); }
@post
proof { assert($m0@.drop_last() =~= e0); }

@fn _extract_pytest_marker_args(mark_args)
@ensures
  C15_args: r is Ok && (r->Ok_0).argnames == arg_at(mark_args@, 0, Val::Str(mk(Seq::empty()))) && (r->Ok_0).argvalues == arg_at(mark_args@, 1, Val::List(pl(Seq::empty())))
@entry
proof { assert(mk(""@) == mk(Seq::<char>::empty())) by { assert(""@ =~= Seq::<char>::empty()); } }

@fn _get_parametrize_specs(func)
@ensures
  C15_specs: r is Ok ==> specs_for(func, (r->Ok_0)@) && ((r->Ok_0)@.len() == 0 ==> specs_for(func, Seq::empty()))
  C15_own: own_specs(func).len() > 0 ==> r is Ok && (r->Ok_0)@ == own_specs(func)
  C15_none: own_specs(func).len() == 0 && par_marks(marks_of(func)).len() == 0 ==> r is Ok && (r->Ok_0)@.len() == 0
@entry
proof { reveal(specs_for); }
@loop pytest_mark
@inv
  made: own_specs(func).len() == 0 && $all =~= marks_of(func) && marks_made($done, $m0@)
@before
proof { assert(","@ =~= seq![',']); }
@pre
let ghost s0 = $m0@;
proof { lemma_par_mono(marks_of(func), $done.len() as int); assert($done =~= marks_of(func).take($done.len() as int)); assert(par_marks($done) == (if is_par($done.last()) { par_marks($prev).push($done.last()) } else { par_marks($prev) })); }
@post
proof { if is_par($done.last()) { assert($m0@.drop_last() =~= s0);
  assert forall|i: int| 0 <= i < $m0@.len() implies mark_spec(par_marks($done)[i], #[trigger] $m0@[i]) by { if i < s0.len() { assert($m0@[i] == s0[i]); } } } }
@loop name
@inv
  acc: argnames_raw is Str && $all =~= split_strs((argnames_raw->Str_0)@, seq![',']) && $acc@ =~= strip_all($done)
@loop names
@inv
  acc: (is_seq(argnames_raw) ==> $all =~= seq_val(argnames_raw)@) && $acc@ =~= text_all($done)
@loop ids
@inv
  acc: is_seq(ids_raw) && $all =~= seq_val(ids_raw)@ && $acc@ =~= text_all($done)

@fn expand_parametrize(func)
@ensures
  C15_single: r is Ok && own_specs(func).len() == 0 && par_marks(marks_of(func)).len() == 0 ==> (r->Ok_0)@.len() == 1 && one_case((r->Ok_0)@[0])
  C15_total: own_specs(func).len() > 0 ==> (r is Ok <==> forall|i: int| 0 <= i < own_specs(func).len() ==> shapes_ok(#[trigger] own_specs(func)[i]))
  C15_rejected: own_specs(func).len() > 0 && r is Err ==> isa(r->Err_0, "ValueError"@)
  C15_product: r is Ok ==> exists|s: Seq<ParametrizeSpec>, e: Seq<PyList<ExpandedCase>>| #[trigger] expanded(func, s, e, (r->Ok_0)@)
  C16_product: r is Ok ==> ids_of((r->Ok_0)@).no_duplicates() && exists|s: Seq<ParametrizeSpec>, e: Seq<PyList<ExpandedCase>>| #[trigger] expanded_ids(func, s, e, (r->Ok_0)@)
@exit
proof { if r is Ok && specs_for(func, Seq::empty()) && (r->Ok_0)@.len() == 1 && one_case((r->Ok_0)@[0]) { reveal(expanded); reveal(expanded_ids); assert(expanded(func, Seq::empty(), Seq::empty(), (r->Ok_0)@)); assert(expanded_ids(func, Seq::empty(), Seq::empty(), (r->Ok_0)@)); } }
@loop specs
@inv
  one: specs_for(func, $all) && singles($done, $acc@)
  ok: own_specs(func).len() > 0 ==> forall|i: int| 0 <= i < $done.len() ==> shapes_ok(#[trigger] own_specs(func)[i])
@pre
let ghost e0 = $acc@;
proof { assert($all[$prev.len() as int] == $done.last()); if own_specs(func).len() > 0 { assert(own_specs(func)[$prev.len() as int] == $done.last()); } }
@post
proof { reveal(single_ok); assert($acc@.drop_last() =~= e0); assert forall|i: int| 0 <= i < $done.len() implies single_ok($done[i], (#[trigger] $acc@[i])@) by { if i < e0.len() { assert($acc@[i] == e0[i]); assert($done[i] == $prev[i]); } } }
@after
let ghost exps = $acc@; let ghost specs0 = $all;
@loop combos
@inv
  C15_kw: $all =~= prod(exps) && $m0@.len() == $done.len() && forall|i: int| 0 <= i < $m0@.len() ==> (#[trigger] $m0@[i]).kwargs@ =~= merged(prod(exps)[i]@)
  C16_id: forall|i: int| 0 <= i < $m0@.len() ==> (#[trigger] $m0@[i]).case_id == case_text(prod(exps)[i]@)
@pre
let ghost res0 = $m0@;
proof { assert($all[$prev.len() as int] == $done.last()); }
@post
proof { assert($m0@.drop_last() =~= res0); }
@loop case
@inv
  part: $m0@ =~= ids_of($done) && $m1@ =~= merged($done) && $all =~= $odone.last()@
@after
proof { assert("-"@ =~= seq!['-']); }
@loop ids
@inv
  ids: $acc@ =~= ids_of($done)
@after
let ghost made = $all;
@loop last
@inv
  t: $all =~= zip_seq($r__deduplicate_ids@, made) && $acc@.len() == $done.len() && (forall|i: int| 0 <= i < $acc@.len() ==> (#[trigger] $acc@[i]).kwargs == made[i].kwargs && $acc@[i].case_id == $r__deduplicate_ids@[i])
@pre
let ghost acc0 = $acc@;
@post
proof { assert($acc@.drop_last() =~= acc0); }
@after
proof { reveal(expanded); reveal(expanded_ids); reveal(product_of); reveal(product_ids); reveal(deduped); assert(ids_of(made) =~= prod(exps).map_values(|c: PyList<ExpandedCase>| case_text(c@))); assert(ids_of($acc@) =~= $r__deduplicate_ids@);
  assert(product_of(exps, $acc@)); assert(product_ids(exps, $acc@)); assert(expanded(func, specs0, exps, $acc@)); assert(expanded_ids(func, specs0, exps, $acc@)); }

@fn get_case_nodeid_suffix(case_id)
@ensures
  C16_suffix: r is Ok && (r->Ok_0)@ =~= (if case_id@.len() == 0 { Seq::<char>::empty() } else { seq!['['] + case_id@ + seq![']'] })
@entry
proof { assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']); assert(""@ =~= Seq::<char>::empty()); }
