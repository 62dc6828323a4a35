@unit cases
@source src/python_discovery/cases.rs
@prelude core maps seqs ids
@include enum LiteralValue
@include struct CasesSpec
@include enum MethodCasesInfo
@include enum CannotExpandReason
@include enum CasesExpansion
@include struct ExpandedCase
@spec
broadcast use {vstd::seq_lib::group_seq_properties};
// what the counter of x says: x_1 .. x_c are used already
pub open spec fn counted(m: Map<String, usize>, used: Set<String>) -> bool {
  m.dom() =~= used && forall|x: String, k: int| #![trigger m[x], numbered(x@, k)] used.contains(x) && 1 <= k <= m[x] ==> used.contains(mk(numbered(x@, k))) }
// c different used ids: there are at least c of them
pub proof fn lemma_count(used: Set<String>, id: String, c: int)
  requires c >= 0, forall|k: int| 1 <= k <= c ==> used.contains(mk(#[trigger] numbered(id@, k)))
  ensures c <= used.len()
  decreases c
{ if c > 0 { let u = mk(numbered(id@, c)); let rest = used.remove(u); assert(used.contains(u));
    assert forall|k: int| 1 <= k <= c - 1 implies rest.contains(mk(#[trigger] numbered(id@, k))) by { lemma_numbered(id@, k, c); assert(used.contains(mk(numbered(id@, k)))); assert(mk(numbered(id@, k))@ != u@); }
    lemma_count(rest, id, c - 1); } }
pub proof fn lemma_to_set_len(r: Seq<String>)
  requires r.no_duplicates()
  ensures r.to_set().len() == r.len()
{ r.unique_seq_to_set(); }

// ---- the ids of one decorator
pub open spec fn single_ids(s: CasesSpec) -> Seq<String> { match s.ids {
  Some(ids) => Seq::new(s.argvalues@.len(), |i: int| if i < ids@.len() { ids@[i] } else { mk(num_text(i)) }),
  None => s.value_ids@ } }
pub open spec fn case_ids(r: Seq<ExpandedCase>) -> Seq<String> { r.map_values(|c: ExpandedCase| c.case_id) }
// the factors of the product: the decorator closest to the test first, as at run time
pub open spec fn factors(s: Seq<CasesSpec>) -> Seq<Seq<String>> { s.reverse().map_values(|x: CasesSpec| single_ids(x)) }
pub open spec fn texts_of(p: Seq<Seq<String>>) -> Seq<String> { p.map_values(|c: Seq<String>| mk(joined(seq!['-'], c))) }
pub open spec fn static_ids(s: Seq<CasesSpec>) -> Seq<String> { texts_of(prods(factors(s))) }
#[verifier::opaque] pub open spec fn static_ok(s: Seq<CasesSpec>, r: Seq<ExpandedCase>) -> bool { deduped(static_ids(s), case_ids(r)) }
pub open spec fn specs_of(m: MethodCasesInfo) -> Seq<CasesSpec> { match m { MethodCasesInfo::Specs(s) => s@, _ => Seq::empty() } }
pub open spec fn unknown(m: MethodCasesInfo) -> bool { m is CannotExpand }
// ---- the id text of a literal
pub open spec fn plain_char(c: char) -> bool { 0x20 <= c as u32 && c as u32 <= 0x7e && c != '\\' }
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain_char(#[trigger] s[i]) }

@fn deduplicate_ids(ids)->r
@ensures
  C16_unique: deduped(ids@, r@)
@entry
proof { reveal(deduped); }
@loop ids
@inv
  seen: counted($m0@, $m1@.to_set())
  res: deduped($done, $m1@)
@pre
let ghost used = $m0@.dom(); let ghost res0 = $m1@;
proof { lemma_to_set_len(res0); }
@post
proof { assert($m1@.drop_last() =~= res0); assert($m1@.to_set() =~= res0.to_set().insert($m1@.last())) by { assert(forall|x: String| $m1@.contains(x) <==> res0.contains(x) || x == $m1@.last()); }
  assert forall|i: int| 0 <= i < $m1@.len() implies ($m1@[i] == $done[i] || ($m1@.take(i).contains($done[i]) && exists|k: int| k >= 1 && $m1@[i] == mk(#[trigger] numbered($done[i]@, k)))) by {
    if i < res0.len() { assert($m1@[i] == res0[i]); assert($m1@.take(i) =~= res0.take(i)); assert($done[i] == $prev[i]); } else { assert($m1@.take(i) =~= res0); } } }
@loop unique
@inv
  dom: $m0@.dom() =~= used && used =~= res0.to_set() && used.len() == res0.len() && res0.len() < $oall.len() && $oall.len() <= usize::MAX
  cnt: forall|x: String, k: int| #![trigger $m0@[x], numbered(x@, k)] used.contains(x) && 1 <= k <= $m0@[x] && !($m1 != $odone.last() && x == $odone.last() && k == $m0@[x]) ==> used.contains(mk(numbered(x@, k)))
  form: $m1 == $odone.last() || (used.contains($odone.last()) && $m0@[$odone.last()] >= 1 && $m1 == mk(numbered($odone.last()@, $m0@[$odone.last()] as int)))
@dec later(used, $odone.last(), $m0@[$odone.last()] as int).len() + (if $m1 == $odone.last() { 1int } else { 0 })
@pre
proof { let c = $m0@[$odone.last()] as int; lemma_later(used, $odone.last(), c); lemma_numbered($odone.last()@, c, 0); lemma_numbered($odone.last()@, c + 1, 0);
  assert forall|k: int| 1 <= k <= c implies used.contains(mk(#[trigger] numbered($odone.last()@, k))) by { if k == c && $m1 != $odone.last() { assert(used.contains($m1)); } else { assert($m0@[$odone.last()] >= k); } }
  lemma_count(used, $odone.last(), c); }
@post
proof { assert("_"@ =~= seq!['_']); assert($m1@ =~= numbered($odone.last()@, $m0@[$odone.last()] as int)); }

@fn expand_single_spec(spec)->r
@requires
  lens: spec.value_ids@.len() == spec.argvalues@.len()
@ensures
  C16_given: spec.ids is Some ==> r@ =~= single_ids(*spec)
  C21_ids: r@ =~= single_ids(*spec)
@loop given
@inv
  a: spec.ids is Some && $acc@ =~= $done
@loop rest
@inv
  b: spec.ids is Some && $acc@ =~= single_ids(*spec).take($acc@.len() as int) && $acc@.len() == min((spec.ids->0)@.len() as int, spec.argvalues@.len() as int) + $done.len()

@fn ascii_escape_string(s)->r
@ensures
  C21_plain: plain(s@) ==> r@ == s@
@loop chars
@inv
  p: plain(s@) ==> $m0@ =~= $done
@pre
proof { if plain(s@) { assert(plain_char(s@[$prev.len() as int])); } }

@fn literal_to_id_string(value)->r
@ensures
  C21_int: value is Int ==> r@ == num_text(value->Int_0 as int)
  C21_bool: value is Bool ==> r@ == (if value->Bool_0 { "True"@ } else { "False"@ })
  C21_none: value is None ==> r@ == "None"@
  C21_text: value is String && plain((value->String_0)@) ==> r@ == (value->String_0)@
@dec value

@fn expand_cases(specs)->r
@requires
  lens: forall|i: int| 0 <= i < specs@.len() ==> (#[trigger] specs@[i]).value_ids@.len() == specs@[i].argvalues@.len()
@ensures
  C21_none: specs@.len() == 0 ==> r@.len() == 0
  C16_unique: case_ids(r@).no_duplicates()
  C21_product: specs@.len() > 0 ==> static_ok(specs@, r@)
@entry
proof { reveal(prods); reveal(static_ok); assert("-"@ =~= seq!['-']); }
@loop specs
@inv
  f: $all =~= specs@.reverse() && deep($acc@) =~= $done.map_values(|x: CasesSpec| single_ids(x))
@pre
proof { assert($all[$prev.len() as int] == $done.last()); assert(specs@[specs@.len() - 1 - $prev.len()] == $done.last()); }
let ghost e0 = $acc@;
@post
proof { assert(deep($acc@) =~= deep(e0).push(single_ids($done.last()))); }
@after
proof { assert(deep($acc@) =~= factors(specs@)); }
@loop factor
@inv
  p: deep($all) =~= factors(specs@) && deep($m0@) =~= prods(deep($done))
@pre
let ghost fac = $done.last()@; let ghost pre0 = deep($m0@);
proof { assert(deep($done) =~= deep($prev).push(fac)); assert(deep($done).drop_last() =~= deep($prev)); }
@loop existing
@inv
  e: deep($m0@) =~= ext_seqs(deep($done), fac) && deep($all) =~= pre0
@pre
let ghost n0 = deep($m0@); let ghost ex = $done.last()@;
proof { assert(deep($done) =~= deep($prev).push(ex)); assert(deep($done).drop_last() =~= deep($prev)); }
@loop id
@inv
  i: deep($m0@) =~= n0 + Seq::new($done.len(), |j: int| ex.push($done[j])) && $all =~= fac
@pre
let ghost m0 = $m0@;
@post
proof { assert(deep($m0@) =~= deep(m0).push(ex.push($done.last()))); }
@loop join
@inv
  t: deep($all) =~= prods(factors(specs@)) && $acc@ =~= texts_of(deep($done))
@pre
let ghost t0 = $acc@;
proof { assert(deep($done) =~= deep($prev).push($done.last()@)); }
@after
proof { assert($acc@ =~= static_ids(specs@)); }
@loop cases
@inv
  u: deduped(static_ids(specs@), $all) && case_ids($acc@) =~= $done
@after
proof { reveal(deduped); assert(case_ids($acc@) =~= $all); }

@fn combine_and_expand_specs(class_info, method_info)->r
@requires
  lenc: forall|i: int| 0 <= i < specs_of(*class_info).len() ==> (#[trigger] specs_of(*class_info)[i]).value_ids@.len() == specs_of(*class_info)[i].argvalues@.len()
  lenm: forall|i: int| 0 <= i < specs_of(*method_info).len() ==> (#[trigger] specs_of(*method_info)[i]).value_ids@.len() == specs_of(*method_info)[i].argvalues@.len()
@ensures
  C21_unknown: unknown(*class_info) || unknown(*method_info) <==> r is CannotExpand
  C21_above: !unknown(*class_info) && !unknown(*method_info) ==> ({ let s = specs_of(*class_info) + specs_of(*method_info); if s.len() == 0 { r is NotDecorated } else { r is Expanded && static_ok(s, (r->Expanded_0)@) } })
  C16_unique: r is Expanded ==> case_ids((r->Expanded_0)@).no_duplicates()
@loop class
@inv
  c: $all =~= specs_of(*class_info) && $m0@ =~= $done
@loop method
@inv
  m: $all =~= specs_of(*method_info) && $m0@ =~= specs_of(*class_info) + $done
@exit
proof { reveal(static_ok); reveal(deduped); }
