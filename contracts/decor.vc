@unit decor
@source src/python_discovery/cases.rs src/python_discovery/constant_resolver.rs
@prelude core maps seqs ids ast
@use cases expand_cases literal_to_id_string
@use consts ConstantResolver::resolve
@include enum DecoratorParseResult
@spec
// decimal digits of a negative number
#[verifier::external_body] pub proof fn ax_num_neg(n: int) requires n > 0 ensures num_text(-n) == seq!['-'] + num_text(n) { unimplemented!() }
// ---- which decorators count
pub open spec fn is_cases_func(e: Expr) -> bool {
  match e { Expr::Attribute(a) => match *a.value { Expr::Attribute(m) => m.attr@ == "mark"@ && match *m.value {
    Expr::Name(n) => (n.id@ == "rtest"@ && a.attr@ == "cases"@) || (n.id@ == "pytest"@ && a.attr@ == "parametrize"@), _ => false }, _ => false }, _ => false } }
pub open spec fn is_cases(e: Expr) -> bool { match e { Expr::Call(c) => is_cases_func(*c.func), _ => false } }
// ---- literals
// the id text a literal has at run time
pub open spec fn lit_text(e: Expr) -> Option<Seq<char>> decreases e { match e {
  Expr::NumberLiteral(n) => match n.value { Number::Int(i) => Some(num_text(i.val())), _ => None },
  Expr::StringLiteral(s) => if plain(s.value.text@) { Some(s.value.text@) } else { None },
  Expr::BooleanLiteral(b) => Some(if b.value { "True"@ } else { "False"@ }),
  Expr::NoneLiteral(_) => Some("None"@),
  Expr::UnaryOp(u) => if u.op is USub { match *u.operand { Expr::NumberLiteral(n) => match n.value { Number::Int(i) => Some(num_text(-i.val())), _ => None }, _ => None } } else { None },
  Expr::List(l) => if forall|i: int| 0 <= i < l.elts@.len() ==> lit_text(#[trigger] l.elts@[i]) is Some { Some(joined(seq!['-'], lit_texts(l.elts@))) } else { None },
  Expr::Tuple(l) => if forall|i: int| 0 <= i < l.elts@.len() ==> lit_text(#[trigger] l.elts@[i]) is Some { Some(joined(seq!['-'], lit_texts(l.elts@))) } else { None },
  _ => None } }
pub open spec fn lit_texts(es: Seq<Expr>) -> Seq<String> decreases es { Seq::new(es.len(), |i: int| if 0 <= i < es.len() { mk(lit_text(es[i])->0) } else { mk(Seq::empty()) }) }
// written out in full
pub open spec fn known(e: Expr) -> bool decreases e { match e {
  Expr::NumberLiteral(n) => !(n.value is Complex), Expr::StringLiteral(_) => true, Expr::BooleanLiteral(_) => true, Expr::NoneLiteral(_) => true,
  Expr::UnaryOp(u) => u.op is USub && match *u.operand { Expr::NumberLiteral(n) => !(n.value is Complex), _ => false },
  Expr::List(l) => forall|i: int| 0 <= i < l.elts@.len() ==> known(#[trigger] l.elts@[i]),
  Expr::Tuple(l) => forall|i: int| 0 <= i < l.elts@.len() ==> known(#[trigger] l.elts@[i]),
  _ => false } }
// one value, whatever it is
pub open spec fn countable(e: Expr) -> bool decreases e { match e {
  Expr::ListComp(_) => false, Expr::SetComp(_) => false, Expr::DictComp(_) => false, Expr::Generator(_) => false, Expr::Starred(_) => false,
  Expr::List(l) => forall|i: int| 0 <= i < l.elts@.len() ==> countable(#[trigger] l.elts@[i]),
  Expr::Tuple(l) => forall|i: int| 0 <= i < l.elts@.len() ==> countable(#[trigger] l.elts@[i]),
  _ => true } }
// written out, or a constant of the module
pub open spec fn fixed(e: Expr, c: Option<&ConstantResolver>) -> bool decreases e { match e {
  Expr::Name(_) => c is Some && resolved(*c->0, e) is Some, Expr::Attribute(_) => c is Some && resolved(*c->0, e) is Some,
  Expr::List(l) => forall|i: int| 0 <= i < l.elts@.len() ==> fixed(#[trigger] l.elts@[i], c),
  Expr::Tuple(l) => forall|i: int| 0 <= i < l.elts@.len() ==> fixed(#[trigger] l.elts@[i], c),
  _ => known(e) } }
pub open spec fn val_text(v: LiteralValue) -> Option<Seq<char>> decreases v { match v {
  LiteralValue::Int(i) => Some(num_text(i as int)), LiteralValue::Bool(b) => Some(if b { "True"@ } else { "False"@ }), LiteralValue::None => Some("None"@),
  LiteralValue::String(s) => if plain(s@) { Some(s@) } else { None }, _ => None } }
pub open spec fn number_ok(e: Expr, r: Result<(LiteralValue, String), CannotExpandReason>) -> bool { match e { Expr::NumberLiteral(n) => match n.value {
  Number::Int(i) => r is Ok && i.val() >= 0 && match r->Ok_0.0 { LiteralValue::Int(v) => v == i.val(), LiteralValue::String(s) => i.val() > i64::MAX && s@ == num_text(i.val()), _ => false },
  Number::Float(_) => r is Ok && r->Ok_0.0 is Float, _ => r is Err }, _ => true } }
pub open spec fn values_ok(es: Seq<Expr>, vs: Seq<LiteralValue>) -> bool { vs.len() == es.len() && forall|i: int| 0 <= i < es.len() && lit_text(#[trigger] es[i]) is Some && elements(es[i]) is None ==> val_text(vs[i]) == lit_text(es[i]) }
pub open spec fn marked(es: Seq<Expr>, vs: Seq<LiteralValue>, c: Option<&ConstantResolver>) -> bool { vs.len() == es.len() && forall|i: int| 0 <= i < es.len() ==> (fixed(#[trigger] es[i], c) <==> !opaque(vs[i])) }
pub open spec fn texts_ok(es: Seq<Expr>, ids: Seq<String>) -> bool { ids.len() == es.len() && forall|i: int| 0 <= i < es.len() && lit_text(#[trigger] es[i]) is Some ==> ids[i]@ == lit_text(es[i])->0 }
pub proof fn lem_list(es: Seq<Expr>, vs: Seq<LiteralValue>, ids: Seq<String>, e: Expr, c: Option<&ConstantResolver>)
  requires elements(e) == Some(es), marked(es, vs, c), texts_ok(es, ids)
  ensures forall|v: Vec<LiteralValue>| #[trigger] v@ == vs ==> (fixed(e, c) <==> !opaque(LiteralValue::Sequence(v))), lit_text(e) is Some ==> joined(seq!['-'], ids) == lit_text(e)->0
{ if lit_text(e) is Some { assert forall|i: int| 0 <= i < es.len() implies mk(lit_text(#[trigger] es[i])->0) == ids[i] by { assert(lit_text(es[i]) is Some); }
    assert(ids =~= lit_texts(es)); }
  assert forall|v: Vec<LiteralValue>| #[trigger] v@ == vs implies (fixed(e, c) <==> !opaque(LiteralValue::Sequence(v))) by {
    if fixed(e, c) { assert forall|i: int| 0 <= i < vs.len() implies !opaque(#[trigger] vs[i]) by { assert(fixed(es[i], c)); }
      let s = LiteralValue::Sequence(v); if opaque(s) { let i = choose|i: int| 0 <= i < v@.len() && opaque(#[trigger] v@[i]); assert(vs[i] == v@[i]); assert(0 <= i < vs.len()); assert(opaque(vs[i])); assert(false); } assert(!opaque(s)); }
    if !opaque(LiteralValue::Sequence(v)) { assert forall|i: int| 0 <= i < es.len() implies fixed(#[trigger] es[i], c) by { assert(!opaque(v@[i])); }
      match e { Expr::List(l) => { assert(forall|i: int| 0 <= i < l.elts@.len() ==> fixed(#[trigger] l.elts@[i], c)); assert(fixed(e, c)); }, Expr::Tuple(l) => { assert(forall|i: int| 0 <= i < l.elts@.len() ==> fixed(#[trigger] l.elts@[i], c)); assert(fixed(e, c)); }, _ => {} } } } }
pub proof fn lem_known(e: Expr)
  ensures elements(e) is Some && known(e) ==> forall|i: int| 0 <= i < (elements(e)->0).len() ==> known(#[trigger] (elements(e)->0)[i]), elements(e) is Some && lit_text(e) is Some ==> forall|i: int| 0 <= i < (elements(e)->0).len() ==> lit_text(#[trigger] (elements(e)->0)[i]) is Some
{ match e { Expr::List(l) => { assert(elements(e)->0 == l.elts@); } Expr::Tuple(l) => { assert(elements(e)->0 == l.elts@); } _ => {} } }
pub broadcast proof fn ax_num_plain(n: int) requires n >= 0 ensures plain(#[trigger] num_text(n)) && plain(seq!['-'] + num_text(n)), n > 0 ==> num_text(-n) == seq!['-'] + num_text(n)
{ ax_num_text(n); if n > 0 { ax_num_neg(n); } }
// the argument names: a text with at least one name, or a list of texts
pub open spec fn all_blank(p: Seq<String>) -> bool { forall|i: int| 0 <= i < p.len() ==> sp_trim(#[trigger] p[i]@).len() == 0 }
pub proof fn lem_blank(p: Seq<String>, x: String) ensures all_blank(p.push(x)) <==> all_blank(p) && sp_trim(x@).len() == 0
{ if all_blank(p.push(x)) { assert forall|i: int| 0 <= i < p.len() implies sp_trim(#[trigger] p[i]@).len() == 0 by { assert(p.push(x)[i] == p[i]); } assert(p.push(x)[p.len() as int] == x); } }
pub open spec fn names_ok(e: Expr) -> bool { match e { Expr::StringLiteral(s) => !all_blank(split_strs(s.value.text@, seq![','])), _ => elements(e) is Some && (elements(e)->0).len() > 0 && forall|i: int| 0 <= i < (elements(e)->0).len() ==> (#[trigger] (elements(e)->0)[i]) is StringLiteral } }
pub open spec fn all_countable(es: Seq<Expr>) -> bool { forall|i: int| 0 <= i < es.len() ==> countable(#[trigger] es[i]) }
// a name that stands for a list of the module
pub open spec fn is_constant_list(e: Expr, c: Option<&ConstantResolver>, vs: Seq<LiteralValue>) -> bool { e is Name && c is Some && match resolved(*c->0, e) { Some((LiteralValue::Sequence(s), _)) => s@ == vs, _ => false } }
// ---- the ids keyword: its position (the first one counts), or that of an unpacked mapping before it
pub open spec fn first_ids(k: Seq<Keyword>) -> int decreases k.len() { if k.len() == 0 { 0 } else { let f = first_ids(k.drop_last()); if f < k.len() - 1 { f } else { match k.last().arg { None => k.len() - 1, Some(n) => if n@ == "ids"@ { k.len() - 1 } else { k.len() as int } } } } }
pub proof fn lem_first(k: Seq<Keyword>, n: int) requires 0 <= n <= k.len(), ensures first_ids(k.take(n)) < n ==> first_ids(k) == first_ids(k.take(n)), 0 <= first_ids(k) <= k.len() decreases k.len()
{ if n == k.len() { assert(k.take(n) =~= k); if n > 0 { let d = k.drop_last(); lem_first(d, d.len() as int); } } else { lem_first(k.drop_last(), n); assert(k.drop_last().take(n) =~= k.take(n)); } }
pub open spec fn texts_of_vals(vs: Seq<LiteralValue>, ids: Seq<String>) -> bool { ids.len() == vs.len() && forall|i: int| 0 <= i < vs.len() && val_text(#[trigger] vs[i]) is Some ==> ids[i]@ == val_text(vs[i])->0 }
pub open spec fn flat(e: Expr) -> bool { lit_text(e) is Some && elements(e) is None }
pub open spec fn ids_say(e: Expr, c: Option<&ConstantResolver>, r: Result<Option<Vec<String>>, CannotExpandReason>) -> bool {
  &&& e is NoneLiteral ==> r == Ok::<Option<Vec<String>>, CannotExpandReason>(None)
  &&& r is Ok ==> fixed(e, c)
  &&& known(e) && elements(e) is Some ==> r is Ok && r->Ok_0 is Some
  &&& elements(e) is Some && r is Ok ==> r->Ok_0 is Some && (r->Ok_0->0)@.len() == (elements(e)->0).len() && forall|i: int| 0 <= i < (elements(e)->0).len() && flat(#[trigger] (elements(e)->0)[i]) ==> (r->Ok_0->0)@[i]@ == lit_text((elements(e)->0)[i])->0 }
pub open spec fn ids_ok(k: Seq<Keyword>, c: Option<&ConstantResolver>, r: Result<Option<Vec<String>>, CannotExpandReason>) -> bool {
  let f = first_ids(k); if f >= k.len() { r == Ok::<Option<Vec<String>>, CannotExpandReason>(None) } else if k[f].arg is None { r is Err } else { ids_say(k[f].value, c, r) } }
// ---- one decorator, and a stack of them (top first)
pub open spec fn args_of(e: Expr) -> Seq<Expr> { match e { Expr::Call(c) => c.arguments.args@, _ => Seq::empty() } }
pub open spec fn keywords_of(e: Expr) -> Seq<Keyword> { match e { Expr::Call(c) => c.arguments.keywords@, _ => Seq::empty() } }
pub open spec fn values_say(e: Expr, c: Option<&ConstantResolver>, s: CasesSpec) -> bool {
  if elements(e) is Some { s.argvalues@.len() == (elements(e)->0).len() && all_countable(elements(e)->0) && texts_ok(elements(e)->0, s.value_ids@) } else { is_constant_list(e, c, s.argvalues@) } }
pub open spec fn spec_ok(e: Expr, c: Option<&ConstantResolver>, s: CasesSpec) -> bool {
  is_cases(e) && args_of(e).len() >= 2 && s.value_ids@.len() == s.argvalues@.len() && values_say(args_of(e)[1], c, s) && ids_ok(keywords_of(e), c, Ok(s.ids)) }
pub open spec fn known_dec(e: Expr) -> bool { let k = keywords_of(e); let f = first_ids(k);
  is_cases(e) && args_of(e).len() >= 2 && names_ok(args_of(e)[0]) && elements(args_of(e)[1]) is Some && known(args_of(e)[1])
  && (f >= k.len() || (k[f].arg is Some && (k[f].value is NoneLiteral || (known(k[f].value) && elements(k[f].value) is Some)))) }
pub open spec fn no_cases(d: Seq<Decorator>) -> bool { forall|i: int| 0 <= i < d.len() ==> !is_cases((#[trigger] d[i]).expression) }
pub proof fn lem_no_cases(p: Seq<Decorator>, x: Decorator) ensures no_cases(p.push(x)) <==> no_cases(p) && !is_cases(x.expression)
{ if no_cases(p.push(x)) { assert forall|i: int| 0 <= i < p.len() implies !is_cases((#[trigger] p[i]).expression) by { assert(p.push(x)[i] == p[i]); } assert(p.push(x)[p.len() as int] == x); } }
pub open spec fn all_known(d: Seq<Decorator>) -> bool { forall|i: int| 0 <= i < d.len() && is_cases((#[trigger] d[i]).expression) ==> known_dec(d[i].expression) }
#[verifier::opaque] pub open spec fn specs_from(d: Seq<Decorator>, c: Option<&ConstantResolver>, s: Seq<CasesSpec>) -> bool decreases d.len() {
  if d.len() == 0 { s.len() == 0 } else if is_cases(d.last().expression) { s.len() > 0 && spec_ok(d.last().expression, c, s.last()) && specs_from(d.drop_last(), c, s.drop_last()) } else { specs_from(d.drop_last(), c, s) } }
pub open spec fn expanded_from(d: Seq<Decorator>, c: Option<&ConstantResolver>, r: Seq<ExpandedCase>) -> bool { exists|s: Seq<CasesSpec>| specs_from(d, c, s) && #[trigger] static_ok(s, r) }
pub proof fn lem_specs_none(c: Option<&ConstantResolver>) ensures specs_from(Seq::empty(), c, Seq::empty()) { reveal(specs_from); }
pub broadcast proof fn lem_specs_other(d: Seq<Decorator>, x: Decorator, c: Option<&ConstantResolver>, s: Seq<CasesSpec>)
  requires !is_cases(x.expression), specs_from(d, c, s) ensures #[trigger] specs_from(d.push(x), c, s)
{ reveal(specs_from); assert(d.push(x).drop_last() =~= d); }
pub broadcast proof fn lem_specs_push(d: Seq<Decorator>, x: Decorator, c: Option<&ConstantResolver>, s: Seq<CasesSpec>, y: CasesSpec)
  requires spec_ok(x.expression, c, y), specs_from(d, c, s) ensures #[trigger] specs_from(d.push(x), c, s.push(y))
{ reveal(specs_from); assert(d.push(x).drop_last() =~= d); assert(s.push(y).drop_last() =~= s); }
pub proof fn lem_specs_lens(d: Seq<Decorator>, c: Option<&ConstantResolver>, s: Seq<CasesSpec>)
  requires specs_from(d, c, s) ensures forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).value_ids@.len() == s[i].argvalues@.len()
  decreases d.len()
{ reveal(specs_from); if d.len() > 0 { if is_cases(d.last().expression) { lem_specs_lens(d.drop_last(), c, s.drop_last());
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).value_ids@.len() == s[i].argvalues@.len() by { if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); } } } else { lem_specs_lens(d.drop_last(), c, s); } } }

@fn is_cases_or_parametrize_call(func)->r
@ensures
  C21_which: r == is_cases_func(*func)

@fn contains_opaque(value)->r
@ensures
  C21_opaque: r == opaque(*value)
@dec value
@loop any
@inv
  n: *value is Sequence && $all == (value->Sequence_0)@ && (forall|i: int| 0 <= i < $done.len() && !$acc ==> !opaque(#[trigger] $all[i]))
@ens
  y: ($acc ==> opaque(*value)) && (!$acc ==> $done =~= $all)

@fn extract_literal(expr, resolver)->r
@requires
  c: tidied(resolver)
@dec expr
@ensures
  C21_countable: r is Ok ==> countable(*expr)
  C21_known: known(*expr) ==> r is Ok && !opaque(r->Ok_0.0)
  C21_fixed: r is Ok && !opaque(r->Ok_0.0) ==> fixed(*expr, resolver)
  C21_whole: fixed(*expr, resolver) && r is Ok ==> !opaque(r->Ok_0.0)
  C21_constant: (expr is Name || expr is Attribute) && fixed(*expr, resolver) ==> r is Ok && r->Ok_0.0 == resolved(*resolver->0, *expr)->Some_0.0
  C21_none: expr is NoneLiteral ==> r is Ok && r->Ok_0.0 is None
  C21_number: number_ok(*expr, r)
  C21_text: lit_text(*expr) is Some ==> r is Ok && !opaque(r->Ok_0.0) && r->Ok_0.1@ == lit_text(*expr)->0
  C21_value: lit_text(*expr) is Some && elements(*expr) is None && r is Ok ==> val_text(r->Ok_0.0) == lit_text(*expr)
  C21_elements: r is Ok && elements(*expr) is Some ==> r->Ok_0.0 is Sequence && values_ok(elements(*expr)->0, (r->Ok_0.0->Sequence_0)@)
@entry
broadcast use {ax_num_plain};
proof { assert("-"@ =~= seq!['-']); }
@loop elts
@inv
  a: elements(*expr) == Some($all) && values_ok($done, $m0@) && $m1@.len() == $done.len()
  c: forall|i: int| 0 <= i < $done.len() ==> countable(#[trigger] $done[i])
  f: marked($done, $m0@, resolver)
  t: texts_ok($done, $m1@)
  o: forall|i: int| 0 <= i < $done.len() && (known(#[trigger] $done[i]) || lit_text($done[i]) is Some) ==> !opaque($m0@[i])
@after
proof { lem_list($all, $m0@, $m1@, *expr, resolver); lem_known(*expr); }

@fn extract_argnames(expr)->r
@ensures
  C21_names: names_ok(*expr) ==> r is Ok
@loop split
@inv
  s: expr is StringLiteral && $all == split_strs((expr->StringLiteral_0).value.text@, seq![',']) && (all_blank($done) <==> $acc@.len() == 0)
@pre
proof { lem_blank($prev, $done.last()); }
@loop elts
@inv
  e: elements(*expr) == Some($all) && $m0@.len() == $done.len()

@fn get_call_name(func)->r

@assume fill_opaque_placeholders(id, argnames, tuple_idx)->r

@fn extract_argvalues(expr, resolver, argnames)->r
@requires
  c: tidied(resolver)
@ensures
  C21_lengths: r is Ok ==> r->Ok_0.0@.len() == r->Ok_0.1@.len()
  C21_listed: elements(*expr) is Some && r is Ok ==> r->Ok_0.0@.len() == (elements(*expr)->0).len() && all_countable(elements(*expr)->0) && texts_ok(elements(*expr)->0, r->Ok_0.1@)
  C21_known: known(*expr) && elements(*expr) is Some ==> r is Ok
  C21_unknown: elements(*expr) is None && r is Ok ==> is_constant_list(*expr, resolver, r->Ok_0.0@)
@loop elts
@inv
  a: elements(*expr) == Some($all) && texts_ok($done, $m1@) && all_countable($done) && $m0@.len() == $done.len()
@loop seq
@inv
  i: $acc@.len() == $done.len() && is_constant_list(*expr, resolver, $all)

@fn extract_ids_kwarg(keywords, resolver)->r
@requires
  c: tidied(resolver)
@ensures
  C21_given: ids_ok(keywords@, resolver, r)
@loop keywords
@inv
  n: first_ids($done) == $done.len()
@pre
proof { assert($done =~= $all.take($done.len() as int)); lem_first($all, $done.len() as int); }
@loop any
@inv
  n: forall|i: int| 0 <= i < $done.len() && !$acc ==> !opaque(#[trigger] $all[i])
@ens
  y: ($acc ==> exists|i: int| 0 <= i < $all.len() && opaque(#[trigger] $all[i])) && (!$acc ==> $done =~= $all)
@loop texts
@inv
  t: texts_of_vals($done, $acc@)

@fn parse_single_decorator(decorator, resolver)->r
@requires
  c: tidied(resolver)
@ensures
  C21_not: r is NotCasesDecorator <==> !is_cases(decorator.expression)
  C21_spec: r is CasesSpec ==> spec_ok(decorator.expression, resolver, r->CasesSpec_0)
  C21_known: known_dec(decorator.expression) ==> r is CasesSpec

@fn parse_decorators_for_cases(decorators, resolver)->r
@requires
  c: tidied(resolver)
@ensures
  C21_plain: r is NotDecorated <==> no_cases(decorators@)
  C21_known: all_known(decorators@) ==> !(r is CannotExpand)
  C21_expanded: r is Expanded ==> expanded_from(decorators@, resolver, (r->Expanded_0)@)
  C16_unique: r is Expanded ==> case_ids((r->Expanded_0)@).no_duplicates()
@entry
broadcast use {lem_specs_push, lem_specs_other};
proof { lem_specs_none(resolver); }
@loop decorators
@inv
  s: specs_from($done, resolver, $m0@) && ($m0@.len() == 0 <==> no_cases($done))
@before
proof { assert($done =~= Seq::empty()); assert($m0@ =~= Seq::empty()); }
@pre
proof { lem_no_cases($prev, $done.last()); }
@after
proof { lem_specs_lens($all, resolver, $m0@); }

@fn parse_decorators_to_specs(decorators, resolver)->r
@requires
  c: tidied(resolver)
@ensures
  C21_plain: r is NotDecorated <==> no_cases(decorators@)
  C21_known: all_known(decorators@) ==> !(r is CannotExpand)
  C21_specs: r is Specs ==> specs_from(decorators@, resolver, (r->Specs_0)@)
@entry
broadcast use {lem_specs_push, lem_specs_other};
proof { lem_specs_none(resolver); }
@loop decorators
@inv
  s: specs_from($done, resolver, $m0@) && ($m0@.len() == 0 <==> no_cases($done))
@before
proof { assert($done =~= Seq::empty()); assert($m0@ =~= Seq::empty()); }
@pre
proof { lem_no_cases($prev, $done.last()); }
@after
proof { lem_specs_lens($all, resolver, $m0@); }
