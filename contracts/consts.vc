@unit consts
@source src/python_discovery/constant_resolver.rs src/python_discovery/cases.rs
@prelude core maps seqs ids ast
@include enum LiteralValue
@include struct ConstantScope
@include struct ConstantResolver
@spec
impl ConstantScope { pub fn default() -> (r: ConstantScope) ensures r.constants@ == Map::<String, LiteralValue>::empty(), r.children@ == Map::<String, ConstantScope>::empty() { ConstantScope { constants: HashMap::new(), children: HashMap::new() } } }
pub trait OptCl<T>: Sized { spec fn inner(&self) -> Option<T>; fn x_cloned(self) -> (r: Option<T>) ensures r == self.inner(); }
impl<'a, T> OptCl<T> for Option<&'a T> { open spec fn inner(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn x_cloned(self) -> (r: Option<T>) { unimplemented!() } }
// ---- literals, and the values they stand for
pub open spec fn opaque(v: LiteralValue) -> bool { v is Opaque || (v is Sequence && holds_opaque(v)) }
pub open spec fn holds_opaque(v: LiteralValue) -> bool decreases v { match v { LiteralValue::Sequence(s) => exists|i: int| 0 <= i < s@.len() && ((#[trigger] s@[i]) is Opaque || (s@[i] is Sequence && holds_opaque(s@[i]))), _ => false } }
pub open spec fn literal(e: Expr) -> bool decreases e { match e {
  Expr::NumberLiteral(n) => !(n.value is Complex), Expr::StringLiteral(_) => true, Expr::BooleanLiteral(_) => true, Expr::NoneLiteral(_) => true,
  Expr::List(l) => forall|i: int| 0 <= i < l.elts@.len() ==> literal(#[trigger] l.elts@[i]),
  Expr::Tuple(l) => forall|i: int| 0 <= i < l.elts@.len() ==> literal(#[trigger] l.elts@[i]),
  _ => false } }
pub open spec fn is_float(e: Expr) -> bool { e is NumberLiteral && (e->NumberLiteral_0).value is Float }
pub open spec fn stands(e: Expr, v: LiteralValue) -> bool decreases e { match e {
  Expr::NumberLiteral(n) => match n.value { Number::Int(i) => match v { LiteralValue::Int(x) => x == i.val(), LiteralValue::String(s) => i.val() > i64::MAX && s@ == num_text(i.val()), _ => false }, Number::Float(f) => v is Float, _ => false },
  Expr::StringLiteral(s) => v is String && (v->String_0)@ == s.value.text@, Expr::BooleanLiteral(b) => v is Bool && v->Bool_0 == b.value, Expr::NoneLiteral(_) => v is None,
  Expr::List(l) => v is Sequence && (v->Sequence_0)@.len() == l.elts@.len() && forall|i: int| 0 <= i < l.elts@.len() ==> ((v->Sequence_0)@[i] is Float && is_float(#[trigger] l.elts@[i])) || stands(l.elts@[i], (v->Sequence_0)@[i]),
  Expr::Tuple(l) => v is Sequence && (v->Sequence_0)@.len() == l.elts@.len() && forall|i: int| 0 <= i < l.elts@.len() ==> ((v->Sequence_0)@[i] is Float && is_float(#[trigger] l.elts@[i])) || stands(l.elts@[i], (v->Sequence_0)@[i]),
  _ => false } }
// (spelled out for floats: the solver does not unfold a recursive function on them)
pub open spec fn stands_for(e: Expr, v: LiteralValue) -> bool { match v { LiteralValue::Float(_) => is_float(e), _ => stands(e, v) } }
pub open spec fn elements(e: Expr) -> Option<Seq<Expr>> { match e { Expr::List(l) => Some(l.elts@), Expr::Tuple(t) => Some(t.elts@), _ => None } }
pub open spec fn all_stand(es: Seq<Expr>, vs: Seq<LiteralValue>) -> bool { vs.len() == es.len() && forall|i: int| 0 <= i < es.len() ==> stands_for(#[trigger] es[i], vs[i]) }
// ---- the names a statement binds in the scope it stands in
pub open spec fn concat(s: Seq<Seq<String>>) -> Seq<String> decreases s.len() { if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last() } }
#[verifier::opaque] pub open spec fn target_names(e: Expr) -> Seq<String> decreases e, 2int { match e {
  Expr::Name(n) => seq![n.id], Expr::List(l) => targets_in(l.elts@), Expr::Tuple(l) => targets_in(l.elts@), Expr::Starred(s) => target_names(*s.value), _ => Seq::empty() } }
#[verifier::opaque] pub open spec fn targets_in(es: Seq<Expr>) -> Seq<String> decreases es, 1int { concat(targets_each(es)) }
pub open spec fn targets_each(es: Seq<Expr>) -> Seq<Seq<String>> decreases es, 0int { Seq::new(es.len(), |i: int| if 0 <= i < es.len() { target_names(es[i]) } else { Seq::empty() }) }
pub open spec fn local(a: Alias) -> String { match a.asname { Some(n) => n, None => a.name } }
#[verifier::opaque] pub open spec fn binds(s: Stmt) -> Seq<String> decreases s, 2int { match s {
  Stmt::Assign(a) => targets_in(a.targets@), Stmt::AugAssign(a) => target_names(*a.target), Stmt::AnnAssign(a) => if a.value is Some { target_names(*a.target) } else { Seq::empty() },
  Stmt::FunctionDef(f) => seq![f.name], Stmt::ClassDef(c) => seq![c.name],
  Stmt::Import(i) => locals(i.names@), Stmt::ImportFrom(i) => locals(i.names@),
  Stmt::If(c) => bound_in(c.body@) + in_clauses(c.elif_else_clauses@), Stmt::For(f) => target_names(*f.target) + bound_in(f.body@) + bound_in(f.orelse@), Stmt::While(w) => bound_in(w.body@) + bound_in(w.orelse@),
  Stmt::With(w) => bound_in(w.body@), Stmt::Try(t) => bound_in(t.body@) + in_handlers(t.handlers@) + bound_in(t.orelse@) + bound_in(t.finalbody@), _ => Seq::empty() } }
#[verifier::opaque] pub open spec fn bound_in(ss: Seq<Stmt>) -> Seq<String> decreases ss, 1int { concat(bound_each(ss)) }
pub open spec fn bound_each(ss: Seq<Stmt>) -> Seq<Seq<String>> decreases ss, 0int { Seq::new(ss.len(), |i: int| if 0 <= i < ss.len() { binds(ss[i]) } else { Seq::empty() }) }
#[verifier::opaque] pub open spec fn in_clauses(cs: Seq<ElifElseClause>) -> Seq<String> decreases cs, 1int { concat(clauses_each(cs)) }
pub open spec fn clauses_each(cs: Seq<ElifElseClause>) -> Seq<Seq<String>> decreases cs, 0int { Seq::new(cs.len(), |i: int| if 0 <= i < cs.len() { bound_in(cs[i].body@) } else { Seq::empty() }) }
#[verifier::opaque] pub open spec fn in_handlers(hs: Seq<ExceptHandler>) -> Seq<String> decreases hs, 1int { concat(handlers_each(hs)) }
pub open spec fn handlers_each(hs: Seq<ExceptHandler>) -> Seq<Seq<String>> decreases hs, 0int { Seq::new(hs.len(), |i: int| if 0 <= i < hs.len() { bound_in(hs[i]->ExceptHandler_0.body@) } else { Seq::empty() }) }
pub broadcast proof fn lem_targets(d: Seq<Expr>, x: Expr) ensures #[trigger] targets_in(d.push(x)) == targets_in(d) + target_names(x)
{ reveal(target_names); reveal(binds); reveal(targets_in); reveal(bound_in); reveal(in_clauses); reveal(in_handlers); assert(targets_each(d.push(x)).drop_last() =~= targets_each(d)); }
pub broadcast proof fn lem_bound(d: Seq<Stmt>, x: Stmt) ensures #[trigger] bound_in(d.push(x)) == bound_in(d) + binds(x)
{ reveal(target_names); reveal(binds); reveal(targets_in); reveal(bound_in); reveal(in_clauses); reveal(in_handlers); assert(bound_each(d.push(x)).drop_last() =~= bound_each(d)); }
pub broadcast proof fn lem_clauses(d: Seq<ElifElseClause>, x: ElifElseClause) ensures #[trigger] in_clauses(d.push(x)) == in_clauses(d) + bound_in(x.body@)
{ reveal(target_names); reveal(binds); reveal(targets_in); reveal(bound_in); reveal(in_clauses); reveal(in_handlers); assert(clauses_each(d.push(x)).drop_last() =~= clauses_each(d)); }
pub broadcast proof fn lem_handlers(d: Seq<ExceptHandler>, x: ExceptHandler) ensures #[trigger] in_handlers(d.push(x)) == in_handlers(d) + bound_in(x->ExceptHandler_0.body@)
{ reveal(target_names); reveal(binds); reveal(targets_in); reveal(bound_in); reveal(in_clauses); reveal(in_handlers); assert(handlers_each(d.push(x)).drop_last() =~= handlers_each(d)); }
pub open spec fn locals(d: Seq<Alias>) -> Seq<String> { d.map_values(|a: Alias| local(a)) }
pub broadcast proof fn lem_names(d: Seq<Alias>, x: Alias) ensures #[trigger] locals(d.push(x)) == locals(d).push(local(x)) { assert(locals(d.push(x)) =~= locals(d).push(local(x))); }
pub open spec fn twice(b: Seq<String>, n: String) -> bool { exists|i: int, j: int| 0 <= i < j < b.len() && #[trigger] b[i] == n && #[trigger] b[j] == n }
pub proof fn lem_twice(b: Seq<String>, x: String, n: String) ensures twice(b.push(x), n) <==> twice(b, n) || (x == n && b.contains(n))
{ let p = b.push(x);
  if twice(p, n) { let (i, j) = choose|i: int, j: int| 0 <= i < j < p.len() && #[trigger] p[i] == n && #[trigger] p[j] == n; assert(b[i] == n); if j < b.len() { assert(b[j] == n); } else { assert(b.contains(n)); } }
  if twice(b, n) { let (i, j) = choose|i: int, j: int| 0 <= i < j < b.len() && #[trigger] b[i] == n && #[trigger] b[j] == n; assert(p[i] == n && p[j] == n); }
  if x == n && b.contains(n) { let i = choose|i: int| 0 <= i < b.len() && b[i] == n; assert(p[i] == n && p[b.len() as int] == n); } }
// (one unfolding)
pub open spec fn target_names1(e: Expr) -> Seq<String> { match e {
  Expr::Name(n) => seq![n.id], Expr::List(l) => targets_in(l.elts@), Expr::Tuple(l) => targets_in(l.elts@), Expr::Starred(s) => target_names(*s.value), _ => Seq::empty() } }
pub open spec fn binds1(s: Stmt) -> Seq<String> { match s {
  Stmt::Assign(a) => targets_in(a.targets@), Stmt::AugAssign(a) => target_names(*a.target), Stmt::AnnAssign(a) => if a.value is Some { target_names(*a.target) } else { Seq::empty() },
  Stmt::FunctionDef(f) => seq![f.name], Stmt::ClassDef(c) => seq![c.name],
  Stmt::Import(i) => locals(i.names@), Stmt::ImportFrom(i) => locals(i.names@),
  Stmt::If(c) => bound_in(c.body@) + in_clauses(c.elif_else_clauses@), Stmt::For(f) => target_names(*f.target) + bound_in(f.body@) + bound_in(f.orelse@), Stmt::While(w) => bound_in(w.body@) + bound_in(w.orelse@),
  Stmt::With(w) => bound_in(w.body@), Stmt::Try(t) => bound_in(t.body@) + in_handlers(t.handlers@) + bound_in(t.orelse@) + bound_in(t.finalbody@), _ => Seq::empty() } }
pub broadcast proof fn lem_target_names(e: Expr) ensures #[trigger] target_names(e) == target_names1(e) { reveal(target_names); reveal(binds); reveal(targets_in); reveal(bound_in); reveal(in_clauses); reveal(in_handlers); }
pub broadcast proof fn lem_binds(s: Stmt) ensures #[trigger] binds(s) == binds1(s) { reveal(target_names); reveal(binds); reveal(targets_in); reveal(bound_in); reveal(in_clauses); reveal(in_handlers); }
pub proof fn lem_none() ensures targets_in(Seq::empty()) =~= Seq::<String>::empty(), bound_in(Seq::empty()) =~= Seq::<String>::empty(), in_clauses(Seq::empty()) =~= Seq::<String>::empty(), in_handlers(Seq::empty()) =~= Seq::<String>::empty()
{ reveal(target_names); reveal(binds); reveal(targets_in); reveal(bound_in); reveal(in_clauses); reveal(in_handlers); }
// ---- the constants of a scope: names assigned a literal by a statement of the scope itself and bound by nothing else in it
pub open spec fn constant(s: Stmt) -> Option<(String, Expr)> { match s {
  Stmt::Assign(a) => if a.targets@.len() == 1 && a.targets@[0] is Name && literal(*a.value) { Some((a.targets@[0]->Name_0.id, *a.value)) } else { None },
  Stmt::AnnAssign(a) => if *a.target is Name && a.value is Some && literal(*a.value->Some_0) { Some(((*a.target)->Name_0.id, *a.value->Some_0)) } else { None },
  _ => None } }
pub open spec fn sets(s: Stmt, n: String) -> bool { constant(s) is Some && constant(s)->Some_0.0 == n }
pub open spec fn named(s: Stmt, n: String) -> bool { s is ClassDef && s->ClassDef_0.name == n }
pub open spec fn any_sets(ss: Seq<Stmt>, n: String) -> bool { exists|i: int| 0 <= i < ss.len() && #[trigger] sets(ss[i], n) }
pub open spec fn any_names(ss: Seq<Stmt>, n: String) -> bool { exists|i: int| 0 <= i < ss.len() && #[trigger] named(ss[i], n) }
pub open spec fn value_from(ss: Seq<Stmt>, n: String, v: LiteralValue) -> bool { exists|i: int| 0 <= i < ss.len() && #[trigger] sets(ss[i], n) && stands_for(constant(ss[i])->Some_0.1, v) }
#[verifier::opaque] pub open spec fn scope_is(sc: ConstantScope, ss: Seq<Stmt>) -> bool decreases ss, 2int {
  &&& forall|n: String| #[trigger] sc.constants@.dom().contains(n) <==> any_sets(ss, n) && !twice(bound_in(ss), n)
  &&& forall|n: String| #[trigger] sc.constants@.dom().contains(n) ==> value_from(ss, n, sc.constants@[n])
  &&& forall|n: String| #[trigger] sc.children@.dom().contains(n) <==> any_names(ss, n) && !twice(bound_in(ss), n)
  &&& forall|n: String| #[trigger] sc.children@.dom().contains(n) ==> class_from(ss, n, sc.children@[n]) }
pub open spec fn class_from(ss: Seq<Stmt>, n: String, k: ConstantScope) -> bool decreases ss, 1int { exists|i: int| 0 <= i < ss.len() && #[trigger] named(ss[i], n) && scope_is(k, ss[i]->ClassDef_0.body@) }
pub proof fn lem_push(d: Seq<Stmt>, x: Stmt)
  ensures forall|n: String| #[trigger] any_sets(d.push(x), n) <==> any_sets(d, n) || sets(x, n), forall|n: String| #[trigger] any_names(d.push(x), n) <==> any_names(d, n) || named(x, n),
    forall|n: String, v: LiteralValue| value_from(d, n, v) || (sets(x, n) && stands_for(constant(x)->Some_0.1, v)) ==> #[trigger] value_from(d.push(x), n, v),
    forall|n: String, k: ConstantScope| class_from(d, n, k) || (named(x, n) && scope_is(k, x->ClassDef_0.body@)) ==> #[trigger] class_from(d.push(x), n, k)
{ reveal(scope_is); let p = d.push(x); assert(p[d.len() as int] == x); assert(forall|i: int| 0 <= i < d.len() ==> p[i] == #[trigger] d[i]);
  assert forall|n: String| #[trigger] any_sets(p, n) implies any_sets(d, n) || sets(x, n) by { let i = choose|i: int| 0 <= i < p.len() && #[trigger] sets(p[i], n); if i < d.len() { assert(sets(d[i], n)); } }
  assert forall|n: String| #[trigger] any_names(p, n) implies any_names(d, n) || named(x, n) by { let i = choose|i: int| 0 <= i < p.len() && #[trigger] named(p[i], n); if i < d.len() { assert(named(d[i], n)); } }
  assert forall|n: String| any_sets(d, n) || sets(x, n) implies #[trigger] any_sets(p, n) by { if any_sets(d, n) { let i = choose|i: int| 0 <= i < d.len() && #[trigger] sets(d[i], n); assert(sets(p[i], n)); } else { assert(sets(p[d.len() as int], n)); } }
  assert forall|n: String| any_names(d, n) || named(x, n) implies #[trigger] any_names(p, n) by { if any_names(d, n) { let i = choose|i: int| 0 <= i < d.len() && #[trigger] named(d[i], n); assert(named(p[i], n)); } else { assert(named(p[d.len() as int], n)); } }
  assert forall|n: String, v: LiteralValue| value_from(d, n, v) || (sets(x, n) && stands_for(constant(x)->Some_0.1, v)) implies #[trigger] value_from(p, n, v) by { if value_from(d, n, v) { let i = choose|i: int| 0 <= i < d.len() && #[trigger] sets(d[i], n) && stands_for(constant(d[i])->Some_0.1, v); assert(sets(p[i], n)); } else { assert(sets(p[d.len() as int], n)); } }
  assert forall|n: String, k: ConstantScope| class_from(d, n, k) || (named(x, n) && scope_is(k, x->ClassDef_0.body@)) implies #[trigger] class_from(p, n, k) by { if class_from(d, n, k) { let i = choose|i: int| 0 <= i < d.len() && #[trigger] named(d[i], n) && scope_is(k, d[i]->ClassDef_0.body@); assert(named(p[i], n)); } else { assert(named(p[d.len() as int], n)); } } }
pub proof fn lem_twice_all(b: Seq<String>, x: String) ensures forall|n: String| #[trigger] twice(b.push(x), n) <==> twice(b, n) || (x == n && b.contains(n)), forall|n: String| #[trigger] b.push(x).contains(n) <==> b.contains(n) || n == x
{ assert forall|n: String| #[trigger] twice(b.push(x), n) <==> twice(b, n) || (x == n && b.contains(n)) by { lem_twice(b, x, n); }
  assert forall|n: String| #[trigger] b.push(x).contains(n) <==> b.contains(n) || n == x by { assert(b.push(x)[b.len() as int] == x); if b.contains(n) { let i = choose|i: int| 0 <= i < b.len() && b[i] == n; assert(b.push(x)[i] == n); } } }

// ---- what a dotted path, and an expression, stand for
pub open spec fn whole(p: Seq<&String>) -> Seq<String> { p.map_values(|s: &String| *s) }
pub broadcast proof fn lem_whole(p: Seq<&String>) requires p.len() > 0 ensures #[trigger] whole(p.skip(1)) == whole(p).skip(1) { assert(whole(p.skip(1)) =~= whole(p).skip(1)); }
pub open spec fn at(sc: ConstantScope, p: Seq<String>) -> Option<LiteralValue> decreases p.len() {
  if p.len() == 0 { None } else if p.len() == 1 { if sc.constants@.dom().contains(p[0]) { Some(sc.constants@[p[0]]) } else { None } }
  else if sc.children@.dom().contains(p[0]) { at(sc.children@[p[0]], p.skip(1)) } else { None } }
pub open spec fn path_of(e: Expr) -> Option<Seq<String>> decreases e { match e {
  Expr::Name(n) => Some(seq![n.id]), Expr::Attribute(a) => match path_of(*a.value) { Some(p) => Some(p.push(a.attr)), None => None }, _ => None } }
pub open spec fn resolved(c: ConstantResolver, e: Expr) -> Option<(LiteralValue, Seq<String>)> { match path_of(e) { None => None, Some(p) => match at(c.root, p) { None => None, Some(v) => Some((v, p)) } } }
// no constant is an unknown value
#[verifier::opaque] pub open spec fn tidy(c: ConstantResolver) -> bool { forall|p: Seq<String>| (#[trigger] at(c.root, p)) is Some ==> !opaque(at(c.root, p)->Some_0) }
pub open spec fn tidied(c: Option<&ConstantResolver>) -> bool { c is Some ==> tidy(*c->0) }
pub proof fn lem_clear(e: Expr, v: LiteralValue) requires stands_for(e, v) ensures !opaque(v) decreases e
{ if v is Sequence { match elements(e) { Some(es) => { assert forall|i: int| 0 <= i < es.len() implies !opaque(#[trigger] (v->Sequence_0)@[i]) by { assert(is_float(es[i]) || stands(es[i], (v->Sequence_0)@[i])); lem_clear(es[i], (v->Sequence_0)@[i]); } } None => {} } } }
pub proof fn lem_at(sc: ConstantScope, ss: Seq<Stmt>, p: Seq<String>) requires scope_is(sc, ss) ensures at(sc, p) is Some ==> !opaque(at(sc, p)->Some_0) decreases p.len()
{ reveal(scope_is);
  if p.len() == 1 && sc.constants@.dom().contains(p[0]) { assert(value_from(ss, p[0], sc.constants@[p[0]])); let i = choose|i: int| 0 <= i < ss.len() && #[trigger] sets(ss[i], p[0]) && stands_for(constant(ss[i])->Some_0.1, sc.constants@[p[0]]); lem_clear(constant(ss[i])->Some_0.1, sc.constants@[p[0]]); }
  else if p.len() > 1 && sc.children@.dom().contains(p[0]) { let i = choose|i: int| 0 <= i < ss.len() && #[trigger] named(ss[i], p[0]) && scope_is(sc.children@[p[0]], ss[i]->ClassDef_0.body@); lem_at(sc.children@[p[0]], ss[i]->ClassDef_0.body@, p.skip(1)); } }
pub proof fn lem_tidy(c: ConstantResolver, ss: Seq<Stmt>) requires scope_is(c.root, ss) ensures tidy(c)
{ reveal(tidy); assert forall|p: Seq<String>| (#[trigger] at(c.root, p)) is Some implies !opaque(at(c.root, p)->Some_0) by { lem_at(c.root, ss, p); } }
// what a class body sees: its own names hide the module's
pub open spec fn sees_less(c: ConstantResolver, hidden: Seq<String>, r: ConstantResolver) -> bool { forall|p: Seq<String>| #[trigger] at(r.root, p) == if p.len() > 0 && hidden.contains(p[0]) { None } else { at(c.root, p) } }
#[verifier::opaque] pub open spec fn hides(a: ConstantScope, hidden: Seq<String>, b: ConstantScope) -> bool { b.constants@ == a.constants@.remove_keys(hidden.to_set()) && b.children@ == a.children@.remove_keys(hidden.to_set()) }
pub proof fn lem_hides(a: ConstantScope, h: Seq<String>, x: String)
  ensures hides(a, Seq::empty(), a),
    forall|b: ConstantScope, d: ConstantScope| #[trigger] hides(a, h, b) && d.constants@ == b.constants@.remove(x) && d.children@ == b.children@.remove(x) ==> #[trigger] hides(a, h.push(x), d)
{
  reveal(hides);
  assert(a.constants@.remove_keys(Seq::<String>::empty().to_set()) =~= a.constants@); assert(a.children@.remove_keys(Seq::<String>::empty().to_set()) =~= a.children@);
  assert(h.push(x)[h.len() as int] == x);
  assert forall|k: String| #[trigger] h.push(x).contains(k) <==> (h.contains(k) || k == x) by { if h.contains(k) { let i = choose|i: int| 0 <= i < h.len() && h[i] == k; assert(h.push(x)[i] == k); } }
  assert(a.constants@.remove_keys(h.push(x).to_set()) =~= a.constants@.remove_keys(h.to_set()).remove(x));
  assert(a.children@.remove_keys(h.push(x).to_set()) =~= a.children@.remove_keys(h.to_set()).remove(x));
}
pub proof fn lem_sees(c: ConstantResolver, h: Seq<String>, r: ConstantResolver) requires hides(c.root, h, r.root) ensures sees_less(c, h, r)
{ reveal(hides); }

@fn try_extract_literal(expr)->r
@dec expr
@ensures
  C21_literal: r is Some <==> literal(*expr)
  C21_value: r is Some ==> stands_for(*expr, r->Some_0)
@loop list
@inv
  p: elements(*expr) == Some($all)
  g: !$m1 ==> all_stand($done, $acc@) && (forall|i: int| 0 <= i < $done.len() ==> literal(#[trigger] $done[i]))
  b: $m1 ==> exists|i: int| 0 <= i < $all.len() && !literal(#[trigger] $all[i])
@ens
  e: !$m1 ==> $done =~= $all && all_stand($all, $acc@)
@loop tuple
@inv
  p: elements(*expr) == Some($all)
  g: !$m1 ==> all_stand($done, $acc@) && (forall|i: int| 0 <= i < $done.len() ==> literal(#[trigger] $done[i]))
  b: $m1 ==> exists|i: int| 0 <= i < $all.len() && !literal(#[trigger] $all[i])
@ens
  e: !$m1 ==> $done =~= $all && all_stand($all, $acc@)

@fn collect_target_names(target, names)->r
@dec target
@ensures
  C21_targets: final(names)@ == old(names)@ + target_names(*target)
@entry
broadcast use {lem_target_names, lem_targets};
proof { lem_none(); }
@loop list
@inv
  n: elements(*target) == Some($all) && names@ =~= old(names)@ + targets_in($done)
@before
proof { assert($done =~= Seq::empty()); }
@loop tuple
@inv
  n: elements(*target) == Some($all) && names@ =~= old(names)@ + targets_in($done)
@before
proof { assert($done =~= Seq::empty()); }

@fn collect_bound_names(stmts, names)->r
@dec stmts@
@ensures
  C21_bound: final(names)@ == old(names)@ + bound_in(stmts@)
@entry
broadcast use {lem_target_names, lem_binds, lem_targets, lem_bound, lem_clauses, lem_handlers, lem_names};
proof { lem_none(); }
@loop stmts
@inv
  n: names@ =~= old(names)@ + bound_in($done)
@before
proof { assert($done =~= Seq::empty()); }
@loop targets
@inv
  n: names@ =~= old(names)@ + bound_in($oprev) + targets_in($done)
@before
proof { assert($done =~= Seq::empty()); }
@loop import
@inv
  n: names@ =~= old(names)@ + bound_in($oprev) + locals($done)
@before
proof { assert($done =~= Seq::empty()); }
@loop from
@inv
  n: names@ =~= old(names)@ + bound_in($oprev) + locals($done)
@before
proof { assert($done =~= Seq::empty()); }
@loop clauses
@inv
  n: names@ =~= old(names)@ + bound_in($oprev) + bound_in($ox->If_0.body@) + in_clauses($done)
@before
proof { assert($done =~= Seq::empty()); }
@loop handlers
@inv
  n: names@ =~= old(names)@ + bound_in($oprev) + bound_in($ox->Try_0.body@) + in_handlers($done)
@before
proof { assert($done =~= Seq::empty()); }

@fn ConstantScope::from_statements(stmts)->r
@dec stmts@
@ensures
  C21_scope: scope_is(r, stmts@)
@entry
@exit
proof { reveal(scope_is); }
@loop stmts
@inv
  c: forall|n: String| #[trigger] scope.constants@.dom().contains(n) <==> any_sets($done, n)
  v: forall|n: String| #[trigger] scope.constants@.dom().contains(n) ==> value_from($done, n, scope.constants@[n])
  k: forall|n: String| #[trigger] scope.children@.dom().contains(n) <==> any_names($done, n)
  w: forall|n: String| #[trigger] scope.children@.dom().contains(n) ==> class_from($done, n, scope.children@[n])
@pre
proof { lem_push($prev, $done.last()); }
@loop bound
@inv
  b: $all == bound_in(stmts@)
  s: forall|n: String| #[trigger] seen@.contains(n) <==> $done.contains(n)
  c: forall|n: String| #[trigger] scope.constants@.dom().contains(n) <==> any_sets(stmts@, n) && !twice($done, n)
  v: forall|n: String| #[trigger] scope.constants@.dom().contains(n) ==> value_from(stmts@, n, scope.constants@[n])
  k: forall|n: String| #[trigger] scope.children@.dom().contains(n) <==> any_names(stmts@, n) && !twice($done, n)
  w: forall|n: String| #[trigger] scope.children@.dom().contains(n) ==> class_from(stmts@, n, scope.children@[n])
@pre
proof { lem_twice_all($prev, $done.last()); }

@fn ConstantScope::resolve_path(path)->r
@dec path@.len()
@entry
broadcast use {lem_whole};
@ensures
  C21_path: r == at(*self, whole(path@))

@fn ConstantResolver::from_module(module)->r
@ensures
  C21_scope: scope_is(r.root, module.body@)
  C21_tidy: tidy(r)
@exit
proof { lem_tidy(r, module.body@); }

@fn ConstantResolver::for_class_body(body)->r
@ensures
  C21_hides: sees_less(*self, bound_in(body@), r)
  C21_tidy: tidy(*self) ==> tidy(r)
@exit
proof { reveal(tidy); lem_sees(*self, bound_in(body@), r); }
@loop hidden
@inv
  h: $all == bound_in(body@) && hides(self.root, $done, root)
@before
proof { lem_hides(self.root, Seq::empty(), arbitrary()); assert($done =~= Seq::empty()); }
@post
proof { lem_hides(self.root, $prev, $x); }

@fn expr_to_path(expr)->r
@dec expr
@ensures
  C21_path: match r { Some(p) => path_of(*expr) == Some(p@), None => path_of(*expr) is None }

@fn ConstantResolver::resolve(expr)->r
@ensures
  C21_resolve: match r { Some(p) => resolved(*self, *expr) == Some((p.0, p.1@)), None => resolved(*self, *expr) is None }
  C21_known: tidy(*self) && r is Some ==> !opaque(r->Some_0.0)
@exit
proof { reveal(tidy); }
@loop path
@inv
  p: whole($acc@) =~= $done
