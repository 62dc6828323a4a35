@unit pydisc
@source python/rtest/worker/runner.py
@prelude core py pypath
@include class TestCase
@opt typemap Path => PyPath
@opt typemap ModuleType => Obj
@opt pytype TestCase.test_class => Option<Obj>
@opt pytype _discover_tests_in_module.class_obj => Obj
@opt attr __rtest_skip__ => Val
@opt attr __rtest_skip_reason__ => Val
@opt attr __name__ => Val
@opt attr __dict__ => PyList<String>
@opt attr pytestmark => PyList<Val>
@opt attr name => Val
@opt attr args => PyList<Val>
@opt attr kwargs => PyDict<String, Val>
@opt pyfn warnings.warn => ! py_warn drop stacklevel
@opt pyfn MappingProxyType => py_proxy pure
@opt pyfn inspect.getmembers => py_members -> PyList<(String, Val)>
@opt pyfn inspect.getmro => py_mro -> PyList<Obj>
@opt pyfn inspect.isfunction => py_isfunction -> bool
@opt pyfn inspect.isclass => py_isclass -> bool
@opt pyfn fnmatch.fnmatch => py_fnmatch -> bool
@opt pyfn expand_parametrize => ! py_expand -> PyList<(String, PyDict<String, Val>)>
@opt pyfn get_case_nodeid_suffix => py_suffix -> String
@opt pyfn .relative_to => ! p_rel -> PyPath
@opt pyspecial getattr_dyn
@spec
// what the interpreter says of the module's objects (looking changes nothing)
pub uninterp spec fn members(m: Obj) -> Seq<(String, Val)>;
pub uninterp spec fn bases(c: Obj) -> Seq<Obj>;           // the method resolution order
pub uninterp spec fn is_func(v: Val) -> bool;
pub uninterp spec fn lookup(c: Val, n: Seq<char>) -> Result<Val, Exc>;
pub uninterp spec fn glob(name: Seq<char>, pat: Seq<char>) -> bool;      // shell-style matching
pub uninterp spec fn cases_of(f: Obj) -> Result<PyList<(String, PyDict<String, Val>)>, Exc>;      // expand_parametrize: C15, C16
pub uninterp spec fn quiet() -> bool;       // warnings are not turned into exceptions
pub open spec fn is_cls(v: Val) -> bool { v is Obj && is_class(v->Obj_0) }
#[verifier::external_body] pub proof fn ax_func() ensures forall|v: Val| #[trigger] is_func(v) ==> v is Obj { unimplemented!() }
#[verifier::external_body] pub proof fn ax_dict() ensures forall|c: Obj, i: int| is_class(c) && 0 <= i < bases(c).len() ==> at___dict__(Val::Obj(#[trigger] bases(c)[i])) is Some { unimplemented!() }
#[verifier::external_body] pub fn py_members(m: Obj) -> (r: PyList<(String, Val)>) ensures r@ == members(m) { unimplemented!() }
#[verifier::external_body] pub fn py_mro(c: Obj) -> (r: PyList<Obj>) ensures r@ == bases(c) { unimplemented!() }
#[verifier::external_body] pub fn py_isfunction(v: Val) -> (r: bool) ensures r == is_func(v) { unimplemented!() }
#[verifier::external_body] pub fn py_isclass(v: Val) -> (r: bool) ensures r == is_cls(v) { unimplemented!() }
#[verifier::external_body] pub fn py_fnmatch(n: String, p: String) -> (r: bool) ensures r == glob(n@, p@) { unimplemented!() }
#[verifier::external_body] pub fn py_expand(f: Obj) -> (r: Result<PyList<(String, PyDict<String, Val>)>, Exc>) ensures r == cases_of(f) { unimplemented!() }
#[verifier::external_body] pub fn py_suffix(c: String) -> (r: String) ensures r@ == suffix(c@) { unimplemented!() }
#[verifier::external_body] pub fn getattr_dyn(o: Val, n: String) -> (r: Result<Val, Exc>) ensures r == lookup(o, n@) { unimplemented!() }
#[verifier::external_body] pub fn py_warn(msg: String, c: Obj) -> (r: Result<(), Exc>) ensures quiet() ==> r is Ok { unimplemented!() }
#[verifier::external_body] pub fn py_proxy<K, V>(d: PyDict<K, V>) -> (r: PyDict<K, V>) ensures r == d { unimplemented!() }
pub open spec fn suffix(c: Seq<char>) -> Seq<char> { if c.len() == 0 { Seq::empty() } else { seq!['['] + c + seq![']'] } }
// ---- names and marks
pub open spec fn selected(n: Seq<char>, ps: Seq<String>) -> bool { exists|i: int| 0 <= i < ps.len() && glob(n, (#[trigger] ps[i])@) }
pub open spec fn own_mark(v: Val) -> bool { match at___rtest_skip__(v) { Some(x) => x.tru(), None => false } }
pub open spec fn marks(v: Val) -> Seq<Val> { match at_pytestmark(v) { Some(l) => l@, None => Seq::empty() } }
pub open spec fn is_skip(m: Val) -> bool { match at_name(m) { Some(x) => x.eq_(mk("skip"@)), None => false } }
pub open spec fn has_skip(s: Seq<Val>) -> bool { exists|i: int| 0 <= i < s.len() && is_skip(#[trigger] s[i]) }
pub open spec fn first_skip(s: Seq<Val>) -> Val decreases s.len() { if s.len() == 0 { Val::None } else if has_skip(s.drop_last()) { first_skip(s.drop_last()) } else { s.last() } }
pub open spec fn mark_reason(m: Val) -> Seq<char> {
  let k = match at_kwargs(m) { Some(d) => d@, None => Map::empty() };
  let a = match at_args(m) { Some(l) => l@, None => Seq::empty() };
  let r = if k.dom().contains(mk("reason"@)) { k[mk("reason"@)] } else { Val::Str(mk(Seq::empty())) };
  if r.tru() && r.text().len() > 0 { r.text() } else if a.len() > 0 { a[0].text() } else { Seq::empty() } }
pub open spec fn skipped(v: Val) -> bool { own_mark(v) || has_skip(marks(v)) }
pub open spec fn skip_why(v: Val) -> Seq<char> {
  if own_mark(v) { match at___rtest_skip_reason__(v) { Some(x) => x.text(), None => Seq::empty() } }
  else if has_skip(marks(v)) { mark_reason(first_skip(marks(v))) } else { Seq::empty() } }
pub proof fn lem_first(s: Seq<Val>, n: int) requires 0 <= n < s.len(), is_skip(s[n]), !has_skip(s.take(n)) ensures has_skip(s), first_skip(s) == s[n] decreases s.len()
{ assert(is_skip(s[n])); if n == s.len() - 1 { assert(s.drop_last() =~= s.take(n)); } else { assert(s.drop_last()[n] == s[n]); assert(s.drop_last().take(n) =~= s.take(n)); lem_first(s.drop_last(), n); } }
// ---- the tests of a module
pub struct Job { pub rel: Seq<char>, pub pc: Seq<String>, pub pf: Seq<String> }
pub open spec fn one(id: Seq<char>, c: (String, PyDict<String, Val>), f: Obj, k: bool, why: Seq<char>, cls: Option<Obj>, m: Option<String>) -> TestCase {
  TestCase { nodeid: mk(id + suffix(c.0@)), func: f, kwargs: c.1, skip: k, skip_reason: mk(why), test_class: cls, method_name: m } }
pub open spec fn ok_cases(f: Obj) -> Seq<(String, PyDict<String, Val>)> { match cases_of(f) { Ok(l) => l@, Err(_) => Seq::empty() } }
pub open spec fn func_tests(j: Job, n: String, v: Val) -> Seq<TestCase> {
  let f = v->Obj_0; ok_cases(f).map_values(|c: (String, PyDict<String, Val>)| one(j.rel + "::"@ + n@, c, f, skipped(v), skip_why(v), None, None)) }
pub open spec fn meth(c: Obj, m: String) -> Val { lookup(Val::Obj(c), m@)->Ok_0 }
pub open spec fn is_test_method(j: Job, c: Obj, m: String) -> bool { selected(m@, j.pf) && lookup(Val::Obj(c), m@) is Ok && is_func(meth(c, m)) }
pub open spec fn method_tests(j: Job, n: String, c: Obj, m: String) -> Seq<TestCase> {
  let v = meth(c, m); let f = v->Obj_0; let k = Val::Obj(c);
  ok_cases(f).map_values(|x: (String, PyDict<String, Val>)| one(j.rel + "::"@ + n@ + "::"@ + m@, x, f, skipped(v) || skipped(k), if skipped(v) { skip_why(v) } else { skip_why(k) }, Some(c), Some(m))) }
// the attribute names of the class and its bases, in resolution order; the test methods among them, each once
pub open spec fn own_names(c: Obj) -> Seq<String> { match at___dict__(Val::Obj(c)) { Some(l) => l@, None => Seq::empty() } }
#[verifier::opaque] pub open spec fn all_names(b: Seq<Obj>) -> Seq<String> decreases b.len() { if b.len() == 0 { Seq::empty() } else { all_names(b.drop_last()) + own_names(b.last()) } }
#[verifier::opaque] pub open spec fn methods(j: Job, c: Obj, ns: Seq<String>) -> Seq<String> decreases ns.len() {
  if ns.len() == 0 { Seq::empty() } else { let p = methods(j, c, ns.drop_last()); if is_test_method(j, c, ns.last()) && !p.contains(ns.last()) { p.push(ns.last()) } else { p } } }
#[verifier::opaque] pub open spec fn tests_of(j: Job, n: String, c: Obj, ms: Seq<String>) -> Seq<TestCase> decreases ms.len() { if ms.len() == 0 { Seq::empty() } else { tests_of(j, n, c, ms.drop_last()) + method_tests(j, n, c, ms.last()) } }
pub open spec fn class_tests(j: Job, n: String, c: Obj) -> Seq<TestCase> { tests_of(j, n, c, methods(j, c, all_names(bases(c)))) }
pub open spec fn member_tests(j: Job, x: (String, Val)) -> Seq<TestCase> {
  if is_func(x.1) && selected(x.0@, j.pf) { func_tests(j, x.0, x.1) } else if is_cls(x.1) && selected(x.0@, j.pc) { class_tests(j, x.0, x.1->Obj_0) } else { Seq::empty() } }
#[verifier::opaque] pub open spec fn module_tests(j: Job, s: Seq<(String, Val)>) -> Seq<TestCase> decreases s.len() { if s.len() == 0 { Seq::empty() } else { module_tests(j, s.drop_last()) + member_tests(j, s.last()) } }
pub broadcast proof fn lem_contains_push<T>(s: Seq<T>, x: T, y: T) ensures (#[trigger] s.push(x).contains(y)) == (s.contains(y) || x == y) {
  if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
  if x == y { assert(s.push(x)[s.len() as int] == y); }
  if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } } }
pub proof fn lem_names(b: Seq<Obj>, x: Obj) ensures all_names(b.push(x)) == all_names(b) + own_names(x), all_names(Seq::empty()) == Seq::<String>::empty() { reveal(all_names); assert(b.push(x).drop_last() =~= b); }
pub proof fn lem_meth(j: Job, c: Obj, ns: Seq<String>, x: String) ensures methods(j, c, ns.push(x)) == (if is_test_method(j, c, x) && !methods(j, c, ns).contains(x) { methods(j, c, ns).push(x) } else { methods(j, c, ns) }), methods(j, c, Seq::empty()) == Seq::<String>::empty() { reveal(methods); assert(ns.push(x).drop_last() =~= ns); }
pub proof fn lem_tests(j: Job, n: String, c: Obj, ms: Seq<String>, x: String) ensures tests_of(j, n, c, ms.push(x)) == tests_of(j, n, c, ms) + method_tests(j, n, c, x), tests_of(j, n, c, Seq::empty()) == Seq::<TestCase>::empty() { reveal(tests_of); assert(ms.push(x).drop_last() =~= ms); }
pub proof fn lem_mod(j: Job, s: Seq<(String, Val)>, x: (String, Val)) ensures module_tests(j, s.push(x)) == module_tests(j, s) + member_tests(j, x), module_tests(j, Seq::empty()) == Seq::<TestCase>::empty() { reveal(module_tests); assert(s.push(x).drop_last() =~= s); }
// ---- what that means: a method is found exactly when the class or a base defines it, once; ids differ
pub proof fn lem_methods(j: Job, c: Obj, ns: Seq<String>)
  ensures methods(j, c, ns).no_duplicates(), forall|x: String| (#[trigger] methods(j, c, ns).contains(x)) == (ns.contains(x) && is_test_method(j, c, x)) decreases ns.len()
{ broadcast use lem_contains_push;
  if ns.len() == 0 { reveal(methods); } else { let p = ns.drop_last(); lem_methods(j, c, p); lem_meth(j, c, p, ns.last()); assert(p.push(ns.last()) =~= ns);
    assert forall|x: String| ns.contains(x) == (p.contains(x) || x == ns.last()) by { assert(p.push(ns.last()).contains(x) == (p.contains(x) || x == ns.last())); } } }
pub open spec fn plain(n: Seq<char>) -> bool { forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != ':' && n[i] != '[' }
pub open spec fn plain_all(s: Seq<String>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain((#[trigger] s[i])@) }
pub open spec fn tail(r: Seq<char>) -> bool { r.len() == 0 || r[0] == ':' || r[0] == '[' }
pub open spec fn distinct(s: Seq<TestCase>) -> bool { forall|i: int, k: int| 0 <= i < k < s.len() ==> (#[trigger] s[i]).nodeid@ != (#[trigger] s[k]).nodeid@ }
pub open spec fn under(t: TestCase, p: Seq<char>, m: Seq<char>) -> bool { exists|r: Seq<char>| tail(r) && t.nodeid@ == #[trigger] (p + m + r) }
pub open spec fn all_under(s: Seq<TestCase>, p: Seq<char>, m: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> under(#[trigger] s[i], p, m) }
pub open spec fn beneath(t: TestCase, p: Seq<char>, ns: Seq<String>) -> bool { exists|k: int| 0 <= k < ns.len() && under(t, p, (#[trigger] ns[k])@) }
pub open spec fn block(s: Seq<TestCase>, p: Seq<char>, ns: Seq<String>) -> bool { forall|i: int| 0 <= i < s.len() ==> beneath(#[trigger] s[i], p, ns) }
pub proof fn lem_split(p: Seq<char>, a: Seq<char>, b: Seq<char>, r: Seq<char>, q: Seq<char>) requires plain(a), plain(b), tail(r), tail(q), p + a + r == p + b + q ensures a == b
{ let x = p + a + r; let n = p.len() as int;
  assert(x.skip(n) =~= a + r); assert((p + b + q).skip(n) =~= b + q); let y = a + r;
  if a.len() < b.len() { assert(y[a.len() as int] == b[a.len() as int]); assert(y[a.len() as int] == r[0]); }
  else if b.len() < a.len() { assert((b + q)[b.len() as int] == a[b.len() as int]); assert((b + q)[b.len() as int] == q[0]); }
  else { assert(y.take(a.len() as int) =~= a); assert((b + q).take(a.len() as int) =~= b); } }
pub proof fn lem_cat(s: Seq<TestCase>, t: Seq<TestCase>, p: Seq<char>, ns: Seq<String>, m: String)
  requires block(s, p, ns), all_under(t, p, m@), plain_all(ns), plain(m@), !ns.contains(m), distinct(s), distinct(t) ensures distinct(s + t), block(s + t, p, ns.push(m))
{ let u = s + t; let nm = ns.push(m);
  assert forall|i: int, k: int| 0 <= i < k < u.len() implies (#[trigger] u[i]).nodeid@ != (#[trigger] u[k]).nodeid@ by {
    if i < s.len() && k >= s.len() { let a = s[i]; let b = t[k - s.len()]; assert(u[i] == a && u[k] == b);
      if a.nodeid@ == b.nodeid@ { let h = choose|h: int| 0 <= h < ns.len() && under(a, p, (#[trigger] ns[h])@);
        let r = choose|r: Seq<char>| tail(r) && a.nodeid@ == #[trigger] (p + ns[h]@ + r); let q = choose|r: Seq<char>| tail(r) && b.nodeid@ == #[trigger] (p + m@ + r);
        lem_split(p, ns[h]@, m@, r, q); assert(ns[h] == m); } }
    else if i >= s.len() { assert(u[i] == t[i - s.len()]); assert(u[k] == t[k - s.len()]); } else { assert(u[i] == s[i]); assert(u[k] == s[k]); } }
  assert forall|i: int| 0 <= i < u.len() implies beneath(#[trigger] u[i], p, nm) by {
    if i < s.len() { assert(u[i] == s[i]); let h = choose|h: int| 0 <= h < ns.len() && under(s[i], p, (#[trigger] ns[h])@); assert(nm[h] == ns[h]); assert(under(u[i], p, nm[h]@)); } else { assert(u[i] == t[i - s.len()]); assert(nm[ns.len() as int] == m); assert(under(u[i], p, nm[ns.len() as int]@)); } } }
pub open spec fn ids_differ(f: Obj) -> bool { forall|i: int, k: int| 0 <= i < k < ok_cases(f).len() ==> (#[trigger] ok_cases(f)[i]).0@ != (#[trigger] ok_cases(f)[k]).0@ }
pub proof fn lem_suffix(a: Seq<char>, b: Seq<char>) ensures tail(suffix(a)), suffix(a) == suffix(b) ==> a == b
{ if suffix(a) == suffix(b) { if a.len() > 0 && b.len() > 0 { assert(suffix(a).subrange(1, a.len() as int + 1) =~= a); assert(suffix(b).subrange(1, b.len() as int + 1) =~= b); assert(suffix(a).len() == suffix(b).len()); } else { assert(a =~= b); } } }
pub proof fn lem_cases(id: Seq<char>, f: Obj, s: Seq<TestCase>)
  requires ids_differ(f), s.len() == ok_cases(f).len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).nodeid@ == id + suffix(ok_cases(f)[i].0@)
  ensures distinct(s), forall|i: int| 0 <= i < s.len() ==> exists|r: Seq<char>| tail(r) && (#[trigger] s[i]).nodeid@ == #[trigger] (id + r)
{ assert forall|i: int, k: int| 0 <= i < k < s.len() implies (#[trigger] s[i]).nodeid@ != (#[trigger] s[k]).nodeid@ by { let a = ok_cases(f)[i].0@; let b = ok_cases(f)[k].0@;
    if s[i].nodeid@ == s[k].nodeid@ { assert((id + suffix(a)).skip(id.len() as int) =~= suffix(a)); assert((id + suffix(b)).skip(id.len() as int) =~= suffix(b)); lem_suffix(a, b); } }
  assert forall|i: int| 0 <= i < s.len() implies exists|r: Seq<char>| tail(r) && (#[trigger] s[i]).nodeid@ == #[trigger] (id + r) by { let a = ok_cases(f)[i].0@; lem_suffix(a, a); assert(s[i].nodeid@ == id + suffix(a)); } }
pub proof fn lem_class(j: Job, n: String, c: Obj, ms: Seq<String>)
  requires plain_all(ms), ms.no_duplicates(), forall|f: Obj| #[trigger] ids_differ(f) ensures distinct(tests_of(j, n, c, ms)), block(tests_of(j, n, c, ms), j.rel + "::"@ + n@ + "::"@, ms) decreases ms.len()
{ let p = j.rel + "::"@ + n@ + "::"@;
  if ms.len() == 0 { reveal(tests_of); } else { let q = ms.drop_last(); let m = ms.last(); assert forall|i: int| 0 <= i < q.len() implies plain((#[trigger] q[i])@) by { assert(q[i] == ms[i]); }
    lem_class(j, n, c, q); lem_tests(j, n, c, q, m); assert(q.push(m) =~= ms); let f = meth(c, m)->Obj_0; let t = method_tests(j, n, c, m); lem_cases(p + m@, f, t); 
    assert(plain(ms[ms.len() - 1]@));
    assert(!q.contains(m)) by { if q.contains(m) { let i = choose|i: int| 0 <= i < q.len() && q[i] == m; assert(ms[i] == ms[ms.len() - 1]); } }
    assert(all_under(t, p, m@)); lem_cat(tests_of(j, n, c, q), t, p, q, m); } }
pub open spec fn names_of(s: Seq<(String, Val)>) -> Seq<String> { s.map_values(|x: (String, Val)| x.0) }
pub open spec fn plain_members(s: Seq<(String, Val)>) -> bool { names_of(s).no_duplicates() && plain_all(names_of(s)) && (forall|c: Obj| plain_all(#[trigger] own_names(c))) && forall|f: Obj| #[trigger] ids_differ(f) }
pub proof fn lem_plain_names(b: Seq<Obj>) requires forall|c: Obj| plain_all(#[trigger] own_names(c)) ensures plain_all(all_names(b)) decreases b.len()
{ if b.len() == 0 { reveal(all_names); } else { lem_plain_names(b.drop_last()); lem_names(b.drop_last(), b.last()); assert(b.drop_last().push(b.last()) =~= b); let x = all_names(b.drop_last()); let y = own_names(b.last());
  assert forall|i: int| 0 <= i < (x + y).len() implies plain((#[trigger] (x + y)[i])@) by { if i < x.len() { assert((x + y)[i] == x[i]); } else { assert((x + y)[i] == y[i - x.len()]); } } } }
pub proof fn lem_member(j: Job, x: (String, Val)) requires plain(x.0@), forall|c: Obj| plain_all(#[trigger] own_names(c)), forall|f: Obj| #[trigger] ids_differ(f) ensures distinct(member_tests(j, x)), all_under(member_tests(j, x), j.rel + "::"@, x.0@)
{ let p = j.rel + "::"@; let n = x.0;
  if is_func(x.1) && selected(n@, j.pf) { lem_cases(p + n@, x.1->Obj_0, func_tests(j, n, x.1)); assert(all_under(func_tests(j, n, x.1), p, n@)); }
  else if is_cls(x.1) && selected(n@, j.pc) { let c = x.1->Obj_0; let ns = all_names(bases(c)); let ms = methods(j, c, ns); lem_plain_names(bases(c)); lem_methods(j, c, ns);
    assert forall|i: int| 0 <= i < ms.len() implies plain((#[trigger] ms[i])@) by { assert(ms.contains(ms[i])); let k = choose|k: int| 0 <= k < ns.len() && ns[k] == ms[i]; assert(plain(ns[k]@)); }
    lem_class(j, n, c, ms); let s = class_tests(j, n, c);
    assert forall|i: int| 0 <= i < s.len() implies under(#[trigger] s[i], p, n@) by { let k = choose|k: int| 0 <= k < ms.len() && under(s[i], p + n@ + "::"@, (#[trigger] ms[k])@); let r = choose|r: Seq<char>| tail(r) && s[i].nodeid@ == #[trigger] (p + n@ + "::"@ + ms[k]@ + r);
      reveal_strlit("::"); let q = "::"@ + ms[k]@ + r; assert(p + n@ + "::"@ + ms[k]@ + r =~= p + n@ + q); assert(q[0] == ':'); } } }
pub proof fn lem_module(j: Job, s: Seq<(String, Val)>) requires plain_members(s) ensures distinct(module_tests(j, s)), block(module_tests(j, s), j.rel + "::"@, names_of(s)) decreases s.len()
{ if s.len() == 0 { reveal(module_tests); } else { let q = s.drop_last(); let x = s.last(); let ns = names_of(s); let nq = names_of(q); assert(nq =~= ns.drop_last()); assert(ns =~= nq.push(x.0));
    assert forall|i: int| 0 <= i < nq.len() implies plain((#[trigger] nq[i])@) by { assert(nq[i] == ns[i]); } assert(plain(ns[ns.len() - 1]@));
    assert(!nq.contains(x.0)) by { if nq.contains(x.0) { let i = choose|i: int| 0 <= i < nq.len() && nq[i] == x.0; assert(ns[i] == ns[ns.len() - 1]); } }
    lem_module(j, q); lem_mod(j, q, x); assert(q.push(x) =~= s); lem_member(j, x); lem_cat(module_tests(j, q), member_tests(j, x), j.rel + "::"@, nq, x.0); } }
// nothing the discovery looks at raises
pub open spec fn func_good(f: Obj) -> bool { cases_of(f) is Ok }
pub open spec fn method_good(j: Job, c: Obj, m: String) -> bool { selected(m@, j.pf) ==> lookup(Val::Obj(c), m@) is Ok && (is_func(meth(c, m)) ==> func_good(meth(c, m)->Obj_0)) }
pub open spec fn class_good(j: Job, c: Obj) -> bool { forall|i: int, k: int| 0 <= i < bases(c).len() && 0 <= k < own_names(bases(c)[i]).len() ==> method_good(j, c, #[trigger] own_names(bases(c)[i])[k]) }
pub open spec fn member_good(j: Job, x: (String, Val)) -> bool {
  if is_func(x.1) && selected(x.0@, j.pf) { func_good(x.1->Obj_0) } else if is_cls(x.1) && selected(x.0@, j.pc) { class_good(j, x.1->Obj_0) } else { true } }
pub open spec fn all_good(j: Job, m: Obj) -> bool { quiet() && forall|i: int| 0 <= i < members(m).len() ==> member_good(j, #[trigger] members(m)[i]) }

@fn _is_test_function(name, obj, patterns)
@ensures
  function: r == Ok::<bool, Exc>(is_func(obj) && selected(name@, patterns@))
@loop any
@inv
  none: $all == patterns@ && forall|i: int| 0 <= i < $done.len() ==> !glob(name@, (#[trigger] $done[i])@) || $acc
@ens
  any: $acc == selected(name@, $all)

@fn _is_test_class(name, obj, patterns)
@ensures
  class_: r == Ok::<bool, Exc>(is_cls(obj) && selected(name@, patterns@))
@loop any
@inv
  none: $all == patterns@ && forall|i: int| 0 <= i < $done.len() ==> !glob(name@, (#[trigger] $done[i])@) || $acc
@ens
  any: $acc == selected(name@, $all)

@fn _is_skipped(obj)
@ensures
  C20_skipped: r is Ok ==> (r->Ok_0).0 == skipped(obj) && (r->Ok_0).1@ == skip_why(obj)
  C20_quiet: quiet() ==> r is Ok
@entry
proof { assert(""@ =~= Seq::<char>::empty()); }
@loop marks
@inv
  none: $all == marks(obj) && !own_mark(obj) && !has_skip($done)
@pre
proof { assert($done =~= marks(obj).take($done.len() as int)); assert($prev =~= marks(obj).take($prev.len() as int)); if is_skip($done.last()) { lem_first(marks(obj), $prev.len() as int); }
  assert(has_skip($done) ==> has_skip($prev) || is_skip($done.last())) by { if has_skip($done) { let i = choose|i: int| 0 <= i < $done.len() && is_skip(#[trigger] $done[i]); if i < $prev.len() { assert($prev[i] == $done[i]); } } } }

@fn _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
@ensures
  C20_tests: r is Ok ==> (r->Ok_0)@ == module_tests(Job { rel: sp_replace(rel_text(file_path, root), "\\"@, "/"@), pc: python_classes@, pf: python_functions@ }, members(module))
  C20_ids: r is Ok && plain_members(members(module)) ==> distinct((r->Ok_0)@)
  C20_found: all_good(Job { rel: sp_replace(rel_text(file_path, root), "\\"@, "/"@), pc: python_classes@, pf: python_functions@ }, module) ==> r is Ok
@entry
let ghost job = Job { rel: sp_replace(rel_text(file_path, root), "\\"@, "/"@), pc: python_classes@, pf: python_functions@ };
broadcast use {ax_exc_cls, ax_exc, lem_contains_push};
proof { ax_hier(); ax_func(); ax_dict(); if plain_members(members(module)) { lem_module(job, members(module)); } }
@loop members
@before
proof { assert($done =~= Seq::<(String, Val)>::empty()); if members(module).len() > 0 { lem_mod(job, $done, members(module)[0]); } else { reveal(module_tests); } }
@inv
  C20_tests: $all == members(module) && $m1@ == module_tests(job, $done)
@pre
proof { lem_mod(job, $prev, $done.last()); assert(members(module)[$prev.len() as int] == $done.last()); }
let ghost mem = $done.last();
let ghost t1 = $m1@;
@post
proof { assert($m1@ =~= t1 + member_tests(job, mem)); }
@loop function
@inv
  C20_func: $all =~= ok_cases(mem.1->Obj_0) && $m1@ =~= t1 + func_tests(job, mem.0, mem.1).take($done.len() as int)
@pre
let ghost f0 = $m1@;
@post
proof { assert($m1@.last() == func_tests(job, mem.0, mem.1)[$prev.len() as int]); assert($m1@ =~= f0.push($m1@.last())); }
@after
proof { assert(func_tests(job, mem.0, mem.1).take($all.len() as int) =~= func_tests(job, mem.0, mem.1)); }
@loop bases
@before
let ghost kc = mem.1->Obj_0;
proof { assert($done =~= Seq::<Obj>::empty()); lem_names($done, kc); lem_meth(job, kc, Seq::empty(), mem.0); lem_tests(job, mem.0, kc, Seq::empty(), mem.0); }
@inv
  C20_class: $all == bases(kc) && $m1@ =~= t1 + tests_of(job, mem.0, kc, methods(job, kc, all_names($done)))
  C20_seen: forall|x: String| (#[trigger] $m2@.contains(x)) == methods(job, kc, all_names($done)).contains(x)
@pre
proof { lem_names($prev, $done.last()); assert(bases(kc)[$prev.len() as int] == $done.last()); }
@loop names
@before
let ghost ns0 = all_names($oprev);
proof { assert($done =~= Seq::<String>::empty()); assert(ns0 + $done =~= ns0); }
@inv
  C20_class: $all =~= own_names($odone.last()) && $m1@ =~= t1 + tests_of(job, mem.0, kc, methods(job, kc, ns0 + $done))
  C20_seen: forall|x: String| (#[trigger] $m2@.contains(x)) == methods(job, kc, ns0 + $done).contains(x)
@pre
let ghost mn = $done.last(); let ghost ms = methods(job, kc, ns0 + $prev);
proof { assert(own_names(bases(kc)[$oprev.len() as int])[$prev.len() as int] == mn); lem_meth(job, kc, ns0 + $prev, mn); lem_tests(job, mem.0, kc, ms, mn); assert((ns0 + $prev).push(mn) =~= ns0 + $done); }
let ghost t2 = $m1@;
@loop any
@inv
  none: $all == python_functions@ && forall|i: int| 0 <= i < $done.len() ==> !glob(mn@, (#[trigger] $done[i])@) || $acc
@ens
  any: $acc == selected(mn@, $all)
@loop method
@inv
  C20_method: $all =~= ok_cases(meth(kc, mn)->Obj_0) && $m1@ =~= t2 + method_tests(job, mem.0, kc, mn).take($done.len() as int)
@pre
let ghost f1 = $m1@;
@post
proof { assert($m1@.last() == method_tests(job, mem.0, kc, mn)[$prev.len() as int]); assert($m1@ =~= f1.push($m1@.last())); }
@after
proof { assert(method_tests(job, mem.0, kc, mn).take($all.len() as int) =~= method_tests(job, mem.0, kc, mn)); }
