@unit inherit
@source src/python_discovery/semantic_analyzer.rs src/python_discovery/module_resolver.rs src/python_discovery/discovery.rs src/python_discovery/pattern.rs src/collection/error.rs src/collection/utils.rs
@prelude core maps seqs paths globs ast
@use imports SemanticTestDiscovery::resolve_base_class SemanticTestDiscovery::collect_imports_impl
@use modules ModuleResolver::resolve_and_load ModuleResolver::new path_to_module_path
@use pattern SemanticTestDiscovery::is_test_function SemanticTestDiscovery::is_test_class
@include struct TestInfo
@opt typemap ModModule => ModModule
@opt typemap Error => IoError
@spec
global size_of usize == 8;
// ---- what is taken from elsewhere: the parser, constants, decorators (units cases, decor), the module loader
#[verifier::external_body] pub struct ConstantResolver { x: core::marker::PhantomData<()> }
#[verifier::external_body] pub struct CasesExpansion { x: core::marker::PhantomData<()> }
pub uninterp spec fn constants(m: ModModule) -> ConstantResolver;
impl ConstantResolver { #[verifier::external_body] pub fn from_module(m: &ModModule) -> (r: ConstantResolver) ensures r == constants(*m) { unimplemented!() }
  #[verifier::external_body] pub fn for_class_body(&self, body: &Vec<Stmt>) -> (r: ConstantResolver) ensures r == in_class(*self, body@) { unimplemented!() } }
// (unit consts: the names a class body binds hide the module's)
pub uninterp spec fn in_class(c: ConstantResolver, body: Seq<Stmt>) -> ConstantResolver;
pub uninterp spec fn cases_of(ds: Seq<Decorator>, c: ConstantResolver) -> MethodCasesInfo;
pub uninterp spec fn combined(class: MethodCasesInfo, method: MethodCasesInfo) -> CasesExpansion;
pub uninterp spec fn expanded(ds: Seq<Decorator>, c: ConstantResolver) -> CasesExpansion;
#[verifier::external_body] pub fn parse_decorators_to_specs(ds: &Vec<Decorator>, c: Option<&ConstantResolver>) -> (r: MethodCasesInfo) ensures c is Some ==> r == cases_of(ds@, *c->0) { unimplemented!() }
#[verifier::external_body] pub fn parse_decorators_for_cases(ds: &Vec<Decorator>, c: Option<&ConstantResolver>) -> (r: CasesExpansion) ensures c is Some ==> r == expanded(ds@, *c->0) { unimplemented!() }
#[verifier::external_body] pub fn combine_and_expand_specs(class: &MethodCasesInfo, method: &MethodCasesInfo) -> (r: CasesExpansion) ensures r == combined(*class, *method) { unimplemented!() }
pub struct OsStr { pub x: u8 }
impl OsStr { #[verifier::external_body] pub fn new<'a>(s: &'a String) -> (r: &'a String) ensures *r == *s { unimplemented!() } }
// the interpreter's standard library
pub uninterp spec fn stdlib_name(n: Seq<char>) -> bool;
#[verifier::external_body] pub fn is_known_standard_library(minor: u8, n: &String) -> (r: bool) ensures r == stdlib_name(n@) { unimplemented!() }
pub open spec fn stdlib(m: Seq<String>) -> bool { m.len() > 0 && stdlib_name(m[0]@) }

// ---- the tests a class body defines: the last definition of each matching name
pub open spec fn is_test(c: TestDiscoveryConfig, n: Seq<char>) -> bool { any_glob(c.python_functions@, n) }
pub open spec fn is_class(c: TestDiscoveryConfig, n: Seq<char>) -> bool { any_glob(c.python_classes@, n) }
pub open spec fn has_init(body: Seq<Stmt>) -> bool { exists|i: int| 0 <= i < body.len() && (#[trigger] body[i]) is FunctionDef && body[i]->FunctionDef_0.name@ == "__init__"@ }
pub open spec fn method(f: StmtFunctionDef, cr: ConstantResolver) -> TestMethodInfo { TestMethodInfo { name: f.name, line: line_of_fn(f) as usize, method_specs: cases_of(f.decorator_list@, cr) } }
pub open spec fn without(s: Seq<TestMethodInfo>, n: String) -> Seq<TestMethodInfo> decreases s.len() { if s.len() == 0 { s } else { let w = without(s.drop_last(), n); if s.last().name == n { w } else { w.push(s.last()) } } }
pub open spec fn own_in(body: Seq<Stmt>, c: TestDiscoveryConfig, cr: ConstantResolver) -> Seq<TestMethodInfo> decreases body.len() {
  if body.len() == 0 { Seq::empty() } else { let s = own_in(body.drop_last(), c, cr); match body.last() { Stmt::FunctionDef(f) => if is_test(c, f.name@) { without(s, f.name).push(method(f, cr)) } else { s }, _ => s } } }
pub open spec fn own(body: Seq<Stmt>, c: TestDiscoveryConfig, cr: ConstantResolver) -> Seq<TestMethodInfo> { own_in(body, c, in_class(cr, body)) }

// ---- what a module's classes are
pub struct Base { pub path: Seq<String>, pub name: String, pub local: bool }
pub struct Facts { pub init: bool, pub own: Seq<TestMethodInfo>, pub bases: Seq<Base> }
// a module as seen by its own classes: its path, the names its imports bind, whether it is a package, its constants
pub struct Ctx { pub cur: Seq<String>, pub b: Map<String, Bound>, pub pkg: bool, pub cr: ConstantResolver, pub cfg: TestDiscoveryConfig }
pub open spec fn bound_to(b: Bound, x: Ctx) -> Option<Seq<String>> { py_target(b.level, b.parts, x.cur, x.pkg) }
// what a base-class expression names: nothing that can be told (None), a class of an unreachable module (Some(None, ..)), or a class of a module
pub open spec fn py_named(e: Expr, x: Ctx) -> Option<(Option<Seq<String>>, String, bool)> decreases e {
  match e {
    Expr::Name(n) => if x.b.dom().contains(n.id) { Some((bound_to(x.b[n.id], x), mk(x.b[n.id].name), false)) } else { Some((Some(x.cur), n.id, true)) },
    Expr::Attribute(a) => match *a.value { Expr::Name(n) => if x.b.dom().contains(n.id) { Some((submodule(bound_to(x.b[n.id], x), mk(x.b[n.id].name)), a.attr, false)) } else { None }, _ => None },
    Expr::Subscript(s) => py_named(*s.value, x),
    _ => None } }
// the collected imports say what the module's import statements bind
pub open spec fn sees(m: Map<String, ImportInfo>, x: Ctx) -> bool { m.dom() =~= x.b.dom() && forall|k: String| #[trigger] m.dom().contains(k) ==> m[k].imported_name@ == x.b[k].name && target(m[k], x.cur) == bound_to(x.b[k], x) }
pub proof fn lem_sees(m: Map<String, ImportInfo>, x: Ctx, package: Option<&Vec<String>>)
  requires collected(m, x.b, package), package is Some <==> x.pkg, package is Some ==> package->0@ == x.cur
  ensures sees(m, x)
{ assert forall|k: String| #[trigger] m.dom().contains(k) implies m[k].imported_name@ == x.b[k].name && target(m[k], x.cur) == bound_to(x.b[k], x) by { assert(says(m[k], x.b[k], package)); } }
pub proof fn lem_named(e: Expr, x: Ctx, m: Map<String, ImportInfo>)
  requires sees(m, x)
  ensures named_by(e, x.cur, m) == py_named(e, x)
  decreases e
{ match e { Expr::Subscript(s) => { lem_named(*s.value, x, m); } _ => {} } }
pub open spec fn args_of(c: StmtClassDef) -> Seq<Expr> { match c.arguments { Some(a) => a.args@, None => Seq::empty() } }
pub open spec fn plus_base(o: Option<Seq<Base>>, b: Option<(Option<Seq<String>>, String, bool)>) -> Option<Seq<Base>> { match o { None => None, Some(s) => match b { None => Some(s), Some((None, _, _)) => None, Some((Some(p), n, l)) => Some(s.push(Base { path: p, name: n, local: l })) } } }
// None: some base is in an unreachable module
#[verifier::opaque] pub open spec fn bases_of(es: Seq<Expr>, x: Ctx) -> Option<Seq<Base>> decreases es.len() { if es.len() == 0 { Some(Seq::empty()) } else { plus_base(bases_of(es.drop_last(), x), py_named(es.last(), x)) } }
#[verifier::opaque] pub open spec fn bases_by(es: Seq<Expr>, cur: Seq<String>, m: Map<String, ImportInfo>) -> Option<Seq<Base>> decreases es.len() { if es.len() == 0 { Some(Seq::empty()) } else { plus_base(bases_by(es.drop_last(), cur, m), named_by(es.last(), cur, m)) } }
pub proof fn lem_bases_by(es: Seq<Expr>, e: Expr, cur: Seq<String>, m: Map<String, ImportInfo>)
  ensures bases_by(Seq::empty(), cur, m) == Some(Seq::<Base>::empty()), bases_by(es.push(e), cur, m) == plus_base(bases_by(es, cur, m), named_by(e, cur, m))
{ reveal(bases_by); assert(es.push(e).drop_last() =~= es); assert(es.push(e).last() == e); }
pub proof fn lem_bases_none(es: Seq<Expr>, i: int, cur: Seq<String>, m: Map<String, ImportInfo>)
  requires 0 <= i < es.len(), bases_by(es.take(i + 1), cur, m) is None
  ensures bases_by(es, cur, m) is None
  decreases es.len()
{ reveal(bases_by); if i + 1 < es.len() { assert(es.drop_last().take(i + 1) =~= es.take(i + 1)); lem_bases_none(es.drop_last(), i, cur, m); } else { assert(es.take(i + 1) =~= es); } }
pub proof fn lem_bases_same(es: Seq<Expr>, x: Ctx, m: Map<String, ImportInfo>)
  requires sees(m, x) ensures bases_by(es, x.cur, m) == bases_of(es, x)
  decreases es.len()
{ reveal(bases_by); reveal(bases_of); if es.len() > 0 { lem_bases_same(es.drop_last(), x, m); lem_named(es.last(), x, m); } }
pub open spec fn says_base(r: ResolvedBaseClass, b: Base) -> bool { r.module_path@ =~= b.path && r.class_name == b.name && r.is_local == b.local }
#[verifier::opaque] pub open spec fn say_bases(rs: Seq<ResolvedBaseClass>, bs: Seq<Base>) -> bool { rs.len() == bs.len() && forall|i: int| #![trigger rs[i]] #![trigger bs[i]] 0 <= i < rs.len() ==> says_base(rs[i], bs[i]) }

// the semantic model is built, but nothing looks at it
#[verifier::external_body] pub struct ModelText { x: core::marker::PhantomData<()> }
pub enum ModuleKind { Module, Package }
pub enum ModuleSource<'a> { File(&'a PathBuf) }
pub struct SemanticModule<'a> { pub kind: ModuleKind, pub source: ModuleSource<'a>, pub python_ast: &'a Vec<Stmt>, pub name: Option<&'a String> }
impl SemanticModel { #[verifier::external_body] pub fn new(t: &Vec<String>, p: &PathBuf, m: SemanticModule) -> (r: SemanticModel) { unimplemented!() } }
// ---- the modules of a discovery: the file being discovered, and what the loader finds
pub struct Here { pub path: Seq<String>, pub module: ModModule, pub pkg: bool, pub cfg: TestDiscoveryConfig }
pub uninterp spec fn here() -> Here;
pub open spec fn is_pkg(p: PathBuf) -> bool { has_name(p@) && p@.last() == "__init__.py"@ }
pub open spec fn ctx(m: Seq<String>, md: ModModule, pkg: bool) -> Ctx { Ctx { cur: m, b: bound(md.body@), pkg: pkg, cr: constants(md), cfg: here().cfg } }
pub open spec fn my_ctx() -> Ctx { ctx(here().path, here().module, here().pkg) }
// a syntax tree has no unnamed class; the file on disk is the text being discovered
pub open spec fn named_classes(b: Seq<Stmt>) -> bool { forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is ClassDef ==> b[i]->ClassDef_0.name@.len() > 0 }
pub open spec fn sound() -> bool { named_classes(here().module.body@) && (forall|m: Seq<String>| (#[trigger] loaded(m)) is Got ==> named_classes(loaded(m)->Got_0.module.body@))
  && (loaded(here().path) is Got ==> loaded(here().path)->Got_0.module == here().module && is_pkg(loaded(here().path)->Got_0.path) == here().pkg) }
pub open spec fn facts_of(c: StmtClassDef, x: Ctx) -> Option<Facts> { match bases_of(args_of(c), x) { Some(bs) => Some(Facts { init: has_init(c.body@), own: own(c.body@, x.cfg, x.cr), bases: bs }), None => None } }
#[verifier::opaque] pub open spec fn tbl(body: Seq<Stmt>, x: Ctx) -> Map<String, Facts> decreases body.len() {
  if body.len() == 0 { Map::empty() } else { plus_class(tbl(body.drop_last(), x), body.last(), x) } }
pub open spec fn plus_class(t: Map<String, Facts>, s: Stmt, x: Ctx) -> Map<String, Facts> { match s { Stmt::ClassDef(c) => match facts_of(c, x) { Some(f) => t.insert(c.name, f), None => t }, _ => t } }
pub proof fn lem_tbl(body: Seq<Stmt>, s: Stmt, x: Ctx) ensures tbl(Seq::empty(), x) == Map::<String, Facts>::empty(), tbl(body.push(s), x) == plus_class(tbl(body, x), s, x)
{ reveal(tbl); assert(body.push(s).drop_last() =~= body); assert(body.push(s).last() == s); }
pub proof fn lem_tbl_names(body: Seq<Stmt>, x: Ctx) requires named_classes(body) ensures forall|n: String| #[trigger] tbl(body, x).dom().contains(n) ==> n@.len() > 0
  decreases body.len()
{ reveal(tbl); if body.len() > 0 { assert forall|i: int| 0 <= i < body.drop_last().len() && (#[trigger] body.drop_last()[i]) is ClassDef implies body.drop_last()[i]->ClassDef_0.name@.len() > 0 by { assert(body[i] is ClassDef); } lem_tbl_names(body.drop_last(), x); assert(body[body.len() - 1] == body.last());
  let t = tbl(body.drop_last(), x); assert forall|n: String| #[trigger] tbl(body, x).dom().contains(n) implies n@.len() > 0 by { if t.dom().contains(n) {} else { match body.last() { Stmt::ClassDef(c) => { assert(n == c.name); } _ => {} } } } } }
// the classes of a module
pub open spec fn table(m: Seq<String>) -> Map<String, Facts> {
  if m == here().path { tbl(here().module.body@, my_ctx()) } else { match loaded(m) { Loaded::Got(p) => tbl(p.module.body@, ctx(m, p.module, is_pkg(p.path))), _ => Map::empty() } } }

// ---- the cache of classes
pub open spec fn same_facts(i: TestClassInfo, f: Facts) -> bool { i.has_init == f.init && i.test_methods@ == f.own && say_bases(i.base_classes@, f.bases) }
pub open spec fn blank(i: TestClassInfo) -> bool { !i.has_init && i.test_methods@.len() == 0 && i.base_classes@.len() == 0 }
pub type Key = (Vec<String>, String);
pub type Cache = Map<Key, TestClassInfo>;
// module paths that show the same components are the same key
#[verifier::external_body] pub proof fn ax_vec_ext(a: Vec<String>, b: Vec<String>) requires a@ == b@ ensures a == b { unimplemented!() }
pub open spec fn entry_ok(k: Key, i: TestClassInfo) -> bool { if k.1@.len() == 0 { blank(i) } else { table(k.0@).dom().contains(k.1) && same_facts(i, table(k.0@)[k.1]) } }
pub open spec fn full(c: Cache, m: Seq<String>) -> bool { forall|k: Key| k.0@ == m && table(m).dom().contains(k.1) ==> #[trigger] c.dom().contains(k) }
#[verifier::opaque] pub open spec fn cache_ok(c: Cache) -> bool { forall|k: Key| #[trigger] c.dom().contains(k) ==> entry_ok(k, c[k]) && full(c, k.0@) }
pub open spec fn inv(s: SemanticTestDiscovery) -> bool { s.config == here().cfg && cache_ok(s.class_cache@) && full(s.class_cache@, here().path) && sound() }
pub open spec fn fulls(a: Cache, b: Cache) -> bool { forall|m: Seq<String>| #[trigger] full(a, m) ==> full(b, m) }
pub open spec fn kept(a: SemanticTestDiscovery, b: SemanticTestDiscovery) -> bool { b.config == a.config && b.warnings == a.warnings && b.current_file_path == a.current_file_path && fulls(a.class_cache@, b.class_cache@) }
// c is c0 with the classes t of the module m
pub open spec fn grown(c0: Cache, c: Cache, m: Seq<String>, t: Map<String, Facts>) -> bool { forall|k: Key| #![trigger c.dom().contains(k)] #![trigger c[k]] if k.0@ == m && t.dom().contains(k.1) { c.dom().contains(k) && same_facts(c[k], t[k.1]) } else { (c.dom().contains(k) <==> c0.dom().contains(k)) && (c0.dom().contains(k) ==> c[k] == c0[k]) } }
pub proof fn lem_grow(c0: Cache, c: Cache, m: Seq<String>, t: Map<String, Facts>, v: Vec<String>, n: String, i: TestClassInfo, f: Facts)
  requires grown(c0, c, m, t), v@ == m, same_facts(i, f)
  ensures grown(c0, c.insert((v, n), i), m, t.insert(n, f))
{ let d = c.insert((v, n), i); let u = t.insert(n, f);
  assert forall|k: Key| if k.0@ == m && u.dom().contains(k.1) { (#[trigger] d.dom().contains(k)) && same_facts(d[k], u[k.1]) } else { (d.dom().contains(k) <==> c0.dom().contains(k)) && (c0.dom().contains(k) ==> d[k] == c0[k]) } by {
    if k.0@ == m && k.1 == n { ax_vec_ext(k.0, v); assert(k == (v, n)); } else { assert(k != (v, n)); assert(d.dom().contains(k) <==> c.dom().contains(k)); assert(c.dom().contains(k) ==> d[k] == c[k]); } } }
pub proof fn lem_grown(c0: Cache, c: Cache, m: Seq<String>)
  requires cache_ok(c0), grown(c0, c, m, table(m)), forall|n: String| #[trigger] table(m).dom().contains(n) ==> n@.len() > 0
  ensures cache_ok(c), full(c, m), fulls(c0, c)
{ reveal(cache_ok);
  assert forall|k: Key| k.0@ == m && table(m).dom().contains(k.1) implies #[trigger] c.dom().contains(k) by {}
  assert forall|q: Seq<String>| #[trigger] full(c0, q) implies full(c, q) by { if q != m { assert forall|k: Key| k.0@ == q && table(q).dom().contains(k.1) implies #[trigger] c.dom().contains(k) by { assert(c0.dom().contains(k)); } } }
  assert forall|k: Key| #[trigger] c.dom().contains(k) implies entry_ok(k, c[k]) && full(c, k.0@) by { if k.0@ == m { if !table(m).dom().contains(k.1) { assert(c0.dom().contains(k)); } } else { assert(c0.dom().contains(k)); } } }
pub proof fn lem_mark(c: Cache, k: Key, i: TestClassInfo)
  requires cache_ok(c), full(c, k.0@), k.1@.len() == 0, blank(i)
  ensures cache_ok(c.insert(k, i)), fulls(c, c.insert(k, i)), full(c.insert(k, i), k.0@)
{ reveal(cache_ok); let d = c.insert(k, i);
  assert forall|q: Seq<String>| #[trigger] full(c, q) implies full(d, q) by { assert forall|j: Key| j.0@ == q && table(q).dom().contains(j.1) implies #[trigger] d.dom().contains(j) by { assert(c.dom().contains(j)); } }
  assert forall|j: Key| #[trigger] d.dom().contains(j) implies entry_ok(j, d[j]) && full(d, j.0@) by { if j != k { assert(c.dom().contains(j)); } } }
pub proof fn lem_cached(c: Cache, k: Key)
  requires cache_ok(c), c.dom().contains(k) ensures entry_ok(k, c[k]), full(c, k.0@)
{ reveal(cache_ok); }
pub proof fn lem_mark_all(c: Cache, m: Seq<String>)
  requires cache_ok(c)
  ensures full(c, m) ==> (forall|k: Key, i: TestClassInfo| #![trigger c.insert(k, i)] k.0@ == m && k.1@.len() == 0 && blank(i) ==> cache_ok(c.insert(k, i)) && fulls(c, c.insert(k, i)) && full(c.insert(k, i), m)),
     forall|k: Key| #[trigger] c.dom().contains(k) && k.0@ == m ==> full(c, m)
{ assert forall|k: Key| #[trigger] c.dom().contains(k) && k.0@ == m implies full(c, m) by { lem_cached(c, k); }
  if full(c, m) { assert forall|k: Key, i: TestClassInfo| #![trigger c.insert(k, i)] k.0@ == m && k.1@.len() == 0 && blank(i) implies cache_ok(c.insert(k, i)) && fulls(c, c.insert(k, i)) && full(c.insert(k, i), m) by { lem_mark(c, k, i); } } }

// ---- the tests a class has, own and inherited (f bounds the depth of the hierarchy)
pub open spec fn incl(s: Seq<TestMethodInfo>, n: String) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name == n }
// a, then those of i whose names neither the class itself nor an earlier base defines
pub open spec fn join(a: Seq<TestMethodInfo>, own: Seq<TestMethodInfo>, i: Seq<TestMethodInfo>) -> Seq<TestMethodInfo> decreases i.len() {
  if i.len() == 0 { a } else { let r = join(a, own, i.drop_last()); if incl(own, i.last().name) || incl(r, i.last().name) { r } else { r.push(i.last()) } } }
pub open spec fn inherited(m: Seq<String>, n: String, f: nat) -> Option<Seq<TestMethodInfo>> decreases f, 0nat {
  if f == 0 { None } else if stdlib(m) || !table(m).dom().contains(n) { Some(Seq::empty()) }
  else { match from_bases(table(m)[n].bases, table(m)[n].own, (f - 1) as nat) { Some(a) => Some(a + table(m)[n].own), None => None } } }
pub open spec fn from_bases(bs: Seq<Base>, own: Seq<TestMethodInfo>, f: nat) -> Option<Seq<TestMethodInfo>> decreases f, bs.len() + 1 {
  if bs.len() == 0 { Some(Seq::empty()) } else { match (from_bases(bs.drop_last(), own, f), inherited(bs.last().path, bs.last().name, f)) { (Some(a), Some(i)) => Some(join(a, own, i)), _ => None } } }
pub proof fn lem_deeper(m: Seq<String>, n: String, f: nat, g: nat)
  requires inherited(m, n, f) is Some, f <= g ensures inherited(m, n, g) == inherited(m, n, f)
  decreases f, 0nat
{ if !(stdlib(m) || !table(m).dom().contains(n)) { lem_deeper_all(table(m)[n].bases, table(m)[n].own, (f - 1) as nat, (g - 1) as nat); } }
pub proof fn lem_deeper_all(bs: Seq<Base>, own: Seq<TestMethodInfo>, f: nat, g: nat)
  requires from_bases(bs, own, f) is Some, f <= g ensures from_bases(bs, own, g) == from_bases(bs, own, f)
  decreases f, bs.len() + 1
{ if bs.len() > 0 { lem_deeper_all(bs.drop_last(), own, f, g); lem_deeper(bs.last().path, bs.last().name, f, g); } }
pub open spec fn methods_of(o: Option<Vec<TestMethodInfo>>) -> Seq<TestMethodInfo> { match o { Some(v) => v@, None => Seq::empty() } }
pub open spec fn gives(m: Seq<String>, n: String, s: Seq<TestMethodInfo>) -> bool { exists|f: nat| #[trigger] inherited(m, n, f) == Some(s) }
pub open spec fn gathered(bs: Seq<Base>, own: Seq<TestMethodInfo>, s: Seq<TestMethodInfo>) -> bool { exists|f: nat| #[trigger] from_bases(bs, own, f) == Some(s) }
pub proof fn lem_gathered(bs: Seq<Base>, b: Base, own: Seq<TestMethodInfo>, a: Seq<TestMethodInfo>, i: Seq<TestMethodInfo>)
  requires gathered(bs, own, a), gives(b.path, b.name, i) ensures gathered(bs.push(b), own, join(a, own, i))
{ let f = choose|f: nat| #[trigger] from_bases(bs, own, f) == Some(a); let g = choose|g: nat| #[trigger] inherited(b.path, b.name, g) == Some(i); let h = if f < g { g } else { f };
  lem_deeper_all(bs, own, f, h); lem_deeper(b.path, b.name, g, h); assert(bs.push(b).drop_last() =~= bs); assert(bs.push(b).last() == b); assert(from_bases(bs.push(b), own, h) == Some(join(a, own, i))); }
pub proof fn lem_gathered_none(own: Seq<TestMethodInfo>) ensures gathered(Seq::<Base>::empty(), own, Seq::<TestMethodInfo>::empty()) { assert(from_bases(Seq::<Base>::empty(), own, 0) == Some(Seq::<TestMethodInfo>::empty())); }
pub proof fn lem_gives(m: Seq<String>, n: String, s: Seq<TestMethodInfo>)
  ensures stdlib(m) || !table(m).dom().contains(n) ==> gives(m, n, Seq::empty()), !stdlib(m) && table(m).dom().contains(n) && gathered(table(m)[n].bases, table(m)[n].own, s) ==> gives(m, n, s + table(m)[n].own)
{ if stdlib(m) || !table(m).dom().contains(n) { assert(inherited(m, n, 1) == Some(Seq::<TestMethodInfo>::empty())); }
  else if gathered(table(m)[n].bases, table(m)[n].own, s) { let f = choose|f: nat| #[trigger] from_bases(table(m)[n].bases, table(m)[n].own, f) == Some(s); assert(inherited(m, n, f + 1) == Some(s + table(m)[n].own)); } }
// a class with an __init__ among itself and its bases
pub open spec fn inits(m: Seq<String>, n: String, f: nat) -> bool decreases f {
  f > 0 && !stdlib(m) && table(m).dom().contains(n) && (table(m)[n].init || exists|i: int| 0 <= i < table(m)[n].bases.len() && inits((#[trigger] table(m)[n].bases[i]).path, table(m)[n].bases[i].name, (f - 1) as nat)) }
pub open spec fn ever_inits(m: Seq<String>, n: String) -> bool { exists|f: nat| #[trigger] inits(m, n, f) }
// every class has the classes it is derived from above it, and none twice
pub open spec fn ends(m: Seq<String>, n: String) -> bool { exists|f: nat| #[trigger] inherited(m, n, f) is Some }
#[verifier::opaque] pub open spec fn above(a: Seq<String>, b: String, m: Seq<String>, n: String) -> bool { forall|f: nat| #[trigger] inherited(a, b, f) is Some ==> exists|g: nat| g < f && #[trigger] inherited(m, n, g) is Some }
pub proof fn lem_no_cycle(m: Seq<String>, n: String, f: nat)
  requires above(m, n, m, n) ensures inherited(m, n, f) is None
  decreases f
{ reveal(above); if inherited(m, n, f) is Some { let g = choose|g: nat| g < f && #[trigger] inherited(m, n, g) is Some; lem_no_cycle(m, n, g); } }
pub proof fn lem_base_ends(bs: Seq<Base>, own: Seq<TestMethodInfo>, f: nat, i: int)
  requires from_bases(bs, own, f) is Some, 0 <= i < bs.len() ensures inherited(bs[i].path, bs[i].name, f) is Some
  decreases bs.len()
{ if i < bs.len() - 1 { lem_base_ends(bs.drop_last(), own, f, i); } }
pub proof fn lem_above_base(m: Seq<String>, n: String, i: int)
  requires !stdlib(m), table(m).dom().contains(n), 0 <= i < table(m)[n].bases.len()
  ensures above(m, n, table(m)[n].bases[i].path, table(m)[n].bases[i].name)
{ reveal(above); let b = table(m)[n].bases[i]; assert forall|f: nat| #[trigger] inherited(m, n, f) is Some implies exists|g: nat| g < f && #[trigger] inherited(b.path, b.name, g) is Some by { lem_base_ends(table(m)[n].bases, table(m)[n].own, (f - 1) as nat, i); assert(inherited(b.path, b.name, (f - 1) as nat) is Some); } }
pub proof fn lem_above_trans(a: Seq<String>, b: String, m: Seq<String>, n: String, p: Seq<String>, q: String)
  requires above(a, b, m, n), above(m, n, p, q) ensures above(a, b, p, q)
{ reveal(above); assert forall|f: nat| #[trigger] inherited(a, b, f) is Some implies exists|g: nat| g < f && #[trigger] inherited(p, q, g) is Some by { let g = choose|g: nat| g < f && #[trigger] inherited(m, n, g) is Some; let h = choose|h: nat| h < g && #[trigger] inherited(p, q, h) is Some; assert(h < f); } }
#[verifier::opaque] pub open spec fn all_above(v: Set<Key>, m: Seq<String>, n: String) -> bool { forall|k: Key| #[trigger] v.contains(k) ==> above(k.0@, k.1, m, n) }

pub open spec fn facts(m: Seq<String>, n: String) -> Facts { if table(m).dom().contains(n) { table(m)[n] } else { Facts { init: false, own: Seq::empty(), bases: Seq::empty() } } }
pub proof fn lem_gives_all(m: Seq<String>, n: String)
  ensures stdlib(m) || !table(m).dom().contains(n) ==> gives(m, n, Seq::empty()),
     !stdlib(m) ==> forall|s: Seq<TestMethodInfo>| #![trigger s + facts(m, n).own] #![trigger gathered(facts(m, n).bases, facts(m, n).own, s)] gathered(facts(m, n).bases, facts(m, n).own, s) ==> gives(m, n, s + facts(m, n).own)
{ lem_gives(m, n, Seq::empty());
  if !stdlib(m) { assert forall|s: Seq<TestMethodInfo>| #[trigger] gathered(facts(m, n).bases, facts(m, n).own, s) implies gives(m, n, s + facts(m, n).own) by {
    if table(m).dom().contains(n) { lem_gives(m, n, s); } else { let f = choose|f: nat| #[trigger] from_bases(facts(m, n).bases, facts(m, n).own, f) == Some(s); assert(s =~= Seq::empty()); assert(s + facts(m, n).own =~= Seq::empty()); } } } }
// no module of the world fails to load for another reason than not being there
pub open spec fn healthy() -> bool { forall|q: Seq<String>| !(#[trigger] broken(q)) }
pub open spec fn broken(m: Seq<String>) -> bool { match loaded(m) { Loaded::Got(p) => unreachable_base(p.module.body@, ctx(m, p.module, is_pkg(p.path))), Loaded::Missing => false, Loaded::Broken => true } }
pub open spec fn unreachable_base(b: Seq<Stmt>, x: Ctx) -> bool { exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is ClassDef && bases_of(args_of(b[i]->ClassDef_0), x) is None }
pub proof fn lem_named_local(e: Expr, x: Ctx) ensures py_named(e, x) is Some && py_named(e, x)->Some_0.2 ==> py_named(e, x)->Some_0.0 == Some(x.cur) decreases e
{ match e { Expr::Subscript(s) => { lem_named_local(*s.value, x); } _ => {} } }
pub open spec fn locals(bs: Seq<Base>, m: Seq<String>) -> bool { forall|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).local ==> bs[i].path == m }
pub proof fn lem_bases_local(es: Seq<Expr>, x: Ctx) ensures bases_of(es, x) is Some ==> locals(bases_of(es, x)->0, x.cur) decreases es.len()
{ reveal(bases_of); if es.len() > 0 { lem_bases_local(es.drop_last(), x); lem_named_local(es.last(), x); } }
pub proof fn lem_tbl_local(b: Seq<Stmt>, x: Ctx) ensures forall|n: String| #[trigger] tbl(b, x).dom().contains(n) ==> locals(tbl(b, x)[n].bases, x.cur) decreases b.len()
{ reveal(tbl); if b.len() > 0 { lem_tbl_local(b.drop_last(), x); match b.last() { Stmt::ClassDef(c) => { lem_bases_local(args_of(c), x); } _ => {} }
  let t = tbl(b.drop_last(), x); assert forall|n: String| #[trigger] tbl(b, x).dom().contains(n) implies locals(tbl(b, x)[n].bases, x.cur) by { if t.dom().contains(n) { } else { match b.last() { Stmt::ClassDef(c) => { assert(n == c.name); } _ => {} } } } } }
pub proof fn lem_table(m: Seq<String>)
  ensures forall|n: String| #[trigger] table(m).dom().contains(n) ==> locals(table(m)[n].bases, m), sound() ==> forall|n: String| #[trigger] table(m).dom().contains(n) ==> n@.len() > 0
{ if m == here().path { lem_tbl_local(here().module.body@, my_ctx()); if sound() { lem_tbl_names(here().module.body@, my_ctx()); } } else { match loaded(m) { Loaded::Got(p) => { let x = ctx(m, p.module, is_pkg(p.path)); lem_tbl_local(p.module.body@, x); if sound() { lem_tbl_names(p.module.body@, x); } } _ => {} } } }
pub proof fn lem_visited(v: Set<Key>, m: Seq<String>, n: String)
  requires all_above(v, m, n)
  ensures forall|k: Key| #[trigger] v.contains(k) && k.0@ == m && k.1 == n ==> !ends(m, n), forall|k: Key, j: Key| !v.contains(k) && k.0@ == m && j.0@ == m && k.1 == n && j.1 == n ==> (#[trigger] v.insert(k).remove(j)) == v
{ assert forall|k: Key, j: Key| !v.contains(k) && k.0@ == m && j.0@ == m && k.1 == n && j.1 == n implies (#[trigger] v.insert(k).remove(j)) == v by { ax_vec_ext(k.0, j.0); assert(k == j); assert(v.insert(k).remove(j) =~= v); } reveal(all_above); if ends(m, n) { let f = choose|f: nat| #[trigger] inherited(m, n, f) is Some; assert forall|k: Key| #[trigger] v.contains(k) && k.0@ == m && k.1 == n implies false by { lem_no_cycle(m, n, f); } } }
pub proof fn lem_visited_base(v: Set<Key>, m: Seq<String>, n: String, i: int)
  requires all_above(v, m, n), !stdlib(m), table(m).dom().contains(n), 0 <= i < table(m)[n].bases.len()
  ensures forall|k: Key| k.0@ == m && k.1 == n ==> all_above(#[trigger] v.insert(k), table(m)[n].bases[i].path, table(m)[n].bases[i].name), ends(m, n) ==> ends(table(m)[n].bases[i].path, table(m)[n].bases[i].name)
{ reveal(all_above); let b = table(m)[n].bases[i]; lem_above_base(m, n, i);
  assert forall|k: Key| k.0@ == m && k.1 == n implies all_above(#[trigger] v.insert(k), b.path, b.name) by { assert forall|j: Key| #[trigger] v.insert(k).contains(j) implies above(j.0@, j.1, b.path, b.name) by { if j != k { assert(v.contains(j)); lem_above_trans(j.0@, j.1, m, n, b.path, b.name); } } }
  if ends(m, n) { let f = choose|f: nat| #[trigger] inherited(m, n, f) is Some; reveal(above); let g = choose|g: nat| g < f && #[trigger] inherited(b.path, b.name, g) is Some; assert(inherited(b.path, b.name, g) is Some); } }
pub proof fn lem_cached_all(m: Seq<String>, n: String)
  ensures forall|c: Cache, k: Key| #![trigger cache_ok(c), c.dom().contains(k)] cache_ok(c) && k.0@ == m && k.1 == n && c.dom().contains(k) ==> entry_ok(k, c[k]) && full(c, m)
{ assert forall|c: Cache, k: Key| #![trigger cache_ok(c), c.dom().contains(k)] cache_ok(c) && k.0@ == m && k.1 == n && c.dom().contains(k) implies entry_ok(k, c[k]) && full(c, m) by { lem_cached(c, k); } }
pub proof fn lem_gathered_all(bs: Seq<Base>, b: Base, own: Seq<TestMethodInfo>, a: Seq<TestMethodInfo>)
  requires gathered(bs, own, a)
  ensures forall|i: Seq<TestMethodInfo>| #![trigger join(a, own, i)] #![trigger gives(b.path, b.name, i)] gives(b.path, b.name, i) ==> gathered(bs.push(b), own, join(a, own, i))
{ assert forall|i: Seq<TestMethodInfo>| #[trigger] gives(b.path, b.name, i) implies gathered(bs.push(b), own, join(a, own, i)) by { lem_gathered(bs, b, own, a, i); } }
pub proof fn lem_has(s: Seq<TestMethodInfo>, x: TestMethodInfo) ensures forall|k: String| #[trigger] incl(s.push(x), k) <==> incl(s, k) || x.name == k
{ assert forall|k: String| #[trigger] incl(s.push(x), k) <==> incl(s, k) || x.name == k by { let t = s.push(x); if incl(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name == k; assert(t[i].name == k); } if x.name == k { assert(t[s.len() as int].name == k); } if incl(t, k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name == k; if i < s.len() { assert(s[i].name == k); } } } }
pub proof fn lem_join(a: Seq<TestMethodInfo>, own: Seq<TestMethodInfo>, s: Seq<TestMethodInfo>, x: TestMethodInfo)
  ensures join(a, own, s.push(x)) == (if incl(own, x.name) || incl(join(a, own, s), x.name) { join(a, own, s) } else { join(a, own, s).push(x) })
{ assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); }

pub proof fn lem_inits_up(m: Seq<String>, n: String, f: nat, g: nat) requires inits(m, n, f), f <= g ensures inits(m, n, g) decreases f
{ if !table(m)[n].init { let i = choose|i: int| 0 <= i < table(m)[n].bases.len() && inits((#[trigger] table(m)[n].bases[i]).path, table(m)[n].bases[i].name, (f - 1) as nat); lem_inits_up(table(m)[n].bases[i].path, table(m)[n].bases[i].name, (f - 1) as nat, (g - 1) as nat); } }
pub proof fn lem_inits_base(m: Seq<String>, n: String, i: int)
  requires !stdlib(m), table(m).dom().contains(n), 0 <= i < table(m)[n].bases.len()
  ensures ever_inits(table(m)[n].bases[i].path, table(m)[n].bases[i].name) ==> ever_inits(m, n)
{ let b = table(m)[n].bases[i]; if ever_inits(b.path, b.name) { let f = choose|f: nat| #[trigger] inits(b.path, b.name, f); assert(inits(m, n, f + 1)) by { assert(inits(table(m)[n].bases[i].path, table(m)[n].bases[i].name, (f + 1 - 1) as nat)); } } }
pub proof fn lem_inits(m: Seq<String>, n: String)
  ensures stdlib(m) || !table(m).dom().contains(n) ==> !ever_inits(m, n), !stdlib(m) && facts(m, n).init ==> ever_inits(m, n),
     !stdlib(m) && !facts(m, n).init && (forall|i: int| 0 <= i < facts(m, n).bases.len() ==> !ever_inits((#[trigger] facts(m, n).bases[i]).path, facts(m, n).bases[i].name)) ==> !ever_inits(m, n)
{ if !stdlib(m) && table(m).dom().contains(n) && table(m)[n].init { assert(inits(m, n, 1)); }
  if ever_inits(m, n) && !facts(m, n).init { let f = choose|f: nat| #[trigger] inits(m, n, f); let i = choose|i: int| 0 <= i < table(m)[n].bases.len() && inits((#[trigger] table(m)[n].bases[i]).path, table(m)[n].bases[i].name, (f - 1) as nat); assert(ever_inits(facts(m, n).bases[i].path, facts(m, n).bases[i].name)); } }
// ---- the tests of a class
pub open spec fn base_at(e: Expr, x: Ctx) -> Option<Base> { match py_named(e, x) { Some((Some(p), n, l)) => Some(Base { path: p, name: n, local: l }), _ => None } }
// the class, or one it is derived from, has a constructor
pub open spec fn class_inits(c: StmtClassDef, x: Ctx) -> bool { has_init(c.body@) || exists|i: int| 0 <= i < args_of(c).len() && base_at(#[trigger] args_of(c)[i], x) is Some && ever_inits(base_at(args_of(c)[i], x)->0.path, base_at(args_of(c)[i], x)->0.name) }
// every base is in a module that can be named, and no hierarchy goes round in a circle
pub open spec fn good_class(c: StmtClassDef, x: Ctx) -> bool { forall|i: int| 0 <= i < args_of(c).len() && py_named(#[trigger] args_of(c)[i], x) is Some ==> base_at(args_of(c)[i], x) is Some && ends(base_at(args_of(c)[i], x)->0.path, base_at(args_of(c)[i], x)->0.name) }
// the methods the bases es give a class that defines own, and that they are settled
pub open spec fn from_expr(a: Option<Seq<TestMethodInfo>>, e: Expr, own: Seq<TestMethodInfo>, x: Ctx, f: nat) -> Option<Seq<TestMethodInfo>> {
  match py_named(e, x) { None => a, Some((None, _, _)) => None, Some((Some(p), n, _)) => match (a, inherited(p, n, f)) { (Some(a), Some(i)) => Some(join(a, own, i)), _ => None } } }
pub open spec fn from_exprs(es: Seq<Expr>, own: Seq<TestMethodInfo>, x: Ctx, f: nat) -> Option<Seq<TestMethodInfo>> decreases es.len() { if es.len() == 0 { Some(Seq::empty()) } else { from_expr(from_exprs(es.drop_last(), own, x, f), es.last(), own, x, f) } }
pub open spec fn settled(es: Seq<Expr>, own: Seq<TestMethodInfo>, x: Ctx) -> bool { exists|f: nat| #[trigger] from_exprs(es, own, x, f) is Some }
pub open spec fn inh(es: Seq<Expr>, own: Seq<TestMethodInfo>, x: Ctx) -> Seq<TestMethodInfo> { from_exprs(es, own, x, choose|f: nat| #[trigger] from_exprs(es, own, x, f) is Some)->0 }
pub proof fn lem_exprs_deeper(es: Seq<Expr>, own: Seq<TestMethodInfo>, x: Ctx, f: nat, g: nat)
  requires from_exprs(es, own, x, f) is Some, f <= g ensures from_exprs(es, own, x, g) == from_exprs(es, own, x, f)
  decreases es.len()
{ if es.len() > 0 { lem_exprs_deeper(es.drop_last(), own, x, f, g); match py_named(es.last(), x) { Some((Some(p), n, _)) => { lem_deeper(p, n, f, g); } _ => {} } } }
pub proof fn lem_inh_is(es: Seq<Expr>, own: Seq<TestMethodInfo>, x: Ctx, f: nat) requires from_exprs(es, own, x, f) is Some ensures settled(es, own, x), inh(es, own, x) == from_exprs(es, own, x, f)->0
{ let g = choose|f: nat| #[trigger] from_exprs(es, own, x, f) is Some; if f < g { lem_exprs_deeper(es, own, x, f, g); } else { lem_exprs_deeper(es, own, x, g, f); } }
pub proof fn lem_inh_none(own: Seq<TestMethodInfo>, x: Ctx) ensures settled(Seq::empty(), own, x), inh(Seq::empty(), own, x) == Seq::<TestMethodInfo>::empty() { lem_inh_is(Seq::empty(), own, x, 0); }
pub proof fn lem_inh(es: Seq<Expr>, e: Expr, own: Seq<TestMethodInfo>, x: Ctx)
  requires settled(es, own, x)
  ensures py_named(e, x) is None ==> settled(es.push(e), own, x) && inh(es.push(e), own, x) == inh(es, own, x),
     base_at(e, x) is Some ==> forall|i: Seq<TestMethodInfo>| #![trigger join(inh(es, own, x), own, i)] #![trigger gives(base_at(e, x)->0.path, base_at(e, x)->0.name, i)] gives(base_at(e, x)->0.path, base_at(e, x)->0.name, i) ==> settled(es.push(e), own, x) && inh(es.push(e), own, x) == join(inh(es, own, x), own, i),
     join(inh(es, own, x), own, Seq::empty()) == inh(es, own, x)
{ let t = es.push(e); assert(t.drop_last() =~= es); assert(t.last() == e); let f = choose|f: nat| #[trigger] from_exprs(es, own, x, f) is Some; let a = inh(es, own, x); lem_inh_is(es, own, x, f);
  if py_named(e, x) is None { assert(from_exprs(t, own, x, f) == Some(a)); lem_inh_is(t, own, x, f); }
  if base_at(e, x) is Some { let b = base_at(e, x)->0; assert forall|i: Seq<TestMethodInfo>| #[trigger] gives(b.path, b.name, i) implies settled(t, own, x) && inh(t, own, x) == join(a, own, i) by {
    let g = choose|g: nat| #[trigger] inherited(b.path, b.name, g) == Some(i); let h = if f < g { g } else { f }; lem_exprs_deeper(es, own, x, f, h); lem_deeper(b.path, b.name, g, h); assert(from_exprs(t, own, x, h) == Some(join(a, own, i))); lem_inh_is(t, own, x, h); } } }
pub proof fn lem_settled(es: Seq<Expr>, own: Seq<TestMethodInfo>, x: Ctx, f: nat, i: int)
  requires from_exprs(es, own, x, f) is Some, 0 <= i < es.len(), py_named(es[i], x) is Some
  ensures base_at(es[i], x) is Some, ends(base_at(es[i], x)->0.path, base_at(es[i], x)->0.name)
  decreases es.len()
{ if i < es.len() - 1 { lem_settled(es.drop_last(), own, x, f, i); } else { match py_named(es.last(), x) { Some((Some(p), n, _)) => { assert(inherited(p, n, f) is Some); } _ => {} } } }
pub proof fn lem_good(c: StmtClassDef, own: Seq<TestMethodInfo>, x: Ctx) ensures settled(args_of(c), own, x) ==> good_class(c, x)
{ let es = args_of(c); if settled(es, own, x) { let f = choose|f: nat| #[trigger] from_exprs(es, own, x, f) is Some; assert forall|i: int| 0 <= i < es.len() && py_named(#[trigger] es[i], x) is Some implies base_at(es[i], x) is Some && ends(base_at(es[i], x)->0.path, base_at(es[i], x)->0.name) by { lem_settled(es, own, x, f, i); } } }
// what is listed for a method of the class
pub open spec fn info(c: StmtClassDef, i: TestMethodInfo, x: Ctx) -> TestInfo { TestInfo { name: i.name, line: i.line, is_method: true, class_name: Some(c.name), cases_expansion: combined(cases_of(c.decorator_list@, x.cr), i.method_specs) } }
#[verifier::opaque] pub open spec fn infos(c: StmtClassDef, s: Seq<TestMethodInfo>, x: Ctx) -> Seq<TestInfo> { s.map_values(|i: TestMethodInfo| info(c, i, x)) }
pub proof fn lem_infos(c: StmtClassDef, s: Seq<TestMethodInfo>, i: TestMethodInfo, x: Ctx) ensures infos(c, Seq::empty(), x) == Seq::<TestInfo>::empty(), infos(c, s.push(i), x) == infos(c, s, x).push(info(c, i, x))
{ reveal(infos); assert(infos(c, Seq::empty(), x) =~= Seq::<TestInfo>::empty()); assert(infos(c, s.push(i), x) =~= infos(c, s, x).push(info(c, i, x))); }
// the methods of the class: those of its bases first, in the order of the bases, then its own
pub open spec fn class_methods(c: StmtClassDef, x: Ctx) -> Seq<TestMethodInfo> { inh(args_of(c), own(c.body@, x.cfg, x.cr), x) + own(c.body@, x.cfg, x.cr) }
pub open spec fn collected_class(c: StmtClassDef, x: Ctx) -> bool { is_class(x.cfg, c.name@) && !class_inits(c, x) }
pub open spec fn class_result(c: StmtClassDef, x: Ctx, r: Option<Vec<TestInfo>>) -> bool { if collected_class(c, x) { r is Some && settled(args_of(c), own(c.body@, x.cfg, x.cr), x) && r->0@ == infos(c, class_methods(c, x), x) } else { r is None } }
pub open spec fn warns(w: CollectionWarning, file: Option<String>, c: StmtClassDef) -> bool { w.file_path@ == (match file { Some(f) => f@, None => "unknown"@ }) && w.message@ == "cannot collect test class '"@ + c.name@ + "' because it has a __init__ constructor"@ }
// ---- the tests of a file
#[verifier::external_body] pub fn take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r == *old(v), final(v)@.len() == 0 { unimplemented!() }
pub open spec fn fn_info(f: StmtFunctionDef, x: Ctx) -> TestInfo { TestInfo { name: f.name, line: line_of_fn(f) as usize, is_method: false, class_name: None, cases_expansion: expanded(f.decorator_list@, x.cr) } }
pub open spec fn no_fn(s: Seq<TestInfo>, n: String) -> Seq<TestInfo> decreases s.len() { if s.len() == 0 { s } else { let w = no_fn(s.drop_last(), n); if s.last().name == n { w } else { w.push(s.last()) } } }
pub open spec fn no_class(s: Seq<TestInfo>, n: String) -> Seq<TestInfo> decreases s.len() { if s.len() == 0 { s } else { let w = no_class(s.drop_last(), n); if s.last().class_name == Some(n) { w } else { w.push(s.last()) } } }
// the matching functions, each by its last definition
#[verifier::opaque] pub open spec fn fns(b: Seq<Stmt>, x: Ctx) -> Seq<TestInfo> decreases b.len() { if b.len() == 0 { Seq::empty() } else { plus_fn(fns(b.drop_last(), x), b.last(), x) } }
pub open spec fn plus_fn(s: Seq<TestInfo>, t: Stmt, x: Ctx) -> Seq<TestInfo> { match t { Stmt::FunctionDef(f) => if is_test(x.cfg, f.name@) { no_fn(s, f.name).push(fn_info(f, x)) } else { s }, _ => s } }
// then the collected classes, each by its last definition
#[verifier::opaque] pub open spec fn with_classes(s: Seq<TestInfo>, b: Seq<Stmt>, x: Ctx) -> Seq<TestInfo> decreases b.len() { if b.len() == 0 { s } else { plus_tests(with_classes(s, b.drop_last(), x), b.last(), x) } }
pub open spec fn plus_tests(s: Seq<TestInfo>, t: Stmt, x: Ctx) -> Seq<TestInfo> { match t { Stmt::ClassDef(c) => if collected_class(c, x) { no_class(s, c.name) + infos(c, class_methods(c, x), x) } else { no_class(s, c.name) }, _ => s } }
pub open spec fn listing(b: Seq<Stmt>, x: Ctx) -> Seq<TestInfo> { with_classes(fns(b, x), b, x) }
pub open spec fn warnable(t: Stmt, x: Ctx) -> bool { t is ClassDef && is_class(x.cfg, t->ClassDef_0.name@) && class_inits(t->ClassDef_0, x) }
// one warning for each class left out for its constructor
#[verifier::opaque] pub open spec fn warned(w: Seq<CollectionWarning>, file: Seq<Seq<char>>, b: Seq<Stmt>, x: Ctx) -> bool decreases b.len() {
  if b.len() == 0 { w.len() == 0 } else if warnable(b.last(), x) { w.len() > 0 && warned(w.drop_last(), file, b.drop_last(), x) && renders(w.last().file_path@, file) && says_left_out(w.last(), b.last()->ClassDef_0) } else { warned(w, file, b.drop_last(), x) } }
pub open spec fn says_left_out(w: CollectionWarning, c: StmtClassDef) -> bool { w.message@ == "cannot collect test class '"@ + c.name@ + "' because it has a __init__ constructor"@ }
// no test is listed twice
pub open spec fn once(s: Seq<TestInfo>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> !(s[i].name == s[j].name && s[i].class_name == s[j].class_name) }
pub proof fn lem_fns(b: Seq<Stmt>, t: Stmt, x: Ctx) ensures fns(Seq::empty(), x) == Seq::<TestInfo>::empty(), fns(b.push(t), x) == plus_fn(fns(b, x), t, x)
{ reveal(fns); assert(b.push(t).drop_last() =~= b); assert(b.push(t).last() == t); }
pub proof fn lem_with_classes(s: Seq<TestInfo>, b: Seq<Stmt>, t: Stmt, x: Ctx) ensures with_classes(s, Seq::empty(), x) == s, with_classes(s, b.push(t), x) == plus_tests(with_classes(s, b, x), t, x)
{ reveal(with_classes); assert(b.push(t).drop_last() =~= b); assert(b.push(t).last() == t); }
pub proof fn lem_warned(w: Seq<CollectionWarning>, file: Seq<Seq<char>>, b: Seq<Stmt>, t: Stmt, x: Ctx)
  requires warned(w, file, b, x) || b.len() == 0
  ensures w.len() == 0 ==> warned(w, file, Seq::empty(), x), warned(w, file, b, x) && !warnable(t, x) ==> warned(w, file, b.push(t), x),
     warned(w, file, b, x) && warnable(t, x) ==> forall|v: Seq<CollectionWarning>| v.len() == w.len() + 1 && v.drop_last() =~= w && renders(v.last().file_path@, file) && says_left_out(v.last(), t->ClassDef_0) ==> #[trigger] warned(v, file, b.push(t), x)
{ reveal(warned); assert(b.push(t).drop_last() =~= b); assert(b.push(t).last() == t); 
  if warned(w, file, b, x) && warnable(t, x) { assert forall|v: Seq<CollectionWarning>| v.len() == w.len() + 1 && v.drop_last() =~= w && renders(v.last().file_path@, file) && says_left_out(v.last(), t->ClassDef_0) implies #[trigger] warned(v, file, b.push(t), x) by { assert(v.drop_last() == w); } } }
pub open spec fn distinct(s: Seq<TestMethodInfo>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].name != s[j].name }
pub proof fn lem_without(s: Seq<TestMethodInfo>, n: String) requires distinct(s) ensures distinct(without(s, n)), !incl(without(s, n), n), forall|k: String| #[trigger] incl(without(s, n), k) ==> incl(s, k), forall|k: String| k != n && #[trigger] incl(s, k) ==> incl(without(s, n), k) decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); lem_without(d, n); let w = without(d, n); lem_has(w, s.last()); lem_has(d, s.last()); assert(d.push(s.last()) =~= s);
  if s.last().name != n { lem_push(d, w, s.last()); } } }
// w has only names of d
pub proof fn lem_push(d: Seq<TestMethodInfo>, w: Seq<TestMethodInfo>, y: TestMethodInfo) requires distinct(d.push(y)), distinct(w), forall|k: String| #[trigger] incl(w, k) ==> incl(d, k) ensures distinct(w.push(y))
{ let t = d.push(y); if incl(w, y.name) { assert(incl(d, y.name)); let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).name == y.name; assert(t[i].name != t[d.len() as int].name); }
  lem_new(w, y); }
pub proof fn lem_new(w: Seq<TestMethodInfo>, y: TestMethodInfo) requires distinct(w), !incl(w, y.name) ensures distinct(w.push(y))
{ let u = w.push(y); assert forall|i: int, j: int| #![trigger u[i], u[j]] 0 <= i < j < u.len() implies u[i].name != u[j].name by { assert(w[i] == u[i]); if j < w.len() { assert(w[j] == u[j]); } else { if w[i].name == y.name { assert(incl(w, y.name)); } } } }
pub proof fn lem_own_in(b: Seq<Stmt>, c: TestDiscoveryConfig, cr: ConstantResolver) ensures distinct(own_in(b, c, cr)) decreases b.len()
{ if b.len() > 0 { lem_own_in(b.drop_last(), c, cr); let s = own_in(b.drop_last(), c, cr); match b.last() { Stmt::FunctionDef(f) => if is_test(c, f.name@) { lem_without(s, f.name); lem_new(without(s, f.name), method(f, cr)); } _ => {} } } }
pub proof fn lem_own(b: Seq<Stmt>, c: TestDiscoveryConfig, cr: ConstantResolver) ensures distinct(own(b, c, cr))
{ lem_own_in(b, c, in_class(cr, b)); }
pub open spec fn apart(s: Seq<TestMethodInfo>, own: Seq<TestMethodInfo>) -> bool { forall|k: String| #[trigger] incl(s, k) ==> !incl(own, k) }
pub proof fn lem_join_once(a: Seq<TestMethodInfo>, own: Seq<TestMethodInfo>, i: Seq<TestMethodInfo>)
  requires distinct(a), apart(a, own)
  ensures distinct(join(a, own, i)), apart(join(a, own, i), own), forall|k: String| #[trigger] incl(a, k) ==> incl(join(a, own, i), k), forall|k: String| #[trigger] incl(i, k) ==> incl(own, k) || incl(join(a, own, i), k)
  decreases i.len()
{ if i.len() > 0 { let d = i.drop_last(); let y = i.last(); lem_join_once(a, own, d); let r = join(a, own, d); assert(d.push(y) =~= i); lem_has(d, y); if !(incl(own, y.name) || incl(r, y.name)) { lem_new(r, y); lem_has(r, y); } } }
pub proof fn lem_exprs_once(es: Seq<Expr>, own: Seq<TestMethodInfo>, x: Ctx, f: nat) ensures from_exprs(es, own, x, f) is Some ==> distinct(from_exprs(es, own, x, f)->0) && apart(from_exprs(es, own, x, f)->0, own) decreases es.len()
{ if es.len() > 0 { lem_exprs_once(es.drop_last(), own, x, f); if from_exprs(es, own, x, f) is Some { match py_named(es.last(), x) { Some((Some(p), n, _)) => { lem_join_once(from_exprs(es.drop_last(), own, x, f)->0, own, inherited(p, n, f)->0); } _ => {} } } } }
// every method a base gives is one of the class's, unless the class or an earlier base defines it
pub proof fn lem_exprs_all(es: Seq<Expr>, own: Seq<TestMethodInfo>, x: Ctx, f: nat, i: int, k: String)
  requires from_exprs(es, own, x, f) is Some, 0 <= i < es.len(), base_at(es[i], x) is Some, incl(inherited(base_at(es[i], x)->0.path, base_at(es[i], x)->0.name, f)->0, k)
  ensures incl(own, k) || incl(from_exprs(es, own, x, f)->0, k)
  decreases es.len()
{ let d = es.drop_last(); lem_exprs_once(d, own, x, f); if i < es.len() - 1 { lem_exprs_all(d, own, x, f, i, k); match py_named(es.last(), x) { Some((Some(p), n, _)) => { lem_join_once(from_exprs(d, own, x, f)->0, own, inherited(p, n, f)->0); } _ => {} } }
  else { lem_join_once(from_exprs(d, own, x, f)->0, own, inherited(base_at(es[i], x)->0.path, base_at(es[i], x)->0.name, f)->0); } }
// every matching method of the class is one of its own
pub proof fn lem_own_all_in(b: Seq<Stmt>, c: TestDiscoveryConfig, cr: ConstantResolver, i: int) requires 0 <= i < b.len(), b[i] is FunctionDef, is_test(c, b[i]->FunctionDef_0.name@) ensures incl(own_in(b, c, cr), b[i]->FunctionDef_0.name) decreases b.len()
{ let d = b.drop_last(); let s = own_in(d, c, cr); lem_own_in(d, c, cr); if i < b.len() - 1 { lem_own_all_in(d, c, cr, i); }
  match b.last() { Stmt::FunctionDef(g) => if is_test(c, g.name@) { lem_without(s, g.name); lem_has(without(s, g.name), method(g, cr)); } _ => {} } }
pub proof fn lem_own_all(b: Seq<Stmt>, c: TestDiscoveryConfig, cr: ConstantResolver, i: int) requires 0 <= i < b.len(), b[i] is FunctionDef, is_test(c, b[i]->FunctionDef_0.name@) ensures incl(own(b, c, cr), b[i]->FunctionDef_0.name)
{ lem_own_all_in(b, c, in_class(cr, b), i); }
pub proof fn lem_class_once(c: StmtClassDef, x: Ctx) requires settled(args_of(c), own(c.body@, x.cfg, x.cr), x) ensures distinct(class_methods(c, x))
{ let o = own(c.body@, x.cfg, x.cr); let es = args_of(c); let f = choose|f: nat| #[trigger] from_exprs(es, o, x, f) is Some; lem_exprs_once(es, o, x, f); lem_own(c.body@, x.cfg, x.cr);
  let a = inh(es, o, x); let u = a + o; assert forall|i: int, j: int| #![trigger u[i], u[j]] 0 <= i < j < u.len() implies u[i].name != u[j].name by { if j < a.len() { assert(u[i] == a[i] && u[j] == a[j]); } else if i >= a.len() { assert(u[i] == o[i - a.len()] && u[j] == o[j - a.len()]); } else { assert(u[i] == a[i] && u[j] == o[j - a.len()]); assert(incl(a, a[i].name)); if u[i].name == u[j].name { assert(incl(o, a[i].name)); } } } }
pub open spec fn lists(s: Seq<TestInfo>, n: String, c: Option<String>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name == n && s[i].class_name == c }
pub proof fn lem_lists(s: Seq<TestInfo>, y: TestInfo) ensures forall|n: String, c: Option<String>| #[trigger] lists(s.push(y), n, c) <==> lists(s, n, c) || (y.name == n && y.class_name == c), once(s) && !lists(s, y.name, y.class_name) ==> once(s.push(y))
{ let t = s.push(y); assert forall|n: String, c: Option<String>| #[trigger] lists(t, n, c) <==> lists(s, n, c) || (y.name == n && y.class_name == c) by {
    if lists(s, n, c) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name == n && s[i].class_name == c; assert(t[i] == s[i]); } if y.name == n && y.class_name == c { assert(t[s.len() as int] == y); } if lists(t, n, c) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name == n && t[i].class_name == c; if i < s.len() { assert(s[i] == t[i]); } } }
  if once(s) && !lists(s, y.name, y.class_name) { assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies !(t[i].name == t[j].name && t[i].class_name == t[j].class_name) by { assert(t[i] == s[i]); if j < s.len() { assert(t[j] == s[j]); } else { if s[i].name == y.name && s[i].class_name == y.class_name { assert(lists(s, y.name, y.class_name)); } } } } }
pub proof fn lem_no_fn(s: Seq<TestInfo>, m: String) requires once(s) ensures once(no_fn(s, m)), forall|n: String, c: Option<String>| #[trigger] lists(no_fn(s, m), n, c) <==> lists(s, n, c) && n != m decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); let y = s.last(); assert(d.push(y) =~= s); assert(once(d)) by { assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies !(d[i].name == d[j].name && d[i].class_name == d[j].class_name) by { assert(s[i] == d[i] && s[j] == d[j]); } } lem_no_fn(d, m); lem_lists(d, y); lem_last(d, y); lem_lists(no_fn(d, m), y); } }
pub proof fn lem_no_class(s: Seq<TestInfo>, m: String) requires once(s) ensures once(no_class(s, m)), forall|n: String, c: Option<String>| #[trigger] lists(no_class(s, m), n, c) <==> lists(s, n, c) && c != Some(m) decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); let y = s.last(); assert(d.push(y) =~= s); assert(once(d)) by { assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies !(d[i].name == d[j].name && d[i].class_name == d[j].class_name) by { assert(s[i] == d[i] && s[j] == d[j]); } } lem_no_class(d, m); lem_lists(d, y); lem_last(d, y); lem_lists(no_class(d, m), y); } }
pub proof fn lem_last(d: Seq<TestInfo>, y: TestInfo) requires once(d.push(y)) ensures !lists(d, y.name, y.class_name)
{ let t = d.push(y); if lists(d, y.name, y.class_name) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).name == y.name && d[i].class_name == y.class_name; assert(t[i] == d[i]); assert(t[d.len() as int] == y); } }
pub proof fn lem_fns_once(b: Seq<Stmt>, x: Ctx) ensures once(fns(b, x)), forall|n: String, c: Option<String>| #[trigger] lists(fns(b, x), n, c) ==> c is None decreases b.len()
{ reveal(fns); if b.len() > 0 { lem_fns_once(b.drop_last(), x); let s = fns(b.drop_last(), x); match b.last() { Stmt::FunctionDef(f) => { lem_no_fn(s, f.name); lem_lists(no_fn(s, f.name), fn_info(f, x)); } _ => {} } } }
pub proof fn lem_plus_infos(s: Seq<TestInfo>, c: StmtClassDef, ms: Seq<TestMethodInfo>, x: Ctx)
  requires once(s), distinct(ms), forall|n: String| !(#[trigger] lists(s, n, Some(c.name)))
  ensures once(s + infos(c, ms, x)), forall|n: String, k: Option<String>| #[trigger] lists(s + infos(c, ms, x), n, k) <==> lists(s, n, k) || (k == Some(c.name) && incl(ms, n))
  decreases ms.len()
{ lem_infos(c, Seq::empty(), arbitrary(), x); if ms.len() == 0 { assert(ms =~= Seq::empty()); assert(s + infos(c, ms, x) =~= s); } else { let d = ms.drop_last(); let y = ms.last(); assert(d.push(y) =~= ms); assert(distinct(d)) by { assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies d[i].name != d[j].name by { assert(ms[i] == d[i] && ms[j] == d[j]); } }
  lem_plus_infos(s, c, d, x); lem_infos(c, d, y, x); let u = s + infos(c, d, x); assert(s + infos(c, ms, x) =~= u.push(info(c, y, x))); lem_lists(u, info(c, y, x)); lem_has(d, y);
  if incl(d, y.name) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).name == y.name; assert(ms[i] == d[i]); assert(ms[d.len() as int] == y); } } }
pub open spec fn all_settled(b: Seq<Stmt>, x: Ctx) -> bool { forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is ClassDef && collected_class(b[i]->ClassDef_0, x) ==> settled(args_of(b[i]->ClassDef_0), own(b[i]->ClassDef_0.body@, x.cfg, x.cr), x) }
pub proof fn lem_classes_once(s: Seq<TestInfo>, b: Seq<Stmt>, x: Ctx) requires once(s), all_settled(b, x) ensures once(with_classes(s, b, x)) decreases b.len()
{ reveal(with_classes); if b.len() > 0 { let d = b.drop_last(); assert(all_settled(d, x)) by { assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is ClassDef && collected_class(d[i]->ClassDef_0, x) implies settled(args_of(d[i]->ClassDef_0), own(d[i]->ClassDef_0.body@, x.cfg, x.cr), x) by { assert(d[i] == b[i]); } } lem_classes_once(s, d, x); let t = with_classes(s, d, x); assert(b[b.len() - 1] == b.last());
  match b.last() { Stmt::ClassDef(c) => { lem_no_class(t, c.name); if collected_class(c, x) { lem_class_once(c, x); lem_plus_infos(no_class(t, c.name), c, class_methods(c, x), x); } } _ => {} } } }
pub proof fn lem_once(b: Seq<Stmt>, x: Ctx) requires all_settled(b, x) ensures once(listing(b, x)) { lem_fns_once(b, x); lem_classes_once(fns(b, x), b, x); }
pub proof fn lem_all_settled(b: Seq<Stmt>, s: Stmt, x: Ctx) ensures all_settled(Seq::empty(), x), all_settled(b, x) && (s is ClassDef && collected_class(s->ClassDef_0, x) ==> settled(args_of(s->ClassDef_0), own(s->ClassDef_0.body@, x.cfg, x.cr), x)) ==> all_settled(b.push(s), x)
{ if all_settled(b, x) && (s is ClassDef && collected_class(s->ClassDef_0, x) ==> settled(args_of(s->ClassDef_0), own(s->ClassDef_0.body@, x.cfg, x.cr), x)) { let t = b.push(s); assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is ClassDef && collected_class(t[i]->ClassDef_0, x) implies settled(args_of(t[i]->ClassDef_0), own(t[i]->ClassDef_0.body@, x.cfg, x.cr), x) by { if i < b.len() { assert(t[i] == b[i]); } } } }
// every matching function of the file is listed
pub proof fn lem_fns_all(b: Seq<Stmt>, x: Ctx, i: int) requires 0 <= i < b.len(), b[i] is FunctionDef, is_test(x.cfg, b[i]->FunctionDef_0.name@) ensures lists(fns(b, x), b[i]->FunctionDef_0.name, None) decreases b.len()
{ reveal(fns); let d = b.drop_last(); let s = fns(d, x); lem_fns_once(d, x); if i < b.len() - 1 { lem_fns_all(d, x, i); } match b.last() { Stmt::FunctionDef(g) => { lem_no_fn(s, g.name); lem_lists(no_fn(s, g.name), fn_info(g, x)); } _ => {} } }
// adding classes drops no function, and the last definition of a collected class is listed with all its methods
pub open spec fn last_def(b: Seq<Stmt>, i: int) -> bool { forall|j: int| i < j < b.len() && (#[trigger] b[j]) is ClassDef ==> b[j]->ClassDef_0.name != b[i]->ClassDef_0.name }
pub proof fn lem_classes_all(s: Seq<TestInfo>, b: Seq<Stmt>, x: Ctx, i: int)
  requires once(s), all_settled(b, x)
  ensures forall|n: String| #[trigger] lists(s, n, None) ==> lists(with_classes(s, b, x), n, None),
     0 <= i < b.len() && b[i] is ClassDef && collected_class(b[i]->ClassDef_0, x) && last_def(b, i) ==> forall|n: String| #[trigger] incl(class_methods(b[i]->ClassDef_0, x), n) ==> lists(with_classes(s, b, x), n, Some(b[i]->ClassDef_0.name))
  decreases b.len()
{ reveal(with_classes); if b.len() > 0 { let d = b.drop_last(); assert(all_settled(d, x)) by { assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is ClassDef && collected_class(d[i]->ClassDef_0, x) implies settled(args_of(d[i]->ClassDef_0), own(d[i]->ClassDef_0.body@, x.cfg, x.cr), x) by { assert(d[i] == b[i]); } }
  assert(0 <= i < d.len() && last_def(b, i) ==> last_def(d, i)) by { if 0 <= i < d.len() && last_def(b, i) { assert forall|j: int| i < j < d.len() && (#[trigger] d[j]) is ClassDef implies d[j]->ClassDef_0.name != d[i]->ClassDef_0.name by { assert(b[j] == d[j]); assert(b[i] == d[i]); } } }
  lem_classes_all(s, d, x, i); lem_classes_once(s, d, x); let t = with_classes(s, d, x); assert(b[b.len() - 1] == b.last()); if 0 <= i < d.len() { assert(b[i] == d[i]); }
  match b.last() { Stmt::ClassDef(c) => { lem_no_class(t, c.name); if collected_class(c, x) { lem_class_once(c, x); lem_plus_infos(no_class(t, c.name), c, class_methods(c, x), x); } } _ => {} } } }
// what a file needs for its tests to be listed: nothing else may be reported
pub open spec fn good_file(b: Seq<Stmt>, x: Ctx) -> bool { forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is ClassDef && is_class(x.cfg, b[i]->ClassDef_0.name@) ==> good_class(b[i]->ClassDef_0, x) }
pub proof fn lem_bad(c: StmtClassDef, x: Ctx, n: int) requires 0 <= n <= args_of(c).len(), bases_of(args_of(c).take(n), x) is None ensures !good_class(c, x) decreases n
{ reveal(bases_of); if n > 0 { let e = args_of(c)[n - 1]; assert(args_of(c).take(n).drop_last() =~= args_of(c).take(n - 1)); assert(args_of(c).take(n).last() == e); if bases_of(args_of(c).take(n - 1), x) is None { lem_bad(c, x, n - 1); } else { assert(py_named(e, x) is Some); assert(base_at(e, x) is None); } } }
pub proof fn lem_bad_class(c: StmtClassDef, x: Ctx) ensures bases_of(args_of(c), x) is None ==> !good_class(c, x) { assert(args_of(c).take(args_of(c).len() as int) =~= args_of(c)); if bases_of(args_of(c), x) is None { lem_bad(c, x, args_of(c).len() as int); } }
// with the imports of the module, whatever map they are in, the bases are those of its context
pub proof fn lem_bases_all(c: StmtClassDef, x: Ctx, package: Option<&Vec<String>>)
  requires package is Some <==> x.pkg, package is Some ==> package->0@ == x.cur
  ensures forall|m: Map<String, ImportInfo>| #![trigger collected(m, x.b, package)] #![trigger bases_by(args_of(c), x.cur, m)] collected(m, x.b, package) ==> bases_by(args_of(c), x.cur, m) == bases_of(args_of(c), x)
{ assert forall|m: Map<String, ImportInfo>| #[trigger] collected(m, x.b, package) implies bases_by(args_of(c), x.cur, m) == bases_of(args_of(c), x) by { lem_sees(m, x, package); lem_bases_same(args_of(c), x, m); } }
pub proof fn lem_grow_all(c0: Cache, c: Cache, m: Seq<String>, t: Map<String, Facts>, n: String, f: Facts)
  requires grown(c0, c, m, t)
  ensures forall|v: Vec<String>, i: TestClassInfo| #![trigger c.insert((v, n), i)] v@ == m && same_facts(i, f) ==> grown(c0, c.insert((v, n), i), m, t.insert(n, f))
{ assert forall|v: Vec<String>, i: TestClassInfo| #![trigger c.insert((v, n), i)] v@ == m && same_facts(i, f) implies grown(c0, c.insert((v, n), i), m, t.insert(n, f)) by { lem_grow(c0, c, m, t, v, n, i, f); } }
pub proof fn lem_step(s: Stmt, x: Ctx, package: Option<&Vec<String>>, c0: Cache, c: Cache, t: Map<String, Facts>)
  requires package is Some <==> x.pkg, package is Some ==> package->0@ == x.cur, grown(c0, c, x.cur, t)
  ensures s is ClassDef ==> (forall|m: Map<String, ImportInfo>| #![trigger collected(m, x.b, package)] #![trigger bases_by(args_of(s->ClassDef_0), x.cur, m)] collected(m, x.b, package) ==> bases_by(args_of(s->ClassDef_0), x.cur, m) == bases_of(args_of(s->ClassDef_0), x)),
     s is ClassDef && facts_of(s->ClassDef_0, x) is Some ==> (forall|v: Vec<String>, i: TestClassInfo| #![trigger c.insert((v, s->ClassDef_0.name), i)] v@ == x.cur && same_facts(i, facts_of(s->ClassDef_0, x)->0) ==> grown(c0, c.insert((v, s->ClassDef_0.name), i), x.cur, t.insert(s->ClassDef_0.name, facts_of(s->ClassDef_0, x)->0)))
{ if s is ClassDef { lem_bases_all(s->ClassDef_0, x, package); if facts_of(s->ClassDef_0, x) is Some { lem_grow_all(c0, c, x.cur, t, s->ClassDef_0.name, facts_of(s->ClassDef_0, x)->0); } } }

@fn is_package_file(path)->r
@ensures
  C24_package: r == is_pkg(*path)

@fn SemanticTestDiscovery::collect_imports_from_module(module, package)->r
@ensures
  C24_imports: collected(r@, bound(module.body@), package)

@fn SemanticTestDiscovery::collect_imports(module, package, semantic)->r
@ensures
  C24_imports: collected(r@, bound(module.body@), package)

@fn SemanticTestDiscovery::class_has_init(class)->r
@ensures
  C24_init: r == has_init(class.body@)
@loop body
@inv
  none: !has_init($done)

@fn SemanticTestDiscovery::is_stdlib_module_to_skip(module_path)->r
@ensures
  C24_stdlib: r == stdlib(module_path@)

@fn SemanticTestDiscovery::collect_test_methods(class_def, resolver)->r
@ensures
  C24_own: r@ == own(class_def.body@, self.config, *resolver)
@loop body
@inv
  own: methods@ == own_in($done, self.config, in_class(*g_resolver, class_def.body@))
@loop retain
@inv
  k: $acc@ == without($done, $ox->FunctionDef_0.name)
@before
proof { assert($done =~= Seq::empty()); }
@after
proof { assert($done =~= $all); }

@fn SemanticTestDiscovery::collect_base_class_names(class_def, current_module_path, imports)->r
@ensures
  C24_bases: match bases_by(args_of(*class_def), current_module_path@, imports@) { Some(bs) => r is Ok && say_bases(r->Ok_0@, bs), None => r is Err }
@entry
proof { reveal(say_bases); lem_bases_by(Seq::empty(), arbitrary(), current_module_path@, imports@); }
@loop args
@inv
  b: bases_by($done, current_module_path@, imports@) is Some && say_bases(base_classes@, bases_by($done, current_module_path@, imports@)->0)
@before
proof { assert($done =~= Seq::empty()); }
@pre
proof { lem_bases_by($prev, *$x, current_module_path@, imports@); if bases_by($done, current_module_path@, imports@) is None { assert($all.take($prev.len() as int + 1) =~= $done); lem_bases_none($all, $prev.len() as int, current_module_path@, imports@); } }

@fn SemanticTestDiscovery::collect_test_classes(module, module_path, package, resolver)->r
@requires
  world: *module == here().module && module_path@ == here().path && old(self).config == here().cfg && *resolver == constants(*module) && sound()
  package: (package is Some <==> here().pkg) && (package is Some ==> package->0@ == module_path@)
  fresh: old(self).class_cache@.dom() =~= Set::<Key>::empty()
@ensures
  C24_local: r is Ok ==> inv(*final(self)) && final(self).warnings == old(self).warnings && final(self).current_file_path == old(self).current_file_path
  C24_total: good_file(module.body@, my_ctx()) ==> r is Ok
@entry
proof { lem_tbl(Seq::empty(), arbitrary(), my_ctx()); lem_tbl_names(module.body@, my_ctx()); }
@loop body
@inv
  same: self.config == here().cfg && self.warnings == old(self).warnings && self.current_file_path == old(self).current_file_path
  grown: grown(old(self).class_cache@, self.class_cache@, here().path, tbl($done, my_ctx()))
@before
proof { assert($done =~= Seq::empty()); }
@pre
let ghost c0 = self.class_cache@;
proof { assert(module.body@[$prev.len() as int] == *$x); if *$x is ClassDef { lem_bad_class($x->ClassDef_0, my_ctx()); } lem_tbl($prev, *$x, my_ctx()); lem_step(*$x, my_ctx(), package, old(self).class_cache@, c0, tbl($prev, my_ctx())); }
@after
proof { reveal(cache_ok); assert($done =~= $all); lem_grown(old(self).class_cache@, self.class_cache@, here().path); }

@fn SemanticTestDiscovery::ensure_module_loaded(module_path, module_resolver)->r
@requires
  files: rinv(*old(module_resolver))
  inv: inv(*old(self))
@ensures
  files: rinv(*final(module_resolver))
  C24_loaded: r is Ok ==> inv(*final(self)) && kept(*old(self), *final(self)) && full(final(self).class_cache@, module_path@)
  C24_total: r is Err ==> broken(module_path@)
@entry
proof { lem_mark_all(self.class_cache@, module_path@); if module_path@ != here().path && loaded(module_path@) is Missing { assert(full(self.class_cache@, module_path@)); } }
@loop body
@inv
  same: self.config == here().cfg && self.warnings == old(self).warnings && self.current_file_path == old(self).current_file_path
  got: parsed_module == loaded(module_path@)->Got_0
  grown: grown(old(self).class_cache@, self.class_cache@, module_path@, tbl($done, ctx(module_path@, parsed_module.module, is_pkg(parsed_module.path))))
@before
let ghost x = ctx(module_path@, parsed_module.module, is_pkg(parsed_module.path));
proof { assert($done =~= Seq::empty()); lem_tbl(Seq::empty(), arbitrary(), x); lem_tbl_names(parsed_module.module.body@, x); }
@pre
proof { lem_tbl($prev, *$x, x); lem_step(*$x, x, package, old(self).class_cache@, self.class_cache@, tbl($prev, x)); assert(parsed_module.module.body@[$prev.len() as int] == *$x); }
@after
proof { assert($done =~= $all); assert(table(module_path@) == tbl(parsed_module.module.body@, x)); lem_grown(old(self).class_cache@, self.class_cache@, module_path@); lem_mark_all(self.class_cache@, module_path@); }

@fn SemanticTestDiscovery::get_base_class_methods_impl(resolved, module_resolver, visited)->r
@attr #[verifier::exec_allows_no_decreases_clause]
@requires
  files: rinv(*old(module_resolver))
  inv: inv(*old(self))
  here: resolved.is_local ==> full(old(self).class_cache@, resolved.module_path@)
  above: all_above(old(visited)@, resolved.module_path@, resolved.class_name)
@ensures
  files: rinv(*final(module_resolver))
  C24_inherited: r is Ok ==> inv(*final(self)) && kept(*old(self), *final(self)) && final(visited)@ == old(visited)@ && gives(resolved.module_path@, resolved.class_name, methods_of(r->Ok_0))
  C24_total: healthy() && ends(resolved.module_path@, resolved.class_name) ==> r is Ok
@entry
let ghost m = resolved.module_path@; let ghost n = resolved.class_name; let ghost v0 = visited@;
proof { lem_gives_all(m, n); lem_table(m); lem_visited(v0, m, n); lem_cached_all(m, n); lem_gathered_none(facts(m, n).own); }
@loop names
@inv
  files: rinv(*module_resolver)
  n: forall|k: String| #[trigger] $acc@.contains(k) <==> incl($done, k)
@before
proof { assert($done =~= Seq::empty()); }
@pre
proof { lem_has($prev, *$x); }
@after
proof { assert($done =~= $all); }
@loop bases
@inv
  files: rinv(*module_resolver)
  same: inv(*self) && kept(*old(self), *self) && full(self.class_cache@, m)
  vis: exists|k: Key| k.0@ == m && k.1 == n && visited@ == v0.insert(k) && !v0.contains(k)
  seen: forall|k: String| #[trigger] seen_names@.contains(k) <==> incl(facts(m, n).own, k) || incl(all_methods@, k)
  got: gathered(facts(m, n).bases.take($done.len() as int), facts(m, n).own, all_methods@)
@before
proof { assert($done =~= Seq::empty()); assert(facts(m, n).bases.take(0) =~= Seq::empty()); }
@pre
let ghost bs = facts(m, n).bases; let ghost i = $prev.len() as int; let ghost a0 = all_methods@;
proof { reveal(say_bases); lem_visited_base(v0, m, n, i); assert(bs.take(i + 1) =~= bs.take(i).push(bs[i])); assert(bs.take(i + 1).drop_last() =~= bs.take(i)); lem_gathered_all(bs.take(i), bs[i], facts(m, n).own, a0); }
@after
proof { assert($done =~= $all); reveal(say_bases); assert(facts(m, n).bases.take($all.len() as int) =~= facts(m, n).bases); }
@loop inner
@inv
  files: rinv(*module_resolver)
  seen: forall|k: String| #[trigger] seen_names@.contains(k) <==> incl(facts(m, n).own, k) || incl(all_methods@, k)
  got: all_methods@ == join(a0, facts(m, n).own, $done)
@before
proof { assert($done =~= Seq::empty()); }
@pre
proof { lem_join(a0, facts(m, n).own, $prev, $x); lem_has(all_methods@, $x); }
@after
proof { assert($done =~= $all); }

@fn SemanticTestDiscovery::get_base_class_methods(resolved, module_resolver)->r
@requires
  files: rinv(*old(module_resolver))
  inv: inv(*old(self))
  here: resolved.is_local ==> full(old(self).class_cache@, resolved.module_path@)
@ensures
  files: rinv(*final(module_resolver))
  C24_inherited: r is Ok ==> inv(*final(self)) && kept(*old(self), *final(self)) && gives(resolved.module_path@, resolved.class_name, methods_of(r->Ok_0))
  C24_total: healthy() && ends(resolved.module_path@, resolved.class_name) ==> r is Ok
@entry
proof { reveal(all_above); }

@fn SemanticTestDiscovery::base_class_has_init_impl(resolved, module_resolver, visited)->r
@attr #[verifier::exec_allows_no_decreases_clause]
@requires
  files: rinv(*old(module_resolver))
  inv: inv(*old(self))
  here: resolved.is_local ==> full(old(self).class_cache@, resolved.module_path@)
  above: all_above(old(visited)@, resolved.module_path@, resolved.class_name)
@ensures
  files: rinv(*final(module_resolver))
  C24_init: r is Ok ==> inv(*final(self)) && kept(*old(self), *final(self)) && (r->Ok_0 ==> ever_inits(resolved.module_path@, resolved.class_name)) && (!r->Ok_0 && ends(resolved.module_path@, resolved.class_name) ==> !ever_inits(resolved.module_path@, resolved.class_name))
  visited: r is Ok ==> final(visited)@ == old(visited)@
  C24_total: healthy() ==> r is Ok
@entry
let ghost m = resolved.module_path@; let ghost n = resolved.class_name; let ghost v0 = visited@;
proof { lem_inits(m, n); lem_table(m); lem_visited(v0, m, n); lem_cached_all(m, n); }
@loop bases
@inv
  files: rinv(*module_resolver)
  same: inv(*self) && kept(*old(self), *self) && full(self.class_cache@, m)
  vis: exists|k: Key| k.0@ == m && k.1 == n && visited@ == v0.insert(k) && !v0.contains(k)
  none: ends(m, n) ==> forall|i: int| 0 <= i < $done.len() ==> !ever_inits((#[trigger] facts(m, n).bases[i]).path, facts(m, n).bases[i].name)
@before
proof { assert($done =~= Seq::empty()); }
@pre
proof { reveal(say_bases); lem_visited_base(v0, m, n, $prev.len() as int); lem_inits_base(m, n, $prev.len() as int); }
@after
proof { assert($done =~= $all); reveal(say_bases); }

@fn SemanticTestDiscovery::base_class_has_init(resolved, module_resolver)->r
@requires
  files: rinv(*old(module_resolver))
  inv: inv(*old(self))
  here: resolved.is_local ==> full(old(self).class_cache@, resolved.module_path@)
@ensures
  files: rinv(*final(module_resolver))
  C24_init: r is Ok ==> inv(*final(self)) && kept(*old(self), *final(self)) && (r->Ok_0 ==> ever_inits(resolved.module_path@, resolved.class_name)) && (!r->Ok_0 && ends(resolved.module_path@, resolved.class_name) ==> !ever_inits(resolved.module_path@, resolved.class_name))
  C24_total: healthy() ==> r is Ok
@entry
proof { reveal(all_above); }

@fn SemanticTestDiscovery::should_skip_class(class_def, current_module_path, imports, module_resolver)->r
@requires
  files: rinv(*old(module_resolver))
  inv: inv(*old(self))
  here: current_module_path@ == here().path && sees(imports@, my_ctx())
@ensures
  files: rinv(*final(module_resolver))
  C24_init: r is Ok ==> inv(*final(self)) && kept(*old(self), *final(self)) && (r->Ok_0 ==> class_inits(*class_def, my_ctx())) && (!r->Ok_0 && good_class(*class_def, my_ctx()) ==> !class_inits(*class_def, my_ctx()))
  C24_total: healthy() && good_class(*class_def, my_ctx()) ==> r is Ok
@loop bases
@inv
  files: rinv(*module_resolver)
  same: inv(*self) && kept(*old(self), *self)
  none: good_class(*class_def, my_ctx()) ==> forall|i: int| 0 <= i < $done.len() && base_at(#[trigger] $done[i], my_ctx()) is Some ==> !ever_inits(base_at($done[i], my_ctx())->0.path, base_at($done[i], my_ctx())->0.name)
@before
proof { assert($done =~= Seq::empty()); }
@pre
proof { let e = args_of(*class_def)[$prev.len() as int]; assert(e == *$x); lem_named(e, my_ctx(), imports@); lem_named_local(e, my_ctx()); if base_at(e, my_ctx()) is Some { let b = base_at(e, my_ctx())->0; lem_inits(b.path, b.name); } }
@after
proof { assert($done =~= $all); }

@fn SemanticTestDiscovery::collect_class_tests(class_def, current_module_path, imports, semantic, module_resolver, resolver)->r
@requires
  files: rinv(*old(module_resolver))
  inv: inv(*old(self))
  here: current_module_path@ == here().path && sees(imports@, my_ctx()) && *resolver == constants(here().module)
@ensures
  files: rinv(*final(module_resolver))
  C24_class: r is Ok ==> inv(*final(self)) && final(self).current_file_path == old(self).current_file_path && class_result(*class_def, my_ctx(), r->Ok_0)
  C24_warned: r is Ok ==> if is_class(here().cfg, class_def.name@) && class_inits(*class_def, my_ctx()) { final(self).warnings@.len() == old(self).warnings@.len() + 1 && final(self).warnings@.drop_last() =~= old(self).warnings@ && warns(final(self).warnings@.last(), old(self).current_file_path, *class_def) } else { final(self).warnings == old(self).warnings }
  C24_total: healthy() && (is_class(here().cfg, class_def.name@) ==> good_class(*class_def, my_ctx())) ==> r is Ok
@entry
let ghost x = my_ctx(); let ghost c = *class_def; let ghost es = args_of(c); let ghost own_ms = own(c.body@, x.cfg, x.cr);
proof { lem_inh_none(own_ms, x); lem_infos(c, Seq::empty(), arbitrary(), x); lem_good(c, own_ms, x); }
@loop names
@inv
  files: rinv(*module_resolver)
  n: forall|k: String| #[trigger] $acc@.contains(k) <==> incl($done, k)
@before
proof { assert($done =~= Seq::empty()); }
@pre
proof { lem_has($prev, *$x); }
@after
proof { assert($done =~= $all); }
@loop bases
@inv
  files: rinv(*module_resolver)
  same: inv(*self) && kept(*old(self), *self)
  seen: forall|k: String| #[trigger] seen_names@.contains(k) <==> incl(own_ms, k) || incl(inh(es.take($done.len() as int), own_ms, x), k)
  got: settled(es.take($done.len() as int), own_ms, x) && all_tests@ == infos(c, inh(es.take($done.len() as int), own_ms, x), x)
@before
proof { assert($done =~= Seq::empty()); assert(es.take(0) =~= Seq::empty()); }
@pre
let ghost e = *$x; let ghost a0 = inh(es.take($prev.len() as int), own_ms, x);
proof { assert(e == es[$prev.len() as int]); assert(es.take($prev.len() as int + 1) =~= es.take($prev.len() as int).push(e)); lem_named(e, x, imports@); lem_named_local(e, x); lem_inh(es.take($prev.len() as int), e, own_ms, x); if base_at(e, x) is Some { lem_gives_all(base_at(e, x)->0.path, base_at(e, x)->0.name); } }
@after
proof { assert($done =~= $all); assert(es.take(es.len() as int) =~= es); }
@loop inner
@inv
  files: rinv(*module_resolver)
  seen: forall|k: String| #[trigger] seen_names@.contains(k) <==> incl(own_ms, k) || incl(join(a0, own_ms, $done), k)
  got: all_tests@ == infos(c, join(a0, own_ms, $done), x)
@before
proof { assert($done =~= Seq::empty()); }
@pre
proof { lem_join(a0, own_ms, $prev, $x); lem_has(join(a0, own_ms, $prev), $x); lem_infos(c, join(a0, own_ms, $prev), $x, x); }
@after
proof { assert($done =~= $all); }
@loop own
@inv
  files: rinv(*module_resolver)
  got: all_tests@ == infos(c, inh(es, own_ms, x) + $done, x)
@before
proof { assert($done =~= Seq::empty()); assert(inh(es, own_ms, x) + Seq::<TestMethodInfo>::empty() =~= inh(es, own_ms, x)); }
@pre
proof { assert(inh(es, own_ms, x) + $done =~= (inh(es, own_ms, x) + $prev).push($x)); lem_infos(c, inh(es, own_ms, x) + $prev, $x, x); }
@after
proof { assert($done =~= $all); }

@fn SemanticTestDiscovery::new(config)->r
@ensures
  C24_fresh: r.config == config && r.class_cache@.dom() =~= Set::<Key>::empty() && r.warnings@.len() == 0

@fn SemanticTestDiscovery::discover_tests(path, source, module_path, module_resolver)->r
@requires
  files: rinv(*old(module_resolver))
  fresh: old(self).class_cache@.dom() =~= Set::<Key>::empty() && old(self).warnings@.len() == 0
  world: here().path == module_path@ && here().pkg == is_pkg(*path) && here().cfg == old(self).config && (parsed(source@) is Some && parsed(source@)->0 is Module ==> parsed(source@)->0->Module_0 == here().module) && sound()
@ensures
  files: rinv(*final(module_resolver))
  C24_unparsed: parsed(source@) is None ==> r is Err
  C24_nothing: parsed(source@) is Some && !(parsed(source@)->0 is Module) ==> r is Ok && r->Ok_0.0@.len() == 0 && r->Ok_0.1@.len() == 0
  C24_listed: r is Ok && parsed(source@) is Some && parsed(source@)->0 is Module ==> r->Ok_0.0@ == listing(here().module.body@, my_ctx())
  C24_warned: r is Ok && parsed(source@) is Some && parsed(source@)->0 is Module ==> warned(r->Ok_0.1@, path@, here().module.body@, my_ctx())
  C24_once: r is Ok ==> once(r->Ok_0.0@)
  C24_total: healthy() && parsed(source@) is Some && (parsed(source@)->0 is Module ==> good_file(here().module.body@, my_ctx())) ==> r is Ok
@entry
let ghost x = my_ctx(); let ghost body = here().module.body@;
@loop functions
@inv
  files: rinv(*module_resolver)
  got: all_tests@ == fns($done, x)
@before
proof { assert($done =~= Seq::empty()); lem_fns(Seq::empty(), arbitrary(), x); }
@pre
proof { lem_fns($prev, *$x, x); }
@after
proof { assert($done =~= $all); }
@loop retain
@inv
  files: rinv(*module_resolver)
  k: $acc@ == no_fn($done, $ox->FunctionDef_0.name)
@before
proof { assert($done =~= Seq::empty()); }
@after
proof { assert($done =~= $all); }
@loop classes
@inv
  files: rinv(*module_resolver)
  same: inv(*self) && self.current_file_path is Some && renders(self.current_file_path->0@, path@)
  got: all_tests@ == with_classes(fns(body, x), $done, x)
  warned: warned(self.warnings@, path@, $done, x)
  settled: all_settled($done, x)
@before
proof { assert($done =~= Seq::empty()); lem_with_classes(fns(body, x), Seq::empty(), arbitrary(), x); lem_warned(self.warnings@, path@, Seq::empty(), arbitrary(), x); lem_all_settled(Seq::empty(), arbitrary(), x); }
@pre
let ghost w0 = self.warnings@;
proof { assert(body[$prev.len() as int] == *$x); lem_all_settled($prev, *$x, x); lem_with_classes(fns(body, x), $prev, *$x, x); lem_warned(w0, path@, $prev, *$x, x); }
@after
proof { assert($done =~= $all); lem_once(body, x); }
@loop retain2
@inv
  files: rinv(*module_resolver)
  k: $acc@ == no_class($done, $ox->ClassDef_0.name)
@before
proof { assert($done =~= Seq::empty()); }
@after
proof { assert($done =~= $all); }

@fn discover_tests_with_inheritance(path, source, config, root_path)->r
@requires
  world: own_name(place(path@, root_path@)) && here().path == dotted(place(path@, root_path@)) && here().pkg == is_pkg(*path) && here().cfg == *config && search() == python_path().push(*root_path) && (parsed(source@) is Some && parsed(source@)->0 is Module ==> parsed(source@)->0->Module_0 == here().module) && sound()
@ensures
  C24_unparsed: parsed(source@) is None ==> r is Err
  C24_nothing: parsed(source@) is Some && !(parsed(source@)->0 is Module) ==> r is Ok && r->Ok_0.0@.len() == 0 && r->Ok_0.1@.len() == 0
  C24_listed: r is Ok && parsed(source@) is Some && parsed(source@)->0 is Module ==> r->Ok_0.0@ == listing(here().module.body@, my_ctx())
  C24_warned: r is Ok && parsed(source@) is Some && parsed(source@)->0 is Module ==> warned(r->Ok_0.1@, path@, here().module.body@, my_ctx())
  C24_once: r is Ok ==> once(r->Ok_0.0@)
  C24_total: healthy() && parsed(source@) is Some && (parsed(source@)->0 is Module ==> good_file(here().module.body@, my_ctx())) ==> r is Ok
