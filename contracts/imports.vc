@unit imports
@source src/python_discovery/semantic_analyzer.rs src/python_discovery/discovery.rs src/collection/error.rs
@prelude core maps seqs paths ast
@include enum CollectionError
@include struct ImportInfo
@include struct ResolvedBaseClass
@include struct TestMethodInfo
@include struct TestClassInfo
@include struct TestDiscoveryConfig
@include struct CollectionWarning
@include struct SemanticTestDiscovery
@opt typemap ModModule => ModModule
@opt typemap Error => IoError
@spec
// src/python_discovery/cases.rs: what the decorators say is not looked at here
pub enum MethodCasesInfo { NotDecorated, CannotExpand(Opaque), Specs(Opaque) }
pub type CollectionResult<T> = Result<T, CollectionError>;
#[verifier::external_body] pub struct SemanticModel { x: core::marker::PhantomData<()> }
// ---- Python's rule: `n` components are dropped from the importing module's dotted path, the named module is appended
pub open spec fn dropped(cur: Seq<String>, n: int, parts: Seq<String>) -> Option<Seq<String>> {
  if 0 <= n <= cur.len() { Some(cur.take(cur.len() - n) + parts) } else { None } }
// a package's own __init__ counts as a component of the path
pub open spec fn py_target(level: int, parts: Seq<String>, cur: Seq<String>, is_package: bool) -> Option<Seq<String>> {
  if level == 0 { Some(parts) } else { dropped(cur, if is_package { level - 1 } else { level }, parts) } }
pub open spec fn target(i: ImportInfo, cur: Seq<String>) -> Option<Seq<String>> { if i.relative_level == 0 { Some(i.module_path@) } else { dropped(cur, i.relative_level as int, i.module_path@) } }
pub open spec fn submodule(t: Option<Seq<String>>, n: String) -> Option<Seq<String>> { match t { Some(p) => Some(if n@.len() == 0 { p } else { p.push(n) }), None => None } }
// ---- the names a module's import statements bind
pub struct Bound { pub parts: Seq<String>, pub name: Seq<char>, pub level: int }
pub open spec fn local(a: Alias) -> String { match a.asname { Some(n) => n, None => a.name } }
pub open spec fn dots(s: Seq<char>) -> Seq<String> { split_strs(s, seq!['.']) }
pub open spec fn from_parts(f: StmtImportFrom) -> Seq<String> { match f.module { Some(m) => dots(m@), None => Seq::empty() } }
pub open spec fn bind_from(m: Map<String, Bound>, f: StmtImportFrom, n: int) -> Map<String, Bound> decreases n {
  if n <= 0 { m } else { bind_from(m, f, n - 1).insert(local(f.names@[n - 1]), Bound { parts: from_parts(f), name: f.names@[n - 1].name@, level: f.level as int }) } }
pub open spec fn bind_import(m: Map<String, Bound>, f: StmtImport, n: int) -> Map<String, Bound> decreases n {
  if n <= 0 { m } else { bind_import(m, f, n - 1).insert(local(f.names@[n - 1]), Bound { parts: dots(f.names@[n - 1].name@), name: Seq::empty(), level: 0 }) } }
pub open spec fn bound(body: Seq<Stmt>) -> Map<String, Bound> decreases body.len() {
  if body.len() == 0 { Map::empty() } else { let m = bound(body.drop_last()); match body.last() {
    Stmt::ImportFrom(f) => bind_from(m, f, f.names@.len() as int), Stmt::Import(f) => bind_import(m, f, f.names@.len() as int), _ => m } } }
// an entry says what Python would bind, seen from the importing module
pub open spec fn says(i: ImportInfo, b: Bound, package: Option<&Vec<String>>) -> bool {
  i.imported_name@ == b.name && match package {
    Some(p) => target(i, p@) == py_target(b.level, b.parts, p@, true),
    None => forall|cur: Seq<String>| #[trigger] target(i, cur) == py_target(b.level, b.parts, cur, false) } }
pub open spec fn collected(m: Map<String, ImportInfo>, b: Map<String, Bound>, package: Option<&Vec<String>>) -> bool {
  m.dom() =~= b.dom() && forall|k: String| #[trigger] m.dom().contains(k) ==> says(m[k], b[k], package) }
// ---- what a base-class expression names
pub open spec fn named_by(e: Expr, cur: Seq<String>, m: Map<String, ImportInfo>) -> Option<(Option<Seq<String>>, String, bool)> decreases e {
  match e {
    Expr::Name(n) => if m.dom().contains(n.id) { Some((target(m[n.id], cur), m[n.id].imported_name, false)) } else { Some((Some(cur), n.id, true)) },
    Expr::Attribute(a) => match *a.value { Expr::Name(n) => if m.dom().contains(n.id) { Some((submodule(target(m[n.id], cur), m[n.id].imported_name), a.attr, false)) } else { None }, _ => None },
    Expr::Subscript(s) => named_by(*s.value, cur, m),
    _ => None } }
pub open spec fn resolves(e: Expr, cur: Seq<String>, m: Map<String, ImportInfo>, r: CollectionResult<Option<ResolvedBaseClass>>) -> bool {
  match named_by(e, cur, m) {
    None => r == Ok::<Option<ResolvedBaseClass>, CollectionError>(None),
    Some((None, _, _)) => r is Err,
    Some((Some(p), n, local)) => r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0.module_path@ =~= p && r->Ok_0->Some_0.class_name@ == n@ && r->Ok_0->Some_0.is_local == local } }

@fn SemanticTestDiscovery::resolve_relative_module_path(current, level, parts)->r
@ensures
  C22_relative: match py_target(level as int, parts@, current@, false) { Some(p) => r is Ok && r->Ok_0@ =~= p, None => r is Err }

@fn SemanticTestDiscovery::resolve_base_class(base, current, imports, semantic)->r
@dec base
@ensures
  C22_base: resolves(*base, current@, imports@, r)

@fn SemanticTestDiscovery::collect_imports_impl(module, package)->r
@ensures
  C22_imports: collected(r@, bound(module.body@), package)
@loop body
@inv
  c: collected($m0@, bound($done), package)
@pre
let ghost m0 = bound($prev);
@loop parts
@inv
  c: $acc@ =~= $done
@loop from
@inv
  c: collected($m0@, bind_from(m0, $odone.last()->ImportFrom_0, $done.len() as int), package)
@loop import
@inv
  c: collected($m0@, bind_import(m0, $odone.last()->Import_0, $done.len() as int), package)
@loop parts2
@inv
  c: $acc@ =~= $done
