@unit collect
@source src/collection_integration.rs src/collection/nodes.rs src/collection/config.rs src/collection/types.rs src/collection/error.rs src/collection/utils.rs src/python_discovery/discovery.rs src/python_discovery/cases.rs src/config.rs
@prelude core maps seqs paths globs
@opt typemap dyn Collector => Node
@opt typemap Box<Node> => Node
@opt typemap Rc<Session> => Session
@opt typemap Error => IoError
@use globs glob_match
@include enum CannotExpandReason
@include struct ExpandedCase
@include enum CasesExpansion
@include struct TestInfo
@include struct TestDiscoveryConfig
@include struct Location
@include enum CollectionError
@include enum CollectionOutcome
@include struct CollectionWarning
@include struct CollectionConfig
@include struct CollectionErrors
@include struct PytestConfig
@include struct Session
@include struct Directory
@include struct Module
@include struct Function
@include struct CollectReport
@spec
pub type CollectionResult<T> = Result<T, CollectionError>;
// ---- a node of the tree behind `dyn Collector`: which node it is; each implementer is proved against its part below
#[verifier::external_body] pub struct Node { x: core::marker::PhantomData<()> }
pub struct Out { pub ids: Seq<String>, pub errs: Seq<(String, CollectionError)>, pub warns: Seq<CollectionWarning> }
impl Node {
  pub uninterp spec fn id(&self) -> Seq<char>;
  pub uninterp spec fn item(&self) -> bool;
  // what collecting it yields: the file system and the sources do not change during a collection
  pub uninterp spec fn kids(&self) -> Result<(Seq<Node>, Seq<CollectionWarning>), CollectionError>;
  pub uninterp spec fn of_dir(&self) -> Option<Directory>;
  pub uninterp spec fn of_module(&self) -> Option<Module>;
  pub uninterp spec fn of_function(&self) -> Option<Function>;
  #[verifier::external_body] pub fn nodeid(&self) -> (r: &String) ensures r@ == self.id() { unimplemented!() }
  #[verifier::external_body] pub fn is_item(&self) -> (r: bool) ensures r == self.item() { unimplemented!() }
  #[verifier::external_body] pub fn collect(&self) -> (r: CollectionResult<(Vec<Node>, Vec<CollectionWarning>)>)
    ensures match r { Ok((ns, ws)) => self.kids() == Ok::<(Seq<Node>, Seq<CollectionWarning>), CollectionError>((ns@, ws@)), Err(e) => self.kids() == Err::<(Seq<Node>, Seq<CollectionWarning>), CollectionError>(e) } { unimplemented!() }
  #[verifier::external_body] pub fn x_as_ref(&self) -> (r: &Node) ensures *r == *self { unimplemented!() } }
pub trait Implements: Sized { spec fn behind(&self, n: Node) -> bool; }
impl Implements for Directory { open spec fn behind(&self, n: Node) -> bool { n.of_dir() == Some(*self) && n.id() == self.nodeid@ && !n.item() } }
impl Implements for Module { open spec fn behind(&self, n: Node) -> bool { n.of_module() == Some(*self) && n.id() == self.nodeid@ && !n.item() } }
impl Implements for Function { open spec fn behind(&self, n: Node) -> bool { n.of_function() == Some(*self) && n.id() == self.nodeid@ && n.item() } }
pub struct Box { pub x: u8 }
impl Box { #[verifier::external_body] pub fn new<T: Implements>(t: T) -> (r: Node) ensures t.behind(r) { unimplemented!() } }
pub struct Rc { pub x: u8 }
impl Rc { pub fn new(s: Session) -> (r: Session) ensures r == s { s } #[verifier::external_body] pub fn clone(s: &Session) -> (r: Session) ensures r == *s { unimplemented!() } }

impl CollectionError { #[verifier::external_body] pub fn x_to_string(&self) -> (r: String) { unimplemented!() } }
// ---- the tree below a node, depth first (n bounds the depth; None: not deep enough)
pub open spec fn none() -> Out { Out { ids: Seq::empty(), errs: Seq::empty(), warns: Seq::empty() } }
pub open spec fn plus(a: Out, b: Out) -> Out { Out { ids: a.ids + b.ids, errs: a.errs + b.errs, warns: a.warns + b.warns } }
pub open spec fn opt_plus(a: Option<Out>, b: Option<Out>) -> Option<Out> { match (a, b) { (Some(x), Some(y)) => Some(plus(x, y)), _ => None } }
pub open spec fn flat(c: Node, n: nat) -> Option<Out> decreases n, 0nat {
  if c.item() { Some(Out { ids: seq![mk(c.id())], errs: Seq::empty(), warns: Seq::empty() }) }
  else if n == 0 { None }
  else { match c.kids() {
    Err(e) => Some(Out { ids: Seq::empty(), errs: seq![(mk(c.id()), e)], warns: Seq::empty() }),
    Ok((ks, ws)) => opt_plus(Some(Out { ids: Seq::empty(), errs: Seq::empty(), warns: ws }), flat_all(ks, (n - 1) as nat)) } } }
pub open spec fn flat_all(cs: Seq<Node>, n: nat) -> Option<Out> decreases n, cs.len() + 1 {
  if cs.len() == 0 { Some(none()) } else { opt_plus(flat_all(cs.drop_last(), n), flat(cs.last(), n)) } }
pub proof fn lemma_deeper(c: Node, n: nat, m: nat)
  requires flat(c, n) is Some, n <= m
  ensures flat(c, m) == flat(c, n)
  decreases n, 0nat
{ if !c.item() && n > 0 { match c.kids() { Ok((ks, ws)) => { lemma_deeper_all(ks, (n - 1) as nat, (m - 1) as nat); } _ => {} } } }
pub proof fn lemma_deeper_all(cs: Seq<Node>, n: nat, m: nat)
  requires flat_all(cs, n) is Some, n <= m
  ensures flat_all(cs, m) == flat_all(cs, n)
  decreases n, cs.len() + 1
{ if cs.len() > 0 { lemma_deeper_all(cs.drop_last(), n, m); lemma_deeper(cs.last(), n, m); } }
// b is a with all that the tree below c (the nodes cs) contains
pub open spec fn added(a: Out, b: Out, c: Node) -> bool { exists|n: nat| #[trigger] flat(c, n) is Some && b == plus(a, flat(c, n)->Some_0) }
pub open spec fn added_all(a: Out, b: Out, cs: Seq<Node>) -> bool { exists|n: nat| #[trigger] flat_all(cs, n) is Some && b == plus(a, flat_all(cs, n)->Some_0) }
pub open spec fn out(ids: Seq<String>, e: CollectionErrors) -> Out { Out { ids: ids, errs: e.errors@, warns: e.warnings@ } }
pub proof fn lemma_leaf(a: Out, b: Out, c: Node)
  ensures c.item() && b == (Out { ids: a.ids.push(mk(c.id())), errs: a.errs, warns: a.warns }) ==> added(a, b, c),
     !c.item() && c.kids() is Err && b == (Out { ids: a.ids, errs: a.errs.push((mk(c.id()), c.kids()->Err_0)), warns: a.warns }) ==> added(a, b, c)
{ assert(flat(c, 1) is Some || (!c.item() && c.kids() is Ok)); if flat(c, 1) is Some { let f = flat(c, 1)->Some_0; let p = plus(a, f);
    if c.item() { assert(p.ids =~= a.ids.push(mk(c.id()))); assert(p.errs =~= a.errs); assert(p.warns =~= a.warns); }
    else if c.kids() is Err { assert(p.ids =~= a.ids); assert(p.errs =~= a.errs.push((mk(c.id()), c.kids()->Err_0))); assert(p.warns =~= a.warns); } } }
// a, with the warnings of the node c itself
pub open spec fn begun(ids: Seq<String>, e: CollectionErrors, c: Node) -> Out { Out { ids: ids, errs: e.errors@, warns: e.warnings@ + c.kids()->Ok_0.1 } }
pub proof fn lemma_added_push(a: Out, b: Out, d: Out, cs: Seq<Node>, c: Node)
  requires added_all(a, b, cs), added(b, d, c)
  ensures added_all(a, d, cs.push(c))
{ let n = choose|n: nat| #[trigger] flat_all(cs, n) is Some && b == plus(a, flat_all(cs, n)->Some_0); let m = choose|m: nat| #[trigger] flat(c, m) is Some && d == plus(b, flat(c, m)->Some_0);
  let k = if n < m { m } else { n }; lemma_deeper_all(cs, n, k); lemma_deeper(c, m, k);
  let t = cs.push(c); assert(t.drop_last() =~= cs); assert(t.last() == c); assert(flat_all(t, k) is Some);
  let f = flat_all(t, k)->Some_0; assert(d.ids =~= plus(a, f).ids); assert(d.errs =~= plus(a, f).errs); assert(d.warns =~= plus(a, f).warns); }
pub proof fn lemma_added_none(a: Out)
  ensures added_all(a, a, Seq::<Node>::empty())
{ assert(flat_all(Seq::<Node>::empty(), 0) is Some); assert(a.ids + none().ids =~= a.ids); assert(a.errs + none().errs =~= a.errs); assert(a.warns + none().warns =~= a.warns); assert(plus(a, none()) == a); }
pub proof fn lemma_added_node(a: Out, b: Out, d: Out, c: Node)
  requires !c.item(), c.kids() is Ok, b == (Out { ids: a.ids, errs: a.errs, warns: a.warns + c.kids()->Ok_0.1 }), added_all(b, d, c.kids()->Ok_0.0)
  ensures added(a, d, c)
{ let ks = c.kids()->Ok_0.0; let n = choose|n: nat| #[trigger] flat_all(ks, n) is Some && d == plus(b, flat_all(ks, n)->Some_0); let k = n + 1; assert(flat(c, k) is Some);
  let f = flat(c, k)->Some_0; assert(d.ids =~= plus(a, f).ids); assert(d.errs =~= plus(a, f).errs); assert(d.warns =~= plus(a, f).warns); }

// ---- which files are reached
pub struct OsStr { pub x: u8 }
impl OsStr { #[verifier::external_body] pub fn new<'a>(s: &'a String) -> (r: &'a String) ensures *r == *s { unimplemented!() } }
// a directory's entries (std::fs::read_dir); None: the call fails
#[verifier::external_body] pub struct FsEntry { x: core::marker::PhantomData<()> }
impl FsEntry { pub uninterp spec fn p(&self) -> PathBuf; #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r == self.p() { unimplemented!() } }
pub uninterp spec fn fs_dir(p: PathBuf) -> Result<Seq<Result<FsEntry, IoError>>, IoError>;
pub uninterp spec fn denied(e: IoError) -> bool;
#[derive(PartialEq, Eq, Structural, Clone, Copy)] pub enum ErrorKind { PermissionDenied, Other }
impl IoError { #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures r is PermissionDenied <==> denied(*self) { unimplemented!() } }
impl IntoX<CollectionError> for IoError { open spec fn into_is(&self, u: CollectionError) -> bool { u == CollectionError::IoError(*self) } #[verifier::external_body] fn x_into(self) -> (r: CollectionError) { unimplemented!() } }
impl From<IoError> for CollectionError { #[verifier::external_body] fn from(e: IoError) -> (r: CollectionError) { unimplemented!() } }
pub struct ReadDir { pub s: Ghost<Seq<Result<FsEntry, IoError>>> }
impl ReadDir { #[verifier::external_body] pub fn it_into_iter(self) -> (r: It<Result<FsEntry, IoError>>) ensures r@ == self.s@, r@.len() <= usize::MAX { unimplemented!() } }
pub uninterp spec fn fs_text(p: PathBuf) -> Option<Seq<char>>;
pub mod fs { use vstd::prelude::*; use super::*;
  #[verifier::external_body] pub fn read_dir(p: &PathBuf) -> (r: Result<ReadDir, IoError>) ensures match r { Ok(d) => fs_dir(*p) == Ok::<Seq<Result<FsEntry, IoError>>, IoError>(d.s@), Err(e) => fs_dir(*p) == Err::<Seq<Result<FsEntry, IoError>>, IoError>(e) } { unimplemented!() }
  #[verifier::external_body] pub fn read_to_string(p: &PathBuf) -> (r: Result<String, IoError>) ensures match r { Ok(s) => fs_text(*p) == Some(s@), Err(_) => fs_text(*p) is None } { unimplemented!() } }
pub use fs::{read_dir, read_to_string};
// the project's configuration (proved in unit config)
pub uninterp spec fn configured(root: PathBuf) -> PytestConfig;
#[verifier::external_body] pub fn read_pytest_config(root: &PathBuf) -> (r: PytestConfig) ensures r == configured(*root) { unimplemented!() }
pub open spec fn or_default(v: Vec<String>, d: Seq<Seq<char>>) -> Seq<Seq<char>> { if v@.len() > 0 { txts(v@) } else { d } }
pub open spec fn txts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
// a collection session for a root directory: configured patterns, or the documented defaults
pub open spec fn session_for(s: Session, root: PathBuf) -> bool {
  &&& s.rootpath == root
  &&& s.config.ignore_patterns@.len() == 0
  &&& s.config.testpaths@.len() == 0
  &&& txts(s.config.norecursedirs@) =~= seq!["*.egg"@, ".*"@, "_darcs"@, "build"@, "CVS"@, "dist"@, "node_modules"@, "venv"@, "{arch}"@]
  &&& txts(s.config.python_files@) =~= or_default(configured(root).python_files, seq!["test_*.py"@, "*_test.py"@])
  &&& txts(s.config.python_classes@) =~= or_default(configured(root).python_classes, seq!["Test*"@])
  &&& txts(s.config.python_functions@) =~= or_default(configured(root).python_functions, seq!["test*"@]) }
pub open spec fn fname(p: PathBuf) -> Seq<char> { if has_name(p@) { p@.last() } else { Seq::empty() } }
// skipped while descending: byte-code caches and the directories named in norecursedirs
pub open spec fn skipped(p: PathBuf, s: Session) -> bool { (has_name(p@) && p@.last() == "__pycache__"@) || (fs_is_dir(p) && any_glob(s.config.norecursedirs@, fname(p))) }
pub open spec fn test_module(p: PathBuf, s: Session) -> bool { fs_is_file(p) && any_glob(s.config.python_files@, fname(p)) }
// start: the paths named on the command line are not skipped for being called like a pruned directory
pub open spec fn reached(p: PathBuf, s: Session, start: bool) -> bool { if fs_is_dir(p) { start || !skipped(p, s) } else { !skipped(p, s) && test_module(p, s) } }
#[verifier::opaque] pub open spec fn picked(ps: Seq<PathBuf>, s: Session, start: bool) -> Seq<PathBuf> decreases ps.len() {
  if ps.len() == 0 { Seq::empty() } else { let q = picked(ps.drop_last(), s, start); if reached(ps.last(), s, start) { q.push(ps.last()) } else { q } } }
pub open spec fn under(p: PathBuf, root: PathBuf) -> Seq<Seq<char>> { if within(p@, root@) { p@.skip(root@.len() as int) } else { p@ } }
pub open spec fn stands(n: Node, p: PathBuf, s: Session) -> bool {
  &&& !n.item() && renders(n.id(), under(p, s.rootpath))
  &&& if fs_is_dir(p) { n.of_dir() is Some && n.of_dir()->0.path == p && n.of_dir()->0.parent_session == s } else { n.of_module() is Some && n.of_module()->0.path == p && n.of_module()->0.parent_session == s } }
#[verifier::opaque] pub open spec fn nodes_for(ns: Seq<Node>, ps: Seq<PathBuf>, s: Session) -> bool { ns.len() == ps.len() && forall|i: int| #![trigger ns[i]] #![trigger ps[i]] 0 <= i < ns.len() ==> stands(ns[i], ps[i], s) }
pub open spec fn one(p: PathBuf, s: Session, start: bool) -> Seq<PathBuf> { if reached(p, s, start) { seq![p] } else { Seq::empty() } }
pub proof fn lemma_picked_none(s: Session, start: bool) ensures picked(Seq::empty(), s, start) == Seq::<PathBuf>::empty() { reveal(picked); }
pub proof fn lemma_picked_push(ps: Seq<PathBuf>, p: PathBuf, s: Session, start: bool) ensures picked(ps.push(p), s, start) =~= picked(ps, s, start) + one(p, s, start)
{ reveal(picked); assert(ps.push(p).drop_last() =~= ps); assert(ps.push(p).last() == p); }
pub proof fn lemma_nodes_add(a: Seq<Node>, b: Seq<Node>, p: Seq<PathBuf>, q: Seq<PathBuf>, s: Session)
  requires nodes_for(a, p, s), nodes_for(b, q, s) ensures nodes_for(a + b, p + q, s)
{ reveal(nodes_for); assert forall|i: int| 0 <= i < (a + b).len() implies stands(#[trigger] (a + b)[i], (p + q)[i], s) by { if i < a.len() { assert((a + b)[i] == a[i] && (p + q)[i] == p[i]); } else { assert((a + b)[i] == b[i - a.len()] && (p + q)[i] == q[i - p.len()]); } } }
pub proof fn lemma_nodes_none(s: Session) ensures nodes_for(Seq::<Node>::empty(), Seq::<PathBuf>::empty(), s) { reveal(nodes_for); }
pub proof fn lemma_nodes_one(n: Node, p: PathBuf, s: Session) requires stands(n, p, s) ensures nodes_for(seq![n], seq![p], s) { reveal(nodes_for); }
// what a directory lists: entries that may not be read are left out
pub open spec fn entry_of(e: Result<FsEntry, IoError>) -> Seq<PathBuf> { match e { Ok(f) => seq![f.p()], Err(_) => Seq::empty() } }
pub open spec fn listed(es: Seq<Result<FsEntry, IoError>>) -> Seq<PathBuf> decreases es.len() { if es.len() == 0 { Seq::empty() } else { listed(es.drop_last()) + entry_of(es.last()) } }
pub open spec fn unreadable(es: Seq<Result<FsEntry, IoError>>) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Err && !denied(es[i]->Err_0) }
pub proof fn lemma_listed_push(es: Seq<Result<FsEntry, IoError>>, e: Result<FsEntry, IoError>) ensures listed(es.push(e)) =~= listed(es) + entry_of(e)
{ assert(es.push(e).drop_last() =~= es); assert(es.push(e).last() == e); }
pub proof fn lemma_reached_push(ns: Seq<Node>, es: Seq<Result<FsEntry, IoError>>, e: Result<FsEntry, IoError>, b: Seq<Node>, s: Session)
  requires nodes_for(ns, picked(listed(es), s, false), s), match e { Ok(f) => nodes_for(b, one(f.p(), s, false), s), Err(_) => b.len() == 0 }
  ensures nodes_for(ns + b, picked(listed(es.push(e)), s, false), s)
{ lemma_listed_push(es, e);
  match e { Ok(f) => { assert(listed(es) + seq![f.p()] =~= listed(es).push(f.p())); lemma_picked_push(listed(es), f.p(), s, false); lemma_nodes_add(ns, b, picked(listed(es), s, false), one(f.p(), s, false), s); }
    Err(_) => { assert(ns + b =~= ns); assert(listed(es.push(e)) =~= listed(es)); } } }
pub open spec fn resolved(root: PathBuf, a: Seq<char>) -> PathBuf { if is_abs(path_of(a)) { mkp(path_of(a)) } else { mkp(pjoin(root@, path_of(a))) } }
pub open spec fn all_resolved(root: PathBuf, args: Seq<String>) -> Seq<PathBuf> { args.map_values(|a: String| resolved(root, a@)) }
pub open spec fn joined_to(root: PathBuf, ps: Seq<PathBuf>) -> Seq<PathBuf> { ps.map_values(|p: PathBuf| mkp(pjoin(root@, p@))) }
pub open spec fn starts(s: Session, args: Seq<String>) -> Seq<PathBuf> {
  if args.len() > 0 { all_resolved(s.rootpath, args) } else if configured(s.rootpath).testpaths@.len() > 0 { joined_to(s.rootpath, configured(s.rootpath).testpaths@) }
  else if s.config.testpaths@.len() == 0 { seq![s.rootpath] } else { s.config.testpaths@ } }
pub open spec fn missing(s: Session, args: Seq<String>) -> bool { exists|i: int| 0 <= i < args.len() && !fs_exists(#[trigger] all_resolved(s.rootpath, args)[i]) }
// the first occurrence of each id, in order
pub open spec fn firsts(s: Seq<String>) -> Seq<String> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let f = firsts(s.drop_last()); if s.drop_last().contains(s.last()) { f } else { f.push(s.last()) } } }
pub proof fn lemma_firsts(s: Seq<String>)
  ensures firsts(s).no_duplicates(), forall|x: String| firsts(s).contains(x) <==> s.contains(x)
  decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); lemma_firsts(t); let f = firsts(t); assert(s =~= t.push(s.last()));
    assert forall|x: String| firsts(s).contains(x) <==> s.contains(x) by { lemma_push_has(t, s.last(), x); lemma_push_has(f, s.last(), x); } } }
pub proof fn lemma_push_has(s: Seq<String>, y: String, x: String) ensures s.push(y).contains(x) <==> s.contains(x) || x == y
{ if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(y)[i] == x); } if x == y { assert(s.push(y)[s.len() as int] == x); }
  if s.push(y).contains(x) { let i = choose|i: int| 0 <= i < s.push(y).len() && s.push(y)[i] == x; if i < s.len() { assert(s[i] == x); } } }
pub proof fn lemma_firsts_push(s: Seq<String>, y: String) ensures firsts(s.push(y)) == (if s.contains(y) { firsts(s) } else { firsts(s).push(y) })
{ assert(s.push(y).drop_last() =~= s); assert(s.push(y).last() == y); }
// the whole collection from the start nodes cs
pub open spec fn whole(ids: Seq<String>, e: CollectionErrors, cs: Seq<Node>) -> bool { exists|n: nat| #[trigger] flat_all(cs, n) is Some && ids == firsts(flat_all(cs, n)->Some_0.ids) && e.errors@ == flat_all(cs, n)->Some_0.errs && e.warnings@ == flat_all(cs, n)->Some_0.warns }
// ---- the tests of a module
// what discovery finds in a file's text (units imports, decor, cases prove its parts)
pub uninterp spec fn found_in(p: PathBuf, text: Seq<char>, classes: Seq<Seq<char>>, functions: Seq<Seq<char>>, root: PathBuf) -> Result<(Seq<TestInfo>, Seq<CollectionWarning>), CollectionError>;
pub uninterp spec fn cannot_text(id: Seq<char>, why: CannotExpandReason) -> Seq<char>;
pub open spec fn base_id(file: Seq<char>, t: TestInfo) -> Seq<char> { match t.class_name { Some(c) => file + "::"@ + c@ + "::"@ + t.name@, None => file + "::"@ + t.name@ } }
pub open spec fn suffixes(t: TestInfo) -> Seq<Seq<char>> { match t.cases_expansion { CasesExpansion::Expanded(cs) => cs@.map_values(|c: ExpandedCase| "["@ + c.case_id@ + "]"@), _ => seq![Seq::empty()] } }
pub open spec fn ids(file: Seq<char>, t: TestInfo) -> Seq<Seq<char>> { suffixes(t).map_values(|x: Seq<char>| base_id(file, t) + x) }
pub open spec fn all_ids(file: Seq<char>, ts: Seq<TestInfo>) -> Seq<Seq<char>> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else { all_ids(file, ts.drop_last()) + ids(file, ts.last()) } }
pub open spec fn item_for(f: Function, id: Seq<char>, p: PathBuf) -> bool { f.nodeid@ =~= id && f.location.path == p }
#[verifier::opaque] pub open spec fn items_for(fs: Seq<Function>, is: Seq<Seq<char>>, p: PathBuf) -> bool { fs.len() == is.len() && forall|i: int| #![trigger fs[i]] #![trigger is[i]] 0 <= i < fs.len() ==> item_for(fs[i], is[i], p) }
pub open spec fn leaf_for(n: Node, id: Seq<char>, p: PathBuf) -> bool { n.item() && n.id() =~= id && n.of_function() is Some && item_for(n.of_function()->0, id, p) }
#[verifier::opaque] pub open spec fn leaves_for(ns: Seq<Node>, is: Seq<Seq<char>>, p: PathBuf) -> bool { ns.len() == is.len() && forall|i: int| #![trigger ns[i]] #![trigger is[i]] 0 <= i < ns.len() ==> leaf_for(ns[i], is[i], p) }
pub proof fn lemma_leaves_push(ns: Seq<Node>, is: Seq<Seq<char>>, p: PathBuf, n: Node, id: Seq<char>)
  requires leaves_for(ns, is, p), leaf_for(n, id, p) ensures leaves_for(ns.push(n), is.push(id), p)
{ reveal(leaves_for); let a = ns.push(n); let b = is.push(id); assert forall|i: int| 0 <= i < a.len() implies leaf_for(#[trigger] a[i], b[i], p) by { if i < ns.len() { assert(a[i] == ns[i] && b[i] == is[i]); } } }
// one warning for each test whose cases cannot be told statically, after the ones of discovery
pub open spec fn warned(w: CollectionWarning, id: Seq<char>, why: CannotExpandReason) -> bool { w.message@ == cannot_text(id, why) }
pub open spec fn is_cannot(t: TestInfo) -> bool { t.cases_expansion is CannotExpand }
pub open spec fn cannots(ts: Seq<TestInfo>) -> Seq<TestInfo> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else { let c = cannots(ts.drop_last()); if is_cannot(ts.last()) { c.push(ts.last()) } else { c } } }
pub open spec fn warns_for(ws: Seq<CollectionWarning>, dw: Seq<CollectionWarning>, ts: Seq<TestInfo>, file: Seq<char>) -> bool {
  let c = cannots(ts); ws.len() == dw.len() + c.len() && ws.take(dw.len() as int) =~= dw && forall|i: int| 0 <= i < c.len() ==> warned(#[trigger] ws[dw.len() + i], base_id(file, c[i]), c[i].cases_expansion->CannotExpand_0) }

@fn CollectionConfig::default()
@ensures
  empty: r.ignore_patterns@.len() == 0 && r.testpaths@.len() == 0
  C25_norecurse: txts(r.norecursedirs@) =~= seq!["*.egg"@, ".*"@, "_darcs"@, "build"@, "CVS"@, "dist"@, "node_modules"@, "venv"@, "{arch}"@]
  C25_files: txts(r.python_files@) =~= seq!["test_*.py"@, "*_test.py"@]
  C25_classes: txts(r.python_classes@) =~= seq!["Test*"@]
  C25_functions: txts(r.python_functions@) =~= seq!["test*"@]
@fn Session::new(rootpath)
@ensures
  C25_session: session_for(r, rootpath)
@fn Session::resolve_args(args)
@ensures
  C25_args: r@ =~= all_resolved(self.rootpath, args@)
@loop args
@inv
  r: $acc@ =~= all_resolved(self.rootpath, $done)
@fn Session::should_ignore_path(path)
@ensures
  C25_skip: self.config.ignore_patterns@.len() == 0 ==> r == Ok::<bool, CollectionError>(skipped(*path, *self))
@entry
broadcast use {vstd::seq_lib::group_seq_properties};
@loop ignored
@loop dirs
@inv
  none: forall|i: int| 0 <= i < $done.len() ==> !sp_glob((#[trigger] $done[i])@, fname(*path))
@fn Session::is_python_file(path)
@ensures
  C25_pattern: r == any_glob(self.config.python_files@, fname(*path))
@entry
broadcast use {vstd::seq_lib::group_seq_properties};
@loop patterns
@inv
  none: forall|i: int| 0 <= i < $done.len() ==> !sp_glob((#[trigger] $done[i])@, fname(*path))
@fn Session::collect_path(path)
@ensures
  C25_start: self.config.ignore_patterns@.len() == 0 ==> r is Ok && nodes_for(r->Ok_0@, one(*path, *self, true), *self)
@exit
proof { reveal(nodes_for); }
@entry
proof { reveal(nodes_for); }
@fn Session::perform_collect(args)
@requires
  plain: self.config.ignore_patterns@.len() == 0
@ensures
  C25_missing: r is Err <==> missing(self, args@)
  C25_starts: r is Ok ==> nodes_for(r->Ok_0.0@, picked(starts(self, args@), self, true), self) && r->Ok_0.1@.len() == 0
@loop testpaths
@inv
  t: $acc@ =~= joined_to(self.rootpath, $done)
@loop exist
@inv
  e: forall|i: int| 0 <= i < $done.len() ==> fs_exists(#[trigger] $done[i])
@loop paths
@inv
  p: nodes_for(collectors@, picked($done, self, true), self) && path_errors@.len() == 0
@before
proof { lemma_nodes_none(self); lemma_picked_none(self, true); assert($done =~= Seq::empty()); assert($all =~= starts(self, args@)); }
@pre
let ghost c0 = collectors@;
proof { lemma_picked_push($prev, $x, self, true); }
@post
proof { assert forall|b: Seq<Node>| #![trigger c0 + b] (c0 + b).skip(c0.len() as int) == b by { assert((c0 + b).skip(c0.len() as int) =~= b); } let b = collectors@.skip(c0.len() as int); assert(c0 + b =~= collectors@); lemma_nodes_add(c0, b, picked($prev, self, true), one($x, self, true), self); }
@fn Directory::new(path, session)
@ensures
  C25_node: r.path == path && r.parent_session == session && renders(r.nodeid@, under(path, session.rootpath))
@fn Directory::session()
@ensures
  s: *r == self.parent_session
@fn Module::new(path, session)
@ensures
  C25_node: r.path == path && r.parent_session == session && renders(r.nodeid@, under(path, session.rootpath))
@fn Module::session()
@ensures
  s: *r == self.parent_session
@fn CollectReport::new(nodeid, outcome, longrepr, error_type, result, warnings)
@ensures
  same: r.nodeid == nodeid && r.outcome == outcome && r.error_type == error_type && r.result == result && r.warnings == warnings
@fn collect_one_node(collector)
@ensures
  C25_id: r.nodeid@ == collector.id()
  C25_passed: collector.kids() is Ok ==> r.outcome is Passed && r.result@ == collector.kids()->Ok_0.0 && r.warnings@ == collector.kids()->Ok_0.1
  C25_failed: collector.kids() is Err ==> r.outcome is Failed && r.error_type == Some(collector.kids()->Err_0) && r.result@.len() == 0 && r.warnings@.len() == 0
@fn collect_items_recursive(collector, test_nodes, collection_errors)
@attr #[verifier::exec_allows_no_decreases_clause]
@ensures
  C25_all: added(out(old(test_nodes)@, *old(collection_errors)), out(final(test_nodes)@, *final(collection_errors)), *collector)
@exit
proof { lemma_leaf(out(old(test_nodes)@, *old(collection_errors)), out(test_nodes@, *collection_errors), *collector); }
@loop children
@inv
  all: added_all(begun(old(test_nodes)@, *old(collection_errors), *collector), out(test_nodes@, *collection_errors), $done)
@before
proof { lemma_added_none(out(test_nodes@, *collection_errors)); assert($done =~= Seq::empty()); assert(out(test_nodes@, *collection_errors) == begun(old(test_nodes)@, *old(collection_errors), *collector)); }
@pre
let ghost o0 = out(test_nodes@, *collection_errors);
@post
proof { lemma_added_push(begun(old(test_nodes)@, *old(collection_errors), *collector), o0, out(test_nodes@, *collection_errors), $prev, $x); }
@after
proof { lemma_added_node(out(old(test_nodes)@, *old(collection_errors)), begun(old(test_nodes)@, *old(collection_errors), *collector), out(test_nodes@, *collection_errors), *collector); }
@fn Directory::collect()
@requires
  plain: self.parent_session.config.ignore_patterns@.len() == 0
@ensures
  C25_denied: fs_dir(self.path) is Err && denied(fs_dir(self.path)->Err_0) ==> r is Ok && r->Ok_0.0@.len() == 0 && r->Ok_0.1@.len() == 0
  C25_broken: fs_dir(self.path) is Err && !denied(fs_dir(self.path)->Err_0) ==> r is Err
  C25_entries: fs_dir(self.path) is Ok && !unreadable(fs_dir(self.path)->Ok_0) ==> r is Ok && r->Ok_0.1@.len() == 0 && nodes_for(r->Ok_0.0@, picked(listed(fs_dir(self.path)->Ok_0), self.parent_session, false), self.parent_session)
  C25_torn: fs_dir(self.path) is Ok && unreadable(fs_dir(self.path)->Ok_0) ==> r is Err
@loop entries
@inv
  e: nodes_for(items@, picked(listed($done), self.parent_session, false), self.parent_session)
  o: !unreadable($done)
@before
proof { lemma_nodes_none(self.parent_session); lemma_picked_none(self.parent_session, false); assert($done =~= Seq::empty()); }
@pre
let ghost c0 = items@;
proof { reveal(nodes_for); if $x is Err || !reached($x->Ok_0.p(), self.parent_session, false) { lemma_nodes_none(self.parent_session); lemma_reached_push(c0, $prev, $x, Seq::empty(), self.parent_session); assert(c0 + Seq::<Node>::empty() =~= c0); } }
@post
proof { let b = items@.skip(c0.len() as int); assert(c0 + b =~= items@); lemma_reached_push(c0, $prev, $x, b, self.parent_session); }
@fn collect_tests_rust(rootpath, args)
@attr #[verifier::exec_allows_no_decreases_clause]
@ensures
  C25_missing: r is Err <==> (exists|s: Session| session_for(s, rootpath) && #[trigger] missing(s, args@))
  C25_tests: r is Ok ==> exists|s: Session, cs: Seq<Node>| session_for(s, rootpath) && #[trigger] nodes_for(cs, picked(starts(s, args@), s, true), s) && whole(r->Ok_0.0@, r->Ok_0.1, cs)
  C25_once: r is Ok ==> r->Ok_0.0@.no_duplicates()
@loop errors
@inv
  none: collection_errors.errors@.len() == 0 && collection_errors.warnings@.len() == 0
@loop starts
@inv
  all: added_all(none(), out(test_nodes@, collection_errors), $done)
@before
proof { lemma_added_none(none()); assert($done =~= Seq::empty()); assert(out(test_nodes@, collection_errors) == none()) by { assert(test_nodes@ =~= Seq::empty()); assert(collection_errors.errors@ =~= Seq::empty()); assert(collection_errors.warnings@ =~= Seq::empty()); } }
@pre
let ghost o0 = out(test_nodes@, collection_errors);
@post
proof { lemma_added_push(none(), o0, out(test_nodes@, collection_errors), $prev, $x); }
@loop once
@inv
  kept: $acc@ == firsts($done)
  seen: forall|x: String| #[trigger] seen@.contains(x) <==> $done.contains(x)
@pre
proof { lemma_firsts_push($prev, $x); assert forall|x: String| #[trigger] $done.contains(x) <==> $prev.contains(x) || x == $x by { lemma_push_has($prev, $x, x); } }
@after
proof { lemma_firsts($all); }
@assume format_cannot_expand_warning(nodeid, reason)
@ensures
  text: r@ == cannot_text(nodeid@, *reason)
@assume discover_tests_with_inheritance(path, source, config, root_path)
@ensures
  found: match r { Ok((ts, ws)) => found_in(*path, source@, txts(config.python_classes@), txts(config.python_functions@), *root_path) == Ok::<(Seq<TestInfo>, Seq<CollectionWarning>), CollectionError>((ts@, ws@)), Err(e) => found_in(*path, source@, txts(config.python_classes@), txts(config.python_functions@), *root_path) == Err::<(Seq<TestInfo>, Seq<CollectionWarning>), CollectionError>(e) }
@fn test_info_to_functions(test, module_path, module_nodeid)
@ensures
  C25_ids: items_for(r@, ids(module_nodeid@, *test), *module_path)
@entry
proof { reveal(items_for); }
@loop cases
@inv
  ids: items_for($acc@, ids(module_nodeid@, *test).take($done.len() as int), *module_path)
@fn Module::collect()
@ensures
  C25_unreadable: fs_text(self.path) is None ==> r is Err
  C25_broken: fs_text(self.path) is Some && found_in(self.path, fs_text(self.path)->Some_0, txts(self.parent_session.config.python_classes@), txts(self.parent_session.config.python_functions@), self.parent_session.rootpath) is Err ==> r is Err
  C25_tests: fs_text(self.path) is Some ==> match found_in(self.path, fs_text(self.path)->Some_0, txts(self.parent_session.config.python_classes@), txts(self.parent_session.config.python_functions@), self.parent_session.rootpath) {
    Ok((ts, ws)) => r is Ok && leaves_for(r->Ok_0.0@, all_ids(self.nodeid@, ts), self.path) && warns_for(r->Ok_0.1@, ws, ts, self.nodeid@), Err(_) => true }
@loop tests
@inv
  l: leaves_for($acc@, all_ids(self.nodeid@, $done), self.path)
  w: warns_for(all_warnings@, found_in(self.path, fs_text(self.path)->Some_0, txts(self.parent_session.config.python_classes@), txts(self.parent_session.config.python_functions@), self.parent_session.rootpath)->Ok_0.1, $done, self.nodeid@)
@before
proof { reveal(leaves_for); assert($done =~= Seq::empty()); }
@after
proof { assert($done =~= $all); }
@loop functions
@inv
  l: leaves_for($acc@, all_ids(self.nodeid@, $oprev) + ids(self.nodeid@, $ox).take($done.len() as int), self.path)
@before
proof { assert($done =~= Seq::empty()); assert(all_ids(self.nodeid@, $oprev) + ids(self.nodeid@, $ox).take(0) =~= all_ids(self.nodeid@, $oprev)); }
@pre
let ghost a0 = $acc@;
@post
proof { let k = $prev.len() as int; let is = ids(self.nodeid@, $ox); reveal(items_for); assert($all[k] == $x); assert(item_for($x, is[k], self.path));
  assert($acc@ =~= a0.push($acc@.last())); lemma_leaves_push(a0, all_ids(self.nodeid@, $oprev) + is.take(k), self.path, $acc@.last(), is[k]);
  assert((all_ids(self.nodeid@, $oprev) + is.take(k)).push(is[k]) =~= all_ids(self.nodeid@, $oprev) + is.take(k + 1)); }
@after
proof { reveal(items_for); assert(ids(self.nodeid@, $ox).take($done.len() as int) =~= ids(self.nodeid@, $ox)); }
@fn Function::nodeid()
@ensures
  C25_id: r@ == self.nodeid@
@fn Function::is_item()
@ensures
  C25_item: r
@fn Directory::nodeid()
@ensures
  C25_id: r@ == self.nodeid@
@fn Directory::is_item()
@ensures
  C25_item: !r
@fn Module::nodeid()
@ensures
  C25_id: r@ == self.nodeid@
@fn Module::is_item()
@ensures
  C25_item: !r
