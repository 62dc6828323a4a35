@unit modules
@source src/python_discovery/module_resolver.rs src/python_discovery/discovery.rs src/collection/error.rs
@prelude core maps seqs paths ast
@include enum CollectionError
@include struct ParsedModule
@include struct ModuleResolver
@opt typemap ModModule => ModModule
@opt typemap Error => IoError
# functions returning a Result whose error is converted by `?`
@opt from fs::read_to_string env::var
@opt iterfn std::env::split_paths env::split_paths split_paths
@spec
pub type CollectionResult<T> = Result<T, CollectionError>;
impl IntoX<CollectionError> for IoError { open spec fn into_is(&self, u: CollectionError) -> bool { u == CollectionError::IoError(*self) } #[verifier::external_body] fn x_into(self) -> (r: CollectionError) { unimplemented!() } }
// ---- the parser
pub enum Mode { Module, Expression }
pub struct ParseOptions { pub mode: Mode }
impl ParseOptions { #[verifier::external_body] pub fn from(m: Mode) -> (r: ParseOptions) ensures r.mode == m { unimplemented!() } }
#[verifier::external_body] pub struct SyntaxError { x: core::marker::PhantomData<()> }
pub enum Mod { Module(ModModule), Expression(Opaque) }
#[verifier::external_body] pub struct Parsed { x: core::marker::PhantomData<()> }
pub uninterp spec fn parsed(s: Seq<char>) -> Option<Mod>;
pub uninterp spec fn of_parsed(p: Parsed) -> Mod;
impl Parsed { #[verifier::external_body] pub fn into_syntax(self) -> (r: Mod) ensures r == of_parsed(self) { unimplemented!() } }
#[verifier::external_body] pub fn parse(s: &str, o: ParseOptions) -> (r: Result<Parsed, SyntaxError>) ensures o.mode is Module ==> match r { Ok(p) => parsed(s@) == Some(of_parsed(p)), Err(_) => parsed(s@) is None } { unimplemented!() }
// ---- the files, the environment and the interpreter's built-in modules
pub uninterp spec fn fs_text(p: PathBuf) -> Option<Seq<char>>;
#[verifier::external_body] pub struct Metadata { x: core::marker::PhantomData<()> }
pub mod fs { use vstd::prelude::*; use super::*;
  #[verifier::external_body] pub fn metadata(p: &PathBuf) -> (r: Result<Metadata, IoError>) ensures r is Ok <==> fs_exists(*p) { unimplemented!() }
  #[verifier::external_body] pub fn read_to_string(p: &PathBuf) -> (r: Result<String, IoError>) ensures match r { Ok(s) => fs_text(*p) == Some(s@), Err(_) => fs_text(*p) is None } { unimplemented!() } }
pub uninterp spec fn builtin_name(n: Seq<char>) -> bool;
#[verifier::external_body] pub fn is_builtin_module(minor: u8, n: &String) -> (r: bool) ensures r == builtin_name(n@) { unimplemented!() }
pub uninterp spec fn env_of(n: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn split_of(s: Seq<char>) -> Seq<PathBuf>;
pub struct VarError { pub x: u8 }
pub mod env { use vstd::prelude::*; use super::*;
  #[verifier::external_body] pub fn var(n: &String) -> (r: Result<String, VarError>) ensures match r { Ok(s) => env_of(n@) == Some(s@), Err(_) => env_of(n@) is None } { unimplemented!() }
  #[verifier::external_body] pub fn split_paths(s: &String) -> (r: SplitPaths) ensures r.s@ == split_of(s@) { unimplemented!() } }
pub struct SplitPaths { pub s: Ghost<Seq<PathBuf>> }
impl SplitPaths { #[verifier::external_body] pub fn it_into_iter(self) -> (r: It<PathBuf>) ensures r@ == self.s@, r@.len() <= usize::MAX { unimplemented!() } }
pub use fs::{metadata, read_to_string}; pub use env::{var, split_paths};
pub open spec fn python_path() -> Seq<PathBuf> { match env_of("PYTHONPATH"@) { Some(s) => split_of(s), None => Seq::empty() } }
// ---- where a module is looked for: in each directory in turn, first as a package, then as a file
pub open spec fn below(d: Seq<Seq<char>>, parts: Seq<String>) -> Seq<Seq<char>> decreases parts.len() { if parts.len() == 0 { d } else { pjoin(below(d, parts.drop_last()), path_of(parts.last()@)) } }
pub open spec fn as_package(d: PathBuf, m: Seq<String>) -> PathBuf { mkp(pjoin(pjoin(below(d@, m.drop_last()), path_of(m.last()@)), path_of("__init__.py"@))) }
pub open spec fn as_file(d: PathBuf, m: Seq<String>) -> PathBuf { mkp(pjoin(below(d@, m.drop_last()), path_of(m.last()@ + ".py"@))) }
pub open spec fn in_dir(d: PathBuf, m: Seq<String>) -> Option<PathBuf> { if m.len() == 0 { None } else if fs_exists(as_package(d, m)) { Some(as_package(d, m)) } else if fs_exists(as_file(d, m)) { Some(as_file(d, m)) } else { None } }
pub open spec fn in_dirs(ds: Seq<PathBuf>, m: Seq<String>) -> Option<PathBuf> decreases ds.len() { if ds.len() == 0 { None } else { match in_dirs(ds.drop_last(), m) { Some(p) => Some(p), None => in_dir(ds.last(), m) } } }
// the first directory that has it decides
pub proof fn lem_first(ds: Seq<PathBuf>, n: int, m: Seq<String>) requires 0 <= n <= ds.len(), in_dirs(ds.take(n), m) is Some ensures in_dirs(ds, m) == in_dirs(ds.take(n), m) decreases ds.len()
{ if n < ds.len() { assert(ds.drop_last().take(n) =~= ds.take(n)); lem_first(ds.drop_last(), n, m); } else { assert(ds.take(n) =~= ds); } }
pub open spec fn located(ds: Seq<PathBuf>, m: Seq<String>) -> Option<PathBuf> { if m.len() == 0 || builtin_name(m[0]@) { None } else { in_dirs(ds, m) } }
// what a module is: the file found for it, if that can be read and parsed
pub enum Loaded { Got(ParsedModule), Missing, Broken }
pub open spec fn of_file(p: PathBuf) -> Loaded { match fs_text(p) { Some(t) => match parsed(t) { Some(Mod::Module(m)) => Loaded::Got(ParsedModule { path: p, source: mk(t), module: m }), _ => Loaded::Broken }, None => Loaded::Broken } }
pub uninterp spec fn search() -> Seq<PathBuf>;
#[verifier::opaque] pub open spec fn loaded(m: Seq<String>) -> Loaded { match located(search(), m) { Some(p) => of_file(p), None => Loaded::Missing } }
// a resolver over these directories that remembers only what is there
#[verifier::opaque] pub open spec fn rinv(r: ModuleResolver) -> bool { r.search_paths@ == search() && forall|k: Vec<String>| #[trigger] r.cache@.dom().contains(k) ==> loaded(k@) == Loaded::Got(r.cache@[k]) }
// ---- the dotted path of a file: its place below the root, without ".py"; a package is its directory
pub open spec fn place(f: Seq<Seq<char>>, root: Seq<Seq<char>>) -> Seq<Seq<char>> { if within(f, root) { f.skip(root.len() as int) } else { f } }
pub open spec fn plain_part(t: Seq<char>) -> bool { t != root_comp() && t != dot() && t != dotdot() }
pub open spec fn dirs(c: Seq<Seq<char>>) -> Seq<String> decreases c.len() { if c.len() == 0 { Seq::empty() } else if plain_part(c.last()) { dirs(c.drop_last()).push(mk(c.last())) } else { dirs(c.drop_last()) } }
pub open spec fn last_part(t: Seq<char>) -> Seq<String> { if !plain_part(t) { Seq::empty() } else if has_suffix(t, ".py"@) { if t.take(t.len() - 3) == "__init__"@ { Seq::empty() } else { seq![mk(t.take(t.len() - 3))] } } else { seq![mk(t)] } }
pub open spec fn dotted(c: Seq<Seq<char>>) -> Seq<String> { if c.len() == 0 { Seq::empty() } else { dirs(c.drop_last()) + last_part(c.last()) } }
// no directory on the way carries the file's own name
pub open spec fn own_name(c: Seq<Seq<char>>) -> bool { c.len() > 0 ==> forall|i: int| 0 <= i < c.len() - 1 ==> #[trigger] c[i] != c.last() }

@fn path_to_module_path(file_path, root_path)->r
@ensures
  C22_own_path: own_name(place(file_path@, root_path@)) ==> r@ =~= dotted(place(file_path@, root_path@))
@entry
let ghost c = place(file_path@, root_path@);
@loop parts
@inv
  p: own_name(c) ==> $m0@ =~= (if $done.len() < $all.len() || c.len() == 0 { dirs(c.take($done.len() as int)) } else { dotted(c) })
@before
proof { assert($done =~= Seq::empty()); assert($all =~= c.map_values(|t: Seq<char>| component(t))); }
@pre
proof { let n = $prev.len() as int; assert($x == component(c[n])); assert(c.take(n + 1).drop_last() =~= c.take(n)); assert(c.take(n + 1).last() == c[n]); if n == c.len() - 1 { assert(c.drop_last() =~= c.take(n)); } }
@after
proof { assert($done =~= $all); assert(c.take(0) =~= Seq::empty()); }

@fn get_pythonpath_from_env()->r
@ensures
  C22_path: r@ =~= python_path()
@loop dirs
@inv
  d: $acc@ =~= $done
@after
proof { assert($done =~= $all); }

@fn ModuleResolver::new(project_root)->r
@ensures
  C22_search: r is Ok && r->Ok_0.search_paths@ =~= python_path().push(*project_root) && r->Ok_0.cache@.dom() =~= Set::<Vec<String>>::empty()
  C22_fresh: search() == python_path().push(*project_root) ==> rinv(r->Ok_0)
@entry
proof { reveal(rinv); }

@fn ModuleResolver::get_possible_paths_in_root(module_path, root)->r
@ensures
  C22_candidates: r@ =~= (if module_path@.len() == 0 { Seq::<PathBuf>::empty() } else { seq![as_package(*root, module_path@), as_file(*root, module_path@)] })
@loop parts
@inv
  b: $acc@ == below(root@, $done)
@before
proof { assert($done =~= Seq::empty()); }
@after
proof { assert($done =~= module_path@.drop_last()); }

@fn ModuleResolver::try_resolve_in_search_path(module_path, search_path)->r
@ensures
  C22_first: match r { Ok(p) => in_dir(*search_path, module_path@) == Some(p), Err(_) => in_dir(*search_path, module_path@) is None }
@loop paths
@inv
  none: forall|i: int| 0 <= i < $done.len() ==> !fs_exists(#[trigger] $done[i])

@fn ModuleResolver::resolve_with_search_paths(module_path)->r
@ensures
  C22_order: match r { Ok(p) => located(self.search_paths@, module_path@) == Some(p), Err(e) => e is ImportError && located(self.search_paths@, module_path@) is None }
@loop dirs
@inv
  none: in_dirs($done, module_path@) is None
@before
proof { assert($done =~= Seq::empty()); }
@pre
proof { assert($done =~= self.search_paths@.take($done.len() as int)); assert($done.drop_last() =~= $prev); if in_dirs($done, module_path@) is Some { lem_first(self.search_paths@, $done.len() as int, module_path@); } }
@after
proof { assert($done =~= $all); }

@fn ModuleResolver::load_module(path)->r
@ensures
  C22_load: match r { Ok(p) => of_file(*path) == Loaded::Got(p), Err(e) => !(e is ImportError) && of_file(*path) is Broken }

@fn ModuleResolver::resolve_and_load(module_path)->r
@requires
  inv: rinv(*old(self))
@ensures
  inv: rinv(*final(self))
  C22_loaded: match r { Ok(p) => loaded(module_path@) == Loaded::Got(*p), Err(CollectionError::ImportError(_)) => loaded(module_path@) is Missing, Err(_) => loaded(module_path@) is Broken }
@entry
proof { reveal(rinv); reveal(loaded); }
