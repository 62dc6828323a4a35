@unit config
@source src/config.rs
@prelude core maps seqs paths
@include struct PytestConfig
@spec
broadcast use {vstd::seq_lib::group_seq_properties};
// a TOML value (crate toml): what the document's parser yields
pub struct Datetime { pub x: u8 }
#[verifier::external_body] pub struct Table { x: core::marker::PhantomData<()> }
pub enum Value { String(String), Integer(i64), Float(f64), Boolean(bool), Datetime(Datetime), Array(Vec<Value>), Table(Table) }
pub uninterp spec fn tab(t: Table, k: Seq<char>) -> Option<Value>;
pub open spec fn entry(v: Value, k: Seq<char>) -> Option<Value> { match v { Value::Table(t) => tab(t, k), _ => None } }
impl Table {
  #[verifier::external_body] pub fn x_get(&self, k: &String) -> (r: Option<&Value>) ensures match r { Some(x) => tab(*self, k@) == Some(*x), None => tab(*self, k@) is None } { unimplemented!() }
  #[verifier::external_body] pub fn x_contains_key(&self, k: &String) -> (r: bool) ensures r == tab(*self, k@) is Some { unimplemented!() } }
impl Value {
  #[verifier::external_body] pub fn x_get(&self, k: &String) -> (r: Option<&Value>) ensures match r { Some(x) => entry(*self, k@) == Some(*x), None => entry(*self, k@) is None } { unimplemented!() }
  #[verifier::external_body] pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures match r { Some(x) => *self == Value::Array(*x), None => !(*self is Array) } { unimplemented!() }
  #[verifier::external_body] pub fn as_table(&self) -> (r: Option<&Table>) ensures match r { Some(x) => *self == Value::Table(*x), None => !(*self is Table) } { unimplemented!() }
  #[verifier::external_body] pub fn x_as_str(&self) -> (r: Option<&String>) ensures match r { Some(x) => *self == Value::String(*x), None => !(*self is String) } { unimplemented!() }
  pub fn is_str(&self) -> (r: bool) ensures r == (*self is String) { match self { Value::String(_) => true, _ => false } }
  pub fn is_array(&self) -> (r: bool) ensures r == (*self is Array) { match self { Value::Array(_) => true, _ => false } }
  pub fn is_table(&self) -> (r: bool) ensures r == (*self is Table) { match self { Value::Table(_) => true, _ => false } } }
pub uninterp spec fn toml_of(text: Seq<char>) -> Option<Value>;
// the text of a file; None when it cannot be read as UTF-8 text
pub uninterp spec fn fs_text(p: PathBuf) -> Option<Seq<char>>;
#[verifier::external_body] pub proof fn ax_text_exists(p: PathBuf) ensures fs_text(p) is Some ==> fs_exists(p) && fs_is_file(p) { unimplemented!() }
#[verifier::external_body] pub fn read_to_string(p: &PathBuf) -> (r: Result<String, IoError>) ensures match r { Ok(s) => fs_text(*p) == Some(s@), Err(_) => fs_text(*p) is None } { unimplemented!() }
pub mod fs { use vstd::prelude::*; use super::*; pub use super::read_to_string; }
pub mod toml { use vstd::prelude::*; use super::*; pub struct TomlError { pub x: u8 }
  #[verifier::external_body] pub fn from_str(s: &String) -> (r: Result<Value, TomlError>) ensures match r { Ok(v) => toml_of(s@) == Some(v), Err(_) => toml_of(s@) is None } { unimplemented!() } }
// the document of a project directory, if it can be read
pub open spec fn document(root: PathBuf) -> Option<Value> { let p = mkp(pjoin(root@, path_of("pyproject.toml"@))); match fs_text(p) { Some(t) => toml_of(t), None => None } }
pub open spec fn sub(v: Option<Value>, k: Seq<char>) -> Option<Value> { match v { Some(v) => entry(v, k), None => None } }
pub open spec fn section(root: PathBuf) -> Option<Value> { sub(sub(sub(document(root), "tool"@), "pytest"@), "ini_options"@) }
pub open spec fn strings(a: Seq<Value>) -> Seq<Seq<char>> decreases a.len() { if a.len() == 0 { Seq::empty() } else { let p = strings(a.drop_last()); match a.last() { Value::String(s) => p.push(s@), _ => p } } }
// the text entries of a list option; nothing when the option is absent or not a list
pub open spec fn listed(root: PathBuf, k: Seq<char>) -> Seq<Seq<char>> { match sub(section(root), k) { Some(Value::Array(a)) => strings(a@), _ => Seq::empty() } }
pub open spec fn txts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn as_paths(v: Seq<Seq<char>>) -> Seq<PathBuf> { v.map_values(|s: Seq<char>| mkp(path_of(s))) }
impl PytestConfig { #[verifier::external_body] pub fn default() -> (r: PytestConfig) ensures r.testpaths@.len() == 0, r.python_files@.len() == 0, r.python_classes@.len() == 0, r.python_functions@.len() == 0 { unimplemented!() } }

@fn read_pytest_config(root_path)
@ensures
  C14_testpaths: r.testpaths@ =~= as_paths(listed(*root_path, "testpaths"@))
  C14_files: txts(r.python_files@) =~= listed(*root_path, "python_files"@)
  C14_classes: txts(r.python_classes@) =~= listed(*root_path, "python_classes"@)
  C14_functions: txts(r.python_functions@) =~= listed(*root_path, "python_functions"@)
@entry
proof { ax_text_exists(mkp(pjoin(root_path@, path_of("pyproject.toml"@)))); }
@loop testpaths
@inv
  t: $acc@ =~= as_paths(strings($done))
@loop files
@inv
  t: txts($acc@) =~= strings($done)
@loop classes
@inv
  t: txts($acc@) =~= strings($done)
@loop functions
@inv
  t: txts($acc@) =~= strings($done)
