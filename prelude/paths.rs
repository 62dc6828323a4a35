// ---- prelude/paths.rs : std::path and the file system as the extracted code sees them (trusted contracts) ----
verus! {
// A path value is its sequence of components (that is what Path equality, hashing and ordering look at):
// "/" for the root, "." only when leading, ".." and names.  Paths are taken to be valid UTF-8.
pub struct PathBuf { pub c: Ghost<Seq<Seq<char>>> }
pub type Path = PathBuf;
impl View for PathBuf { type V = Seq<Seq<char>>; open spec fn view(&self) -> Seq<Seq<char>> { self.c@ } }
pub open spec fn mkp(c: Seq<Seq<char>>) -> PathBuf { PathBuf { c: Ghost(c) } }

// the pieces of a text between separators
pub open spec fn slash() -> Seq<char> { seq!['/'] }
pub open spec fn root_comp() -> Seq<char> { seq!['/'] }
pub open spec fn dot() -> Seq<char> { seq!['.'] }
pub open spec fn dotdot() -> Seq<char> { seq!['.', '.'] }
pub open spec fn pieces(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
  let i = find(s, slash());
  if i < 0 || i + 1 > s.len() { seq![s] } else { seq![s.take(i)] + pieces(s.skip(i + 1)) }
}
pub open spec fn keep_piece(p: Seq<char>) -> bool { p.len() > 0 && p != dot() }
pub open spec fn names(ps: Seq<Seq<char>>) -> Seq<Seq<char>> { ps.filter(|p: Seq<char>| keep_piece(p)) }
pub open spec fn path_of(s: Seq<char>) -> Seq<Seq<char>> {
  let ps = pieces(s);
  if s.len() > 0 && s[0] == '/' { seq![root_comp()] + names(ps) }
  else if ps[0] == dot() { seq![dot()] + names(ps) }
  else { names(ps) }
}
pub open spec fn is_abs(c: Seq<Seq<char>>) -> bool { c.len() > 0 && c[0] == root_comp() }
pub open spec fn nodot(c: Seq<Seq<char>>) -> Seq<Seq<char>> { if c.len() > 0 && c[0] == dot() { c.skip(1) } else { c } }
pub open spec fn pjoin(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> Seq<Seq<char>> {
  if is_abs(b) || a.len() == 0 { b } else { a + nodot(b) }
}
pub open spec fn within(a: Seq<Seq<char>>, base: Seq<Seq<char>>) -> bool { base.len() <= a.len() && a.take(base.len() as int) == base }
pub open spec fn ends_colon(s: Seq<char>) -> bool { s.len() > 0 && s.last() == ':' }
// t is a text of the path c
pub open spec fn renders(t: Seq<char>, c: Seq<Seq<char>>) -> bool {
  &&& path_of(t) == c
  &&& (forall|i: int| 0 <= i < c.len() ==> find(#[trigger] c[i], seq![':', ':']) < 0) ==> find(t, seq![':', ':']) < 0
  &&& c.len() == 0 ==> t.len() == 0
  &&& c.len() > 0 && !ends_colon(c.last()) ==> !ends_colon(t)
}
pub open spec fn has_parent(c: Seq<Seq<char>>) -> bool { c.len() > 0 && c.last() != root_comp() }
pub open spec fn has_name(c: Seq<Seq<char>>) -> bool { c.len() > 0 && c.last() != root_comp() && c.last() != dot() && c.last() != dotdot() }
// the extension of a file name: what follows its last '.', if that '.' is not its first character
pub open spec fn last_dot(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == '.' { s.len() - 1 } else { last_dot(s.drop_last()) } }

// the file system, unchanged during a call
pub uninterp spec fn fs_canon(p: PathBuf) -> Option<PathBuf>;
pub uninterp spec fn fs_exists(p: PathBuf) -> bool;
pub uninterp spec fn fs_is_file(p: PathBuf) -> bool;
pub uninterp spec fn fs_is_dir(p: PathBuf) -> bool;
#[verifier::external_body] pub struct IoError { x: core::marker::PhantomData<()> }
#[verifier::external_body] pub struct StripPrefixError { x: core::marker::PhantomData<()> }

pub trait PathArg: Sized { spec fn pc(&self) -> Seq<Seq<char>>; }
impl PathArg for String { open spec fn pc(&self) -> Seq<Seq<char>> { path_of(self@) } }
impl<'a> PathArg for &'a String { open spec fn pc(&self) -> Seq<Seq<char>> { path_of((**self)@) } }
impl PathArg for PathBuf { open spec fn pc(&self) -> Seq<Seq<char>> { self@ } }
impl<'a> PathArg for &'a PathBuf { open spec fn pc(&self) -> Seq<Seq<char>> { (**self)@ } }
impl PathBuf {
  #[verifier::external_body] pub fn new<'a>(s: &'a String) -> (r: &'a PathBuf) ensures *r == mkp(path_of(s@)) { unimplemented!() }
  #[verifier::external_body] pub fn from<P: PathArg>(s: P) -> (r: PathBuf) ensures r == mkp(s.pc()) { unimplemented!() }
  #[verifier::external_body] pub fn x_to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
  #[verifier::external_body] pub fn display(&self) -> (r: String) ensures renders(r@, self@) { unimplemented!() }
  #[verifier::external_body] pub fn x_as_path(&self) -> (r: &PathBuf) ensures *r == *self { unimplemented!() }
  #[verifier::external_body] pub fn x_join<P: PathArg>(&self, p: P) -> (r: PathBuf) ensures r == mkp(pjoin(self@, p.pc())) { unimplemented!() }
  #[verifier::external_body] pub fn push<P: PathArg>(&mut self, p: P) ensures *final(self) == mkp(pjoin(old(self)@, p.pc())) { unimplemented!() }
  #[verifier::external_body] pub fn is_absolute(&self) -> (r: bool) ensures r == is_abs(self@) { unimplemented!() }
  #[verifier::external_body] pub fn x_starts_with<P: PathArg>(&self, p: P) -> (r: bool) ensures r == within(self@, p.pc()) { unimplemented!() }
  #[verifier::external_body] pub fn strip_prefix<P: PathArg>(&self, p: P) -> (r: Result<&PathBuf, StripPrefixError>)
    ensures match r { Ok(x) => within(self@, p.pc()) && *x == mkp(self@.skip(p.pc().len() as int)), Err(_) => !within(self@, p.pc()) } { unimplemented!() }
  #[verifier::external_body] pub fn parent(&self) -> (r: Option<&PathBuf>)
    ensures match r { Some(x) => has_parent(self@) && *x == mkp(self@.drop_last()), None => !has_parent(self@) } { unimplemented!() }
  #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&String>)
    ensures match r { Some(x) => has_name(self@) && x@ == self@.last(), None => !has_name(self@) } { unimplemented!() }
  #[verifier::external_body] pub fn extension(&self) -> (r: Option<&String>)
    ensures match r { Some(x) => has_name(self@) && last_dot(self@.last()) > 0 && x@ == self@.last().skip(last_dot(self@.last()) + 1),
                      None => !has_name(self@) || last_dot(self@.last()) <= 0 } { unimplemented!() }
  // some text of this path; no ':' pair appears across a separator
  #[verifier::external_body] pub fn x_to_string_lossy(&self) -> (r: String)
    ensures renders(r@, self@) { unimplemented!() }
  #[verifier::external_body] pub fn canonicalize(&self) -> (r: Result<PathBuf, IoError>)
    ensures match r { Ok(p) => fs_canon(*self) == Some(p), Err(_) => fs_canon(*self) is None } { unimplemented!() }
  #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == fs_exists(*self) { unimplemented!() }
  #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == fs_is_file(*self) { unimplemented!() }
  #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == fs_is_dir(*self) { unimplemented!() }
}
// the parts of a path
#[derive(Clone, Copy)] pub enum Component<'a> { RootDir, CurDir, ParentDir, Normal(&'a String) }
pub open spec fn component(t: Seq<char>) -> Component<'static> { if t == root_comp() { Component::RootDir } else if t == dot() { Component::CurDir } else if t == dotdot() { Component::ParentDir } else { Component::Normal(&mk(t)) } }
pub struct Components<'a> { pub s: Ghost<Seq<Component<'a>>> }
impl<'a> Components<'a> {
  #[verifier::external_body] pub fn it_into_iter(self) -> (r: It<Component<'a>>) ensures r@ == self.s@, r@.len() <= usize::MAX { unimplemented!() }
  #[verifier::external_body] pub fn next_back(&mut self) -> (r: Option<Component<'a>>) ensures match r { Some(x) => old(self).s@.len() > 0 && x == old(self).s@.last() && final(self).s@ == old(self).s@.drop_last(), None => old(self).s@.len() == 0 && *final(self) == *old(self) } { unimplemented!() } }
impl PathBuf {
  #[verifier::external_body] pub fn components<'a>(&'a self) -> (r: Components<'a>) ensures r.s@ == self@.map_values(|t: Seq<char>| component(t)) { unimplemented!() }
}
impl String {
  // OsStr -> &str: paths are valid UTF-8
  #[verifier::external_body] pub fn x_to_str(&self) -> (r: Option<&String>) ensures r == Some(self) { unimplemented!() }
  #[verifier::external_body] pub fn x_to_string_lossy(&self) -> (r: String) ensures r == *self { unimplemented!() }
}
// ---- proved facts
// a plain file name is a path of one component
pub proof fn lemma_plain(s: Seq<char>)
  requires s.len() > 1, forall|i: int| 0 <= i < s.len() ==> s[i] != '/'
  ensures path_of(s) == seq![s]
{ reveal(Seq::filter); let i = find(s, slash()); lemma_find(s, slash(), 0);
  if i >= 0 { assert(s.subrange(i, i + 1)[0] == s[i]); }
  assert(pieces(s) =~= seq![s]); let ps = seq![s]; assert(ps.drop_last() =~= Seq::<Seq<char>>::empty()); assert(ps.last() == s);
  assert(s != dot()); assert(names(ps.drop_last()) =~= Seq::<Seq<char>>::empty()); assert(names(ps) =~= seq![s]); }
pub proof fn lemma_piece(s: Seq<char>, i: int, p: Seq<char>)
  requires 0 <= i < pieces(s).len(), p.len() > 0, find(pieces(s)[i], p) >= 0
  ensures find(s, p) >= 0
  decreases s.len()
{ let k = find(s, slash()); lemma_find(s, slash(), 0); lemma_find(pieces(s)[i], p, 0);
  if k < 0 || k + 1 > s.len() { assert(pieces(s)[i] == s); }
  else {
    let q = find(pieces(s)[i], p);
    if i == 0 { assert(pieces(s)[0] == s.take(k)); assert(s.take(k).subrange(q, q + p.len()) =~= s.subrange(q, q + p.len())); assert(occurs_at(s, p, q)); lemma_find(s, p, 0); }
    else { assert(pieces(s)[i] == pieces(s.skip(k + 1))[i - 1]); lemma_piece(s.skip(k + 1), i - 1, p); lemma_find(s.skip(k + 1), p, 0); let j = find(s.skip(k + 1), p);
      assert(s.skip(k + 1).subrange(j, j + p.len()) =~= s.subrange(j + k + 1, j + k + 1 + p.len())); assert(occurs_at(s, p, j + k + 1)); lemma_find(s, p, 0); }
  } }
pub proof fn lemma_names(ps: Seq<Seq<char>>, j: int)
  requires 0 <= j < names(ps).len()
  ensures exists|i: int| 0 <= i < ps.len() && ps[i] == names(ps)[j], keep_piece(names(ps)[j])
  decreases ps.len()
{ reveal(Seq::filter);
  if ps.len() > 0 { let d = names(ps.drop_last());
    if j < d.len() { lemma_names(ps.drop_last(), j); let i = choose|i: int| 0 <= i < ps.drop_last().len() && ps.drop_last()[i] == d[j]; assert(ps[i] == names(ps)[j]); }
    else { assert(names(ps)[j] == ps.last()); assert(ps[ps.len() - 1] == names(ps)[j]); } } }
// a text without '::' has no component with '::'
pub proof fn lemma_clean(s: Seq<char>)
  requires find(s, seq![':', ':']) < 0
  ensures forall|i: int| 0 <= i < path_of(s).len() ==> find(#[trigger] path_of(s)[i], seq![':', ':']) < 0
{ let cc = seq![':', ':'];
  assert forall|i: int| 0 <= i < path_of(s).len() implies find(#[trigger] path_of(s)[i], cc) < 0 by {
    let ps = pieces(s); let c = path_of(s)[i];
    lemma_find(c, cc, 0);
    if c.len() < 2 { if find(c, cc) >= 0 { assert(occurs_at(c, cc, find(c, cc))); } }
    else { let off = path_of(s).len() - names(ps).len(); assert(i >= off); lemma_names(ps, i - off); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == names(ps)[i - off]; assert(c == ps[j]); if find(c, cc) >= 0 { lemma_piece(s, j, cc); } }
  } }

// ---- directory walks (walkdir): the entries below a directory, the directory itself first (depth 0), links not followed
pub struct FileType { pub file: bool, pub dir: bool }
impl FileType { pub fn is_file(&self) -> (r: bool) ensures r == self.file { self.file } pub fn is_dir(&self) -> (r: bool) ensures r == self.dir { self.dir } }
#[verifier::external_body] pub struct DirEntry { x: core::marker::PhantomData<()> }
#[verifier::external_body] pub struct WalkError { x: core::marker::PhantomData<()> }
impl DirEntry { pub uninterp spec fn p(&self) -> PathBuf; pub uninterp spec fn nm(&self) -> Seq<char>; pub uninterp spec fn at_depth(&self) -> usize; pub uninterp spec fn ft(&self) -> FileType;
  #[verifier::external_body] pub fn depth(&self) -> (r: usize) ensures r == self.at_depth() { unimplemented!() }
  #[verifier::external_body] pub fn file_name(&self) -> (r: &String) ensures r@ == self.nm() { unimplemented!() }
  #[verifier::external_body] pub fn path(&self) -> (r: &PathBuf) ensures *r == self.p() { unimplemented!() }
  #[verifier::external_body] pub fn into_path(self) -> (r: PathBuf) ensures r == self.p() { unimplemented!() }
  #[verifier::external_body] pub fn file_type(&self) -> (r: FileType) ensures r == self.ft() { unimplemented!() } }
pub uninterp spec fn fs_walk(dir: PathBuf) -> Seq<Result<DirEntry, WalkError>>;
// the entries on the way from the start of the walk to an entry, the entry itself included
pub uninterp spec fn way(e: Result<DirEntry, WalkError>) -> Seq<DirEntry>;
pub struct WalkDir { pub d: PathBuf, pub whole: bool }
impl WalkDir {
  #[verifier::external_body] pub fn new<P: PathArg>(p: P) -> (r: WalkDir) ensures r.d == mkp(p.pc()), r.whole { unimplemented!() }
  pub fn max_depth(self, n: usize) -> (r: WalkDir) ensures r.d == self.d, r.whole == (self.whole && n == usize::MAX) { WalkDir { d: self.d, whole: self.whole && n == usize::MAX } }
  pub fn follow_links(self, b: bool) -> (r: WalkDir) ensures r.d == self.d, r.whole == (self.whole && !b) { WalkDir { d: self.d, whole: self.whole && !b } }
  #[verifier::external_body] pub fn it_into_iter(self) -> (r: It<Result<DirEntry, WalkError>>) ensures self.whole ==> r@ == fs_walk(self.d), r@.len() <= usize::MAX { unimplemented!() } }
pub struct Way<'a> { pub e: &'a Result<DirEntry, WalkError> }
#[verifier::external_body] pub fn x_chain<'a>(e: &'a Result<DirEntry, WalkError>) -> (r: Way<'a>) ensures *r.e == *e { unimplemented!() }
impl<'a> Way<'a> { #[verifier::external_body] pub fn it_into_iter(self) -> (r: ItRef<'a, DirEntry>) ensures r@ == way(*self.e), r@.len() <= usize::MAX { unimplemented!() } }
// ---- sorting paths
pub uninterp spec fn ple(a: PathBuf, b: PathBuf) -> bool;
#[verifier::external_body] pub proof fn ax_ple(a: PathBuf, b: PathBuf, c: PathBuf) ensures ple(a, b) || ple(b, a), ple(a, b) && ple(b, a) ==> a == b, ple(a, b) && ple(b, c) ==> ple(a, c) { unimplemented!() }
#[verifier::opaque] pub open spec fn sorted_paths(s: Seq<PathBuf>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ple(#[trigger] s[i], #[trigger] s[j]) }
// without repeated neighbours
pub open spec fn squeeze(s: Seq<PathBuf>) -> Seq<PathBuf> decreases s.len() {
  if s.len() <= 1 { s } else { let p = squeeze(s.drop_last()); if s.last() == s[s.len() - 2] { p } else { p.push(s.last()) } } }
pub trait SortPaths: Sized { spec fn ps(&self) -> Seq<PathBuf>;
  fn x_sort(&mut self) ensures sorted_paths(final(self).ps()), final(self).ps().to_multiset() == old(self).ps().to_multiset(), forall|x: PathBuf| #![auto] final(self).ps().contains(x) <==> old(self).ps().contains(x);
  fn x_sort_unstable(&mut self) ensures sorted_paths(final(self).ps()), final(self).ps().to_multiset() == old(self).ps().to_multiset(), forall|x: PathBuf| #![auto] final(self).ps().contains(x) <==> old(self).ps().contains(x);
  fn x_dedup(&mut self) ensures final(self).ps() == squeeze(old(self).ps()); }
impl SortPaths for Vec<PathBuf> { open spec fn ps(&self) -> Seq<PathBuf> { self@ }
  #[verifier::external_body] fn x_sort(&mut self) { unimplemented!() }
  #[verifier::external_body] fn x_sort_unstable(&mut self) { unimplemented!() }
  #[verifier::external_body] fn x_dedup(&mut self) { unimplemented!() } }
pub broadcast proof fn bl_squeeze(s: Seq<PathBuf>)
  requires sorted_paths(s)
  ensures sorted_paths(#[trigger] squeeze(s)), squeeze(s).no_duplicates(), forall|x: PathBuf| #[trigger] squeeze(s).contains(x) <==> s.contains(x)
{ lemma_squeeze(s); }
pub proof fn lemma_squeeze(s: Seq<PathBuf>)
  requires sorted_paths(s)
  ensures sorted_paths(squeeze(s)), squeeze(s).no_duplicates(), forall|x: PathBuf| #[trigger] squeeze(s).contains(x) <==> s.contains(x), s.len() > 0 ==> squeeze(s).len() > 0 && squeeze(s).last() == s.last()
  decreases s.len()
{ reveal(sorted_paths); if s.len() > 1 { let d = s.drop_last(); assert(sorted_paths(d)); lemma_squeeze(d); let p = squeeze(d); let l = s.last(); assert(d.last() == s[s.len() - 2]);
    assert forall|x: PathBuf| s.contains(x) <==> (d.contains(x) || x == l) by { if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); } if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < d.len() { assert(d[i] == x); } } assert(s[s.len() - 1] == l); }
    if l == d.last() { assert(p.contains(p.last())); assert(squeeze(s) == p); assert(d.contains(l)) by { assert(d[d.len() - 1] == l); } }
    else { assert(squeeze(s) == p.push(l));
      assert forall|i: int| 0 <= i < p.len() implies ple(#[trigger] p[i], l) && p[i] != l by { assert(p.contains(p[i])); let k = choose|k: int| 0 <= k < d.len() && d[k] == p[i]; assert(s[k] == d[k]); assert(ple(s[k], s[s.len() - 1])); if p[i] == l { assert(k < d.len() - 1); assert(ple(s[k], s[s.len() - 2])); assert(ple(s[s.len() - 2], s[s.len() - 1])); ax_ple(s[s.len() - 2], l, l); } }
      assert forall|x: PathBuf| #[trigger] p.push(l).contains(x) <==> (p.contains(x) || x == l) by { if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(p.push(l)[i] == x); } assert(p.push(l)[p.len() as int] == l); }
      assert(sorted_paths(p.push(l))); } } }
} // verus!
