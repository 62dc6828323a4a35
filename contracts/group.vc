@unit group
@source src/subproject.rs
@prelude core maps seqs paths
@spec
broadcast use {vstd::seq_lib::group_seq_properties, bl_find};
pub open spec fn cc() -> Seq<char> { seq![':', ':'] }
pub open spec fn file_part(s: Seq<char>) -> Seq<char> { if find(s, cc()) < 0 { s } else { s.take(find(s, cc())) } }
// the directory at or above dir, strictly below root, closest to dir, that holds a pyproject.toml; the root when there is none
pub open spec fn marked(d: Seq<Seq<char>>) -> bool { fs_exists(mkp(pjoin(d, path_of("pyproject.toml"@)))) }
pub open spec fn nearest(root: Seq<Seq<char>>, d: Seq<Seq<char>>) -> Seq<Seq<char>> decreases d.len() {
  if !within(d, root) || d == root { root } else if marked(d) { d } else if has_parent(d) { nearest(root, d.drop_last()) } else { root } }
pub open spec fn resolved(root: PathBuf, id: Seq<char>) -> Option<PathBuf> { fs_canon(mkp(pjoin(root@, path_of(file_part(id))))) }
pub open spec fn home(root: PathBuf, id: Seq<char>) -> PathBuf {
  match resolved(root, id) { Some(p) => if within(p@, root@) && has_parent(p@) { mkp(nearest(root@, p@.drop_last())) } else { root }, None => root } }
pub open spec fn of_home(root: PathBuf, ids: Seq<String>, d: PathBuf) -> Seq<String> decreases ids.len() {
  if ids.len() == 0 { Seq::empty() } else if home(root, ids.last()@) == d { of_home(root, ids.drop_last(), d).push(ids.last()) } else { of_home(root, ids.drop_last(), d) } }
pub open spec fn homes(root: PathBuf, ids: Seq<String>) -> Set<PathBuf> decreases ids.len() {
  if ids.len() == 0 { Set::empty() } else { homes(root, ids.drop_last()).insert(home(root, ids.last()@)) } }

@fn find_subproject_root(rootpath, test_node)
@ensures
  C06_nearest: r == home(*rootpath, test_node@)
@entry
proof { assert("::"@ =~= cc()); assert forall|p: PathBuf| #[trigger] mkp(p@) == p by {} }
@loop climb
@inv
  n: nearest(rootpath@, $m0@) == nearest(rootpath@, $i0@)
@ens
  r: nearest(rootpath@, $i0@) == rootpath@
@dec $m0@.len()
@fn group_tests_by_subproject(rootpath, test_nodes)
@ensures
  C06_keys: r@.dom() == homes(*rootpath, test_nodes@)
  C06_groups: forall|d: PathBuf| r@.dom().contains(d) ==> (#[trigger] r@[d])@ == of_home(*rootpath, test_nodes@, d)
@loop ids
@inv
  dom: $m0@.dom() == homes(*rootpath, $done)
  val: forall|d: PathBuf| $m0@.dom().contains(d) ==> (#[trigger] $m0@[d])@ == of_home(*rootpath, $done, d)
  out: forall|d: PathBuf| !$m0@.dom().contains(d) ==> #[trigger] of_home(*rootpath, $done, d) == Seq::<String>::empty()
@pre
proof { assert forall|d: PathBuf| #[trigger] of_home(*rootpath, $done, d) == (if home(*rootpath, $done.last()@) == d { of_home(*rootpath, $prev, d).push($done.last()) } else { of_home(*rootpath, $prev, d) }) by {} }
