@unit reroot
@source src/subproject.rs
@prelude core maps seqs paths
@spec
broadcast use {vstd::seq_lib::group_seq_properties, bl_find};
pub open spec fn cc() -> Seq<char> { seq![':', ':'] }
pub open spec fn file_part(s: Seq<char>) -> Seq<char> { if find(s, cc()) < 0 { s } else { s.take(find(s, cc())) } }
pub open spec fn test_part(s: Seq<char>) -> Seq<char> { if find(s, cc()) < 0 { Seq::empty() } else { s.skip(find(s, cc())) } }
// the file an id denotes when it is read from directory `dir`
pub open spec fn denotes(dir: PathBuf, id: Seq<char>) -> Seq<Seq<char>> { pjoin(dir@, path_of(file_part(id))) }
pub open spec fn below(root: PathBuf, dir: PathBuf) -> bool { root@.len() > 0 && within(dir@, root@) && (forall|i: int| 1 <= i < dir@.len() ==> #[trigger] dir@[i] != root_comp() && dir@[i] != dot()) }
// the path of a file: with a test part, its last component does not end in ':' (only a trailing '/' could make it so)
pub open spec fn is_id(node: Seq<char>) -> bool { let p = path_of(file_part(node)); test_part(node).len() > 0 && p.len() > 0 ==> !ends_colon(p.last()) }
#[verifier::opaque]
pub open spec fn C07_ok(node: Seq<char>, r: Seq<char>, root: PathBuf, dir: PathBuf) -> bool {
  if !is_id(node) { true } else if within(denotes(root, node), dir@) { denotes(dir, r) == denotes(root, node) && test_part(r) == test_part(node) } else { r == node }
}
pub proof fn lemma_comps(s: Seq<char>)
  ensures forall|i: int| 1 <= i < path_of(s).len() ==> (#[trigger] path_of(s)[i]) != root_comp() && path_of(s)[i] != dot()
{ let ps = pieces(s);
  assert forall|i: int| 1 <= i < path_of(s).len() implies (#[trigger] path_of(s)[i]) != root_comp() && path_of(s)[i] != dot() by {
    let off = path_of(s).len() - names(ps).len(); lemma_names(ps, i - off);
    let j = choose|j: int| 0 <= j < ps.len() && ps[j] == names(ps)[i - off];
    lemma_no_slash(s, j); if path_of(s)[i] == root_comp() { assert(ps[j][0] == '/'); } } }
pub proof fn lemma_no_slash(s: Seq<char>, j: int)
  requires 0 <= j < pieces(s).len()
  ensures forall|q: int| 0 <= q < pieces(s)[j].len() ==> pieces(s)[j][q] != '/'
  decreases s.len()
{ let k = find(s, slash()); lemma_find(s, slash(), 0);
  assert forall|q: int| 0 <= q < pieces(s)[j].len() implies pieces(s)[j][q] != '/' by {
    if k < 0 || k + 1 > s.len() { assert(pieces(s)[j] == s); if s[q] == '/' { assert(s.subrange(q, q + 1) =~= slash()); assert(occurs_at(s, slash(), q)); } }
    else if j == 0 { if s[q] == '/' { assert(s.subrange(q, q + 1) =~= slash()); assert(occurs_at(s, slash(), q)); } }
    else { assert(pieces(s)[j] == pieces(s.skip(k + 1))[j - 1]); lemma_no_slash(s.skip(k + 1), j - 1); } } }
// joining what strip_prefix left to the directory gives the file back
pub proof fn lemma_rejoin(root: PathBuf, dir: PathBuf, f: Seq<char>)
  requires below(root, dir), find(f, cc()) < 0, within(pjoin(root@, path_of(f)), dir@)
  ensures ({ let a = pjoin(root@, path_of(f)); let rest = a.skip(dir@.len() as int);
     &&& pjoin(dir@, rest) == a
     &&& rest.len() > 0 ==> path_of(f).len() > 0 && rest.last() == path_of(f).last()
     &&& forall|i: int| 0 <= i < rest.len() ==> find(#[trigger] rest[i], cc()) < 0 })
{ let p = path_of(f); let a = pjoin(root@, p); let rest = a.skip(dir@.len() as int);
  lemma_clean(f); lemma_comps(f);
  assert forall|i: int| 0 <= i < rest.len() implies find(#[trigger] rest[i], cc()) < 0 && rest[i] != root_comp() && rest[i] != dot() by {
    let n = i + dir@.len();
    if is_abs(p) { assert(rest[i] == p[n]); } else { let m = n - root@.len(); assert(rest[i] == nodot(p)[m]);
      if p.len() > 0 && p[0] == dot() { assert(rest[i] == p[m + 1]); } else { assert(rest[i] == p[m]); } } }
  if rest.len() > 0 { let i = rest.len() - 1; let n = i + dir@.len(); if is_abs(p) { assert(rest[i] == p[n]); } else { let m = n - root@.len(); assert(rest[i] == nodot(p)[m]); if p.len() > 0 && p[0] == dot() { assert(rest[i] == p[m + 1]); assert(m + 1 == p.len() - 1); } else { assert(rest[i] == p[m]); assert(m == p.len() - 1); } } }
  assert(nodot(rest) == rest) by { if rest.len() > 0 { assert(rest[0] != dot()); } }
  assert(!is_abs(rest)) by { if rest.len() > 0 { assert(rest[0] != root_comp()); } }
  assert(dir@ + rest =~= a) by { assert(a.take(dir@.len() as int) == dir@); } }
pub proof fn lemma_new_id(t: Seq<char>, tail: Seq<char>)
  requires find(t, cc()) < 0
  ensures tail.len() == 0 ==> file_part(t + tail) == t && test_part(t + tail) == tail,
    tail.len() > 0 && has_prefix(tail, cc()) && (t.len() == 0 || t.last() != ':') ==> file_part(t + tail) == t && test_part(t + tail) == tail
{ let s = t + tail;
  if tail.len() == 0 { assert(s =~= t); }
  else if has_prefix(tail, cc()) && (t.len() == 0 || t.last() != ':') {
    lemma_find(s, cc(), 0); lemma_find(t, cc(), 0);
    assert(s.subrange(t.len() as int, t.len() as int + 2) =~= tail.take(2));
    assert(occurs_at(s, cc(), t.len() as int));
    let j = find(s, cc());
    if j < t.len() {
      if j + 2 <= t.len() { assert(s.subrange(j, j + 2) =~= t.subrange(j, j + 2)); assert(occurs_at(t, cc(), j)); }
      else { assert(s.subrange(j, j + 2)[0] == ':'); assert(t.last() == s[j]); }
    }
    assert(s.take(t.len() as int) =~= t); assert(s.skip(t.len() as int) =~= tail); } }

pub proof fn lemma_file_part(s: Seq<char>)
  ensures find(file_part(s), cc()) < 0, test_part(s).len() > 0 ==> has_prefix(test_part(s), cc())
{ let i = find(s, cc()); lemma_find(s, cc(), 0);
  if i >= 0 { let f = s.take(i); lemma_find(f, cc(), 0); let j = find(f, cc()); if j >= 0 { assert(s.subrange(j, j + 2) =~= f.subrange(j, j + 2)); assert(occurs_at(s, cc(), j)); }
    assert(s.skip(i).take(2) =~= s.subrange(i, i + 2)); } }

pub open spec fn new_id(t: Seq<char>, s: Seq<char>) -> Seq<char> { if find(s, cc()) < 0 { t } else { t + cc() + s.skip(find(s, cc()) + 2) } }
pub proof fn lemma_step(root: PathBuf, dir: PathBuf, s: Seq<char>)
  ensures below(root, dir) ==> ({ let a = denotes(root, s);
    if within(a, dir@) { forall|t: Seq<char>| #[trigger] renders(t, a.skip(dir@.len() as int)) ==> C07_ok(s, new_id(t, s), root, dir) } else { C07_ok(s, s, root, dir) } })
{ reveal(C07_ok); let a = denotes(root, s);
  if below(root, dir) && within(a, dir@) {
    lemma_file_part(s); lemma_rejoin(root, dir, file_part(s)); let rest = a.skip(dir@.len() as int);
    assert forall|t: Seq<char>| #[trigger] renders(t, rest) implies C07_ok(s, new_id(t, s), root, dir) by {
      let tail = test_part(s); let r = new_id(t, s); lemma_new_id(t, tail);
      if find(s, cc()) < 0 { assert(t + tail =~= t); }
      else { assert(s.skip(find(s, cc())) =~= cc() + s.skip(find(s, cc()) + 2)) by { assert(s.subrange(find(s, cc()), find(s, cc()) + 2) == cc()); }
        assert(t + tail =~= r); }
    } } }

@fn make_test_paths_relative(test_nodes, old_base, new_base)
@ensures
  C07_count: r@.len() == test_nodes@.len()
  C07_same: below(*old_base, *new_base) ==> forall|i: int| 0 <= i < r@.len() ==> C07_ok(test_nodes@[i]@, (#[trigger] r@[i])@, *old_base, *new_base)
@loop ids
@inv
  len: $acc@.len() == $done.len()
  ok: below(*old_base, *new_base) ==> forall|i: int| 0 <= i < $acc@.len() ==> C07_ok($done[i]@, (#[trigger] $acc@[i])@, *old_base, *new_base)
@pre
proof { assert("::"@ =~= cc()); lemma_step(*old_base, *new_base, $done.last()@); }
