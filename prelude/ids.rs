// ---- prelude/ids.rs : case ids and products of lists (everything here is proved, but for the axioms named in core.rs) ----
verus! {
pub open spec fn numbered(id: Seq<char>, k: int) -> Seq<char> { id + seq!['_'] + num_text(k) }
pub proof fn lemma_numbered(id: Seq<char>, a: int, b: int)
  ensures numbered(id, a) == numbered(id, b) ==> a == b, numbered(id, a).len() > id.len()
{ if numbered(id, a) == numbered(id, b) { assert(num_text(a) =~= numbered(id, a).skip(id.len() as int + 1)); assert(num_text(b) =~= numbered(id, b).skip(id.len() as int + 1)); ax_num_inj(a, b); }
}
pub open spec fn texts(s: Seq<String>) -> Set<String> { s.to_set() }
// the used names id_k with k >= c
pub open spec fn later(used: Set<String>, id: String, c: int) -> Set<String> { used.filter(|x: String| exists|k: int| k >= c && x == mk(#[trigger] numbered(id@, k))) }
pub proof fn lemma_later(used: Set<String>, id: String, c: int)
  ensures later(used, id, c + 1).len() <= later(used, id, c).len(),
    used.contains(mk(numbered(id@, c))) ==> later(used, id, c + 1).len() < later(used, id, c).len(),
{
  let a = later(used, id, c + 1); let b = later(used, id, c);
  used.lemma_len_filter(|x: String| exists|k: int| k >= c && x == mk(#[trigger] numbered(id@, k)));
  used.lemma_len_filter(|x: String| exists|k: int| k >= c + 1 && x == mk(#[trigger] numbered(id@, k)));
  assert(a.subset_of(b));
  vstd::set_lib::lemma_len_subset(a, b);
  let u = mk(numbered(id@, c));
  if used.contains(u) {
    assert(b.contains(u));
    assert(!a.contains(u)) by { if a.contains(u) { let k = choose|k: int| k >= c + 1 && u == mk(#[trigger] numbered(id@, k)); assert(u@ == numbered(id@, k)); lemma_numbered(id@, c, k); } }
    assert(a.subset_of(b.remove(u)));
    vstd::set_lib::lemma_len_subset(a, b.remove(u));
  }
}
#[verifier::opaque] pub open spec fn deduped(ids: Seq<String>, r: Seq<String>) -> bool {
  &&& r.len() == ids.len() && r.no_duplicates()
  &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i] == ids[i] || (r.take(i).contains(ids[i]) && exists|k: int| k >= 1 && r[i] == mk(#[trigger] numbered(ids[i]@, k))))
}
// every list of one element per factor, the last factor varying fastest: element i of the product extends element i / n of
// the product of the others by element i % n of the last factor (n its length)
pub open spec fn ext_seqs<T>(pre: Seq<Seq<T>>, f: Seq<T>) -> Seq<Seq<T>> decreases pre.len() {
  if pre.len() == 0 { Seq::empty() } else { ext_seqs(pre.drop_last(), f) + Seq::new(f.len(), |j: int| pre.last().push(f[j])) } }
#[verifier::opaque] pub open spec fn prods<T>(fs: Seq<Seq<T>>) -> Seq<Seq<T>> decreases fs.len() {
  if fs.len() == 0 { seq![Seq::<T>::empty()] } else { ext_seqs(prods(fs.drop_last()), fs.last()) } }
} // verus!
