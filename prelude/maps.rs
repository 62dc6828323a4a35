// ---- prelude/maps.rs : BTreeMap / HashMap / HashSet shims ----
verus! {
// iteration order of an ordered map over the key set: some enumeration without repetition (a function of the set)
pub uninterp spec fn key_order<K>(s: Set<K>) -> Seq<K>;
#[verifier::external_body]
pub broadcast proof fn ax_key_order<K>(s: Set<K>)
  requires s.finite()
  ensures (#[trigger] key_order(s)).no_duplicates(), key_order(s).to_set() == s, key_order(s).len() == s.len(),
          forall|k: K| s.contains(k) <==> key_order(s).contains(k)
{ unimplemented!() }

#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> BTreeMap<K, V> {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn it_into_values(self) -> (r: It<V>)
    ensures self@.dom().finite(), r@ == key_order(self@.dom()).map_values(|k: K| self@[k]), r@.len() <= usize::MAX { unimplemented!() }
}
impl<K, V> BTreeMap<K, V> {
  #[verifier::external_body] pub fn it_into_iter(self) -> (r: It<(K, V)>)
    ensures self@.dom().finite(), r@ == entries(key_order(self@.dom()), self@), r@.len() <= usize::MAX { unimplemented!() }
  #[verifier::external_body] pub fn x_contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
  #[verifier::external_body] pub fn x_insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None::<V> }) { unimplemented!() }
  #[verifier::external_body] pub fn x_get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(x) => self@.dom().contains(*k) && *x == self@[*k], None => !self@.dom().contains(*k) } { unimplemented!() }
}
impl<K, T> BTreeMap<K, Vec<T>> {
  #[verifier::external_body] pub fn x_entry_push(&mut self, k: K, x: T)
    ensures final(self)@.dom() == old(self)@.dom().insert(k),
       final(self)@[k]@ == (if old(self)@.dom().contains(k) { old(self)@[k]@ } else { Seq::<T>::empty() }).push(x),
       forall|j: K| j != k && old(self)@.dom().contains(j) ==> final(self)@[j] == old(self)@[j] { unimplemented!() }
}

// a hash map: iteration order is some enumeration of the keys fixed by the map object (unknown)
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
  pub uninterp spec fn order(&self) -> Seq<K>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn x_contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
  #[verifier::external_body] pub fn x_insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None::<V> }) { unimplemented!() }
  #[verifier::external_body] pub fn x_remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None::<V> }) { unimplemented!() }
  #[verifier::external_body] pub fn x_or_insert<'a>(&'a mut self, k: K, v: V) -> (r: &'a mut V)
    ensures *r == (if old(self)@.dom().contains(k) { old(self)@[k] } else { v }), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
  #[verifier::external_body] pub fn x_get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(x) => self@.dom().contains(*k) && *x == self@[*k], None => !self@.dom().contains(*k) } { unimplemented!() }
  #[verifier::external_body] pub fn it_into_values(self) -> (r: It<V>)
    ensures self@.dom().finite(), enum_of(self.order(), self@.dom()), r@ == self.order().map_values(|k: K| self@[k]), r@.len() <= usize::MAX { unimplemented!() }
  #[verifier::external_body] pub fn it_into_iter(self) -> (r: It<(K, V)>)
    ensures self@.dom().finite(), enum_of(self.order(), self@.dom()), r@ == entries(self.order(), self@), r@.len() <= usize::MAX { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { x: core::marker::PhantomData<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> HashSet<K> {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn x_contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
  #[verifier::external_body] pub fn x_insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
  #[verifier::external_body] pub fn x_remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
}
pub open spec fn entries<K, V>(o: Seq<K>, m: Map<K, V>) -> Seq<(K, V)> { o.map_values(|k: K| (k, m[k])) }
pub open spec fn enum_of<K>(o: Seq<K>, d: Set<K>) -> bool { o.no_duplicates() && o.len() == d.len() && forall|k: K| d.contains(k) <==> o.contains(k) }
impl<K, T> HashMap<K, Vec<T>> {
  #[verifier::external_body] pub fn x_entry_push(&mut self, k: K, x: T)
    ensures final(self)@.dom() == old(self)@.dom().insert(k),
       final(self)@[k]@ == (if old(self)@.dom().contains(k) { old(self)@[k]@ } else { Seq::<T>::empty() }).push(x),
       forall|j: K| j != k && old(self)@.dom().contains(j) ==> final(self)@[j] == old(self)@[j] { unimplemented!() }
}
} // verus!
