// ---- prelude/seqs.rs : specification functions over sequences and their lemmas (everything here is proved) ----
verus! {
pub open spec fn cnt<T>(s: Seq<T>, x: T) -> nat decreases s.len() {
  if s.len() == 0 { 0 } else { cnt(s.drop_last(), x) + (if s.last() == x { 1nat } else { 0nat }) }
}
// occurrences of x in all batches together
pub open spec fn tot<T>(ss: Seq<Seq<T>>, x: T) -> nat decreases ss.len() {
  if ss.len() == 0 { 0 } else { tot(ss.drop_last(), x) + cnt(ss.last(), x) }
}
pub open spec fn filt<T, K>(s: Seq<T>, f: spec_fn(T) -> K, k: K) -> Seq<T> decreases s.len() {
  if s.len() == 0 { Seq::empty() }
  else if f(s.last()) == k { filt(s.drop_last(), f, k).push(s.last()) } else { filt(s.drop_last(), f, k) }
}
pub open spec fn keyset<T, K>(s: Seq<T>, f: spec_fn(T) -> K) -> Set<K> decreases s.len() {
  if s.len() == 0 { Set::empty() } else { keyset(s.drop_last(), f).insert(f(s.last())) }
}
// a is a subsequence of b
pub open spec fn subseq<T>(a: Seq<T>, b: Seq<T>) -> bool decreases b.len() {
  if a.len() == 0 { true } else if b.len() == 0 { false }
  else { (a.last() == b.last() && subseq(a.drop_last(), b.drop_last())) || subseq(a, b.drop_last()) }
}
pub open spec fn flat<T>(ss: Seq<Seq<T>>) -> Seq<T> decreases ss.len() {
  if ss.len() == 0 { Seq::empty() } else { flat(ss.drop_last()) + ss.last() }
}
pub open spec fn nonempty<T>(s: Seq<Seq<T>>) -> Seq<Seq<T>> decreases s.len() {
  if s.len() == 0 { Seq::empty() }
  else if s.last().len() > 0 { nonempty(s.drop_last()).push(s.last()) } else { nonempty(s.drop_last()) }
}
// the items of s at positions w, w+n, w+2n, ...
pub open spec fn pick<T>(s: Seq<T>, n: int, w: int) -> Seq<T> decreases s.len() {
  if s.len() == 0 { Seq::empty() }
  else if (s.len() - 1) % n == w { pick(s.drop_last(), n, w).push(s.last()) }
  else { pick(s.drop_last(), n, w) }
}
pub open spec fn round_robin<T>(s: Seq<T>, n: int) -> Seq<Seq<T>> { Seq::new(n as nat, |w: int| pick(s, n, w)) }
pub open spec fn group_rr<T>(gs: Seq<Seq<T>>, n: int) -> Seq<Seq<T>> { Seq::new(n as nat, |w: int| flat(pick(gs, n, w))) }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }

// ---- cnt / tot
pub broadcast proof fn bl_cnt_push<T>(s: Seq<T>, y: T, x: T)
  ensures #[trigger] cnt(s.push(y), x) == cnt(s, x) + (if y == x { 1nat } else { 0nat })
{ assert(s.push(y).drop_last() =~= s); }
pub proof fn lemma_cnt_add<T>(a: Seq<T>, b: Seq<T>, x: T)
  ensures cnt(a + b, x) == cnt(a, x) + cnt(b, x) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else {
    assert((a + b).drop_last() =~= a + b.drop_last()); lemma_cnt_add(a, b.drop_last(), x); } }
pub proof fn lemma_cnt_contains<T>(s: Seq<T>, x: T)
  ensures (cnt(s, x) > 0) == s.contains(x) decreases s.len()
{ if s.len() > 0 { lemma_cnt_contains(s.drop_last(), x);
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < s.len() - 1 { assert(s.drop_last()[i] == x); assert(s.drop_last().contains(x)); } }
    if s.drop_last().contains(x) { let i = choose|i: int| 0 <= i < s.len() - 1 && s.drop_last()[i] == x; assert(s[i] == x); } 
    if s.last() == x { assert(s[s.len() - 1] == x); } } }
pub proof fn lemma_tot_push<T>(ss: Seq<Seq<T>>, b: Seq<T>, x: T)
  ensures tot(ss.push(b), x) == tot(ss, x) + cnt(b, x)
{ assert(ss.push(b).drop_last() =~= ss); }
pub proof fn lemma_tot_update<T>(ss: Seq<Seq<T>>, i: int, b: Seq<T>, x: T)
  requires 0 <= i < ss.len()
  ensures tot(ss.update(i, b), x) + cnt(ss[i], x) == tot(ss, x) + cnt(b, x) decreases ss.len()
{ if i == ss.len() - 1 { assert(ss.update(i, b).drop_last() =~= ss.drop_last()); }
  else { assert(ss.update(i, b).drop_last() =~= ss.drop_last().update(i, b)); lemma_tot_update(ss.drop_last(), i, b, x); } }
pub proof fn lemma_tot_zero<T>(ss: Seq<Seq<T>>, x: T)
  requires forall|i: int| 0 <= i < ss.len() ==> cnt(#[trigger] ss[i], x) == 0
  ensures tot(ss, x) == 0 decreases ss.len()
{ if ss.len() > 0 { assert forall|i: int| 0 <= i < ss.drop_last().len() implies cnt(#[trigger] ss.drop_last()[i], x) == 0 by { assert(cnt(ss[i], x) == 0); }
    lemma_tot_zero(ss.drop_last(), x); assert(cnt(ss[ss.len() - 1], x) == 0); } }
// ---- nonempty
pub broadcast proof fn bl_nonempty_push<T>(s: Seq<Seq<T>>, b: Seq<T>)
  ensures #[trigger] nonempty(s.push(b)) == (if b.len() > 0 { nonempty(s).push(b) } else { nonempty(s) })
{ assert(s.push(b).drop_last() =~= s); }
pub proof fn lemma_nonempty<T>(s: Seq<Seq<T>>)
  ensures nonempty(s).len() <= s.len(),
     forall|i: int| 0 <= i < nonempty(s).len() ==> (#[trigger] nonempty(s)[i]).len() > 0 && s.contains(nonempty(s)[i]),
  decreases s.len()
{ if s.len() > 0 { lemma_nonempty(s.drop_last());
    assert forall|i: int| 0 <= i < nonempty(s).len() implies (#[trigger] nonempty(s)[i]).len() > 0 && s.contains(nonempty(s)[i]) by {
      if i < nonempty(s.drop_last()).len() { let b = nonempty(s.drop_last())[i];
        assert(nonempty(s)[i] == b); assert(s.drop_last().contains(b));
        let j = choose|j: int| 0 <= j < s.len() - 1 && s.drop_last()[j] == b; assert(s[j] == b);
      } else { assert(s[s.len() - 1] == s.last()); } } } }
pub proof fn lemma_nonempty_tot<T>(s: Seq<Seq<T>>, x: T)
  ensures tot(nonempty(s), x) == tot(s, x) decreases s.len()
{ if s.len() > 0 { lemma_nonempty_tot(s.drop_last(), x);
    if s.last().len() > 0 { lemma_tot_push(nonempty(s.drop_last()), s.last(), x); } } }
// the batches of nonempty(s) sit at distinct places of s
pub proof fn lemma_nonempty_index<T>(s: Seq<Seq<T>>) -> (m: Seq<int>)
  ensures m.len() == nonempty(s).len(), forall|i: int| 0 <= i < m.len() ==> 0 <= #[trigger] m[i] < s.len() && nonempty(s)[i] == s[m[i]],
     forall|i: int, j: int| 0 <= i < j < m.len() ==> #[trigger] m[i] < #[trigger] m[j]
  decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let p = lemma_nonempty_index(s.drop_last());
    assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < s.len() && s[p[i]] == s.drop_last()[p[i]] by {}
    if s.last().len() > 0 { p.push(s.len() - 1) } else { p } } }
// if exactly the first k batches are non-empty, nonempty is that prefix
pub proof fn lemma_nonempty_prefix<T>(s: Seq<Seq<T>>, k: int)
  requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]).len() > 0) == (i < k)
  ensures nonempty(s) == s.take(k) decreases s.len()
{ if s.len() > 0 { let d = s.drop_last();
    assert forall|i: int| 0 <= i < d.len() implies ((#[trigger] d[i]).len() > 0) == (i < k) by { assert(d[i] == s[i]); }
    assert((s[s.len() - 1].len() > 0) == (s.len() - 1 < k));
    if k == s.len() { lemma_nonempty_prefix(d, k - 1); assert(nonempty(s) =~= s.take(k)); }
    else { lemma_nonempty_prefix(d, k); assert(d.take(k) =~= s.take(k)); } } else { assert(s.take(k) =~= s); } }
// ---- pick / round_robin
pub proof fn lemma_pick_push<T>(s: Seq<T>, y: T, n: int, w: int)
  ensures pick(s.push(y), n, w) == (if s.len() as int % n == w { pick(s, n, w).push(y) } else { pick(s, n, w) })
  
{ assert(s.push(y).drop_last() =~= s); }
pub proof fn lemma_rr_push<T>(s: Seq<T>, y: T, n: int)
  requires n >= 1
  ensures 0 <= s.len() as int % n < n,
     round_robin(s.push(y), n) =~= round_robin(s, n).update(s.len() as int % n, round_robin(s, n)[s.len() as int % n].push(y))
{ assert(0 <= s.len() as int % n < n) by (nonlinear_arith) requires n >= 1;
  assert forall|w: int| 0 <= w < n implies pick(s.push(y), n, w) == (if s.len() as int % n == w { pick(s, n, w).push(y) } else { pick(s, n, w) }) by { lemma_pick_push(s, y, n, w); } }
pub proof fn lemma_rr_empty<T>(n: int)
  requires n >= 0
  ensures tot_all_zero(round_robin(Seq::<T>::empty(), n)), nonempty(round_robin(Seq::<T>::empty(), n)) == Seq::<Seq<T>>::empty()
{ let r = round_robin(Seq::<T>::empty(), n); lemma_nonempty_prefix(r, 0); assert(r.take(0) =~= Seq::<Seq<T>>::empty());
  assert forall|x: T| tot(r, x) == 0 by { lemma_tot_zero(r, x); } }
pub open spec fn tot_all_zero<T>(ss: Seq<Seq<T>>) -> bool { forall|x: T| tot(ss, x) == 0 }
pub proof fn lemma_rr_tot<T>(s: Seq<T>, n: int, x: T)
  requires n >= 1 ensures tot(round_robin(s, n), x) == cnt(s, x) decreases s.len()
{ if s.len() == 0 { lemma_tot_zero(round_robin(s, n), x); }
  else { let p = s.drop_last(); lemma_rr_tot(p, n, x); lemma_rr_push(p, s.last(), n); assert(p.push(s.last()) =~= s);
    let i = p.len() as int % n; lemma_tot_update(round_robin(p, n), i, round_robin(p, n)[i].push(s.last()), x); bl_cnt_push(round_robin(p, n)[i], s.last(), x); } }
pub proof fn lemma_divmod_succ(m: int, n: int)
  requires m >= 0, n >= 1
  ensures (m % n == n - 1 ==> (m + 1) / n == m / n + 1 && (m + 1) % n == 0),
          (m % n < n - 1 ==> (m + 1) / n == m / n && (m + 1) % n == m % n + 1), 0 <= m % n < n, m / n >= 0
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, n);
  vstd::arithmetic::div_mod::lemma_mod_bound(m, n);
  vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, n);
  let q = m / n; let r = m % n;
  assert(m == n * q + r);
  if r == n - 1 {
    assert(m + 1 == (q + 1) * n + 0) by (nonlinear_arith) requires m == n * q + r, r == n - 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m + 1, n, q + 1, 0);
  } else {
    assert(m + 1 == q * n + (r + 1)) by (nonlinear_arith) requires m == n * q + r;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m + 1, n, q, r + 1);
  } }
pub proof fn lemma_pick_len<T>(s: Seq<T>, n: int, w: int)
  requires n >= 1, 0 <= w < n
  ensures pick(s, n, w).len() == s.len() as int / n + (if w < s.len() as int % n { 1int } else { 0int })
  decreases s.len()
{ if s.len() == 0 { assert(0int / n == 0 && 0int % n == 0) by (nonlinear_arith) requires n >= 1; }
  else { lemma_pick_len(s.drop_last(), n, w); lemma_divmod_succ(s.len() - 1, n); } }
pub proof fn lemma_rr_balance<T>(s: Seq<T>, n: int)
  requires n >= 1
  ensures nonempty(round_robin(s, n)).len() == min(s.len() as int, n),
    forall|i: int, j: int| 0 <= i < nonempty(round_robin(s, n)).len() && 0 <= j < nonempty(round_robin(s, n)).len()
       ==> (#[trigger] nonempty(round_robin(s, n))[i]).len() <= (#[trigger] nonempty(round_robin(s, n))[j]).len() + 1
{ let r = round_robin(s, n); let m = s.len() as int; let k = min(m, n);
  assert forall|w: int| 0 <= w < n implies (#[trigger] r[w]).len() == m / n + (if w < m % n { 1int } else { 0int }) by { lemma_pick_len(s, n, w); }
  assert(m >= n ==> m / n >= 1) by (nonlinear_arith) requires n >= 1, m >= 0;
  assert(m < n ==> m / n == 0 && m % n == m) by (nonlinear_arith) requires n >= 1, m >= 0;
  assert(m / n >= 0) by (nonlinear_arith) requires n >= 1, m >= 0;
  assert forall|i: int| 0 <= i < r.len() implies ((#[trigger] r[i]).len() > 0) == (i < k) by {}
  lemma_nonempty_prefix(r, k); }
// every batch of a round robin is a subsequence
pub proof fn lemma_sub_refl<T>(s: Seq<T>) ensures subseq(s, s) decreases s.len() { if s.len() > 0 { lemma_sub_refl(s.drop_last()); } }
pub proof fn lemma_sub_trans<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
  requires subseq(a, b), subseq(b, c) ensures subseq(a, c) decreases a.len() + b.len() + c.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 {
    if b.last() == c.last() && subseq(b.drop_last(), c.drop_last()) {
      if a.last() == b.last() && subseq(a.drop_last(), b.drop_last()) { lemma_sub_trans(a.drop_last(), b.drop_last(), c.drop_last()); }
      else { lemma_sub_trans(a, b.drop_last(), c.drop_last()); }
    } else { lemma_sub_trans(a, b, c.drop_last()); } } }
pub proof fn lemma_pick_sub<T>(s: Seq<T>, n: int, w: int)
  ensures subseq(pick(s, n, w), s) decreases s.len()
{ if s.len() > 0 { lemma_pick_sub(s.drop_last(), n, w); let p = pick(s.drop_last(), n, w);
    if (s.len() - 1) % n == w { assert(p.push(s.last()).drop_last() =~= p); } } }
pub proof fn lemma_filt_sub<T, K>(s: Seq<T>, f: spec_fn(T) -> K, k: K)
  ensures subseq(filt(s, f, k), s) decreases s.len()
{ if s.len() > 0 { lemma_filt_sub(s.drop_last(), f, k); let p = filt(s.drop_last(), f, k);
    if f(s.last()) == k { assert(p.push(s.last()).drop_last() =~= p); } } }
// ---- filt / keyset / flat
pub proof fn lemma_filt_cnt<T, K>(s: Seq<T>, f: spec_fn(T) -> K, k: K, x: T)
  ensures cnt(filt(s, f, k), x) == (if f(x) == k { cnt(s, x) } else { 0 }) decreases s.len()
{ if s.len() > 0 { lemma_filt_cnt(s.drop_last(), f, k, x); if f(s.last()) == k { bl_cnt_push(filt(s.drop_last(), f, k), s.last(), x); } } }
pub proof fn lemma_filt_all<T, K>(s: Seq<T>, f: spec_fn(T) -> K, k: K)
  ensures forall|i: int| 0 <= i < filt(s, f, k).len() ==> f(#[trigger] filt(s, f, k)[i]) == k decreases s.len()
{ if s.len() > 0 { lemma_filt_all(s.drop_last(), f, k); let d = filt(s.drop_last(), f, k);
    assert forall|i: int| 0 <= i < filt(s, f, k).len() implies f(#[trigger] filt(s, f, k)[i]) == k by { if i < d.len() { assert(filt(s, f, k)[i] == d[i]); } } } }
pub proof fn lemma_filt_same<T, K>(s: Seq<T>, f: spec_fn(T) -> K, k: K)
  requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == k ensures filt(s, f, k) == s decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) == k by { assert(f(s[i]) == k); }
    lemma_filt_same(s.drop_last(), f, k); assert(f(s[s.len() - 1]) == k); assert(s.drop_last().push(s.last()) =~= s); } else { assert(filt(s, f, k) =~= s); } }
pub proof fn lemma_filt_none<T, K>(s: Seq<T>, f: spec_fn(T) -> K, k: K)
  requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) != k ensures filt(s, f, k) == Seq::<T>::empty() decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) != k by { assert(f(s[i]) != k); }
    lemma_filt_none(s.drop_last(), f, k); assert(f(s[s.len() - 1]) != k); } else { assert(filt(s, f, k) =~= Seq::<T>::empty()); } }
pub proof fn lemma_filt_add<T, K>(a: Seq<T>, b: Seq<T>, f: spec_fn(T) -> K, k: K)
  ensures filt(a + b, f, k) == filt(a, f, k) + filt(b, f, k) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); assert(filt(a, f, k) + filt(b, f, k) =~= filt(a, f, k)); }
  else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_filt_add(a, b.drop_last(), f, k);
    assert((a + b).last() == b.last());
    if f(b.last()) == k { assert((filt(a, f, k) + filt(b.drop_last(), f, k)).push(b.last()) =~= filt(a, f, k) + filt(b, f, k)); } } }
pub proof fn lemma_filt_filt<T, K, L>(s: Seq<T>, f: spec_fn(T) -> K, k: K, g: spec_fn(T) -> L, l: L)
  requires forall|x: T| #[trigger] g(x) == l ==> f(x) == k ensures filt(filt(s, f, k), g, l) == filt(s, g, l) decreases s.len()
{ if s.len() > 0 { lemma_filt_filt(s.drop_last(), f, k, g, l); let p = filt(s.drop_last(), f, k);
    if f(s.last()) == k { assert(p.push(s.last()).drop_last() =~= p); } } }
pub proof fn lemma_keyset<T, K>(s: Seq<T>, f: spec_fn(T) -> K)
  ensures keyset(s, f).finite(), forall|i: int| 0 <= i < s.len() ==> keyset(s, f).contains(f(#[trigger] s[i])),
     forall|k: K| keyset(s, f).contains(k) ==> filt(s, f, k).len() > 0, decreases s.len()
{ if s.len() > 0 { lemma_keyset(s.drop_last(), f); let d = s.drop_last();
    assert forall|i: int| 0 <= i < s.len() implies keyset(s, f).contains(f(#[trigger] s[i])) by {
      if i < d.len() { assert(d[i] == s[i]); assert(keyset(d, f).contains(f(d[i]))); } } } }
pub proof fn lemma_flat_push<T>(ss: Seq<Seq<T>>, b: Seq<T>) ensures flat(ss.push(b)) == flat(ss) + b { assert(ss.push(b).drop_last() =~= ss); }
pub proof fn lemma_flat_cnt<T>(ss: Seq<Seq<T>>, x: T) ensures cnt(flat(ss), x) == tot(ss, x) decreases ss.len()
{ if ss.len() > 0 { lemma_flat_cnt(ss.drop_last(), x); lemma_cnt_add(flat(ss.drop_last()), ss.last(), x); } }
pub proof fn lemma_flat_contains<T>(ss: Seq<Seq<T>>, p: int) -> (i: int)
  requires 0 <= p < flat(ss).len() ensures 0 <= i < ss.len(), ss[i].contains(flat(ss)[p]) decreases ss.len()
{ let d = ss.drop_last();
  if p < flat(d).len() { let i = lemma_flat_contains(d, p); assert(d[i] == ss[i]); assert(flat(ss)[p] == flat(d)[p]); i }
  else { assert(flat(ss)[p] == ss.last()[p - flat(d).len()]); ss.len() - 1 } }
pub proof fn lemma_flat_len<T>(ss: Seq<Seq<T>>)
  requires forall|i: int| 0 <= i < ss.len() ==> (#[trigger] ss[i]).len() > 0
  ensures flat(ss).len() >= ss.len() decreases ss.len()
{ if ss.len() > 0 { let d = ss.drop_last(); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).len() > 0 by { assert(ss[i].len() > 0); }
   lemma_flat_len(d); assert(ss[ss.len() - 1].len() > 0); } }
// positions: pick(s,n,w) enumerates positions congruent to w; returns the position in s of its p-th item
pub proof fn lemma_pick_pos<T>(s: Seq<T>, n: int, w: int, p: int) -> (i: int)
  requires 0 <= p < pick(s, n, w).len()
  ensures 0 <= i < s.len(), i % n == w, s[i] == pick(s, n, w)[p] decreases s.len()
{ let d = s.drop_last();
  if (s.len() - 1) % n == w && p == pick(d, n, w).len() { s.len() - 1 }
  else { let i = lemma_pick_pos(d, n, w, p); assert(d[i] == s[i]); i } }
// ---- groups handed round robin
pub proof fn lemma_grr_push<T>(gs: Seq<Seq<T>>, g: Seq<T>, n: int)
  requires n >= 1
  ensures 0 <= gs.len() as int % n < n,
     group_rr(gs.push(g), n) =~= group_rr(gs, n).update(gs.len() as int % n, group_rr(gs, n)[gs.len() as int % n] + g)
{ lemma_rr_push(gs, g, n);
  assert forall|w: int| 0 <= w < n implies flat(#[trigger] pick(gs.push(g), n, w)) == (if gs.len() as int % n == w { flat(pick(gs, n, w)) + g } else { flat(pick(gs, n, w)) }) by {
    lemma_pick_push(gs, g, n, w); lemma_flat_push(pick(gs, n, w), g); } }
pub proof fn lemma_grr_tot<T>(gs: Seq<Seq<T>>, n: int, x: T)
  requires n >= 1 ensures tot(group_rr(gs, n), x) == tot(gs, x) decreases gs.len()
{ if gs.len() == 0 { let r = group_rr(gs, n); lemma_tot_zero(r, x); }
  else { let p = gs.drop_last(); lemma_grr_tot(p, n, x); lemma_grr_push(p, gs.last(), n); assert(p.push(gs.last()) =~= gs);
    let i = p.len() as int % n; let r = group_rr(p, n);
    lemma_tot_update(r, i, r[i] + gs.last(), x); lemma_cnt_add(r[i], gs.last(), x); } }
pub proof fn lemma_grr_count<T>(gs: Seq<Seq<T>>, n: int)
  requires n >= 1, forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).len() > 0
  ensures nonempty(group_rr(gs, n)).len() == min(gs.len() as int, n)
{ let r = group_rr(gs, n); let m = gs.len() as int; let k = min(m, n);
  assert(m >= n ==> m / n >= 1) by (nonlinear_arith) requires n >= 1, m >= 0;
  assert(m < n ==> m / n == 0 && m % n == m) by (nonlinear_arith) requires n >= 1, m >= 0;
  assert(m / n >= 0) by (nonlinear_arith) requires n >= 1, m >= 0;
  assert forall|w: int| 0 <= w < r.len() implies ((#[trigger] r[w]).len() > 0) == (w < k) by {
    lemma_pick_len(gs, n, w); let q = pick(gs, n, w);
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).len() > 0 by { let j = lemma_pick_pos(gs, n, w, i); assert(gs[j].len() > 0); }
    lemma_flat_len(q); }
  lemma_nonempty_prefix(r, k); }
// two items of different batches belong to different groups
pub proof fn lemma_grr_apart<T>(gs: Seq<Seq<T>>, n: int, w: int, p: int) -> (g: int)
  requires n >= 1, 0 <= w < n, 0 <= p < group_rr(gs, n)[w].len()
  ensures 0 <= g < gs.len(), g % n == w, gs[g].contains(group_rr(gs, n)[w][p])
{ let q = pick(gs, n, w); let i = lemma_flat_contains(q, p); lemma_pick_pos(gs, n, w, i) }
// a batch built from whole groups keeps, for each key, that group's items in order
pub proof fn lemma_flat_filt<T, K>(gs: Seq<Seq<T>>, f: spec_fn(T) -> K, k: K, base: Seq<T>)
  requires forall|i: int| 0 <= i < gs.len() ==> filt(#[trigger] gs[i], f, k).len() == 0 || filt(gs[i], f, k) == base,
     forall|i: int, j: int| 0 <= i < j < gs.len() ==> filt(#[trigger] gs[i], f, k).len() == 0 || filt(#[trigger] gs[j], f, k).len() == 0
  ensures filt(flat(gs), f, k).len() == 0 || filt(flat(gs), f, k) == base,
     (forall|i: int| 0 <= i < gs.len() ==> filt(#[trigger] gs[i], f, k).len() == 0) ==> filt(flat(gs), f, k).len() == 0
  decreases gs.len()
{ if gs.len() > 0 { let d = gs.drop_last();
    assert forall|i: int| 0 <= i < d.len() implies filt(#[trigger] d[i], f, k).len() == 0 || filt(d[i], f, k) == base by { assert(d[i] == gs[i]); }
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies filt(#[trigger] d[i], f, k).len() == 0 || filt(#[trigger] d[j], f, k).len() == 0 by { assert(d[i] == gs[i] && d[j] == gs[j]); }
    lemma_flat_filt(d, f, k, base); lemma_filt_add(flat(d), gs.last(), f, k);
    let l = gs.len() - 1; assert(gs[l] == gs.last());
    if filt(gs[l], f, k).len() == 0 { assert(filt(flat(d), f, k) + filt(gs[l], f, k) =~= filt(flat(d), f, k)); 
       assert((forall|i: int| 0 <= i < gs.len() ==> filt(#[trigger] gs[i], f, k).len() == 0) ==> (forall|i: int| 0 <= i < d.len() ==> filt(#[trigger] d[i], f, k).len() == 0)) by {
          if forall|i: int| 0 <= i < gs.len() ==> filt(#[trigger] gs[i], f, k).len() == 0 { assert forall|i: int| 0 <= i < d.len() implies filt(#[trigger] d[i], f, k).len() == 0 by { assert(d[i] == gs[i]); } } }
    } else {
       assert forall|i: int| 0 <= i < d.len() implies filt(#[trigger] d[i], f, k).len() == 0 by { assert(d[i] == gs[i]); }
       assert(filt(flat(d), f, k) + filt(gs[l], f, k) =~= filt(gs[l], f, k)); } } }
pub trait SortKey<T>: Sized { spec fn sk(&self) -> Seq<T>;
  // ascending by a number read off each element
  fn x_sort_key(&mut self, k: Ghost<spec_fn(T) -> int>)
    ensures final(self).sk().len() == old(self).sk().len(), final(self).sk().to_multiset() == old(self).sk().to_multiset(),
      forall|x: T| #[trigger] final(self).sk().contains(x) <==> old(self).sk().contains(x),
      forall|i: int, j: int| 0 <= i < j < final(self).sk().len() ==> k@(#[trigger] final(self).sk()[i]) <= k@(#[trigger] final(self).sk()[j]); }
impl<T> SortKey<T> for Vec<T> { open spec fn sk(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn x_sort_key(&mut self, k: Ghost<spec_fn(T) -> int>) { unimplemented!() } }
} // verus!
