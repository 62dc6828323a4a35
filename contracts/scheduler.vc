@unit scheduler
@source src/scheduler.rs
@prelude core maps seqs
@include enum DistributionMode
@include struct LoadScheduler
@include struct LoadScopeScheduler
@include struct LoadFileScheduler
@include struct WorkStealScheduler
@include struct NoScheduler
@spec
broadcast use {vstd::seq_lib::group_seq_properties, ax_key_order, bl_find, bl_nonempty_push};

// ---------------------------------------------------------------- what a test id's file and scope are
pub open spec fn cc() -> Seq<char> { seq![':', ':'] }
pub open spec fn br() -> Seq<char> { seq!['['] }
pub open spec fn file_of(s: Seq<char>) -> Seq<char> { if find(s, cc()) < 0 { s } else { s.take(find(s, cc())) } }
// the part after the first '::', up to the first '[' of a parametrisation suffix
pub open spec fn name_of(s: Seq<char>) -> Seq<char> {
  let r = s.skip(find(s, cc()) + 2); if find(r, br()) < 0 { r } else { r.take(find(r, br())) }
}
pub open spec fn scope_of(s: Seq<char>) -> Seq<char> {
  if find(s, cc()) < 0 { s }
  else if find(name_of(s), cc()) < 0 { file_of(s) }
  else { file_of(s) + cc() + name_of(s).take(find(name_of(s), cc())) }
}
pub open spec fn sp_extract_file(s: String) -> String { mk(file_of(s@)) }
pub open spec fn sp_extract_scope(s: String) -> String { mk(scope_of(s@)) }

pub open spec fn k_extract_file() -> spec_fn(String) -> String { |s: String| sp_extract_file(s) }
pub open spec fn k_extract_scope() -> spec_fn(String) -> String { |s: String| sp_extract_scope(s) }

pub proof fn lemma_file_of_scope(s: Seq<char>)
  ensures file_of(scope_of(s)) == file_of(s)
{ let i = find(s, cc());
  if i >= 0 {
    let f = s.take(i);
    assert(forall|j: int| 0 <= j < i ==> !occurs_at(s, cc(), j)) by { lemma_find(s, cc(), 0); }
    if find(name_of(s), cc()) < 0 {
      assert(scope_of(s) == f);
      assert(find(f, cc()) < 0) by { lemma_find(f, cc(), 0); let j = find(f, cc());
        if j >= 0 { assert(s.subrange(j, j + 2) =~= f.subrange(j, j + 2)); assert(occurs_at(s, cc(), j)); } }
    } else {
      let t = scope_of(s);
      let c = name_of(s).take(find(name_of(s), cc()));
      assert(s.subrange(i, i + 2) == cc());
      assert(t == f + cc() + c);
      assert(t.take(i + 2) =~= s.take(i + 2)) by { assert(s.take(i + 2) =~= f + s.subrange(i, i + 2)); }
      assert(occurs_at(t, cc(), i)) by { assert(t.subrange(i, i + 2) =~= cc()); }
      lemma_find(t, cc(), 0);
      let j = find(t, cc());
      assert(0 <= j <= i);
      if j < i { assert(j + 2 <= i + 1); assert(s.subrange(j, j + 2) =~= t.subrange(j, j + 2)) by { assert forall|q: int| j <= q < j + 2 implies s[q] == t[q] by { assert(s.take(i + 2)[q] == t.take(i + 2)[q]); } }
        assert(occurs_at(s, cc(), j)); }
      assert(j == i);
      assert(t.take(i) =~= f);
    }
  } }

// ---------------------------------------------------------------- what the batches are
pub open spec fn group_by(s: Seq<String>, f: spec_fn(String) -> String) -> Seq<Seq<String>> {
  key_order(keyset(s, f)).map_values(|k: String| filt(s, f, k))
}
pub open spec fn one(tests: Seq<String>) -> Seq<Seq<String>> { if tests.len() == 0 { Seq::empty() } else { seq![tests] } }
pub open spec fn plan(m: DistributionMode, tests: Seq<String>, n: int) -> Seq<Seq<String>> {
  if m is No { one(tests) } else if n == 0 || tests.len() == 0 { Seq::empty() } else if n == 1 { one(tests) }
  else { match m {
    DistributionMode::LoadScope => nonempty(group_rr(group_by(tests, k_extract_scope()), n)),
    DistributionMode::LoadFile => nonempty(group_rr(group_by(tests, k_extract_file()), n)),
    _ => nonempty(round_robin(tests, n)),
  } }
}
// ---- the properties, over what the batches are
pub open spec fn C01_partition(tests: Seq<String>, b: Seq<Seq<String>>) -> bool { forall|x: String| #[trigger] tot(b, x) == cnt(tests, x) }
pub open spec fn C01_nonempty(b: Seq<Seq<String>>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).len() > 0 }
pub open spec fn C01_order(tests: Seq<String>, b: Seq<Seq<String>>) -> bool {
  forall|i: int, k: String| 0 <= i < b.len() ==> subseq(#[trigger] filt(b[i], k_extract_scope(), k), tests)
}
// no key occurs in two batches
pub open spec fn C02_apart(b: Seq<Seq<String>>, f: spec_fn(String) -> String) -> bool {
  forall|i: int, j: int, p: int, q: int| 0 <= i < j < b.len() && 0 <= p < b[i].len() && 0 <= q < b[j].len() ==> f(#[trigger] b[i][p]) != f(#[trigger] b[j][q])
}
pub open spec fn C03_balance(b: Seq<Seq<String>>) -> bool {
  forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() ==> (#[trigger] b[i]).len() <= (#[trigger] b[j]).len() + 1
}

// ---- lemmas: the properties hold of the plan
pub proof fn lemma_group_tot(s: Seq<String>, f: spec_fn(String) -> String, ks: Seq<String>, x: String)
  requires ks.no_duplicates()
  ensures tot(ks.map_values(|k: String| filt(s, f, k)), x) == (if ks.contains(f(x)) { cnt(s, x) } else { 0 })
  decreases ks.len()
{ let g = |k: String| filt(s, f, k); let m = ks.map_values(g);
  if ks.len() > 0 { let d = ks.drop_last();
    assert(m.drop_last() =~= d.map_values(g));
    lemma_group_tot(s, f, d, x); lemma_filt_cnt(s, f, ks.last(), x);
    assert(ks.contains(f(x)) == (d.contains(f(x)) || ks.last() == f(x))) by {
      if ks.contains(f(x)) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == f(x); if i < d.len() { assert(d[i] == f(x)); } }
      if d.contains(f(x)) { let i = choose|i: int| 0 <= i < d.len() && d[i] == f(x); assert(ks[i] == f(x)); }
      if ks.last() == f(x) { assert(ks[ks.len() - 1] == f(x)); } }
    if d.contains(f(x)) && ks.last() == f(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == f(x); assert(ks[i] == ks[ks.len() - 1]); }
  } }
pub proof fn lemma_groups(s: Seq<String>, f: spec_fn(String) -> String)
  ensures group_by(s, f).len() == keyset(s, f).len(),
    forall|i: int| 0 <= i < group_by(s, f).len() ==> (#[trigger] group_by(s, f)[i]).len() > 0,
    forall|i: int, p: int| 0 <= i < group_by(s, f).len() && 0 <= p < group_by(s, f)[i].len() ==> f(#[trigger] group_by(s, f)[i][p]) == key_order(keyset(s, f))[i],
    forall|i: int, j: int| 0 <= i < j < group_by(s, f).len() ==> key_order(keyset(s, f))[i] != key_order(keyset(s, f))[j],
    forall|x: String| tot(group_by(s, f), x) == cnt(s, x)
{ let ks = key_order(keyset(s, f)); lemma_keyset(s, f);
  assert forall|i: int| 0 <= i < group_by(s, f).len() implies (#[trigger] group_by(s, f)[i]).len() > 0 by { assert(ks.contains(ks[i])); assert(keyset(s, f).contains(ks[i])); }
  assert forall|i: int, p: int| 0 <= i < group_by(s, f).len() && 0 <= p < group_by(s, f)[i].len() implies f(#[trigger] group_by(s, f)[i][p]) == ks[i] by { lemma_filt_all(s, f, ks[i]); }
  assert forall|x: String| tot(group_by(s, f), x) == cnt(s, x) by { lemma_group_tot(s, f, ks, x);
    if !ks.contains(f(x)) { lemma_cnt_contains(s, x); if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(keyset(s, f).contains(f(s[i]))); } } } }
pub proof fn lemma_one(tests: Seq<String>)
  ensures C01_partition(tests, one(tests)), C01_nonempty(one(tests)), C01_order(tests, one(tests)), C03_balance(one(tests)), one(tests).len() == min(tests.len() as int, 1)
{ let b = one(tests);
  assert forall|x: String| #[trigger] tot(b, x) == cnt(tests, x) by { if tests.len() > 0 { assert(b.drop_last() =~= Seq::<Seq<String>>::empty()); assert(b.last() == tests); assert(tot(b.drop_last(), x) == 0); } }
  assert forall|i: int, k: String| 0 <= i < b.len() implies subseq(#[trigger] filt(b[i], k_extract_scope(), k), tests) by { lemma_filt_sub(tests, k_extract_scope(), k); } }
pub proof fn lemma_load(tests: Seq<String>, n: int)
  requires n >= 1
  ensures ({ let b = nonempty(round_robin(tests, n)); &&& C01_partition(tests, b) &&& C01_nonempty(b) &&& C01_order(tests, b) &&& C03_balance(b) &&& b.len() == min(tests.len() as int, n) })
{ let r = round_robin(tests, n); let b = nonempty(r);
  assert forall|x: String| #[trigger] tot(b, x) == cnt(tests, x) by { lemma_nonempty_tot(r, x); lemma_rr_tot(tests, n, x); }
  lemma_nonempty(r); lemma_rr_balance(tests, n);
  assert forall|i: int, k: String| 0 <= i < b.len() implies subseq(#[trigger] filt(b[i], k_extract_scope(), k), tests) by {
    let w = choose|w: int| 0 <= w < r.len() && r[w] == b[i]; assert(r.contains(b[i]));
    lemma_pick_sub(tests, n, w); lemma_filt_sub(b[i], k_extract_scope(), k);
    lemma_sub_trans(filt(b[i], k_extract_scope(), k), b[i], tests); } }
pub proof fn lemma_batch_order(tests: Seq<String>, f: spec_fn(String) -> String, n: int, w: int, k: String)
  requires n >= 1, 0 <= w < n
  ensures subseq(filt(group_rr(group_by(tests, f), n)[w], f, k), tests)
{ let gs = group_by(tests, f); let q = pick(gs, n, w); let base = filt(tests, f, k); let ks = key_order(keyset(tests, f));
  lemma_groups(tests, f);
  // a group of q other than k's holds no item of key k
  assert forall|g: int| 0 <= g < gs.len() implies #[trigger] filt(gs[g], f, k) == (if ks[g] == k { base } else { Seq::<String>::empty() }) by {
    if ks[g] == k { assert forall|i: int| 0 <= i < gs[g].len() implies f(#[trigger] gs[g][i]) == k by {} lemma_filt_same(gs[g], f, k); }
    else { assert forall|i: int| 0 <= i < gs[g].len() implies f(#[trigger] gs[g][i]) != k by {} lemma_filt_none(gs[g], f, k); } }
  lemma_pick_filt(gs, n, w, f, k, ks, base);
  lemma_flat_filt(q, f, k, base);
  lemma_filt_sub(tests, f, k); }
// picking keeps: at most one group with items of key k, and that group's items of key k are `base`
pub proof fn lemma_pick_filt(gs: Seq<Seq<String>>, n: int, w: int, f: spec_fn(String) -> String, k: String, ks: Seq<String>, base: Seq<String>)
  requires ks.len() == gs.len(), ks.no_duplicates(), forall|g: int| 0 <= g < gs.len() ==> #[trigger] filt(gs[g], f, k) == (if ks[g] == k { base } else { Seq::<String>::empty() })
  ensures ({ let q = pick(gs, n, w);
     &&& forall|i: int| 0 <= i < q.len() ==> filt(#[trigger] q[i], f, k).len() == 0 || filt(q[i], f, k) == base
     &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> filt(#[trigger] q[i], f, k).len() == 0 || filt(#[trigger] q[j], f, k).len() == 0
     &&& !ks.contains(k) ==> forall|i: int| 0 <= i < q.len() ==> filt(#[trigger] q[i], f, k).len() == 0 })
  decreases gs.len()
{ if gs.len() > 0 { let dg = gs.drop_last(); let dk = ks.drop_last(); let l = gs.len() - 1;
    assert forall|g: int| 0 <= g < dg.len() implies #[trigger] filt(dg[g], f, k) == (if dk[g] == k { base } else { Seq::<String>::empty() }) by { assert(filt(gs[g], f, k) == (if ks[g] == k { base } else { Seq::<String>::empty() })); }
    lemma_pick_filt(dg, n, w, f, k, dk, base);
    assert(filt(gs[l], f, k) == (if ks[l] == k { base } else { Seq::<String>::empty() }));
    if ks[l] == k { assert(!dk.contains(k)) by { if dk.contains(k) { let i = choose|i: int| 0 <= i < dk.len() && dk[i] == k; assert(ks[i] == ks[l]); } } }
    if dk.contains(k) { let i = choose|i: int| 0 <= i < dk.len() && dk[i] == k; assert(ks[i] == k); assert(ks.contains(k)); }
    if ks[l] == k { assert(ks.contains(k)); }
    let q = pick(gs, n, w); let p = pick(dg, n, w);
    assert forall|i: int| 0 <= i < q.len() implies filt(#[trigger] q[i], f, k).len() == 0 || filt(q[i], f, k) == base by { if i < p.len() { assert(q[i] == p[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies filt(#[trigger] q[i], f, k).len() == 0 || filt(#[trigger] q[j], f, k).len() == 0 by {
      assert(q[i] == p[i]); if j < p.len() { assert(q[j] == p[j]); } }
    if !ks.contains(k) { assert forall|i: int| 0 <= i < q.len() implies filt(#[trigger] q[i], f, k).len() == 0 by { if i < p.len() { assert(q[i] == p[i]); } } }
  } }
pub proof fn lemma_grouped(tests: Seq<String>, f: spec_fn(String) -> String, n: int)
  requires n >= 1
  ensures ({ let b = nonempty(group_rr(group_by(tests, f), n)); &&& C01_partition(tests, b) &&& C01_nonempty(b) &&& C02_apart(b, f) &&& b.len() == min(keyset(tests, f).len() as int, n) }),
    forall|i: int, k: String| 0 <= i < nonempty(group_rr(group_by(tests, f), n)).len() ==> subseq(#[trigger] filt(nonempty(group_rr(group_by(tests, f), n))[i], f, k), tests)
{ let gs = group_by(tests, f); let r = group_rr(gs, n); let b = nonempty(r); let ks = key_order(keyset(tests, f));
  lemma_groups(tests, f); lemma_nonempty(r); lemma_grr_count(gs, n);
  assert forall|x: String| #[trigger] tot(b, x) == cnt(tests, x) by { lemma_nonempty_tot(r, x); lemma_grr_tot(gs, n, x); }
  let m = lemma_nonempty_index(r);
  assert forall|i: int, j: int, p: int, q: int| 0 <= i < j < b.len() && 0 <= p < b[i].len() && 0 <= q < b[j].len() implies f(#[trigger] b[i][p]) != f(#[trigger] b[j][q]) by {
    assert(m[i] < m[j]);
    let g = lemma_grr_apart(gs, n, m[i], p); let h = lemma_grr_apart(gs, n, m[j], q);
    let pp = choose|pp: int| 0 <= pp < gs[g].len() && gs[g][pp] == b[i][p]; let qq = choose|qq: int| 0 <= qq < gs[h].len() && gs[h][qq] == b[j][q];
    assert(f(gs[g][pp]) == ks[g]); assert(f(gs[h][qq]) == ks[h]); assert(g != h); }
  assert forall|i: int, k: String| 0 <= i < b.len() implies subseq(#[trigger] filt(b[i], f, k), tests) by { assert(0 <= m[i] < r.len()); lemma_batch_order(tests, f, n, m[i], k); } }
pub proof fn lemma_file_order(tests: Seq<String>, n: int)
  requires n >= 1 ensures C01_order(tests, nonempty(group_rr(group_by(tests, k_extract_file()), n)))
{ let f = k_extract_file(); let g = k_extract_scope(); let b = nonempty(group_rr(group_by(tests, f), n));
  lemma_grouped(tests, f, n);
  assert forall|i: int, k: String| 0 <= i < b.len() implies subseq(#[trigger] filt(b[i], g, k), tests) by {
    let fk = mk(file_of(k@));
    assert forall|x: String| #[trigger] g(x) == k implies f(x) == fk by { lemma_file_of_scope(x@); }
    lemma_filt_filt(b[i], f, fk, g, k); lemma_filt_sub(filt(b[i], f, fk), g, k);
    lemma_sub_trans(filt(b[i], g, k), filt(b[i], f, fk), tests); } }
pub open spec fn C03_count(m: DistributionMode, tests: Seq<String>, n: int, b: Seq<Seq<String>>) -> bool {
  match m {
    DistributionMode::No => b.len() <= 1,
    DistributionMode::LoadScope => b.len() == min(keyset(tests, k_extract_scope()).len() as int, n),
    DistributionMode::LoadFile => b.len() == min(keyset(tests, k_extract_file()).len() as int, n),
    _ => b.len() == min(tests.len() as int, n) && C03_balance(b),
  } }
pub proof fn lemma_key_one(tests: Seq<String>, f: spec_fn(String) -> String)
  ensures (tests.len() == 0) == (keyset(tests, f).len() == 0)
{ lemma_keyset(tests, f); if tests.len() > 0 { assert(keyset(tests, f).contains(f(tests[0]))); if keyset(tests, f).len() == 0 { assert(keyset(tests, f) =~= Set::<String>::empty()); } } }
pub proof fn lemma_plan(m: DistributionMode, tests: Seq<String>, n: int)
  requires n >= 1
  ensures ({ let b = plan(m, tests, n);
    &&& C01_partition(tests, b) &&& C01_nonempty(b) &&& C01_order(tests, b) &&& b.len() <= n
    &&& (m is No ==> b.len() <= 1)
    &&& (m is LoadScope ==> C02_apart(b, k_extract_scope()))
    &&& (m is LoadFile ==> C02_apart(b, k_extract_file()))
    &&& C03_count(m, tests, n, b) })
{ let f = k_extract_file(); let g = k_extract_scope();
  lemma_one(tests); lemma_load(tests, n); lemma_grouped(tests, f, n); lemma_grouped(tests, g, n); lemma_file_order(tests, n);
  lemma_key_one(tests, f); lemma_key_one(tests, g);
  if tests.len() == 0 { assert(plan(m, tests, n) =~= Seq::<Seq<String>>::empty()); assert(one(tests) =~= Seq::<Seq<String>>::empty()); }
  if n == 1 && tests.len() > 0 { assert(plan(m, tests, n) == one(tests)); } }

@fn validate_and_handle_edge_cases(tests, num_workers)
@ensures
  edge: match r { Some(b) => (num_workers == 0 || tests@.len() == 0) && deep(b@) =~= Seq::<Seq<String>>::empty() || num_workers == 1 && tests@.len() > 0 && deep(b@) =~= seq![tests@], None => num_workers >= 2 && tests@.len() > 0 }
@fn extract_file(test_path)
@ensures
  key: r == sp_extract_file(*test_path)
@entry
proof { assert(mk(file_of(test_path@)).s@ == file_of(test_path@)); assert("::"@ =~= cc()); }
@fn extract_scope(test_path)
@ensures
  key: r == sp_extract_scope(*test_path)
@entry
proof { assert("::"@ =~= cc()); }
@fn distribute_groups_to_workers(groups, num_workers)
@requires
  some: num_workers >= 1
@ensures
  grr: deep(r@) =~= nonempty(group_rr(deep(groups@), num_workers as int))
@loop fresh
@inv
  len: $acc@.len() == $done.len()
  emp: forall|i: int| 0 <= i < $acc@.len() ==> (#[trigger] $acc@[i])@ == Seq::<T>::empty()
@loop assign
@inv
  len: $m0@.len() == num_workers
  grr: deep($m0@) =~= group_rr(deep($done), num_workers as int)
@pre
proof { let dd = deep($done.drop_last()); assert(deep($done) =~= dd.push($done.last()@)); assert($done.drop_last().push($done.last()) =~= $done); lemma_grr_push(dd, $done.last()@, num_workers as int); }
@loop keep
@inv
  ne: deep($acc@) =~= nonempty(deep($done))
@pre
proof { assert(deep($done) =~= deep($done.drop_last()).push($done.last()@)); }
@fn group_tests_by_key(tests, key_extractor)
@ensures
  groups: deep(r@) =~= group_by(tests@, k_{key_extractor}())
@loop fill
@inv
  dom: $m0@.dom() == keyset($done, k_{key_extractor}())
  val: forall|k: String| $m0@.dom().contains(k) ==> (#[trigger] $m0@[k])@ == filt($done, k_{key_extractor}(), k)
  out: forall|k: String| !$m0@.dom().contains(k) ==> #[trigger] filt($done, k_{key_extractor}(), k) == Seq::<String>::empty()
@pre
proof { assert forall|k: String| filt($done, k_{key_extractor}(), k) == (if sp_{key_extractor}($done.last()) == k { filt($prev, k_{key_extractor}(), k).push($done.last()) } else { filt($prev, k_{key_extractor}(), k) }) by {} }
@loop values
@inv
  same: $acc@ =~= $done
@fn LoadScheduler::distribute_tests(tests, num_workers)
@loop assign
@inv
  len: $m0@.len() == num_workers
  rr: deep($m0@) =~= round_robin($done, num_workers as int)
@pre
proof { assert($done.drop_last().push($done.last()) =~= $done); lemma_rr_push($done.drop_last(), $done.last(), num_workers as int); }
@loop keep
@inv
  ne: deep($acc@) =~= nonempty(deep($done))
@pre
proof { assert(deep($done) =~= deep($done.drop_last()).push($done.last()@)); }
@entry
proof { if num_workers >= 1 { lemma_plan(self.kind(), tests@, num_workers as int); } lemma_rr_empty::<String>(num_workers as int); }
@exit
proof { assert(deep(r@) =~= plan(self.kind(), tests@, num_workers as int)); }
@fn WorkStealScheduler::distribute_tests(tests, num_workers)
@loop fresh
@inv
  len: $acc@.len() == $done.len()
  emp: forall|i: int| 0 <= i < $acc@.len() ==> (#[trigger] $acc@[i])@ == Seq::<String>::empty()
@loop assign
@inv
  len: $m0@.len() == num_workers
  rr: deep($m0@) =~= round_robin($done, num_workers as int)
@pre
proof { assert($done.drop_last().push($done.last()) =~= $done); lemma_rr_push($done.drop_last(), $done.last(), num_workers as int); }
@loop keep
@inv
  ne: deep($acc@) =~= nonempty(deep($done))
@pre
proof { assert(deep($done) =~= deep($done.drop_last()).push($done.last()@)); }
@entry
proof { if num_workers >= 1 { lemma_plan(self.kind(), tests@, num_workers as int); } }
@exit
proof { assert(deep(r@) =~= plan(self.kind(), tests@, num_workers as int)); }
@fn LoadScopeScheduler::distribute_tests(tests, num_workers)
@entry
proof { if num_workers >= 1 { lemma_plan(self.kind(), tests@, num_workers as int); } }
@exit
proof { assert(deep(r@) =~= plan(self.kind(), tests@, num_workers as int)); }
@fn LoadFileScheduler::distribute_tests(tests, num_workers)
@entry
proof { if num_workers >= 1 { lemma_plan(self.kind(), tests@, num_workers as int); } }
@exit
proof { assert(deep(r@) =~= plan(self.kind(), tests@, num_workers as int)); }
@fn NoScheduler::distribute_tests(tests, num_workers)
@entry
proof { if num_workers >= 1 { lemma_plan(self.kind(), tests@, num_workers as int); } }
@exit
proof { assert(deep(r@) =~= plan(self.kind(), tests@, num_workers as int)); }
@trait Scheduler
spec fn kind(&self) -> DistributionMode;
@fn Scheduler::distribute_tests(tests, num_workers)
@ensures
  C03_deterministic: deep(r@) =~= plan(self.kind(), tests@, num_workers as int)
  C01_partition: num_workers >= 1 ==> C01_partition(tests@, deep(r@))
  C01_nonempty: num_workers >= 1 ==> C01_nonempty(deep(r@))
  C01_limit: num_workers >= 1 ==> r@.len() <= num_workers
  C01_order: num_workers >= 1 ==> C01_order(tests@, deep(r@))
  C02_scope: num_workers >= 1 && self.kind() is LoadScope ==> C02_apart(deep(r@), k_extract_scope())
  C02_file: num_workers >= 1 && self.kind() is LoadFile ==> C02_apart(deep(r@), k_extract_file())
  C02_no: self.kind() is No ==> r@.len() <= 1
  C03_count: num_workers >= 1 ==> C03_count(self.kind(), tests@, num_workers as int, deep(r@))
@impl Scheduler for LoadScheduler
open spec fn kind(&self) -> DistributionMode { DistributionMode::Load }
@impl Scheduler for LoadScopeScheduler
open spec fn kind(&self) -> DistributionMode { DistributionMode::LoadScope }
@impl Scheduler for LoadFileScheduler
open spec fn kind(&self) -> DistributionMode { DistributionMode::LoadFile }
@impl Scheduler for WorkStealScheduler
open spec fn kind(&self) -> DistributionMode { DistributionMode::WorkSteal }
@impl Scheduler for NoScheduler
open spec fn kind(&self) -> DistributionMode { DistributionMode::No }
@fn create_scheduler(mode)
@ensures
  kind: r.kind() == mode
