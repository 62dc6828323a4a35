@unit shard
@source src/native_runner.rs
@prelude core maps seqs paths
@spec
broadcast use {vstd::seq_lib::group_seq_properties, bl_nonempty_push};

pub open spec fn nw(files: Seq<PathBuf>, n: usize) -> int { min(files.len() as int, n as int) }
#[verifier::opaque] pub open spec fn C08_partition(files: Seq<PathBuf>, b: Seq<Seq<PathBuf>>) -> bool { forall|x: PathBuf| #[trigger] tot(b, x) == cnt(files, x) }
#[verifier::opaque] pub open spec fn C08_nonempty(b: Seq<Seq<PathBuf>>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).len() > 0 }
#[verifier::opaque] pub open spec fn C08_order(files: Seq<PathBuf>, b: Seq<Seq<PathBuf>>) -> bool { forall|i: int| 0 <= i < b.len() ==> subseq(#[trigger] b[i], files) }
#[verifier::opaque] pub open spec fn C08_even(b: Seq<Seq<PathBuf>>) -> bool {
  forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() ==> (#[trigger] b[i]).len() <= (#[trigger] b[j]).len() + 1
}
pub proof fn lemma_shards(files: Seq<PathBuf>, n: int)
  requires n >= 1
  ensures ({ let b = nonempty(round_robin(files, n)); &&& C08_partition(files, b) &&& C08_nonempty(b) &&& C08_order(files, b) &&& C08_even(b) &&& b.len() == min(files.len() as int, n) })
{ reveal(C08_partition); reveal(C08_nonempty); reveal(C08_order); reveal(C08_even); let r = round_robin(files, n); let b = nonempty(r);
  assert forall|x: PathBuf| #[trigger] tot(b, x) == cnt(files, x) by { lemma_nonempty_tot(r, x); lemma_rr_tot(files, n, x); }
  lemma_nonempty(r); lemma_rr_balance(files, n);
  assert forall|i: int| 0 <= i < b.len() implies subseq(#[trigger] b[i], files) by {
    assert(r.contains(b[i])); let w = choose|w: int| 0 <= w < r.len() && r[w] == b[i]; lemma_pick_sub(files, n, w); } }
pub proof fn lemma_no_files(files: Seq<PathBuf>)
  ensures files.len() == 0 ==> ({ let b = Seq::<Seq<PathBuf>>::empty(); &&& C08_partition(files, b) &&& C08_nonempty(b) &&& C08_order(files, b) &&& C08_even(b) })
{ reveal(C08_partition); reveal(C08_nonempty); reveal(C08_order); reveal(C08_even); if files.len() == 0 { let b = Seq::<Seq<PathBuf>>::empty(); assert forall|x: PathBuf| #[trigger] tot(b, x) == cnt(files, x) by {} } }

@fn shard_files(files, num_workers)
@ensures
  C08_partition: num_workers >= 1 ==> C08_partition(files@, deep(r@))
  C08_nonempty: num_workers >= 1 ==> C08_nonempty(deep(r@))
  C08_order: num_workers >= 1 ==> C08_order(files@, deep(r@))
  C08_count: num_workers >= 1 ==> r@.len() == nw(files@, num_workers)
  C08_even: num_workers >= 1 ==> C08_even(deep(r@))
@loop fresh
@inv
  len: $acc@.len() == $done.len()
  emp: forall|i: int| 0 <= i < $acc@.len() ==> (#[trigger] $acc@[i])@ == Seq::<PathBuf>::empty()
@loop assign
@inv
  len: $m0@.len() == nw(files@, num_workers)
  rr: deep($m0@) =~= round_robin($done, nw(files@, num_workers))
@pre
proof { assert($done.drop_last().push($done.last()) =~= $done); lemma_rr_push($done.drop_last(), $done.last(), nw(files@, num_workers)); }
@loop keep
@inv
  ne: deep($acc@) =~= nonempty(deep($done))
@pre
proof { assert(deep($done) =~= deep($done.drop_last()).push($done.last()@)); }
@entry
proof { lemma_no_files(files@); if num_workers >= 1 && files@.len() >= 1 { lemma_shards(files@, nw(files@, num_workers)); lemma_rr_empty::<PathBuf>(nw(files@, num_workers)); } }
@exit
proof { if num_workers >= 1 && files@.len() >= 1 { assert(deep(r@) =~= nonempty(round_robin(files@, nw(files@, num_workers)))); } else if num_workers >= 1 { assert(deep(r@) =~= Seq::<Seq<PathBuf>>::empty()); } }
