@unit tally
@source src/native_runner.rs
@prelude core maps seqs
@include struct TestResult
@include struct ErrorInfo
@include struct AggregatedResults
@spec
broadcast use {vstd::seq_lib::group_seq_properties};
impl AggregatedResults {
  // #[derive(Default)]
  #[verifier::external_body] pub fn default() -> (r: AggregatedResults)
    ensures r.passed == 0, r.failed == 0, r.error == 0, r.skipped == 0, r.total == 0, r.failures@ == Seq::<TestResult>::empty(), r.errors@ == Seq::<TestResult>::empty() { unimplemented!() }
}
pub open spec fn kind_of(r: TestResult) -> int {
  if r.outcome@ == seq!['p','a','s','s','e','d'] { 0 } else if r.outcome@ == seq!['f','a','i','l','e','d'] { 1 } else if r.outcome@ == seq!['s','k','i','p','p','e','d'] { 3 } else { 2 }
}
pub open spec fn k_kind() -> spec_fn(TestResult) -> int { |r: TestResult| kind_of(r) }
pub open spec fn of_kind(s: Seq<TestResult>, k: int) -> Seq<TestResult> { filt(s, k_kind(), k) }
pub open spec fn tallied(a: AggregatedResults, s: Seq<TestResult>) -> bool {
  &&& a.total == s.len()
  &&& a.passed == of_kind(s, 0).len() &&& a.failed == of_kind(s, 1).len() &&& a.error == of_kind(s, 2).len() &&& a.skipped == of_kind(s, 3).len()
  &&& a.failures@ =~= of_kind(s, 1) &&& a.errors@ =~= of_kind(s, 2)
}
pub proof fn lemma_kinds(s: Seq<TestResult>)
  ensures of_kind(s, 0).len() + of_kind(s, 1).len() + of_kind(s, 2).len() + of_kind(s, 3).len() == s.len()
  decreases s.len()
{ if s.len() > 0 { lemma_kinds(s.drop_last()); } }
pub proof fn lemma_push(a: Seq<TestResult>, x: TestResult)
  ensures forall|k: int| #[trigger] of_kind(a.push(x), k) == (if kind_of(x) == k { of_kind(a, k).push(x) } else { of_kind(a, k) })
{ assert(a.push(x).drop_last() =~= a); }
pub proof fn lemma_words()
  ensures "passed"@ =~= seq!['p','a','s','s','e','d'], "failed"@ =~= seq!['f','a','i','l','e','d'], "skipped"@ =~= seq!['s','k','i','p','p','e','d'], "error"@ =~= seq!['e','r','r','o','r']
{ reveal_strlit("passed"); reveal_strlit("failed"); reveal_strlit("skipped"); reveal_strlit("error"); }
// a nest of vectors that exists in memory has at most usize::MAX leaves
#[verifier::external_body] pub proof fn ax_in_memory(all: Vec<Vec<TestResult>>) ensures flat(deep(all@)).len() <= usize::MAX { unimplemented!() }
pub proof fn lemma_flat_mono(ss: Seq<Seq<TestResult>>, k: int, j: int)
  requires 0 <= k < ss.len(), 0 <= j <= ss[k].len()
  ensures flat(ss.take(k)).len() + j <= flat(ss).len()
  decreases ss.len()
{ if k == ss.len() - 1 { assert(ss.take(k) =~= ss.drop_last()); } else { lemma_flat_mono(ss.drop_last(), k, j); assert(ss.drop_last().take(k) =~= ss.take(k)); } }

@fn aggregate_results(all_results)
@ensures
  C09_tally: tallied(r, flat(deep(all_results@)))
  C09_sum: r.passed + r.failed + r.error + r.skipped == r.total
@loop reports
@inv
  t: tallied($m0, flat(deep($done)))
@pre
proof { assert(deep($done) =~= deep($prev).push($done.last()@)); lemma_flat_push(deep($prev), $done.last()@); assert($done.last()@.take(0) =~= Seq::<TestResult>::empty()); assert(flat(deep($prev)) + Seq::<TestResult>::empty() =~= flat(deep($prev))); assert($done.len() <= $all.len()); assert($all =~= all_results@); assert($done =~= all_results@.take($done.len() as int)); }
@loop results
@inv
  t: tallied($m0, flat(deep($oprev)) + $done)
  pos: $odone.len() >= 1 && $odone.last()@ == $all
@pre
proof { lemma_push(flat(deep($oprev)) + $prev, $done.last()); assert((flat(deep($oprev)) + $prev).push($done.last()) =~= flat(deep($oprev)) + $done);
  let k = $odone.len() - 1; assert(deep($oprev) =~= deep(all_results@).take(k)); assert(deep(all_results@)[k] == $all) by { assert(all_results@[k] == $odone.last()); } lemma_flat_mono(deep(all_results@), k, $done.len() as int);
  lemma_kinds(flat(deep($oprev)) + $prev); }
@entry
proof { ax_in_memory(all_results); lemma_words(); }
@exit
proof { lemma_kinds(flat(deep(all_results@))); }
