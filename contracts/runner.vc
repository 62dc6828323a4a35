@unit runner
@source src/runner.rs src/scheduler.rs src/worker.rs src/subproject.rs src/cli.rs src/utils.rs
@prelude core maps seqs paths proc
@opt typemap Self::Err => ParseDistributionModeError
@opt effect .output .status .spawn_worker .wait_for_all WorkerPool::spawn_worker WorkerPool::wait_for_all execute_tests_parallel
@include enum ParseDistributionModeError
@use scheduler create_scheduler trait:Scheduler
@use options DistributionMode::from_str
@use worker WorkerPool::new WorkerPool::spawn_worker WorkerPool::wait_for_all
@use group group_tests_by_subproject
@use reroot make_test_paths_relative
@include struct ParallelExecutionConfig
@spec
broadcast use {vstd::seq_lib::group_seq_properties, bl_find};
pub open spec fn news(w0: World, w1: World) -> Seq<Run> { w1.runs().skip(w0.runs().len() as int) }
// how often the test with text t was handed to processes started in directory c; the first k arguments are not tests
pub open spec fn handed(rs: Seq<Run>, k: int, c: Seq<char>, t: Seq<char>) -> nat decreases rs.len() {
  if rs.len() == 0 { 0 } else { handed(rs.drop_last(), k, c, t) + (if rs.last().cwd == Some(c) { cnt(rs.last().args.skip(k), t) } else { 0nat }) } }
// a process of this run: the requested program, initial arguments and root directory, and at least one test
pub open spec fn shaped(r: Run, prog: Seq<char>, ini: Seq<Seq<char>>) -> bool {
  r.prog == prog && r.cwd is Some && r.args.len() > ini.len() as int + 2 && r.args.take(ini.len() as int + 2) =~= ini + seq!["--rootdir"@, r.cwd.unwrap()] }
#[verifier::opaque]
pub open spec fn all_shaped(rs: Seq<Run>, prog: Seq<char>, ini: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < rs.len() ==> shaped(#[trigger] rs[i], prog, ini) }
#[verifier::opaque]
pub open spec fn all_env(rs: Seq<Run>, env: Seq<(Seq<char>, Seq<char>)>) -> bool { forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).env =~= env }
#[verifier::opaque]
pub open spec fn grown(r0: Seq<Run>, r1: Seq<Run>, k: int, c0: Seq<char>, b: Seq<Seq<String>>) -> bool {
  forall|c: Seq<char>, t: Seq<char>| #[trigger] handed(r1, k, c, t) == handed(r0, k, c, t) + (if c == c0 { tot(b, mk(t)) } else { 0nat }) }
pub proof fn lemma_grown_none(rs: Seq<Run>, k: int, c: Seq<char>) ensures grown(rs, rs, k, c, Seq::<Seq<String>>::empty()) { reveal(grown); }
pub proof fn lemma_texts_cnt(v: Seq<String>, t: Seq<char>) ensures cnt(texts(v), t) == cnt(v, mk(t)) decreases v.len()
{ if v.len() > 0 { lemma_texts_cnt(v.drop_last(), t); assert(texts(v).drop_last() =~= texts(v.drop_last())); assert(texts(v).last() == v.last()@); assert(v.last() == mk(v.last()@)); } }
pub proof fn lemma_grown(r0: Seq<Run>, r1: Seq<Run>, r: Run, ini: Seq<Seq<char>>, d: PathBuf, b: Seq<Seq<String>>, batch: Seq<String>)
  requires grown(r0, r1, ini.len() as int + 2, ptext(d), b), r.cwd == Some(ptext(d)), r.args =~= ini + seq!["--rootdir"@, ptext(d)] + texts(batch)
  ensures grown(r0, r1.push(r), ini.len() as int + 2, ptext(d), b.push(batch)), batch.len() > 0 ==> shaped(r, r.prog, ini)
{ reveal(grown); let k = ini.len() as int + 2; let c0 = ptext(d); let r2 = r1.push(r);
  assert(r.args.skip(k) =~= texts(batch)); assert(r.args.take(k) =~= ini + seq!["--rootdir"@, ptext(d)]);
  assert(r2.drop_last() =~= r1); assert(b.push(batch).drop_last() =~= b);
  assert forall|c: Seq<char>, t: Seq<char>| #[trigger] handed(r2, k, c, t) == handed(r0, k, c, t) + (if c == c0 { tot(b.push(batch), mk(t)) } else { 0nat }) by {
    lemma_texts_cnt(batch, t); assert(handed(r1, k, c, t) == handed(r0, k, c, t) + (if c == c0 { tot(b, mk(t)) } else { 0nat })); } }
// ---- the ids a directory's processes are given: the collected ones, rewritten to that directory when it is not the root
pub open spec fn local(root: PathBuf, d: PathBuf, ids: Seq<String>, r: Seq<String>) -> bool {
  if d == root { r == ids } else { r.len() == ids.len() && (below(root, d) ==> forall|i: int| 0 <= i < r.len() ==> C07_ok(ids[i]@, (#[trigger] r[i])@, root, d)) } }
pub open spec fn covers(rs: Seq<Run>, k: int, d: PathBuf, r: Seq<String>) -> bool { forall|t: Seq<char>| #[trigger] handed(rs, k, ptext(d), t) == cnt(r, mk(t)) }
#[verifier::opaque]
pub open spec fn served(rs: Seq<Run>, k: int, root: PathBuf, d: PathBuf, ids: Seq<String>) -> bool { exists|r: Seq<String>| #[trigger] local(root, d, ids, r) && covers(rs, k, d, r) }
pub open spec fn mentions(gs: Seq<(PathBuf, Vec<String>)>, c: Seq<char>) -> bool { exists|i: int| 0 <= i < gs.len() && c == ptext((#[trigger] gs[i]).0) }
#[verifier::opaque]
pub open spec fn only(rs: Seq<Run>, k: int, gs: Seq<(PathBuf, Vec<String>)>) -> bool { forall|c: Seq<char>, t: Seq<char>| #[trigger] handed(rs, k, c, t) > 0 ==> mentions(gs, c) }
#[verifier::opaque]
pub open spec fn all_served(rs: Seq<Run>, k: int, root: PathBuf, gs: Seq<(PathBuf, Vec<String>)>) -> bool { (forall|i: int| 0 <= i < gs.len() ==> served(rs, k, root, (#[trigger] gs[i]).0, gs[i].1@)) && only(rs, k, gs) }
pub open spec fn apart(gs: Seq<(PathBuf, Vec<String>)>) -> bool { forall|i: int, j: int| 0 <= i < gs.len() && 0 <= j < gs.len() && (#[trigger] gs[i]).0 == (#[trigger] gs[j]).0 ==> i == j }
pub proof fn lemma_served(r0: Seq<Run>, r1: Seq<Run>, k: int, root: PathBuf, gs: Seq<(PathBuf, Vec<String>)>, g: (PathBuf, Vec<String>), r: Seq<String>, b: Seq<Seq<String>>)
  requires all_served(r0, k, root, gs), apart(gs.push(g)), grown(r0, r1, k, ptext(g.0), b), local(root, g.0, g.1@, r), C01_partition(r, b)
  ensures all_served(r1, k, root, gs.push(g))
{ reveal(all_served); reveal(grown); reveal(served); reveal(only); let g2 = gs.push(g);
  assert(!mentions(gs, ptext(g.0))) by { if mentions(gs, ptext(g.0)) { let i = choose|i: int| 0 <= i < gs.len() && ptext(g.0) == ptext((#[trigger] gs[i]).0); ax_ptext(g.0); ax_ptext(gs[i].0); assert(g2[i] == gs[i]); assert(g2[gs.len() as int] == g); assert(gs[i].0 == mkp(gs[i].0@) && g.0 == mkp(g.0@)); } }
  assert forall|i: int| 0 <= i < g2.len() implies served(r1, k, root, (#[trigger] g2[i]).0, g2[i].1@) by {
    if i < gs.len() { assert(g2[i] == gs[i]); assert(served(r0, k, root, gs[i].0, gs[i].1@)); let q = choose|q: Seq<String>| #[trigger] local(root, gs[i].0, gs[i].1@, q) && covers(r0, k, gs[i].0, q); assert(mentions(gs, ptext(gs[i].0))); assert(covers(r1, k, gs[i].0, q)); }
    else { assert(covers(r1, k, g.0, r)) by { assert forall|t: Seq<char>| #[trigger] handed(r1, k, ptext(g.0), t) == cnt(r, mk(t)) by { assert(handed(r0, k, ptext(g.0), t) == 0); assert(tot(b, mk(t)) == cnt(r, mk(t))); } } } }
  assert forall|c: Seq<char>, t: Seq<char>| #[trigger] handed(r1, k, c, t) > 0 implies mentions(g2, c) by {
    if c == ptext(g.0) { assert(g2[gs.len() as int] == g); } else { assert(handed(r0, k, c, t) > 0); let i = choose|i: int| 0 <= i < gs.len() && c == ptext((#[trigger] gs[i]).0); assert(g2[i] == gs[i]); } } }
// what subproject mode promises: every directory with tests is served with its own tests, and no other directory is given any
#[verifier::opaque]
pub open spec fn C04_sub(rs: Seq<Run>, k: int, root: PathBuf, tests: Seq<String>) -> bool {
  (forall|d: PathBuf| #[trigger] homes(root, tests).contains(d) ==> served(rs, k, root, d, of_home(root, tests, d)))
  && (forall|c: Seq<char>, t: Seq<char>| #[trigger] handed(rs, k, c, t) > 0 ==> exists|d: PathBuf| homes(root, tests).contains(d) && c == #[trigger] ptext(d)) }
pub proof fn lemma_sub(rs: Seq<Run>, k: int, root: PathBuf, tests: Seq<String>, o: Seq<PathBuf>, m: Map<PathBuf, Vec<String>>)
  requires m.dom() == homes(root, tests), forall|d: PathBuf| m.dom().contains(d) ==> (#[trigger] m[d])@ == of_home(root, tests, d), enum_of(o, m.dom()), all_served(rs, k, root, entries(o, m))
  ensures C04_sub(rs, k, root, tests)
{ let gs = entries(o, m); reveal(only); reveal(C04_sub); reveal(all_served);
  assert forall|d: PathBuf| #[trigger] homes(root, tests).contains(d) implies served(rs, k, root, d, of_home(root, tests, d)) by { assert(o.contains(d)); let i = choose|i: int| 0 <= i < o.len() && o[i] == d; assert(served(rs, k, root, gs[i].0, gs[i].1@)); assert(m[d]@ == of_home(root, tests, d)); }
  assert forall|c: Seq<char>, t: Seq<char>| #[trigger] handed(rs, k, c, t) > 0 implies exists|d: PathBuf| homes(root, tests).contains(d) && c == #[trigger] ptext(d) by {
    let i = choose|i: int| 0 <= i < gs.len() && c == ptext((#[trigger] gs[i]).0); assert(o.contains(o[i])); assert(homes(root, tests).contains(o[i])); } }
// without subprojects: every test, as often as it was given, in processes started in the root directory
#[verifier::opaque]
pub open spec fn C04_all(rs: Seq<Run>, k: int, root: PathBuf, tests: Seq<String>) -> bool { forall|c: Seq<char>, t: Seq<char>| #[trigger] handed(rs, k, c, t) == (if c == ptext(root) { cnt(tests, mk(t)) } else { 0nat }) }
pub proof fn lemma_all(rs: Seq<Run>, k: int, root: PathBuf, tests: Seq<String>, b: Seq<Seq<String>>)
  requires grown(Seq::<Run>::empty(), rs, k, ptext(root), b), C01_partition(tests, b) ensures C04_all(rs, k, root, tests)
{ reveal(grown); reveal(C04_all); assert forall|c: Seq<char>, t: Seq<char>| #[trigger] handed(rs, k, c, t) == (if c == ptext(root) { cnt(tests, mk(t)) } else { 0nat }) by { assert(handed(Seq::<Run>::empty(), k, c, t) == 0); assert(tot(b, mk(t)) == cnt(tests, mk(t))); } }
pub broadcast proof fn bl_none(b: Seq<Vec<String>>, tests: Seq<String>, rs: Seq<Run>, k: int, root: PathBuf)
  requires #[trigger] C01_partition(tests, deep(b)), b.len() == 0, rs.len() == 0 ensures #[trigger] C04_all(rs, k, root, tests)
{ reveal(C04_all); assert forall|t: Seq<char>| #[trigger] cnt(tests, mk(t)) == 0 by { assert(tot(deep(b), mk(t)) == cnt(tests, mk(t))); } }
// ---- statuses
pub open spec fn good(n: int) -> bool { code_of(n) == 0i32 && !died(n) }
pub open spec fn goods(base: int, n: int) -> bool { forall|j: int| base <= j < base + n ==> #[trigger] good(j) }
pub open spec fn zeros(rs: Seq<WorkerResult>) -> bool { forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).exit_code == 0i32 }
#[verifier::opaque]
pub open spec fn pooled(ws: Seq<WorkerHandle>, base: int) -> bool { forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).handle.run() == base + i && result_of(ws[i].handle.val(), ws[i].id, base + i) }
pub broadcast proof fn bl_codes(rs: Seq<WorkerResult>, raw: Seq<WorkerResult>, ws: Seq<WorkerHandle>, base: int)
  requires #[trigger] same_items(rs, raw), #[trigger] all_yield(raw, ws), #[trigger] pooled(ws, base)
  ensures zeros(rs) <==> goods(base, ws.len() as int)
{ reveal(pooled); broadcast use vstd::seq_lib::group_to_multiset_ensures;
  assert forall|x: WorkerResult| rs.contains(x) <==> raw.contains(x) by { assert(rs.to_multiset().count(x) == raw.to_multiset().count(x)); }
  assert(zeros(raw) <==> goods(base, ws.len() as int)) by {
    if zeros(raw) { assert forall|j: int| base <= j < base + ws.len() implies #[trigger] good(j) by { let i = j - base; assert(yields(raw[i], ws[i])); } }
    if goods(base, ws.len() as int) { assert forall|i: int| 0 <= i < raw.len() implies (#[trigger] raw[i]).exit_code == 0i32 by { assert(yields(raw[i], ws[i])); assert(good(base + i)); } } }
  if zeros(raw) { assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i]).exit_code == 0i32 by { assert(rs.contains(rs[i])); let j = choose|j: int| 0 <= j < raw.len() && raw[j] == rs[i]; } }
  if zeros(rs) { assert forall|i: int| 0 <= i < raw.len() implies (#[trigger] raw[i]).exit_code == 0i32 by { assert(raw.contains(raw[i])); let j = choose|j: int| 0 <= j < rs.len() && rs[j] == raw[i]; } } }
// ---- there are never more processes than tests
pub open spec fn lens(gs: Seq<(PathBuf, Vec<String>)>) -> int decreases gs.len() { if gs.len() == 0 { 0 } else { lens(gs.drop_last()) + gs.last().1@.len() } }
pub open spec fn home_lens(root: PathBuf, tests: Seq<String>, o: Seq<PathBuf>) -> int decreases o.len() { if o.len() == 0 { 0 } else { home_lens(root, tests, o.drop_last()) + of_home(root, tests, o.last()).len() } }
pub proof fn lemma_home_step(root: PathBuf, tests: Seq<String>, o: Seq<PathBuf>)
  requires tests.len() > 0, o.no_duplicates()
  ensures home_lens(root, tests, o) == home_lens(root, tests.drop_last(), o) + (if o.contains(home(root, tests.last()@)) { 1int } else { 0int })
  decreases o.len()
{ if o.len() > 0 { let p = o.drop_last(); let h = home(root, tests.last()@); lemma_home_step(root, tests, p);
    if p.contains(h) { let i = choose|i: int| 0 <= i < p.len() && p[i] == h; assert(o[i] == h); assert(o.last() != h); }
    if o.contains(h) { let i = choose|i: int| 0 <= i < o.len() && o[i] == h; if i < p.len() { assert(p[i] == h); } } 
    if o.last() == h { assert(o[o.len() - 1] == h); } } }
pub proof fn lemma_home_lens(root: PathBuf, tests: Seq<String>, o: Seq<PathBuf>)
  requires o.no_duplicates() ensures home_lens(root, tests, o) <= tests.len() decreases tests.len()
{ if tests.len() > 0 { lemma_home_step(root, tests, o); lemma_home_lens(root, tests.drop_last(), o); } else { lemma_home_nil(root, tests, o); } }
pub proof fn lemma_home_nil(root: PathBuf, tests: Seq<String>, o: Seq<PathBuf>) requires tests.len() == 0 ensures home_lens(root, tests, o) == 0 decreases o.len()
{ if o.len() > 0 { lemma_home_nil(root, tests, o.drop_last()); } }
pub proof fn lemma_lens(root: PathBuf, tests: Seq<String>, o: Seq<PathBuf>, m: Map<PathBuf, Vec<String>>)
  requires forall|d: PathBuf| o.contains(d) ==> (#[trigger] m[d])@ == of_home(root, tests, d)
  ensures lens(entries(o, m)) == home_lens(root, tests, o) decreases o.len()
{ if o.len() > 0 { let p = o.drop_last(); assert forall|d: PathBuf| p.contains(d) implies (#[trigger] m[d])@ == of_home(root, tests, d) by { let i = choose|i: int| 0 <= i < p.len() && p[i] == d; assert(o[i] == d); assert(o.contains(d)); }
    lemma_lens(root, tests, p, m); assert(entries(o, m).drop_last() =~= entries(p, m)); assert(o.contains(o.last())); } }
pub proof fn lemma_lens_take(gs: Seq<(PathBuf, Vec<String>)>, n: int) requires 0 <= n <= gs.len() ensures lens(gs.take(n)) <= lens(gs) decreases gs.len()
{ if n < gs.len() { lemma_lens_take(gs.drop_last(), n); assert(gs.drop_last().take(n) =~= gs.take(n)); } else { assert(gs.take(n) =~= gs); } }
pub proof fn lemma_cnt_mult(s: Seq<String>, x: String) ensures s.to_multiset().count(x) == cnt(s, x) decreases s.len()
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; if s.len() > 0 { lemma_cnt_mult(s.drop_last(), x); assert(s.drop_last().push(s.last()) =~= s); } }
pub proof fn lemma_batch_count(r: Seq<String>, b: Seq<Seq<String>>)
  requires C01_partition(r, b), C01_nonempty(b) ensures b.len() <= r.len()
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; let f = flat(b);
  assert(f.to_multiset() =~= r.to_multiset()) by { assert forall|x: String| f.to_multiset().count(x) == r.to_multiset().count(x) by { lemma_cnt_mult(f, x); lemma_cnt_mult(r, x); lemma_flat_cnt(b, x); } }
  assert(f.to_multiset().len() == f.len() && r.to_multiset().len() == r.len()); lemma_flat_ge(b); }
pub proof fn lemma_flat_ge(b: Seq<Seq<String>>) requires C01_nonempty(b) ensures flat(b).len() >= b.len() decreases b.len()
{ if b.len() > 0 { let p = b.drop_last(); assert(C01_nonempty(p)) by { assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).len() > 0 by { assert(b[i].len() > 0); } } lemma_flat_ge(p); assert(b[b.len() - 1].len() > 0); } }

pub proof fn lemma_start(w: World, prog: Seq<char>, ini: Seq<Seq<char>>, env: Seq<(Seq<char>, Seq<char>)>) ensures news(w, w) =~= Seq::<Run>::empty(), all_shaped(news(w, w), prog, ini), all_env(news(w, w), env) { reveal(all_shaped); reveal(all_env); }
pub proof fn lemma_zeros(rs: Seq<WorkerResult>) requires rs.len() > 0 ensures zeros(rs) <==> zeros(rs.drop_last()) && rs.last().exit_code == 0i32 { let p = rs.drop_last(); if zeros(rs) { assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).exit_code == 0i32 by { assert(rs[i].exit_code == 0i32); } } if zeros(p) && rs.last().exit_code == 0i32 { assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i]).exit_code == 0i32 by { if i < p.len() { assert(p[i].exit_code == 0i32); } } } }
pub proof fn lemma_no_pool(ws: Seq<WorkerHandle>, base: int) requires ws.len() == 0 ensures pooled(ws, base) { reveal(pooled); }
pub proof fn lemma_pool(ws: Seq<WorkerHandle>, base: int) requires ws.len() > 0, pooled(ws.drop_last(), base), ws.last().handle.run() == base + ws.len() - 1, result_of(ws.last().handle.val(), ws.last().id, base + ws.len() - 1) ensures pooled(ws, base) { reveal(pooled); let p = ws.drop_last(); assert forall|i: int| 0 <= i < ws.len() implies (#[trigger] ws[i]).handle.run() == base + i && result_of(ws[i].handle.val(), ws[i].id, base + i) by { if i < p.len() { assert(p[i] == ws[i]); } } }
pub proof fn lemma_shape(rs: Seq<Run>, r: Run, prog: Seq<char>, ini: Seq<Seq<char>>) requires all_shaped(rs, prog, ini), shaped(r, prog, ini) ensures all_shaped(rs.push(r), prog, ini) { reveal(all_shaped); }
pub proof fn lemma_envs(rs: Seq<Run>, r: Run, env: Seq<(Seq<char>, Seq<char>)>) requires all_env(rs, env) ensures r.env =~= env ==> all_env(rs.push(r), env) { reveal(all_env); }
pub proof fn lemma_vec_len<T>(v: Vec<T>) ensures v@.len() <= usize::MAX { assert(v.len() <= usize::MAX); }
pub proof fn lemma_apart(o: Seq<PathBuf>, m: Map<PathBuf, Vec<String>>) requires o.no_duplicates() ensures apart(entries(o, m)) { assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && (#[trigger] entries(o, m)[i]).0 == (#[trigger] entries(o, m)[j]).0 implies i == j by { assert(o[i] == o[j]); } }
pub proof fn lemma_apart_take(gs: Seq<(PathBuf, Vec<String>)>, n: int) requires apart(gs), 0 <= n <= gs.len() ensures apart(gs.take(n)) { let t = gs.take(n); assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && (#[trigger] t[i]).0 == (#[trigger] t[j]).0 implies i == j by { assert(gs[i] == t[i] && gs[j] == t[j]); } }
pub proof fn lemma_served_none(k: int, root: PathBuf) ensures all_served(Seq::<Run>::empty(), k, root, Seq::<(PathBuf, Vec<String>)>::empty()) { reveal(only); reveal(all_served); }

@fn execute_tests_parallel(config, test_nodes)
@ensures
  C04_status: r == 0 <==> is_mode(config.dist_mode@) && goods(old(w).runs().len() as int, final(w).runs().len() - old(w).runs().len())
  kept: final(w).runs().len() >= old(w).runs().len() && final(w).runs().take(old(w).runs().len() as int) =~= old(w).runs()
  C04_shape: all_shaped(news(*old(w), *final(w)), config.program@, texts(config.initial_args@))
  C13_env: all_env(news(*old(w), *final(w)), env_texts(config.env_vars@))
  C04_root: is_mode(config.dist_mode@) && !config.use_subprojects ==> C04_all(news(*old(w), *final(w)), config.initial_args@.len() as int + 2, *config.rootpath, test_nodes@)
  C04_groups: is_mode(config.dist_mode@) && config.use_subprojects ==> C04_sub(news(*old(w), *final(w)), config.initial_args@.len() as int + 2, *config.rootpath, test_nodes@)
@entry
let ghost w0 = *w; let ghost base = w.runs().len() as int; let ghost ini = texts(config.initial_args@); let ghost k = config.initial_args@.len() as int + 2; let ghost mut wb: Seq<Run> = Seq::empty(); let ghost mut wr: Seq<Run> = Seq::empty(); let ghost mut wid = 0int;
broadcast use {bl_codes, bl_none};
proof { lemma_start(w0, config.program@, ini, env_texts(config.env_vars@)); assert(w0.runs().take(base) =~= w0.runs()); }
@loop groups
@before
proof { let m = $r_group_tests_by_subproject@; let o = $r_group_tests_by_subproject.order();
  assert forall|d: PathBuf| o.contains(d) implies (#[trigger] m[d])@ == of_home(*config.rootpath, test_nodes@, d) by { assert(m.dom().contains(d)); }
  lemma_lens(*config.rootpath, test_nodes@, o, m); lemma_home_lens(*config.rootpath, test_nodes@, o); lemma_vec_len(test_nodes); lemma_apart(o, m); lemma_served_none(k, *config.rootpath); assert($done =~= Seq::<(PathBuf, Vec<String>)>::empty()); lemma_no_pool($m0.workers@, base); }
@inv
  C04_all: $all == entries($r_group_tests_by_subproject.order(), $r_group_tests_by_subproject@)
  C04_apart: apart($all)
  kept: w.runs().len() == base + $m0.workers@.len() && w.runs().take(base) =~= w0.runs()
  C04_id: $m1 == $m0.workers@.len() && $m1 <= lens($done)
  C04_pool: pooled($m0.workers@, base)
  C04_shape: all_shaped(news(w0, *w), config.program@, ini)
  C13_env: all_env(news(w0, *w), env_texts(config.env_vars@))
  C04_served: all_served(news(w0, *w), k, *config.rootpath, $done)
@pre
proof { wb = news(w0, *w); wid = $m1 as int; lemma_lens_take($all, $done.len() as int); assert($all.take($done.len() as int) =~= $done); lemma_grown_none(wb, k, ptext($done.last().0)); }
@post
proof { lemma_apart_take($all, $done.len() as int); assert($prev.push($done.last()) =~= $done); assert($all.take($done.len() as int) =~= $done);
  lemma_served(wb, news(w0, *w), k, *config.rootpath, $prev, $done.last(), $a_distribute_tests@, deep($r_distribute_tests@)); }
@after
proof { lemma_sub(news(w0, *w), k, *config.rootpath, test_nodes@, $r_group_tests_by_subproject.order(), $r_group_tests_by_subproject@); }
@loop batches
@before
proof { assert(deep(Seq::<Vec<String>>::empty()) =~= Seq::<Seq<String>>::empty()); assert($done =~= Seq::<Vec<String>>::empty()); lemma_batch_count($a_distribute_tests@, deep($all)); }
@inv
  kept: w.runs().len() == base + $m0.workers@.len() && w.runs().take(base) =~= w0.runs()
  C04_id: $m1 == $m0.workers@.len() && $m1 <= wid + $done.len()
  C04_pool: pooled($m0.workers@, base)
  C04_shape: all_shaped(news(w0, *w), config.program@, ini)
  C13_env: all_env(news(w0, *w), env_texts(config.env_vars@))
  C04_grown: grown(wb, news(w0, *w), k, ptext($odone.last().0), deep($done))
@pre
proof { wr = news(w0, *w); assert(deep($all)[$prev.len() as int].len() > 0); }
@post
proof { let n = w.runs().last(); assert(news(w0, *w) =~= wr.push(n)); assert(deep($done) =~= deep($prev).push($done.last()@));
  lemma_grown(wb, wr, n, ini, $odone.last().0, deep($prev), $done.last()@); lemma_shape(wr, n, config.program@, ini); lemma_envs(wr, n, env_texts(config.env_vars@)); lemma_pool($m0.workers@, base); }
@loop report
@inv
  C04_z: ($m0 == 0) <==> zeros($done)
@pre
proof { lemma_zeros($done); }
@loop plain
@before
proof { assert(deep(Seq::<Vec<String>>::empty()) =~= Seq::<Seq<String>>::empty()); assert($done =~= Seq::<Vec<String>>::empty()); lemma_grown_none(Seq::<Run>::empty(), k, ptext(*config.rootpath)); lemma_no_pool($m0.workers@, base); }
@inv
  kept: w.runs().len() == base + $m0.workers@.len() && w.runs().take(base) =~= w0.runs()
  C04_pool: pooled($m0.workers@, base)
  C04_shape: all_shaped(news(w0, *w), config.program@, ini)
  C13_env: all_env(news(w0, *w), env_texts(config.env_vars@))
  C04_grown: grown(Seq::<Run>::empty(), news(w0, *w), k, ptext(*config.rootpath), deep($done))
@pre
proof { wr = news(w0, *w); assert(deep($all)[$prev.len() as int].len() > 0); }
@post
proof { let n = w.runs().last(); assert(news(w0, *w) =~= wr.push(n)); assert(deep($done) =~= deep($prev).push($done.last()@));
  lemma_grown(Seq::<Run>::empty(), wr, n, ini, *config.rootpath, deep($prev), $done.last()@); lemma_shape(wr, n, config.program@, ini); lemma_envs(wr, n, env_texts(config.env_vars@)); lemma_pool($m0.workers@, base); }
@after
proof { lemma_all(news(w0, *w), k, *config.rootpath, test_nodes@, deep($all)); }
@loop report
@inv
  C04_z: ($m0 == 0) <==> zeros($done)
@pre
proof { lemma_zeros($done); }
