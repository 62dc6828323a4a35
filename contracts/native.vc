@unit native
@source src/native_runner.rs
@prelude core maps seqs paths proc
@use shard shard_files
@use tally aggregate_results
@include struct NativeRunnerConfig
@opt effect .output .status TempDir::with_prefix run_worker parse_results_file execute_native
@spec
broadcast use {vstd::seq_lib::group_seq_properties};
// ---- reports (C09)
pub uninterp spec fn json_result(t: Seq<char>) -> Option<TestResult>;
pub mod serde_json { use vstd::prelude::*; use super::*;
  #[verifier::external_body] pub struct Error { x: core::marker::PhantomData<()> }
  #[verifier::external_body] pub fn from_str(s: &String) -> (r: Result<TestResult, Error>)
    ensures match r { Ok(v) => json_result(s@) == Some(v), Err(_) => json_result(s@) is None } { unimplemented!() } }
impl Disp for serde_json::Error { uninterp spec fn disp(&self) -> Seq<char>;
  #[verifier::external_body] fn x_disp(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }
pub open spec fn blank(t: Seq<char>) -> bool { sp_trim(t).len() == 0 }
pub open spec fn line_ok(l: Result<String, IoError>) -> bool { l is Ok && (blank(l->Ok_0@) || json_result(l->Ok_0@) is Some) }
pub open spec fn all_lines_ok(ls: Seq<Result<String, IoError>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> line_ok(#[trigger] ls[i]) }
pub open spec fn parsed(ls: Seq<Result<String, IoError>>) -> Seq<TestResult> decreases ls.len() {
  if ls.len() == 0 { Seq::empty() } else { let l = ls.last(); let p = parsed(ls.drop_last());
    if l is Ok && !blank(l->Ok_0@) && json_result(l->Ok_0@) is Some { p.push(json_result(l->Ok_0@).unwrap()) } else { p } } }
// the file at p is a readable report
pub open spec fn readable(p: PathBuf) -> bool { fs_lines(p) is Some && all_lines_ok(fs_lines(p).unwrap()) }
pub open spec fn report(p: PathBuf) -> Seq<TestResult> { parsed(fs_lines(p).unwrap()) }

// ---- worker processes (C08, C10)
pub open spec fn good_end(n: int) -> bool { outcome(n) is Some && (outcome(n).unwrap().status.code() == Some(0i32) || outcome(n).unwrap().status.code() == Some(1i32)) }
pub broadcast proof fn bl_out_push(a: Seq<Seq<char>>, y: Seq<char>, out: PathBuf)
  ensures #[trigger] gives_out(a.push(y), out) == (gives_out(a, out) || (a.len() > 0 && a.last() == "--out"@ && y == ptext(out)))
{ let b = a.push(y);
  if gives_out(a, out) { let i = choose|i: int| 0 <= i < a.len() - 1 && a[i] == "--out"@ && #[trigger] a[i + 1] == ptext(out); assert(b[i] == a[i] && b[i + 1] == a[i + 1]); }
  if a.len() > 0 && a.last() == "--out"@ && y == ptext(out) { let i = a.len() - 1; assert(b[i] == a[i] && b[i + 1] == y); }
  if gives_out(b, out) { let i = choose|i: int| 0 <= i < b.len() - 1 && b[i] == "--out"@ && #[trigger] b[i + 1] == ptext(out); if i + 1 < a.len() { assert(a[i] == b[i] && a[i + 1] == b[i + 1]); } } }
pub broadcast proof fn bl_out_cat(a: Seq<Seq<char>>, y: Seq<Seq<char>>, out: PathBuf)
  ensures gives_out(a, out) ==> #[trigger] gives_out(a + y, out)
{ let b = a + y; if gives_out(a, out) { let i = choose|i: int| 0 <= i < a.len() - 1 && a[i] == "--out"@ && #[trigger] a[i + 1] == ptext(out); assert(b[i] == a[i] && b[i + 1] == a[i + 1]); } }
pub broadcast proof fn bl_files_push(a: Seq<Seq<char>>, f: Seq<PathBuf>, x: PathBuf)
  requires ends_with_files(a, f)
  ensures #[trigger] ends_with_files(a.push(ptext(x)), f.push(x))
{ let t = seq!["--"@] + file_texts(f); let u = seq!["--"@] + file_texts(f.push(x)); assert(u =~= t.push(ptext(x))); assert(a.push(ptext(x)).skip(a.len() + 1 - u.len()) =~= a.skip(a.len() - t.len()).push(ptext(x))); }
pub broadcast proof fn bl_files_none(a: Seq<Seq<char>>)
  ensures ends_with_files(#[trigger] a.push("--"@), Seq::<PathBuf>::empty())
{ let t = seq!["--"@] + file_texts(Seq::<PathBuf>::empty()); assert(t =~= seq!["--"@]); assert(a.push("--"@).skip(a.len() as int) =~= t); }
pub broadcast proof fn bl_files_cat(a: Seq<Seq<char>>, f: Seq<PathBuf>)
  ensures #[trigger] ends_with_files(a.push("--"@) + ptexts(f), f)
{ let t = seq!["--"@] + file_texts(f); let b = a.push("--"@) + file_texts(f); assert(b.skip(b.len() - t.len()) =~= t); }
pub open spec fn gives_out(a: Seq<Seq<char>>, out: PathBuf) -> bool { exists|i: int| 0 <= i < a.len() - 1 && a[i] == "--out"@ && #[trigger] a[i + 1] == ptext(out) }
pub open spec fn file_texts(f: Seq<PathBuf>) -> Seq<Seq<char>> { ptexts(f) }
pub open spec fn ends_with_files(a: Seq<Seq<char>>, f: Seq<PathBuf>) -> bool { let t = seq!["--"@] + file_texts(f); t.len() <= a.len() && a.skip(a.len() - t.len()) == t }
pub open spec fn runs_for(rs: Seq<Run>, b: Seq<Seq<PathBuf>>) -> bool { rs.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> ends_with_files((#[trigger] rs[i]).args, b[i]) }
pub open spec fn no_bad(s: Seq<TestResult>) -> bool { of_kind(s, 1).len() == 0 && of_kind(s, 2).len() == 0 }
pub open spec fn outs_of(rs: Seq<Run>, outs: Seq<PathBuf>) -> bool { rs.len() == outs.len() && forall|i: int| 0 <= i < outs.len() ==> gives_out((#[trigger] rs[i]).args, outs[i]) }
pub open spec fn distinct(outs: Seq<PathBuf>) -> bool { forall|i: int, j: int| 0 <= i < outs.len() && 0 <= j < outs.len() && (#[trigger] outs[i])@ == (#[trigger] outs[j])@ ==> i == j }
pub open spec fn worker_fine(n: int) -> bool { good_end(n) && !died(n) }
pub open spec fn news(w0: World, w1: World) -> Seq<Run> { w1.runs().skip(w0.runs().len() as int) }
pub open spec fn given(files: Seq<PathBuf>, n: usize, rs: Seq<Run>) -> bool { exists|b: Seq<Seq<PathBuf>>| #[trigger] runs_for(rs, b) && C08_partition(files, b) && C08_nonempty(b) && C08_order(files, b) && C08_even(b) && b.len() == nw(files, n) }
pub open spec fn out_name(i: int) -> Seq<char> { "worker-"@ + num_text(i) + ".jsonl"@ }
pub proof fn lemma_out_names(tmp: PathBuf, i: int, j: int)
  requires i >= 0, j >= 0, pjoin(tmp@, path_of(out_name(i))) == pjoin(tmp@, path_of(out_name(j)))
  ensures i == j
{ lemma_out_plain(i); lemma_out_plain(j);
  let a = out_name(i); let b = out_name(j);
  assert(pjoin(tmp@, seq![a]).last() == a); assert(pjoin(tmp@, seq![b]).last() == b);
  assert(a.len() == b.len()); let n = num_text(i).len(); reveal_strlit("worker-"); reveal_strlit(".jsonl"); assert(num_text(j).len() == n);
  assert(a.subrange(7, 7 + n as int) =~= num_text(i)); assert(b.subrange(7, 7 + n as int) =~= num_text(j)); ax_num_inj(i, j); }
pub proof fn lemma_out_plain(i: int)
  requires i >= 0
  ensures path_of(out_name(i)) == seq![out_name(i)], !is_abs(seq![out_name(i)]), nodot(seq![out_name(i)]) == seq![out_name(i)]
{ let a = out_name(i); reveal_strlit("worker-"); reveal_strlit(".jsonl"); ax_num_text(i); assert(a[0] == 'w'); assert(a.len() > 1);
  assert forall|k: int| 0 <= k < a.len() implies a[k] != '/' by { if k >= 7 && k < 7 + num_text(i).len() { assert(a[k] == num_text(i)[k - 7]); } }
  lemma_plain(a); }
pub open spec fn reports(outs: Seq<PathBuf>) -> Seq<Seq<TestResult>> { outs.map_values(|p: PathBuf| report(p)) }
pub open spec fn fines(base: int, n: int) -> bool decreases n { n <= 0 || (fines(base, n - 1) && worker_fine(base + n - 1)) }
pub open spec fn reads(s: Seq<PathBuf>) -> bool decreases s.len() { s.len() == 0 || (reads(s.drop_last()) && readable(s.last())) }
// every worker could be started, ended with an expected status and left a readable report, and no reported result is failed, in error or unknown
pub open spec fn all_fine(base: int, outs: Seq<PathBuf>) -> bool { fines(base, outs.len() as int) && reads(outs) && no_bad(flat(reports(outs))) }
pub proof fn lemma_reports_push(s: Seq<PathBuf>, x: PathBuf) ensures reports(s.push(x)) =~= reports(s).push(report(x)), reads(s.push(x)) == (reads(s) && readable(x))
{ assert(s.push(x).drop_last() =~= s); }
pub open spec fn firsts(s: Seq<(Vec<PathBuf>, PathBuf)>) -> Seq<Seq<PathBuf>> { s.map_values(|p: (Vec<PathBuf>, PathBuf)| p.0@) }
pub open spec fn seconds(s: Seq<(Vec<PathBuf>, PathBuf)>) -> Seq<PathBuf> { s.map_values(|p: (Vec<PathBuf>, PathBuf)| p.1) }
pub open spec fn run_gets(r: Run, p: (Vec<PathBuf>, PathBuf)) -> bool { ends_with_files(r.args, p.0@) && gives_out(r.args, p.1) }
pub proof fn lemma_given(w0: World, w1: World, ps: Seq<(Vec<PathBuf>, PathBuf)>, sh: Seq<Seq<PathBuf>>, outs: Seq<PathBuf>)
  requires w1.runs().len() == w0.runs().len() + ps.len(), forall|i: int| 0 <= i < ps.len() ==> run_gets(w1.runs()[w0.runs().len() + i], #[trigger] ps[i]), sh == firsts(ps), outs == seconds(ps)
  ensures runs_for(news(w0, w1), sh), outs_of(news(w0, w1), outs)
{ let rs = news(w0, w1);
  assert forall|i: int| 0 <= i < sh.len() implies ends_with_files((#[trigger] rs[i]).args, sh[i]) by { assert(run_gets(w1.runs()[w0.runs().len() + i], ps[i])); }
  assert forall|i: int| 0 <= i < outs.len() implies gives_out((#[trigger] rs[i]).args, outs[i]) by { assert(run_gets(w1.runs()[w0.runs().len() + i], ps[i])); } }
pub proof fn lemma_distinct(tmp: PathBuf, outs: Seq<PathBuf>)
  requires forall|i: int| 0 <= i < outs.len() ==> (#[trigger] outs[i])@ == pjoin(tmp@, path_of(out_name(i)))
  ensures distinct(outs)
{ assert forall|i: int, j: int| 0 <= i < outs.len() && 0 <= j < outs.len() && (#[trigger] outs[i])@ == (#[trigger] outs[j])@ implies i == j by { lemma_out_names(tmp, i, j); } }
pub open spec fn handled(hs: Seq<JoinHandle<Result<(), String>>>, base: int) -> bool { forall|i: int| 0 <= i < hs.len() ==> (#[trigger] hs[i]).run() == base + i && (hs[i].val() is Ok <==> good_end(base + i)) }

// ---- what a worker is asked to do, as the worker's own option parser reads its command line
pub struct Asked { pub module: Option<Seq<char>>, pub root: Option<Seq<char>>, pub out: Option<Seq<char>>, pub classes: Seq<Seq<char>>, pub functions: Seq<Seq<char>>, pub rest: Seq<Seq<char>>, pub cur: int }
pub open spec fn plain(x: Seq<char>) -> bool { x.len() == 0 || x[0] != '-' }
pub open spec fn all_plain(v: Seq<String>) -> bool { forall|i: int| 0 <= i < v.len() ==> plain((#[trigger] v[i])@) }
pub open spec fn take_word(c: Asked, x: Seq<char>) -> Asked {
  if c.cur == 7 { Asked { rest: c.rest.push(x), ..c } } else if x == "--"@ { Asked { cur: 7, ..c } } else if x == "-m"@ { Asked { cur: 1, ..c } } else if x == "--root"@ { Asked { cur: 2, ..c } } else if x == "--out"@ { Asked { cur: 3, ..c } }
  else if x == "--python-classes"@ { Asked { cur: 4, classes: Seq::empty(), ..c } } else if x == "--python-functions"@ { Asked { cur: 5, functions: Seq::empty(), ..c } }
  else if c.cur == 1 { Asked { module: Some(x), cur: 0, ..c } } else if c.cur == 2 { Asked { root: Some(x), cur: 0, ..c } } else if c.cur == 3 { Asked { out: Some(x), cur: 0, ..c } }
  else if c.cur == 4 { Asked { classes: c.classes.push(x), ..c } } else if c.cur == 5 { Asked { functions: c.functions.push(x), ..c } } else { Asked { rest: c.rest.push(x), ..c } } }
#[verifier::opaque]
pub open spec fn asked(a: Seq<Seq<char>>) -> Asked decreases a.len() {
  if a.len() == 0 { Asked { module: None, root: None, out: None, classes: Seq::empty(), functions: Seq::empty(), rest: Seq::empty(), cur: 0 } } else { take_word(asked(a.drop_last()), a.last()) } }
pub broadcast proof fn bl_asked_none(a: Seq<Seq<char>>) requires a.len() == 0 ensures #[trigger] asked(a) == (Asked { module: None, root: None, out: None, classes: Seq::empty(), functions: Seq::empty(), rest: Seq::empty(), cur: 0 }) { reveal(asked); }
pub broadcast proof fn bl_asked(a: Seq<Seq<char>>, x: Seq<char>) ensures #[trigger] asked(a.push(x)) == take_word(asked(a), x) { reveal(asked); assert(a.push(x).drop_last() =~= a); }
pub proof fn lemma_flags() ensures "--"@.len() == 2, "-m"@.len() == 2, "--root"@.len() == 6, "--out"@.len() == 5, "--python-classes"@.len() == 16, "--python-functions"@.len() == 18, "--"@ != "-m"@, !plain("--"@), !plain("-m"@), !plain("--root"@), !plain("--out"@), !plain("--python-classes"@), !plain("--python-functions"@), plain("rtest.worker"@)
{ reveal_strlit("--"); reveal_strlit("-m"); reveal_strlit("--root"); reveal_strlit("--out"); reveal_strlit("--python-classes"); reveal_strlit("--python-functions"); reveal_strlit("rtest.worker"); assert("--"@[1] == '-'); assert("-m"@[1] == 'm'); }
// a word that starts with '-' would be read as an option by the worker
pub open spec fn clear(root: PathBuf, out: PathBuf, cs: Seq<String>, fs: Seq<String>) -> bool { plain(ptext(root)) && plain(ptext(out)) && all_plain(cs) && all_plain(fs) }
pub open spec fn worker_asked(r: Run, python: Seq<char>, root: PathBuf, out: PathBuf, files: Seq<PathBuf>, cs: Seq<String>, fs: Seq<String>) -> bool {
  r.prog == python && r.cwd == Some(ptext(root)) && (clear(root, out, cs, fs) ==> ({ let c = asked(r.args); c.module == Some("rtest.worker"@) && c.root == Some(ptext(root)) && c.out == Some(ptext(out)) && c.classes =~= texts(cs) && c.functions =~= texts(fs) && c.rest =~= ptexts(files) })) }
pub open spec fn as_configured(r: Run, c: NativeRunnerConfig) -> bool { exists|out: PathBuf, files: Seq<PathBuf>| #[trigger] worker_asked(r, c.python_executable@, c.root_path, out, files, c.python_classes@, c.python_functions@) }
#[verifier::opaque]
pub open spec fn all_configured(rs: Seq<Run>, c: NativeRunnerConfig) -> bool { forall|i: int| 0 <= i < rs.len() ==> as_configured(#[trigger] rs[i], c) }
pub proof fn lemma_configured(rs: Seq<Run>, r: Run, c: NativeRunnerConfig) requires all_configured(rs, c), as_configured(r, c) ensures all_configured(rs.push(r), c) { reveal(all_configured); let t = rs.push(r); assert forall|i: int| 0 <= i < t.len() implies as_configured(#[trigger] t[i], c) by { if i < rs.len() { assert(t[i] == rs[i]); } } }
pub proof fn lemma_none_configured(rs: Seq<Run>, c: NativeRunnerConfig) requires rs.len() == 0 ensures all_configured(rs, c) { reveal(all_configured); }
pub open spec fn same_asked(a: Asked, b: Asked) -> bool { a.module == b.module && a.root == b.root && a.out == b.out && a.classes =~= b.classes && a.functions =~= b.functions && a.rest =~= b.rest && a.cur == b.cur }

@fn parse_results_file(path)
@requires
  C10_after: forall|k: int| #[trigger] w.pending().contains(k) && 0 <= k < w.runs().len() ==> !gives_out(w.runs()[k].args, *path)
@ensures
  C09_lines: match r { Ok(v) => readable(*path) && v@ =~= report(*path), Err(_) => !readable(*path) }
  frame: final(w).runs() == old(w).runs() && final(w).pending() == old(w).pending()
@loop lines
@inv
  p: $acc@ =~= parsed($done)
  ok: all_lines_ok($done)
  src: fs_lines(*path) == Some($all)
  frame: w.runs() == old(w).runs() && w.pending() == old(w).pending()
@pre
proof { assert(line_ok($all[$done.len() - 1]) || !readable(*path)); }

@fn run_worker(worker_id, python, root, output_file, files, python_classes, python_functions)
@ensures
  C10_status: r is Ok <==> good_end(old(w).runs().len() as int)
  C10_out: gives_out(final(w).runs().last().args, *output_file)
  C08_files: ends_with_files(final(w).runs().last().args, files@)
  C26_worker: worker_asked(final(w).runs().last(), python@, *root, *output_file, files@, python_classes@, python_functions@)
  one: final(w).runs().len() == old(w).runs().len() + 1 && final(w).runs().drop_last() == old(w).runs()
  pend: final(w).pending() == old(w).pending()
@loop classes
@inv
  out: gives_out($m0@.args, *output_file)
  prog: $m0@.prog == $i0@.prog && $m0@.cwd == $i0@.cwd
  C26_classes: clear(*root, *output_file, python_classes@, python_functions@) ==> same_asked(asked($m0@.args), Asked { classes: texts($done), ..asked($i0@.args) })
@pre
proof { assert($all[$prev.len() as int] == $x); }
@loop functions
@inv
  out: gives_out($m0@.args, *output_file)
  prog: $m0@.prog == $i0@.prog && $m0@.cwd == $i0@.cwd
  C26_functions: clear(*root, *output_file, python_classes@, python_functions@) ==> same_asked(asked($m0@.args), Asked { functions: texts($done), ..asked($i0@.args) })
@pre
proof { assert($all[$prev.len() as int] == $x); }
@loop files
@inv
  out: gives_out($m0@.args, *output_file)
  files: ends_with_files($m0@.args, $done)
  prog: $m0@.prog == $i0@.prog && $m0@.cwd == $i0@.cwd
  C26_files: clear(*root, *output_file, python_classes@, python_functions@) ==> same_asked(asked($m0@.args), Asked { rest: ptexts($done), ..asked($i0@.args) })
@pre
proof { assert($prev.push($done.last()) =~= $done); bl_files_push($m0@.args, $prev, $done.last()); }
@entry
broadcast use {bl_out_push, bl_out_cat, bl_files_none, bl_files_cat, bl_asked, bl_asked_none};
proof { lemma_flags(); }

@assume print_summary(results)

@fn execute_native(config, test_files)
@requires
  start: w.pending() == Set::<int>::empty()
@ensures
  C10_none: test_files@.len() == 0 ==> r == 0 && final(w).runs() == old(w).runs()
  C10_tmp: test_files@.len() > 0 && !tmp_ok(*old(w)) ==> r != 0
  C10_status: test_files@.len() > 0 && tmp_ok(*old(w)) ==> exists|outs: Seq<PathBuf>| #[trigger] outs_of(news(*old(w), *final(w)), outs) && distinct(outs) && (r == 0 <==> all_fine(old(w).runs().len() as int, outs))
  C08_given: test_files@.len() > 0 && tmp_ok(*old(w)) ==> given(test_files@, if config.num_workers >= 1 { config.num_workers } else { 1 }, news(*old(w), *final(w)))
  C26_commands: test_files@.len() > 0 && tmp_ok(*old(w)) ==> all_configured(news(*old(w), *final(w)), *config)
@entry
let ghost w0 = *w; let ghost base = w.runs().len() as int; let ghost mut outs: Seq<PathBuf> = Seq::empty(); let ghost mut ps: Seq<(Vec<PathBuf>, PathBuf)> = Seq::empty(); let ghost tmp = tmp_dir(*w); let ghost mut wr = w.runs();
proof { lemma_no_files(test_files@); lemma_none_configured(news(w0, w0), *config); }
@loop outs
@inv
  outs: outs == $acc@ && $acc@.len() == $done.len()
  name: forall|i: int| 0 <= i < $acc@.len() ==> (#[trigger] $acc@[i])@ == pjoin(tmp@, path_of(out_name(i)))
@post
proof { outs = $acc@; }
@loop spawn
@inv
  n: w.runs().len() == base + $done.len() && $m0@.len() == $done.len() && w.runs().take(base) =~= w0.runs()
  sh: forall|i: int| 0 <= i < $done.len() ==> run_gets(w.runs()[base + i], #[trigger] $done[i])
  h: handled($m0@, base)
  pend: forall|k: int| #[trigger] w.pending().contains(k) ==> base <= k < base + $done.len()
  wr: wr == w.runs()
  C26_commands: all_configured(news(w0, *w), *config)
  ps: $done.len() > 0 ==> ps == $all
  all: firsts($all) =~= deep($r_shard_files@)
@pre
proof { ps = $all; }
@post
proof { assert(w.runs() =~= wr.push(w.runs().last())); assert(news(w0, *w) =~= wr.skip(base).push(w.runs().last())); lemma_configured(wr.skip(base), w.runs().last(), *config); assert(run_gets(w.runs()[base + $done.len() - 1], $done.last()));
  assert forall|i: int| 0 <= i < $done.len() implies run_gets(w.runs()[base + i], #[trigger] $done[i]) by { if i < $prev.len() { assert($done[i] == $prev[i]); assert(w.runs()[base + i] == wr[base + i]); } }
  wr = w.runs(); }
@loop join
@inv
  same: w.runs() == wr
  err: $m0@.len() == 0 <==> fines(base, $done.len() as int)
  pend: forall|k: int| #[trigger] w.pending().contains(k) ==> base + $done.len() <= k < base + $all.len()
@loop read
@inv
  err: $m0@.len() == 0 <==> fines(base, outs.len() as int) && reads($done)
  res: $m0@.len() == 0 ==> deep($m1@) =~= reports($done)
  frame: w.runs() == wr && w.pending() =~= Set::<int>::empty()
@pre
proof { assert($done =~= $prev.push($done.last())); lemma_reports_push($prev, $done.last()); }
@loop show
@exit
proof { if test_files@.len() > 0 && tmp_ok(w0) { assert(outs =~= seconds(ps)); lemma_given(w0, *w, ps, firsts(ps), outs); lemma_distinct(tmp, outs); } }
