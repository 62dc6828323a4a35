@unit main
@source src/pyo3.rs src/cli.rs src/utils.rs src/scheduler.rs src/worker.rs src/subproject.rs src/pytest_executor.rs src/native_runner.rs src/config.rs src/collection/error.rs src/collection/utils.rs src/collection_integration.rs src/runner.rs
@prelude core maps seqs paths proc globs
@opt typemap Self::Err => ParseDistributionModeError
@opt typemap Error => IoError
@opt effect execute_tests execute_tests_parallel execute_native handle_collection_error main_cli_with_args run_tests x_exit
@opt turbo extract
@include enum NumProcesses
@include enum Runner
@include struct Args
@include enum CollectionError
@include struct CollectionWarning
@include struct CollectionErrors
@include struct PytestRunner
@include const OK
@include const TESTS_FAILED
@include const USAGE_ERROR
@use options Args::get_num_processes Args::validate_dist determine_worker_count
@use config read_pytest_config
@use walk collect_test_files
@use native execute_native
@use group group_tests_by_subproject
@use reroot make_test_paths_relative
@use executor execute_tests
@use runner execute_tests_parallel
@use envs
@spec
// ---- what the run starts from: the command line, the directory, the Python that runs rtest
pub uninterp spec fn cmdline() -> Seq<Seq<char>>;
pub uninterp spec fn parsed_args(v: Seq<Seq<char>>) -> Args;      // clap's reading of the command line
pub uninterp spec fn cwd_now() -> Option<PathBuf>;
pub uninterp spec fn world0() -> World;
impl Args { #[verifier::external_body] pub fn parse_from(v: Vec<String>) -> (r: Args) ensures r == parsed_args(texts(v@)), texts(v@) =~= seq!["rtest"@] + cmdline() ==> r == opts() { unimplemented!() } }
pub mod env { use vstd::prelude::*; use super::*; #[verifier::external_body] pub fn current_dir() -> (r: Result<PathBuf, IoError>) ensures match r { Ok(p) => cwd_now() == Some(p), Err(_) => cwd_now() is None } { unimplemented!() } }
#[derive(Clone, Copy)] pub struct Python { pub x: u8 }
pub struct PyErr { pub x: u8 }
#[verifier::external_body] pub struct PyObj { x: core::marker::PhantomData<()> }
impl PyObj { pub uninterp spec fn at(&self) -> Seq<Seq<char>>; }
pub uninterp spec fn py_has(p: Seq<Seq<char>>) -> bool;
pub uninterp spec fn py_text(p: Seq<Seq<char>>) -> Option<Seq<char>>;
impl Python { #[verifier::external_body] pub fn import(&self, s: &String) -> (r: Result<PyObj, PyErr>) ensures r is Ok <==> py_has(seq![s@]), r is Ok ==> r->Ok_0.at() == seq![s@] { unimplemented!() } }
impl PyObj { #[verifier::external_body] pub fn getattr(&self, s: &String) -> (r: Result<PyObj, PyErr>) ensures r is Ok <==> py_has(self.at().push(s@)), r is Ok ==> r->Ok_0.at() == self.at().push(s@) { unimplemented!() }
  #[verifier::external_body] pub fn extract<T: FromPy>(&self) -> (r: Result<T, PyErr>) ensures match r { Ok(t) => py_text(self.at()) == Some(t.pt()), Err(_) => py_text(self.at()) is None } { unimplemented!() } }
pub trait FromPy: Sized { spec fn pt(&self) -> Seq<char>; }
impl FromPy for String { open spec fn pt(&self) -> Seq<char> { self@ } }
pub proof fn lemma_exe_at() ensures seq!["sys"@].push("executable"@) == exe_at() { assert(seq!["sys"@].push("executable"@) =~= exe_at()); }
pub open spec fn exe_at() -> Seq<Seq<char>> { seq!["sys"@, "executable"@] }
pub open spec fn python_exe() -> Seq<char> { if py_has(seq!["sys"@]) && py_has(exe_at()) && py_text(exe_at()) is Some { py_text(exe_at()).unwrap() } else { "python3"@ } }
// ---- what is collected (its content is property C25)
pub uninterp spec fn collected(root: PathBuf, args: Seq<String>) -> Result<(Vec<String>, CollectionErrors), CollectionError>;

// ---- ends of a run
pub open spec fn opts() -> Args { parsed_args(seq!["rtest"@] + cmdline()) }
pub open spec fn count_of(p: Option<NumProcesses>, m: Option<usize>) -> usize { match m { Some(m) => if m < desired(p) { m } else { desired(p) }, None => desired(p) } }
pub open spec fn pytest_args() -> Seq<Seq<char>> { seq!["-m"@, "pytest"@] }
pub open spec fn good_end0(n: int) -> bool { outcome(n) is Some && outcome(n).unwrap().status.code() == Some(0i32) }
pub open spec fn goods0(n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] good_end0(j) }
// the pytest processes: every collected test handed out, in the project directory it belongs to, with the requested environment
pub open spec fn handed_out(rs: Seq<Run>, root: PathBuf, tests: Seq<String>, env: Seq<(Seq<char>, Seq<char>)>) -> bool {
  all_shaped(rs, python_exe(), pytest_args()) && all_env(rs, env) && C04_sub(rs, 4, root, tests) }
pub open spec fn effective(o: Seq<Seq<char>>, d: Seq<Seq<char>>) -> Seq<Seq<char>> { if o.len() == 0 { d } else { o } }
// the native run starts from the paths collection started from
pub open spec fn starting(ps: Seq<String>, root: PathBuf, files: Seq<String>) -> bool {
  if files.len() > 0 { ps == files } else { let t = as_paths(listed(root, "testpaths"@)); ps.len() == t.len() && forall|i: int| 0 <= i < ps.len() ==> path_of((#[trigger] ps[i])@) == t[i]@ } }
pub open spec fn native_end(c: i32, rs: Seq<Run>, root: PathBuf, files: Seq<String>, n: usize) -> bool {
  exists|fs: Seq<PathBuf>, ps: Seq<String>, pats: Seq<String>| #[trigger] drawn(fs, candidates(root, ps, pats)) && fs.no_duplicates() && starting(ps, root, files)
    && txts(pats) =~= effective(listed(root, "python_files"@), seq!["test_*.py"@, "*_test.py"@]) && ended(c, rs, fs, n) }
pub open spec fn ended(c: i32, rs: Seq<Run>, fs: Seq<PathBuf>, n: usize) -> bool {
  if fs.len() == 0 { c == 0 && rs.len() == 0 } else if !tmp_ok(world0()) { c != 0 }
  else { commanded(rs) && given(fs, if n >= 1 { n } else { 1 }, rs) && exists|outs: Seq<PathBuf>| #[trigger] outs_of(rs, outs) && distinct(outs) && (c == 0 <==> all_fine(0, outs)) } }
// the workers are started by the Python that runs rtest, in the root, with the configured patterns
pub open spec fn commanded(rs: Seq<Run>) -> bool { exists|c: NativeRunnerConfig| #[trigger] all_configured(rs, c) && c.python_executable@ == python_exe() && cwd_now() == Some(c.root_path)
  && txts(c.python_classes@) =~= effective(listed(c.root_path, "python_classes"@), seq!["Test*"@]) && txts(c.python_functions@) =~= effective(listed(c.root_path, "python_functions"@), seq!["test*"@]) }
pub open spec fn one_by_one(a: Args, n: usize) -> bool { n == 1 || a.dist@ == "no"@ }
pub open spec fn executed(c: i32, rs: Seq<Run>, a: Args, root: PathBuf, tests: Seq<String>, n: usize) -> bool {
  match a.runner { Runner::Native => native_end(c, rs, root, a.files@, n),
    Runner::Pytest => handed_out(rs, root, tests, pairs(a.env@)) && (one_by_one(a, n) ==> rs.len() == homes(root, tests).len()) && (c == 0 <==> if one_by_one(a, n) { goods0(rs.len() as int) } else { goods(0, rs.len() as int) }) } }
pub open spec fn refused(e: CollectionError) -> i32 { if e is FileNotFound { 4 } else { 1 } }
// ---- the library entry point: whether it is the one in use, and its arguments
pub uninterp spec fn library() -> bool;
pub uninterp spec fn lib_args() -> Seq<String>;
pub open spec fn names_root(a: Seq<String>) -> bool { a.len() > 0 && !has_prefix(a[0]@, seq!['-']) && fs_exists(mkp(path_of(a[0]@))) }
pub open spec fn lib_root(a: Seq<String>) -> Option<PathBuf> { if names_root(a) { Some(mkp(path_of(a[0]@))) } else { cwd_now() } }
pub open spec fn lib_rest(a: Seq<String>) -> Seq<String> { if names_root(a) { a.skip(1) } else { a } }
pub open spec fn lib_run(root: PathBuf, tests: Seq<String>, rest: Seq<String>) -> Run { Run { prog: python_exe(), args: pytest_args() + seq!["--rootdir"@, ptext(root)] + texts(tests) + texts(rest), cwd: Some(ptext(root)), env: Seq::empty() } }
pub open spec fn lib_end(a: Seq<String>, w0: World, w1: World, r: i32) -> bool {
  match lib_root(a) { None => r == 1 && w1.runs() == w0.runs(), Some(root) => match collected(root, lib_rest(a)) { Err(_) => false,
    Ok((tests, errs)) => if errs.errors@.len() > 0 { r == 1 && w1.runs() == w0.runs() } else if tests@.len() == 0 { r == 0 && w1.runs() == w0.runs() }
      else { w1.runs().len() == w0.runs().len() + 1 && w1.runs().drop_last() == w0.runs() && same_run(w1.runs().last(), lib_run(root, tests@, lib_rest(a))) && (r == 0 <==> good_end0(w0.runs().len() as int)) } } } }
pub open spec fn lib_exit(c: i32, w: World) -> bool { w.runs() == world0().runs() && match lib_root(lib_args()) { None => false, Some(root) => match collected(root, lib_rest(lib_args())) { Err(e) => c == refused(e), Ok(_) => false } } }
pub open spec fn may_exit(c: i32, w: World) -> bool { if library() { lib_exit(c, w) } else { cli_exit(c, w) } }
#[verifier::opaque]
pub open spec fn cli_exit(c: i32, w: World) -> bool {
  let a = opts(); let rs = news(world0(), w);
  if !is_mode(a.dist@) || requested(a.numprocesses) is None || cwd_now() is None { c == 1 && rs.len() == 0 }
  else { let root = cwd_now().unwrap(); match collected(root, a.files@) {
    Err(e) => c == refused(e) && rs.len() == 0,
    Ok((tests, errs)) => if errs.errors@.len() > 0 { c == 1 && rs.len() == 0 } else if tests@.len() == 0 || a.collect_only { c == 0 && rs.len() == 0 }
      else { executed(c, rs, a, root, tests@, count_of(requested(a.numprocesses).unwrap(), a.maxprocesses)) } } } }
#[verifier::external_body] pub fn x_exit(c: i32, w: &mut World) -> ! requires may_exit(c, *old(w)), ensures false { unimplemented!() }

pub proof fn lemma_home_some(root: PathBuf, ids: Seq<String>, d: PathBuf) requires homes(root, ids).contains(d) ensures of_home(root, ids, d).len() > 0 decreases ids.len()
{ if ids.len() > 0 && home(root, ids.last()@) != d { lemma_home_some(root, ids.drop_last(), d); } }

pub open spec fn mks(v: Seq<Seq<char>>) -> Seq<String> { v.map_values(|t: Seq<char>| mk(t)) }
pub broadcast proof fn bl_handed_over(n: Run, p: Seq<char>, a: Seq<Seq<char>>, d: Seq<Seq<char>>, b: Seq<String>, c: Seq<String>, cwd: Option<Seq<char>>, env: Seq<(Seq<char>, Seq<char>)>)
  requires #[trigger] same_run(n, Run { prog: p, args: a + d + texts(b) + texts(c), cwd, env }), a.len() == 2, d.len() == 2, c.len() == 0
  ensures mks(n.args.skip(4)) == b, n.args =~= a + d + texts(b)
{ assert(n.args.skip(4) =~= texts(b)); assert(mks(texts(b)) =~= b) by { assert forall|i: int| 0 <= i < b.len() implies mk(#[trigger] texts(b)[i]) == b[i] by {} } }
pub broadcast proof fn bl_no_args(v: Vec<String>) ensures v@.len() == 0 ==> (#[trigger] v@) == Seq::<String>::empty() { if v@.len() == 0 { assert(v@ =~= Seq::<String>::empty()); } }
pub broadcast proof fn bl_no_runs(a: World, b: World) requires a.runs() == b.runs() ensures (#[trigger] news(a, b)).len() == 0 {}
pub proof fn lemma_whole(adj: Seq<String>) ensures C01_partition(adj, Seq::<Seq<String>>::empty().push(adj)) { let b = Seq::<Seq<String>>::empty().push(adj);
  assert forall|x: String| #[trigger] tot(b, x) == cnt(adj, x) by { assert(b.drop_last() =~= Seq::<Seq<String>>::empty()); assert(tot(Seq::<Seq<String>>::empty(), x) == 0); } }
pub proof fn lemma_enum(o: Seq<PathBuf>, d: Set<PathBuf>) requires enum_of(o, d) ensures d.len() == o.len() { o.unique_seq_to_set(); assert(o.to_set() =~= d); }
pub proof fn lemma_goods0(n: int) requires n >= 0 ensures goods0(n + 1) <==> goods0(n) && good_end0(n) { if goods0(n) && good_end0(n) { assert forall|j: int| 0 <= j < n + 1 implies #[trigger] good_end0(j) by {} } if goods0(n + 1) { assert(good_end0(n)); } }

@assume collect_tests_rust(rootpath, args)
@ensures
  named: r == collected(rootpath, args@)
@assume display_collection_results(test_nodes, errors)
@fn get_current_dir()
@ensures
  C26_cwd: match r { Ok(p) => cwd_now() == Some(p), Err(_) => cwd_now() is None }
@fn get_python_executable(py)
@ensures
  C26_exe: r@ == python_exe()
@entry
proof { lemma_exe_at(); }
@fn PytestRunner::from_current_python(py)
@ensures
  C26_program: r.program@ == python_exe() && texts(r.initial_args@) =~= pytest_args() && r.env_vars@.len() == 0
@entry
proof { lemma_exe_at(); }
@fn PytestRunner::from_current_python_with_env(py, env_vars)
@ensures
  C26_program: r.program@ == python_exe() && texts(r.initial_args@) =~= pytest_args()
  C13_pairs: texts2(r.env_vars@) =~= pairs(env_vars@)
@entry
proof { lemma_exe_at(); }
@loop options
@inv
  p: texts2($acc@) =~= pairs($done)
@fn default_python_files()
@ensures
  C26_files: txts(r@) =~= seq!["test_*.py"@, "*_test.py"@]
@fn default_python_classes()
@ensures
  C26_classes: txts(r@) =~= seq!["Test*"@]
@fn default_python_functions()
@ensures
  C26_functions: txts(r@) =~= seq!["test*"@]
@fn handle_collection_error(e)
@requires
  C26_error: forall|c: i32| c == refused(e) ==> may_exit(c, *old(w))
@fn main_cli_with_args(py, argv)
@requires
  start: !library() && texts(argv@) == cmdline() && *old(w) == world0() && old(w).runs().len() == 0 && old(w).pending() == Set::<int>::empty()
@ensures
  C26_ends: false
@entry
let ghost w0 = *w; let ghost env = pairs(opts().env@); let ghost mut wr: Seq<Run> = Seq::empty();
broadcast use {bl_handed_over, bl_no_runs};
proof { reveal(cli_exit); lemma_start(w0, python_exe(), pytest_args(), env); assert(news(w0, w0) =~= Seq::<Run>::empty()); }
@loop testpaths
@inv
  C26_starts: $acc@.len() == $done.len() && forall|i: int| 0 <= i < $acc@.len() ==> path_of((#[trigger] $acc@[i])@) == $done[i]@
@after
proof { assert($done =~= $all); }
@loop groups
@before
proof { lemma_apart($r_group_tests_by_subproject.order(), $r_group_tests_by_subproject@); lemma_served_none(4, cwd_now().unwrap()); assert($done =~= Seq::<(PathBuf, Vec<String>)>::empty()); }
@inv
  C26_all: $all == entries($r_group_tests_by_subproject.order(), $r_group_tests_by_subproject@)
  C26_apart: apart($all)
  C26_shape: all_shaped(news(w0, *w), python_exe(), pytest_args())
  C26_env: all_env(news(w0, *w), env)
  C26_served: all_served(news(w0, *w), 4, cwd_now().unwrap(), $done)
  C26_once: news(w0, *w).len() == $done.len()
  C26_code: $m0 == 0 <==> goods0(news(w0, *w).len() as int)
@pre
proof { wr = news(w0, *w); lemma_apart_take($all, $done.len() as int); assert($all.take($done.len() as int) =~= $done); lemma_grown_none(wr, 4, ptext($x.0));
  let o = $r_group_tests_by_subproject.order(); let i = $prev.len() as int; assert($all[i] == $x); assert(o[i] == $x.0); assert(o.contains($x.0)); lemma_home_some(cwd_now().unwrap(), collected(cwd_now().unwrap(), opts().files@)->Ok_0.0@, $x.0); }
@post
proof { let n = w.runs().last(); let adj = mks(n.args.skip(4)); assert(news(w0, *w) =~= wr.push(n)); assert($prev.push($x) =~= $done);
  lemma_grown(wr, wr, n, pytest_args(), $x.0, Seq::<Seq<String>>::empty(), adj); lemma_shape(wr, n, python_exe(), pytest_args()); lemma_envs(wr, n, env);
  lemma_whole(adj); lemma_served(wr, news(w0, *w), 4, cwd_now().unwrap(), $prev, $x, adj, Seq::<Seq<String>>::empty().push(adj)); lemma_goods0(wr.len() as int); }
@after
proof { lemma_enum($r_group_tests_by_subproject.order(), $r_group_tests_by_subproject@.dom()); lemma_sub(news(w0, *w), 4, cwd_now().unwrap(), collected(cwd_now().unwrap(), opts().files@)->Ok_0.0@, $r_group_tests_by_subproject.order(), $r_group_tests_by_subproject@); }

@fn run_tests(py, pytest_args)
@requires
  start: library() && *old(w) == world0() && lib_args() =~= (match pytest_args { Some(v) => v@, None => Seq::empty() })
@ensures
  C26_library: lib_end(lib_args(), *old(w), *final(w), r)
@entry
proof { match g_pytest_args { Some(v) => { assert(lib_args() == v@); }, None => { assert(lib_args() == Seq::<String>::empty()); } } }
broadcast use bl_no_args;
@loop rest
@inv
  C26_rest: $acc@ =~= $done
@after
proof { assert($done =~= $all); assert(lib_rest(lib_args()) =~= $acc@); }
