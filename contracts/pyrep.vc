@unit pyrep
@source python/rtest/worker/runner.py
@prelude core py pypath
@include class TestResult
@include class TestCase
@opt typemap Path => PyPath
@opt pytype TestCase.test_class => Option<Obj>
@opt attr w __name__ => String
@opt pyprop parent => p_parent
@opt pyfn .resolve => p_resolve -> PyPath
@opt pyfn .relative_to => ! p_rel -> PyPath
@opt pyconst sys.path => sys_path(w)
@opt pyfn sys.path.insert => w sys_path_insert
@opt pyfn sys.path.append => w sys_path_append
@opt pyfn sys.modules.pop => w modules_pop
@opt pyfn .mkdir => !w f_mkdir drop parents exist_ok
@opt pyfn .write => w f_write
@opt pywith .open => !f_open f_close -> File
@opt pyfn traceback.format_exc => format_exc -> String
@opt pyfn asdict => as_dict
@opt pyfn json.dumps => json_text -> String
@opt effect run_tests _run_single_test _import_module_from_file _discover_tests_in_module
@spec
// what the user's code can see and change
pub struct Hist { pub code: int, pub path: Seq<String> }
#[verifier::external_body] pub struct World { x: u8 }
impl World { pub uninterp spec fn hist(&self) -> Hist; pub uninterp spec fn files(&self) -> Map<PyPath, Seq<char>>; }
#[verifier::external_body] pub fn sys_path(w: &mut World) -> (r: PyList<String>) ensures *final(w) == *old(w), r@ == old(w).hist().path { unimplemented!() }
#[verifier::external_body] pub fn sys_path_insert(i: Int, x: String, w: &mut World)
  ensures final(w).files() == old(w).files(), final(w).hist().code == old(w).hist().code, final(w).hist().path.contains(x), forall|y: String| old(w).hist().path.contains(y) ==> #[trigger] final(w).hist().path.contains(y) { unimplemented!() }
#[verifier::external_body] pub fn sys_path_append(x: String, w: &mut World)
  ensures final(w).files() == old(w).files(), final(w).hist().code == old(w).hist().code, final(w).hist().path.contains(x), forall|y: String| old(w).hist().path.contains(y) ==> #[trigger] final(w).hist().path.contains(y) { unimplemented!() }
#[verifier::external_body] pub fn modules_pop(n: String, d: Val, w: &mut World) ensures final(w).files() == old(w).files() { unimplemented!() }
pub uninterp spec fn can_mkdir(p: PyPath) -> bool;
pub uninterp spec fn can_write(p: PyPath) -> bool;
pub struct File { pub p: PyPath }
impl PyPath { #[verifier::external_body] pub fn f_mkdir(&self, w: &mut World) -> (r: Result<(), Exc>) ensures final(w).files() == old(w).files(), can_mkdir(*self) ==> r is Ok { unimplemented!() } }
#[verifier::external_body] pub fn f_open(p: PyPath, mode: String, w: &mut World) -> (r: Result<File, Exc>)
  ensures can_write(p) ==> r is Ok, r is Ok ==> (r->Ok_0).p == p, r is Ok && mode@ == "w"@ ==> final(w).files() == old(w).files().insert(p, Seq::empty()) { unimplemented!() }
impl File { #[verifier::external_body] pub fn f_write(&self, t: String, w: &mut World) ensures final(w).files() == old(w).files().insert(self.p, old(w).files()[self.p] + t@) { unimplemented!() } }
#[verifier::external_body] pub fn f_close(f: File, w: &mut World) ensures *final(w) == *old(w) { unimplemented!() }
#[verifier::external_body] pub fn format_exc() -> (r: String) { unimplemented!() }
pub uninterp spec fn dict_of_result(x: TestResult) -> PyDict<String, Val>;
#[verifier::external_body] pub fn as_dict(x: TestResult) -> (r: PyDict<String, Val>) ensures r == dict_of_result(x) { unimplemented!() }
pub uninterp spec fn json_of(d: PyDict<String, Val>) -> Seq<char>;
#[verifier::external_body] pub fn json_text(d: PyDict<String, Val>) -> (r: String) ensures r@ == json_of(d) { unimplemented!() }
// importing a file, discovering its tests and running a test: each takes the state it starts in to a result and a state
pub uninterp spec fn import_res(h: Hist, p: PyPath, root: PyPath) -> Result<Obj, Exc>;
pub uninterp spec fn import_to(h: Hist, p: PyPath, root: PyPath) -> Hist;
pub uninterp spec fn disc_res(h: Hist, m: Obj, p: PyPath, root: PyPath, pc: Seq<String>, pf: Seq<String>) -> Result<PyList<TestCase>, Exc>;
pub uninterp spec fn disc_to(h: Hist, m: Obj, p: PyPath, root: PyPath, pc: Seq<String>, pf: Seq<String>) -> Hist;
pub uninterp spec fn run_res(h: Hist, t: TestCase) -> Result<TestResult, Exc>;
pub uninterp spec fn run_to(h: Hist, t: TestCase) -> Hist;
#[verifier::external_body] pub proof fn ax_class_name() ensures forall|c: Obj, h: Hist| is_class(c) ==> (#[trigger] at___name__(Val::Obj(c), h)) is Some && at___name__(Val::Obj(c), h) == class_name(c) { unimplemented!() }
pub uninterp spec fn class_name(c: Obj) -> Option<String>;
// ---- what the report must be
pub struct Job { pub root: PyPath, pub pc: Seq<String>, pub pf: Seq<String> }
// what one file yields: its test cases, or the class of the exception that ended its import
pub open spec fn file_res(h: Hist, p: PyPath, j: Job) -> (Hist, Result<Seq<TestCase>, Obj>) {
  let (f, r) = (path_resolved(p), path_resolved(j.root)); let h1 = import_to(h, f, r);
  match import_res(h, f, r) {
    Err(e) => (h1, Err(e.cls)),
    Ok(m) => if at___name__(Val::Obj(m), h1) is None { (h1, Err(named("AttributeError"@))) } else {
      (disc_to(h1, m, p, j.root, j.pc, j.pf), match disc_res(h1, m, p, j.root, j.pc, j.pf) { Err(e) => Err(e.cls), Ok(l) => Ok(l@) }) } } }
#[verifier::opaque] pub open spec fn files_to(h: Hist, fs: Seq<PyPath>, j: Job) -> Hist decreases fs.len() { if fs.len() == 0 { h } else { file_res(files_to(h, fs.drop_last(), j), fs.last(), j).0 } }
#[verifier::opaque] pub open spec fn found(h: Hist, fs: Seq<PyPath>, j: Job) -> Seq<TestCase> decreases fs.len() {
  if fs.len() == 0 { Seq::empty() } else { found(h, fs.drop_last(), j) + (match file_res(files_to(h, fs.drop_last(), j), fs.last(), j).1 { Ok(l) => l, Err(_) => Seq::empty() }) } }
#[verifier::opaque] pub open spec fn failed(h: Hist, fs: Seq<PyPath>, j: Job) -> Seq<(PyPath, Obj)> decreases fs.len() {
  if fs.len() == 0 { Seq::empty() } else { match file_res(files_to(h, fs.drop_last(), j), fs.last(), j).1 { Ok(l) => failed(h, fs.drop_last(), j), Err(c) => failed(h, fs.drop_last(), j).push((fs.last(), c)) } } }
pub proof fn lem_files(h: Hist, fs: Seq<PyPath>, x: PyPath, j: Job)
  ensures files_to(h, fs.push(x), j) == file_res(files_to(h, fs, j), x, j).0,
    found(h, fs.push(x), j) == found(h, fs, j) + (match file_res(files_to(h, fs, j), x, j).1 { Ok(l) => l, Err(_) => Seq::empty() }),
    failed(h, fs.push(x), j) == (match file_res(files_to(h, fs, j), x, j).1 { Ok(l) => failed(h, fs, j), Err(c) => failed(h, fs, j).push((x, c)) }),
{ reveal(files_to); reveal(found); reveal(failed); assert(fs.push(x).drop_last() =~= fs); }
pub proof fn lem_files0(h: Hist, j: Job) ensures files_to(h, Seq::empty(), j) == h, found(h, Seq::empty(), j) == Seq::<TestCase>::empty(), failed(h, Seq::empty(), j) == Seq::<(PyPath, Obj)>::empty() { reveal(files_to); reveal(found); reveal(failed); }
// sorted by node id, equal ids in their order
pub uninterp spec fn by_id(s: Seq<TestCase>) -> Seq<TestCase>;
#[verifier::external_body] pub proof fn ax_by_id(s: Seq<TestCase>) ensures by_id(s).to_multiset() == s.to_multiset(), texts_sorted(by_id(s).map_values(|t: TestCase| t.nodeid@)) { unimplemented!() }
impl PyList<TestCase> { #[verifier::external_body] pub fn py_sort_by_nodeid(&mut self) ensures *final(self) == pl(by_id(old(self)@)) { unimplemented!() } }
#[verifier::opaque] pub open spec fn runs_to(h: Hist, ts: Seq<TestCase>) -> Hist decreases ts.len() { if ts.len() == 0 { h } else { run_to(runs_to(h, ts.drop_last()), ts.last()) } }
pub proof fn lem_runs(h: Hist, ts: Seq<TestCase>, x: TestCase) ensures runs_to(h, ts.push(x)) == run_to(runs_to(h, ts), x) { reveal(runs_to); assert(ts.push(x).drop_last() =~= ts); }
pub proof fn lem_runs0(h: Hist) ensures runs_to(h, Seq::empty()) == h { reveal(runs_to); }
pub broadcast proof fn lem_contains_push<T>(s: Seq<T>, x: T, y: T) ensures (#[trigger] s.push(x).contains(y)) == (s.contains(y) || x == y) {
  if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
  if x == y { assert(s.push(x)[s.len() as int] == y); }
  if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } } }
pub open spec fn error_row(r: TestResult, f: (PyPath, Obj), root: PyPath) -> bool {
  r.nodeid@ == rel_text(f.0, root) + "::IMPORT_ERROR"@ && r.outcome@ == "error"@ && r.error is Some && r.error_type == class_name(f.1) }
pub open spec fn error_rows(rs: Seq<TestResult>, fs: Seq<(PyPath, Obj)>, root: PyPath) -> bool { rs.len() == fs.len() && forall|i: int| 0 <= i < rs.len() ==> error_row(#[trigger] rs[i], fs[i], root) }
pub open spec fn test_rows(rs: Seq<TestResult>, ts: Seq<TestCase>, h: Hist) -> bool { rs.len() == ts.len() && forall|i: int| 0 <= i < rs.len() ==> run_res(runs_to(h, ts.subrange(0, i)), #[trigger] ts[i]) == Ok::<TestResult, Exc>(rs[i]) }
pub open spec fn bad(r: TestResult) -> bool { r.outcome@ == "failed"@ || r.outcome@ == "error"@ }
pub open spec fn any_bad(rs: Seq<TestResult>) -> bool { exists|i: int| 0 <= i < rs.len() && bad(#[trigger] rs[i]) }
#[verifier::opaque] pub open spec fn rows_text(rs: Seq<TestResult>) -> Seq<char> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { rows_text(rs.drop_last()) + json_of(dict_of_result(rs.last())) + seq!['\n'] } }
pub proof fn lem_rows0() ensures rows_text(Seq::empty()) == Seq::<char>::empty() { reveal(rows_text); }
pub proof fn lem_rows(rs: Seq<TestResult>, x: TestResult) ensures rows_text(rs.push(x)) == rows_text(rs) + json_of(dict_of_result(x)) + seq!['\n'] { reveal(rows_text); assert(rs.push(x).drop_last() =~= rs); }
// the root and the directory of every test file can be imported from
pub open spec fn paths_ready(p: Seq<String>, fs: Seq<PyPath>, j: Job) -> bool {
  p.contains(mk(path_resolved(j.root).t@)) && forall|i: int| 0 <= i < fs.len() ==> p.contains(mk(path_resolved(path_parent(#[trigger] fs[i])).t@)) }
// h: the state the imports start in
pub open spec fn is_report(rs: Seq<TestResult>, fs: Seq<PyPath>, j: Job, h: Hist) -> bool {
  let n = failed(h, fs, j).len() as int;
  n <= rs.len() && error_rows(rs.subrange(0, n), failed(h, fs, j), j.root) && test_rows(rs.subrange(n, rs.len() as int), by_id(found(h, fs, j)), files_to(h, fs, j)) }
pub open spec fn or_default(p: Option<PyList<String>>, d: Seq<char>) -> Seq<String> { match p { Some(l) => l@, None => seq![mk(d)] } }

@assume _import_module_from_file(file_path, root)
@ensures
  import: r == import_res(old(w).hist(), file_path, root) && final(w).hist() == import_to(old(w).hist(), file_path, root) && final(w).files() == old(w).files()

@assume _discover_tests_in_module(module, file_path, root, python_classes, python_functions)
@ensures
  discover: r == disc_res(old(w).hist(), module, file_path, root, python_classes@, python_functions@) && final(w).hist() == disc_to(old(w).hist(), module, file_path, root, python_classes@, python_functions@) && final(w).files() == old(w).files()

@assume _run_single_test(test_case)
@ensures
  run: r == run_res(old(w).hist(), test_case) && final(w).hist() == run_to(old(w).hist(), test_case) && final(w).files() == old(w).files()
  interrupt: r is Err ==> isa(r->Err_0, "KeyboardInterrupt"@)

@fn run_tests(root, output_file, test_files, python_classes, python_functions)
@requires
  io: can_mkdir(path_parent(output_file)) && can_write(output_file)
@ensures
  C19_completes: r is Err ==> isa(r->Err_0, "KeyboardInterrupt"@)
  C19_report: r is Ok ==> exists|rs: Seq<TestResult>, h: Hist| #[trigger] rows_text(rs) == final(w).files()[output_file] && h.code == old(w).hist().code && paths_ready(h.path, test_files@, Job { root: root, pc: or_default(python_classes, "Test*"@), pf: or_default(python_functions, "test*"@) })
    && #[trigger] is_report(rs, test_files@, Job { root: root, pc: or_default(python_classes, "Test*"@), pf: or_default(python_functions, "test*"@) }, h) && (r->Ok_0)@ == (if any_bad(rs) { 1int } else { 0int })
@entry
let ghost job = Job { root: root, pc: or_default(python_classes, "Test*"@), pf: or_default(python_functions, "test*"@) };
let ghost dirs = test_files@.map_values(|p: PyPath| mk(path_resolved(path_parent(p)).t@));
broadcast use {ax_exc_cls, ax_exc, lem_contains_push};
proof { ax_hier(); ax_class_name(); assert("\n"@ =~= seq!['\n']); }
@loop dirs
@inv
  all: $all == test_files@ && forall|x: String| (#[trigger] $acc@.contains(x)) == dirs.take($done.len() as int).contains(x)
@pre
proof { assert(dirs.take($done.len() as int) =~= dirs.take($prev.len() as int).push(dirs[$prev.len() as int])); }
@after
proof { assert(dirs.take($all.len() as int) =~= dirs); }
@loop path
@inv
  same: w.files() == old(w).files() && w.hist().code == old(w).hist().code
  C19_root: w.hist().path.contains(mk(path_resolved(root).t@))
  C19_dirs: forall|x: String| $done.contains(x) ==> #[trigger] w.hist().path.contains(x)
@after
proof { assert forall|i: int| 0 <= i < test_files@.len() implies w.hist().path.contains(mk(path_resolved(path_parent(#[trigger] test_files@[i])).t@)) by { assert(dirs[i] == mk(path_resolved(path_parent(test_files@[i])).t@)); assert(dirs.contains(dirs[i])); assert($all.contains(dirs[i])); } }
@loop imports
@before
let ghost h1 = w.hist();
proof { assert($done =~= Seq::<PyPath>::empty()); lem_files0(h1, job); assert(paths_ready(h1.path, test_files@, job)); }
@inv
  pats: $m0 == Some(pl(job.pc)) && $m1 == Some(pl(job.pf)) && $all == test_files@ && w.files() == old(w).files()
  h: w.hist() == files_to(h1, $done, job)
  C19_found: $m2@ =~= found(h1, $done, job)
  C19_errors: error_rows($m3@, failed(h1, $done, job), root)
@ens
  end: $done =~= $all
@pre
proof { lem_files(h1, $prev, $done.last(), job); }
@loop runs
@before
let ghost hr = files_to(h1, test_files@, job); let ghost nf = failed(h1, test_files@, job).len() as int;
proof { assert($done =~= Seq::<TestCase>::empty()); lem_runs0(hr); assert($m0@.subrange(0, nf) =~= $m0@); assert($m0@.subrange(nf, nf) =~= Seq::<TestResult>::empty()); }
@inv
  all: $all == by_id(found(h1, test_files@, job)) && w.files() == old(w).files() && w.hist() == runs_to(files_to(h1, test_files@, job), $done)
  rows: $m0@.len() == failed(h1, test_files@, job).len() + $done.len() && error_rows($m0@.subrange(0, failed(h1, test_files@, job).len() as int), failed(h1, test_files@, job), root)
  C19_tests: test_rows($m0@.subrange(failed(h1, test_files@, job).len() as int, $m0@.len() as int), $done, files_to(h1, test_files@, job))
@pre
proof { lem_runs(hr, $prev, $done.last()); assert(forall|i: int| 0 <= i <= $prev.len() ==> $done.subrange(0, i) =~= $prev.subrange(0, i)); }
let ghost m_prev = $m0@;
@post
proof { assert($m0@.subrange(0, nf) =~= m_prev.subrange(0, nf)); assert($m0@.subrange(nf, $m0@.len() as int) =~= m_prev.subrange(nf, m_prev.len() as int).push($m0@.last())); }
@loop unload
@inv
  files: w.files() == old(w).files()
@loop write
@before
proof { assert($done =~= Seq::<TestResult>::empty()); lem_rows0(); }
@inv
  C19_written: w.files()[output_file] == rows_text($done)
@after
proof { assert(is_report($all, test_files@, job, h1)); }
@pre
proof { lem_rows($prev, $done.last()); }
@loop bad
@inv
  none: forall|i: int| 0 <= i < $done.len() ==> !bad(#[trigger] $done[i]) || $acc
@ens
  any: $acc == any_bad($all)
