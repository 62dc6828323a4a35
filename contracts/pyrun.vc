@unit pyrun
@source python/rtest/worker/runner.py
@prelude core py
@include class TestResult
@include class TestCase
@opt attr w setup_method => Obj
@opt attr w setUp => Obj
@opt attr w teardown_method => Obj
@opt attr w tearDown => Obj
@opt attr __name__ => String
@opt pyfn io.StringIO => w sio_new -> Buf
@opt pyfn time.perf_counter => perf_counter -> Fl
@opt pyfn traceback.format_exc => format_exc -> String
@opt pyfn .getvalue => w sio_value -> String
@opt pywith contextlib.redirect_stdout => redir_out unredir_out
@opt pywith contextlib.redirect_stderr => redir_err unredir_err
@opt pyspecial call getattr_dyn getattr_w
@opt typemap Callable[..., object] => Val
@opt pytype TestCase.test_class => Option<Obj>
@opt effect _run_single_test
@spec
// what the test's own code did, in order: calls of its functions and classes and look-ups on its objects, each with
// the text it wrote to standard output and error
pub enum What { Call(Val, Map<String, Val>), Look(Val, Seq<char>) }
pub struct Ev { pub what: What, pub otext: Seq<char>, pub etext: Seq<char>, pub res: Result<Val, Exc> }
pub struct Hist { pub ev: Seq<Ev> }
// the installed stream buffers, the buffers made so far and what they hold
pub struct Streams { pub out: int, pub err: int, pub bufs: Set<int>, pub text: Map<int, Seq<char>> }
pub open spec fn wrote(s: Streams, b: int, t: Seq<char>) -> Streams { Streams { text: s.text.insert(b, s.text[b] + t), ..s } }
#[verifier::external_body] pub struct World { x: u8 }
impl World { pub uninterp spec fn hist(&self) -> Hist; pub uninterp spec fn st(&self) -> Streams; }
pub struct Buf { pub id: Ghost<int> }
pub struct Saved { pub id: Ghost<int> }
#[verifier::external_body] pub fn sio_new(w: &mut World) -> (r: Buf)
  ensures final(w).hist() == old(w).hist(), !old(w).st().bufs.contains(r.id@), final(w).st() == (Streams { bufs: old(w).st().bufs.insert(r.id@), text: old(w).st().text.insert(r.id@, Seq::empty()), ..old(w).st() }) { unimplemented!() }
impl Buf { #[verifier::external_body] pub fn sio_value(&self, w: &mut World) -> (r: String) ensures *final(w) == *old(w), r@ == old(w).st().text[self.id@] { unimplemented!() } }
#[verifier::external_body] pub fn perf_counter() -> (r: Fl) { unimplemented!() }
#[verifier::external_body] pub fn format_exc() -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn redir_out(b: Buf, w: &mut World) -> (r: Saved) ensures final(w).hist() == old(w).hist(), final(w).st() == (Streams { out: b.id@, ..old(w).st() }), r.id@ == old(w).st().out { unimplemented!() }
#[verifier::external_body] pub fn redir_err(b: Buf, w: &mut World) -> (r: Saved) ensures final(w).hist() == old(w).hist(), final(w).st() == (Streams { err: b.id@, ..old(w).st() }), r.id@ == old(w).st().err { unimplemented!() }
#[verifier::external_body] pub fn unredir_out(h: Saved, w: &mut World) ensures final(w).hist() == old(w).hist(), final(w).st() == (Streams { out: h.id@, ..old(w).st() }) { unimplemented!() }
#[verifier::external_body] pub fn unredir_err(h: Saved, w: &mut World) ensures final(w).hist() == old(w).hist(), final(w).st() == (Streams { err: h.id@, ..old(w).st() }) { unimplemented!() }
pub open spec fn did(a: Hist, s: Streams, b: Hist, t: Streams, w: What, r: Result<Val, Exc>) -> bool {
  exists|e: Ev| #[trigger] a.ev.push(e) == b.ev && e.what == w && e.res == r && t == wrote(wrote(s, s.out, e.otext), s.err, e.etext) }
impl AsVal for Option<Obj> { open spec fn asval(&self) -> Val { match *self { Some(o) => Val::Obj(o), None => Val::None } } }
// running the test's own code: anything may come of it
#[verifier::external_body] pub fn call_val<F: AsVal>(f: &F, kw: PyDict<String, Val>, w: &mut World) -> (r: Result<Val, Exc>)
  ensures did(old(w).hist(), old(w).st(), final(w).hist(), final(w).st(), What::Call(f.asval(), kw@), r) { unimplemented!() }
#[verifier::external_body] pub fn getattr_dyn(o: Val, n: String, w: &mut World) -> (r: Result<Val, Exc>)
  ensures did(old(w).hist(), old(w).st(), final(w).hist(), final(w).st(), What::Look(o, n@), r) { unimplemented!() }

// ---- what running a test case means
pub open spec fn nokw() -> Map<String, Val> { Map::empty() }
pub open spec fn either(a: Option<Obj>, b: Option<Obj>) -> Option<Obj> { if a is Some && obj_truth(a->0) { a } else { b } }
pub open spec fn setup_of(i: Val, h: Hist) -> Option<Obj> { either(at_setup_method(i, h), at_setUp(i, h)) }
pub open spec fn teardown_of(i: Val, h: Hist) -> Option<Obj> { either(at_teardown_method(i, h), at_tearDown(i, h)) }
pub open spec fn case_method(t: TestCase) -> Seq<char> { if t.method_name is Some && (t.method_name->0)@.len() > 0 { (t.method_name->0)@ } else { (at___name__(Val::Obj(t.func))->0)@ } }
// (f: everything that has happened, the positions from n on being the test's doing)
pub open spec fn at(f: Seq<Ev>, k: int) -> Hist { Hist { ev: f.subrange(0, k) } }
// the tear-down of instance i ends the run, from position k on
pub open spec fn torn(f: Seq<Ev>, k: int, i: Val) -> bool {
  k <= f.len() && match teardown_of(i, at(f, k)) { Some(c) => f.len() == k + 1 && f[k].what == What::Call(Val::Obj(c), nokw()), None => f.len() == k } }
// body of the method test from position k on, then the tear-down
pub open spec fn bodied(t: TestCase, f: Seq<Ev>, k: int, i: Val) -> bool {
  k < f.len() && f[k].what == What::Look(i, case_method(t)) && match f[k].res {
      Err(x) => torn(f, k + 1, i),
      Ok(m) => k + 1 < f.len() && f[k + 1].what == What::Call(m, t.kwargs@) && torn(f, k + 2, i) } }
pub open spec fn method_run(t: TestCase, f: Seq<Ev>, n: int) -> bool {
  f.len() >= n + 1 && f[n].what == What::Call(Val::Obj(t.test_class->0), nokw()) && match f[n].res {
    Err(x) => f.len() == n + 1,
    Ok(i) => match setup_of(i, at(f, n + 1)) {
      None => bodied(t, f, n + 1, i),
      Some(c) => f.len() >= n + 2 && f[n + 1].what == What::Call(Val::Obj(c), nokw()) && (if f[n + 1].res is Err { f.len() == n + 2 } else { bodied(t, f, n + 2, i) }) } } }
pub open spec fn func_run(t: TestCase, f: Seq<Ev>, n: int) -> bool { f.len() == n + 1 && f[n].what == What::Call(Val::Obj(t.func), t.kwargs@) }
pub open spec fn case_run(t: TestCase, f: Seq<Ev>, n: int) -> bool { if t.test_class is Some { method_run(t, f, n) } else { func_run(t, f, n) } }
// the texts written from position n on
#[verifier::opaque] pub open spec fn otexts(f: Seq<Ev>, n: int) -> Seq<char> decreases f.len() { if f.len() <= n || f.len() == 0 { Seq::empty() } else { otexts(f.drop_last(), n) + f.last().otext } }
#[verifier::opaque] pub open spec fn etexts(f: Seq<Ev>, n: int) -> Seq<char> decreases f.len() { if f.len() <= n || f.len() == 0 { Seq::empty() } else { etexts(f.drop_last(), n) + f.last().etext } }
// the exception that ends the run: the last one raised from position n on
#[verifier::opaque] pub open spec fn last_exc(f: Seq<Ev>, n: int) -> Option<Exc> decreases f.len() { if f.len() <= n || f.len() == 0 { None } else { match f.last().res { Err(e) => Some(e), Ok(_) => last_exc(f.drop_last(), n) } } }
pub open spec fn interrupted(x: Option<Exc>) -> bool { x is Some && isa(x->0, "KeyboardInterrupt"@) && !isa(x->0, "AssertionError"@) }
pub open spec fn outcome_of(r: TestResult, c: Obj) -> bool {
  r.outcome@ == (if subc(c, named("AssertionError"@)) { "failed"@ } else { "error"@ }) && r.error is Some && r.error_type == at___name__(Val::Obj(c)) && r.error_type is Some }
pub broadcast proof fn lem_pre(x: Seq<Ev>, e: Ev, m: int) ensures 0 <= m <= x.len() ==> #[trigger] x.push(e).subrange(0, m) == x.subrange(0, m) { if 0 <= m <= x.len() { assert(x.push(e).subrange(0, m) =~= x.subrange(0, m)); } }
pub broadcast proof fn lem_all(x: Seq<Ev>, m: int) ensures m == x.len() ==> #[trigger] x.subrange(0, m) == x { if m == x.len() { assert(x.subrange(0, m) =~= x); } }
pub broadcast proof fn lem_ot(x: Seq<Ev>, e: Ev, n: int) ensures 0 <= n ==> #[trigger] otexts(x.push(e), n) == (if n <= x.len() { otexts(x, n) + e.otext } else { Seq::empty() }) { reveal(otexts); assert(x.push(e).drop_last() =~= x); }
pub broadcast proof fn lem_et(x: Seq<Ev>, e: Ev, n: int) ensures 0 <= n ==> #[trigger] etexts(x.push(e), n) == (if n <= x.len() { etexts(x, n) + e.etext } else { Seq::empty() }) { reveal(etexts); assert(x.push(e).drop_last() =~= x); }
pub broadcast proof fn lem_le(x: Seq<Ev>, e: Ev, n: int) ensures 0 <= n <= x.len() ==> #[trigger] last_exc(x.push(e), n) == (match e.res { Err(y) => Some(y), Ok(_) => last_exc(x, n) }) { reveal(last_exc); assert(x.push(e).drop_last() =~= x); }
pub broadcast proof fn lem_ot0(x: Seq<Ev>, n: int) ensures x.len() <= n ==> #[trigger] otexts(x, n) == Seq::<char>::empty() { reveal(otexts); }
pub broadcast proof fn lem_et0(x: Seq<Ev>, n: int) ensures x.len() <= n ==> #[trigger] etexts(x, n) == Seq::<char>::empty() { reveal(etexts); }
pub broadcast proof fn lem_le0(x: Seq<Ev>, n: int) ensures x.len() <= n ==> #[trigger] last_exc(x, n) is None { reveal(last_exc); }
#[verifier::external_body] pub proof fn ax_class_name() ensures forall|c: Obj| is_class(c) ==> (#[trigger] at___name__(Val::Obj(c))) is Some { unimplemented!() }

@fn _run_single_test(test_case)
@requires
  world: old(w).st().bufs.contains(old(w).st().out) && old(w).st().bufs.contains(old(w).st().err)
  func: at___name__(Val::Obj(test_case.func)) is Some
@ensures
  C18_skipped: test_case.skip ==> r is Ok && *final(w) == *old(w) && (r->Ok_0).outcome@ == "skipped"@ && (r->Ok_0).error == (if test_case.skip_reason@.len() > 0 { Some(pd(Map::<String, String>::empty().insert(mk("reason"@), test_case.skip_reason))) } else { None::<PyDict<String, String>> })
  C18_prefix: final(w).hist().ev.len() >= old(w).hist().ev.len() && final(w).hist().ev.subrange(0, old(w).hist().ev.len() as int) =~= old(w).hist().ev
  C18_steps: !test_case.skip ==> case_run(test_case, final(w).hist().ev, old(w).hist().ev.len() as int)
  C18_passed: !test_case.skip && last_exc(final(w).hist().ev, old(w).hist().ev.len() as int) is None ==> r is Ok && (r->Ok_0).outcome@ == "passed"@ && (r->Ok_0).error is None && (r->Ok_0).error_type is None
  C18_raised: !test_case.skip && r is Ok && last_exc(final(w).hist().ev, old(w).hist().ev.len() as int) is Some ==> outcome_of(r->Ok_0, (last_exc(final(w).hist().ev, old(w).hist().ev.len() as int)->0).cls)
  C18_interrupt: r is Err <==> !test_case.skip && interrupted(last_exc(final(w).hist().ev, old(w).hist().ev.len() as int))
  C18_outcomes: r is Ok ==> (r->Ok_0).outcome@ == "passed"@ || (r->Ok_0).outcome@ == "failed"@ || (r->Ok_0).outcome@ == "error"@ || (r->Ok_0).outcome@ == "skipped"@
  C18_id: r is Ok ==> (r->Ok_0).nodeid == test_case.nodeid
  C18_captured: r is Ok ==> (r->Ok_0).stdout@ == otexts(final(w).hist().ev, old(w).hist().ev.len() as int) && (r->Ok_0).stderr@ == etexts(final(w).hist().ev, old(w).hist().ev.len() as int)
  C18_private: final(w).st().out == old(w).st().out && final(w).st().err == old(w).st().err && forall|b: int| old(w).st().bufs.contains(b) ==> #[trigger] final(w).st().bufs.contains(b) && final(w).st().text[b] == old(w).st().text[b]
@entry
broadcast use {lem_pre, lem_all, lem_ot, lem_et, lem_le, lem_le0, lem_ot0, lem_et0, ax_exc_cls, ax_exc};
proof { ax_hier(); ax_class_name(); }
