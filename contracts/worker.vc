@unit worker
@source src/worker.rs
@prelude core maps seqs paths proc
@include struct WorkerResult
@include struct WorkerTask
@include struct WorkerPool
@include struct WorkerHandle
@opt sortkey worker_id => WorkerResult
@opt effect .output .status spawn_worker wait_for_all
@spec
broadcast use {vstd::seq_lib::group_seq_properties};
pub open spec fn dir_args(d: Option<PathBuf>) -> Seq<Seq<char>> { match d { Some(p) => seq!["--rootdir"@, ptext(p)], None => Seq::empty() } }
// the process a task asks for
pub open spec fn command_of(t: WorkerTask) -> Run { Run { prog: t.program@, args: texts(t.initial_args@) + dir_args(t.working_dir) + texts(t.tests@) + texts(t.pytest_args@),
  cwd: match t.working_dir { Some(p) => Some(ptext(p)), None => None }, env: env_texts(t.env_vars@) } }
pub open spec fn same_run(a: Run, b: Run) -> bool { a.prog == b.prog && a.args =~= b.args && a.cwd == b.cwd && a.env =~= b.env }
pub open spec fn code_of(n: int) -> i32 { match outcome(n) { Some(o) => match o.status.code() { Some(c) => c, None => -1i32 }, None => -1i32 } }
// the result of the n-th process, run by worker id
pub open spec fn result_of(r: WorkerResult, id: usize, n: int) -> bool { r.worker_id == id && r.exit_code == code_of(n) && (outcome(n) is Some ==> r.stdout@ == lossy(outcome(n).unwrap().stdout@) && r.stderr@ == lossy(outcome(n).unwrap().stderr@)) }
pub open spec fn yields(r: WorkerResult, h: WorkerHandle) -> bool { if died(h.handle.run()) { r.worker_id == h.id && r.exit_code == -1 } else { r == h.handle.val() } }
pub open spec fn all_yield(rs: Seq<WorkerResult>, hs: Seq<WorkerHandle>) -> bool { rs.len() == hs.len() && forall|i: int| 0 <= i < rs.len() ==> yields(#[trigger] rs[i], hs[i]) }
pub open spec fn by_id(rs: Seq<WorkerResult>) -> bool { forall|i: int, j: int| 0 <= i < j < rs.len() ==> (#[trigger] rs[i]).worker_id <= (#[trigger] rs[j]).worker_id }
pub open spec fn same_items(a: Seq<WorkerResult>, b: Seq<WorkerResult>) -> bool { a.to_multiset() == b.to_multiset() && a.len() == b.len() }

@fn WorkerPool::new()
@ensures
  C05_empty: r.workers@.len() == 0

@fn WorkerPool::spawn_worker(task)
@ensures
  C05_command: final(w).runs().len() == old(w).runs().len() + 1 && final(w).runs().drop_last() == old(w).runs() && same_run(final(w).runs().last(), command_of(task))
  C13_env: final(w).runs().len() == old(w).runs().len() + 1 && final(w).runs().last().env =~= env_texts(task.env_vars@)
  C05_kept: final(self).workers@.len() == old(self).workers@.len() + 1 && final(self).workers@.drop_last() =~= old(self).workers@
  C05_result: final(self).workers@.last().id == task.worker_id && final(self).workers@.last().handle.run() == old(w).runs().len() && result_of(final(self).workers@.last().handle.val(), task.worker_id, old(w).runs().len() as int)
@loop first
@inv
  a: added($m0@, $i0@, $done)
@loop second
@inv
  a: added($m0@, $i0@, $done)
@loop third
@inv
  a: added($m0@, $i0@, $done)
@loop fourth
@inv
  a: added($m0@, $i0@, $done)

@fn WorkerPool::wait_for_all()
@ensures
  C05_sorted: by_id(r@)
  C05_each: exists|raw: Seq<WorkerResult>| #[trigger] same_items(r@, raw) && all_yield(raw, self.workers@)
  frame: final(w).runs() == old(w).runs()
@entry
let ghost mut raw: Seq<WorkerResult> = Seq::empty();
@loop join
@inv
  y: all_yield($m0@, $done) && raw == $m0@
  frame: w.runs() == old(w).runs()
@post
proof { raw = $m0@; }
@exit
proof { assert(same_items(r@, raw)); }
