@unit executor
@source src/pytest_executor.rs
@prelude core maps seqs paths proc
@opt effect .output .status execute_tests
@spec
broadcast use {vstd::seq_lib::group_seq_properties};
pub open spec fn rootdir_args(d: Option<&PathBuf>) -> Seq<Seq<char>> { match d { Some(p) => seq!["--rootdir"@, ptext(*p)], None => Seq::empty() } }
pub open spec fn same_run(a: Run, b: Run) -> bool { a.prog == b.prog && a.args =~= b.args && a.cwd == b.cwd && a.env =~= b.env }
// zero is only ever the status of a process that ended with zero
pub open spec fn ended_with(n: int, r: i32) -> bool { match outcome(n) { Some(o) => match o.status.code() { Some(c) => r == c, None => r != 0 }, None => r != 0 } }

@fn execute_tests(program, initial_args, test_nodes, pytest_args, working_dir, env_vars)
@ensures
  C05_command: final(w).runs().len() == old(w).runs().len() + 1 && final(w).runs().drop_last() == old(w).runs() && same_run(final(w).runs().last(), Run { prog: program@, args: texts(initial_args@) + rootdir_args(working_dir) + texts(test_nodes@) + texts(pytest_args@), cwd: match working_dir { Some(p) => Some(ptext(*p)), None => None }, env: env_texts(env_vars@) })
  C13_env: final(w).runs().len() == old(w).runs().len() + 1 && final(w).runs().last().env =~= env_texts(env_vars@)
  C05_status: ended_with(old(w).runs().len() as int, r)
@loop items
@inv
  e: added($m0@, $i0@, $done)
