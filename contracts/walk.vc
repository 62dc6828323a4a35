@unit walk
@source src/native_runner.rs src/collection/utils.rs
@prelude core maps seqs paths globs
@use globs glob_match
@spec
broadcast use {bl_squeeze};
pub open spec fn hidden_name(n: Seq<char>) -> bool { has_prefix(n, seq!['.']) || n == "__pycache__"@ }
pub open spec fn py_name(n: Seq<char>) -> bool { last_dot(n) > 0 && n.skip(last_dot(n) + 1) == "py"@ }
pub open spec fn test_file(p: PathBuf, ps: Seq<String>) -> bool { has_name(p@) && py_name(p@.last()) && any_glob(ps, p@.last()) }
// an entry below the starting directory is hidden by its own name only
pub open spec fn visible(e: DirEntry) -> bool { e.at_depth() == 0 || !hidden_name(e.nm()) }
pub open spec fn reached(e: Result<DirEntry, WalkError>) -> bool { forall|i: int| 0 <= i < way(e).len() ==> visible(#[trigger] way(e)[i]) }
pub open spec fn wanted(e: Result<DirEntry, WalkError>, ps: Seq<String>) -> bool { e is Ok && reached(e) && e->Ok_0.ft().file && test_file(e->Ok_0.p(), ps) }
pub open spec fn found(es: Seq<Result<DirEntry, WalkError>>, ps: Seq<String>) -> Seq<PathBuf> decreases es.len() {
  if es.len() == 0 { Seq::empty() } else { let p = found(es.drop_last(), ps); if wanted(es.last(), ps) { p.push(es.last()->Ok_0.p()) } else { p } } }
pub open spec fn in_dir(d: PathBuf, ps: Seq<String>) -> Seq<PathBuf> { found(fs_walk(d), ps) }
pub open spec fn from_arg(root: PathBuf, a: Seq<char>, ps: Seq<String>) -> Seq<PathBuf> {
  let f = if is_abs(path_of(a)) { mkp(path_of(a)) } else { mkp(pjoin(root@, path_of(a))) };
  if fs_is_file(f) && test_file(f, ps) { seq![f] } else if fs_is_dir(f) { in_dir(f, ps) } else { Seq::empty() } }
pub open spec fn from_args(root: PathBuf, args: Seq<String>, ps: Seq<String>) -> Seq<PathBuf> decreases args.len() {
  if args.len() == 0 { Seq::empty() } else { from_args(root, args.drop_last(), ps) + from_arg(root, args.last()@, ps) } }
pub open spec fn candidates(root: PathBuf, args: Seq<String>, ps: Seq<String>) -> Seq<PathBuf> { if args.len() == 0 { in_dir(root, ps) } else { from_args(root, args, ps) } }
// every candidate, and nothing else, whatever the order
pub open spec fn drawn(fs: Seq<PathBuf>, c: Seq<PathBuf>) -> bool { forall|p: PathBuf| #[trigger] fs.contains(p) <==> c.contains(p) }

@fn is_hidden_or_ignored(name)
@ensures
  C11_hidden: r == hidden_name(name@)

@fn is_test_file(path, patterns)
@ensures
  C11_file: r == test_file(*path, patterns@)
@loop patterns
@inv
  none: forall|i: int| 0 <= i < $done.len() ==> !sp_glob((#[trigger] $done[i])@, path@.last())
@pre
proof { assert(patterns@[$done.len() - 1] == $done.last()); }

@fn collect_test_files_in_dir(dir, patterns)
@ensures
  C11_dir: r@ =~= in_dir(*dir, patterns@)
@loop walk
@inv
  f: $acc@ =~= found($done, patterns@)
@loop chain
@inv
  v: $acc ==> forall|i: int| 0 <= i < $done.len() ==> visible(#[trigger] $done[i])
@ens
  v: $acc == (forall|i: int| 0 <= i < $all.len() ==> visible(#[trigger] $all[i]))

@fn collect_test_files(root, paths, patterns)
@ensures
  C11_sorted: sorted_paths(r@)
  C11_once: r@.no_duplicates()
  C11_exact: drawn(r@, candidates(*root, paths@, patterns@))
@loop args
@inv
  c: $acc@ =~= from_args(*root, $done, patterns@)
@loop files
@inv
  c: $acc@ =~= from_args(*root, $oprev, patterns@) + $done
