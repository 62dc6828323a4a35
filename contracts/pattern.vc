@unit pattern
@source src/python_discovery/pattern.rs src/python_discovery/visitor.rs src/python_discovery/semantic_analyzer.rs src/python_discovery/discovery.rs src/collection/utils.rs src/collection/error.rs
@prelude core maps seqs paths globs ast
@use imports
@use globs glob_match
@opt typemap Error => IoError
@spec
// of the visitor, the part the name tests look at
pub struct TestDiscoveryVisitor { pub config: TestDiscoveryConfig }

@fn matches(pattern, name)->r
@ensures
  C23_match: r == sp_glob(pattern@, name@)
  C23_equal: plain(pattern@) ==> r == (pattern@ == name@)
  C23_prefix: pattern@.len() > 0 && pattern@.last() == '*' && plain(pattern@.drop_last()) ==> r == has_prefix(name@, pattern@.drop_last())
  C23_suffix: pattern@.len() > 0 && pattern@[0] == '*' && plain(pattern@.skip(1)) ==> r == has_suffix(name@, pattern@.skip(1))
  C23_within: pattern@.len() > 2 && pattern@[0] == '*' && pattern@.last() == '*' && plain(pattern@.subrange(1, pattern@.len() - 1)) ==> r == (find(name@, pattern@.subrange(1, pattern@.len() - 1)) >= 0)
@entry
proof { let p = pattern@; if plain(p) { ax_glob(p, name@); }
  if p.len() > 0 && plain(p.drop_last()) { ax_glob(p.drop_last(), name@); if p.last() == '*' { assert(p.drop_last() + star() =~= p); } }
  if p.len() > 0 && plain(p.skip(1)) { ax_glob(p.skip(1), name@); if p[0] == '*' { assert(star() + p.skip(1) =~= p); } }
  if p.len() > 2 && plain(p.subrange(1, p.len() - 1)) { let q = p.subrange(1, p.len() - 1); ax_glob(q, name@); if p[0] == '*' && p.last() == '*' { assert(star() + q + star() =~= p); } } }

@fn TestDiscoveryVisitor::is_test_function(name)->r
@ensures
  C23_function: r == any_glob(self.config.python_functions@, name@)
@loop patterns
@inv
  none: forall|i: int| 0 <= i < $done.len() ==> !sp_glob((#[trigger] $done[i])@, name@)

@fn TestDiscoveryVisitor::is_test_class(name)->r
@ensures
  C23_class: r == any_glob(self.config.python_classes@, name@)
@loop patterns
@inv
  none: forall|i: int| 0 <= i < $done.len() ==> !sp_glob((#[trigger] $done[i])@, name@)

@fn SemanticTestDiscovery::is_test_function(name)->r
@ensures
  C23_function: r == any_glob(self.config.python_functions@, name@)
@loop patterns
@inv
  none: forall|i: int| 0 <= i < $done.len() ==> !sp_glob((#[trigger] $done[i])@, name@)

@fn SemanticTestDiscovery::is_test_class(name)->r
@ensures
  C23_class: r == any_glob(self.config.python_classes@, name@)
@loop patterns
@inv
  none: forall|i: int| 0 <= i < $done.len() ==> !sp_glob((#[trigger] $done[i])@, name@)
