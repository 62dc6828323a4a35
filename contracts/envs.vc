@unit envs
@source src/runner.rs
@prelude core maps seqs
@include struct PytestRunner
@spec
broadcast use {vstd::seq_lib::group_seq_properties, bl_find};
// where the first '=' is
pub open spec fn eq_at(s: Seq<char>) -> int { find(s, seq!['=']) }
pub open spec fn pairs(o: Seq<String>) -> Seq<(Seq<char>, Seq<char>)> decreases o.len() {
  if o.len() == 0 { Seq::empty() } else { let p = pairs(o.drop_last()); let s = o.last()@; if eq_at(s) >= 0 { p.push((s.take(eq_at(s)), s.skip(eq_at(s) + 1))) } else { p } } }
pub open spec fn texts2(e: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { e.map_values(|p: (String, String)| (p.0@, p.1@)) }

@fn PytestRunner::new(env_vars)
@ensures
  C13_pairs: texts2(r.env_vars@) =~= pairs(env_vars@)
@loop options
@inv
  p: texts2($acc@) =~= pairs($done)
