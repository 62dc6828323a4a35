@unit globs
@source src/collection/utils.rs
@prelude core maps seqs globs
@spec

@fn glob_match(pattern, text)->r
@ensures
  glob: r == sp_glob(pattern@, text@)
@entry
proof { let p = pattern@; lemma_ends(p); lemma_u8(p); ax_glob(seq![], text@); assert(seq![] + star() =~= star());
  if p.len() > 0 { assert(p.skip(p.len() - 1) =~= seq![p.last()]); assert(p.take(1) =~= seq![p[0]]); assert(p.take(p.len() - 1) =~= p.drop_last());
    assert(star()[0] == '*'); assert(p.skip(p.len() - 1)[0] == p.last()); assert(p.take(1)[0] == p[0]);
    if p.last() == '*' { assert(seq![p.last()] =~= star()); } if p[0] == '*' { assert(seq![p[0]] =~= star()); } if p.len() == 1 && p[0] == '*' { assert(p =~= star()); } }
  assert(p == text@ <==> *pattern == *text) by { if p == text@ { assert(*pattern == *text); } } }

