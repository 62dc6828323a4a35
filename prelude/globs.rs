// ---- prelude/globs.rs : the glob crate (trusted contract): which patterns are well formed and what they match ----
verus! {
pub uninterp spec fn glob_ok(pat: Seq<char>) -> bool;
pub uninterp spec fn glob_m(pat: Seq<char>, name: Seq<char>) -> bool;
pub open spec fn wild(c: char) -> bool { c == '*' || c == '?' || c == '[' || c == ']' }
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !wild(#[trigger] s[i]) }
pub open spec fn star() -> Seq<char> { seq!['*'] }
pub struct Pattern { pub text: Ghost<Seq<char>> }
pub struct PatternError { pub x: u8 }
impl Pattern {
  #[verifier::external_body] pub fn new(p: &String) -> (r: Result<Pattern, PatternError>) ensures match r { Ok(g) => glob_ok(p@) && g.text@ == p@, Err(_) => !glob_ok(p@) } { unimplemented!() }
  #[verifier::external_body] pub fn matches(&self, t: &String) -> (r: bool) requires glob_ok(self.text@) ensures r == glob_m(self.text@, t@) { unimplemented!() } }
// a text without wildcards matches itself only; a star matches any text, the empty one included
#[verifier::external_body] pub proof fn ax_glob(p: Seq<char>, n: Seq<char>)
  requires plain(p)
  ensures glob_ok(p), glob_m(p, n) == (n == p), glob_ok(p + star()), glob_m(p + star(), n) == has_prefix(n, p), glob_ok(star() + p), glob_m(star() + p, n) == has_suffix(n, p),
     p.len() > 0 ==> glob_ok(star() + p + star()) && glob_m(star() + p + star(), n) == (find(n, p) >= 0) { unimplemented!() }
// what a name pattern selects: glob matching; a pattern which is no glob is taken apart at a leading or trailing star
pub open spec fn sp_glob(pat: Seq<char>, name: Seq<char>) -> bool {
  if glob_ok(pat) { glob_m(pat, name) }
  else if pat.len() > 1 && pat[0] == '*' && pat.last() == '*' { find(name, pat.subrange(1, pat.len() - 1)) >= 0 }
  else if pat.len() > 0 && pat[0] == '*' { has_suffix(name, pat.skip(1)) }
  else if pat.len() > 0 && pat.last() == '*' { has_prefix(name, pat.drop_last()) }
  else { pat == name } }
pub open spec fn any_glob(ps: Seq<String>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < ps.len() && sp_glob((#[trigger] ps[i])@, n) }
} // verus!
