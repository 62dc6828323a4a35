// ---- prelude/core.rs : contract-bearing shim of the std items the extracted code uses (trusted unless proved) ----
verus! {

// Strings: every text type of the source (String, str, OsStr, OsString) is this type; its view is the
// sequence of its characters.
pub struct String { pub s: Ghost<Seq<char>> }
pub type str = String;
pub type OsStr = String;
pub type OsString = String;
impl View for String { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }
pub open spec fn mk(s: Seq<char>) -> String { String { s: Ghost(s) } }

pub mod litmod {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn lit(s: &'static core::primitive::str) -> (r: &'static super::String)
        ensures r@ == s@
    { unimplemented!() }
}
pub use litmod::lit;

#[verifier::external_body]
pub fn x_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }

#[verifier::external_body]
pub fn x_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }

pub trait OptDeref<T>: Sized { spec fn opt(&self) -> Option<T>; fn x_as_deref<'a>(&'a self) -> (r: Option<&'a T>) ensures match r { Some(x) => self.opt() == Some(*x), None => self.opt() is None }; }
impl<T> OptDeref<T> for Option<T> { open spec fn opt(&self) -> Option<T> { *self } #[verifier::external_body] fn x_as_deref<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() } }
pub trait OrEmpty<T>: Sized { spec fn kept(&self) -> Option<Seq<T>>; fn x_unwrap_or_default(self) -> (r: Vec<T>) ensures match self.kept() { Some(x) => r@ == x, None => r@.len() == 0 }; }
impl<T> OrEmpty<T> for Option<Vec<T>> { open spec fn kept(&self) -> Option<Seq<T>> { match *self { Some(v) => Some(v@), None => None } } fn x_unwrap_or_default(self) -> (r: Vec<T>) { match self { Some(v) => v, None => Vec::new() } } }
impl<T, E> OrEmpty<T> for Result<Vec<T>, E> { open spec fn kept(&self) -> Option<Seq<T>> { match *self { Ok(v) => Some(v@), Err(_) => None } } fn x_unwrap_or_default(self) -> (r: Vec<T>) { match self { Ok(v) => v, Err(_) => Vec::new() } } }
pub trait AsSlice: Sized { fn x_as_slice(&self) -> (r: &Self) ensures *r == *self; }
impl<T> AsSlice for T { #[verifier::external_body] fn x_as_slice(&self) -> (r: &T) { unimplemented!() } }

pub trait Disp { spec fn disp(&self) -> Seq<char>; fn x_disp(&self) -> (r: String) ensures r@ == self.disp(); 
                 fn x_to_string(&self) -> (r: String) ensures r@ == self.disp(); }
impl Disp for String { open spec fn disp(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn x_disp(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn num_text(n: int) -> Seq<char>;
// decimal digits of a non-negative number; different numbers have different digits
#[verifier::external_body] pub proof fn ax_num_text(n: int) requires n >= 0 ensures num_text(n).len() >= 1, forall|i: int| 0 <= i < num_text(n).len() ==> '0' <= #[trigger] num_text(n)[i] <= '9' { unimplemented!() }
#[verifier::external_body] pub proof fn ax_num_inj(a: int, b: int) ensures num_text(a) == num_text(b) ==> a == b { unimplemented!() }
impl Disp for usize { open spec fn disp(&self) -> Seq<char> { num_text(*self as int) }
  #[verifier::external_body] fn x_disp(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }
impl Disp for i64 { open spec fn disp(&self) -> Seq<char> { num_text(*self as int) }
  #[verifier::external_body] fn x_disp(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }
impl Disp for i32 { open spec fn disp(&self) -> Seq<char> { num_text(*self as int) }
  #[verifier::external_body] fn x_disp(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }

pub uninterp spec fn float_text(n: f64) -> Seq<char>;
impl Disp for f64 { open spec fn disp(&self) -> Seq<char> { float_text(*self) }
  #[verifier::external_body] fn x_disp(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }

pub trait NumX: Sized { fn x_min(self, o: Self) -> (r: Self); fn x_max(self, o: Self) -> (r: Self); }
impl NumX for usize {
  fn x_min(self, o: usize) -> (r: usize) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } }
  fn x_max(self, o: usize) -> (r: usize) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } }
}
// -n; the smallest integer has no negation
pub trait NegX: Sized { spec fn neg_ok(&self) -> bool; spec fn neg_is(&self, r: Self) -> bool; fn x_neg_(self) -> (r: Self) requires self.neg_ok() ensures self.neg_is(r); }
impl NegX for i64 { open spec fn neg_ok(&self) -> bool { *self != i64::MIN } open spec fn neg_is(&self, r: i64) -> bool { r == -*self } #[verifier::external_body] fn x_neg_(self) -> (r: i64) { unimplemented!() } }
impl NegX for i32 { open spec fn neg_ok(&self) -> bool { *self != i32::MIN } open spec fn neg_is(&self, r: i32) -> bool { r == -*self } #[verifier::external_body] fn x_neg_(self) -> (r: i32) { unimplemented!() } }
impl NegX for f64 { open spec fn neg_ok(&self) -> bool { true } open spec fn neg_is(&self, r: f64) -> bool { true } #[verifier::external_body] fn x_neg_(self) -> (r: f64) { unimplemented!() } }
pub fn x_neg<T: NegX>(a: T) -> (r: T) requires a.neg_ok() ensures a.neg_is(r) { a.x_neg_() }
pub uninterp spec fn sp_fadd(a: f64, b: f64) -> f64;
#[verifier::external_body] pub fn f_add(a: f64, b: f64) -> (r: f64) ensures r == sp_fadd(a, b) { unimplemented!() }
#[verifier::external_body] pub fn f_sub(a: f64, b: f64) -> (r: f64) { unimplemented!() }
#[verifier::external_body] pub fn f_mul(a: f64, b: f64) -> (r: f64) { unimplemented!() }
#[verifier::external_body] pub fn f_div(a: f64, b: f64) -> (r: f64) { unimplemented!() }
pub trait XClone: Sized { fn x_clone(&self) -> (r: Self) ensures r == *self;
   fn x_to_owned(&self) -> (r: Self) ensures r == *self; }
// conversion by into(): a text into a text, or what the unit says for its own types
pub trait IntoX<U>: Sized { spec fn into_is(&self, u: U) -> bool; fn x_into(self) -> (r: U) ensures self.into_is(r); }
impl<T> IntoX<T> for T { open spec fn into_is(&self, u: T) -> bool { u == *self } #[verifier::external_body] fn x_into(self) -> (r: T) { unimplemented!() } }
impl<'a> IntoX<String> for &'a String { open spec fn into_is(&self, u: String) -> bool { u == **self } #[verifier::external_body] fn x_into(self) -> (r: String) { unimplemented!() } }
impl<T> XClone for T {
  #[verifier::external_body] fn x_clone(&self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn x_to_owned(&self) -> (r: Self) { unimplemented!() }
}

impl String {
  #[verifier::external_body] pub fn new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn from(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
  #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
  #[verifier::external_body] pub fn x_push_str(&mut self, o: &String) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
  #[verifier::external_body] pub fn x_as_str(&self) -> (r: &String) ensures r == self { unimplemented!() }
  #[verifier::external_body] pub fn x_into_owned(self) -> (r: String) ensures r == self { unimplemented!() }
  #[verifier::external_body] pub fn x_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn it_split<'a, P: Pat>(&'a self, p: P) -> (r: ItRef<'a, String>)
     ensures r@ == split_strs(self@, p.pat()), 1 <= r@.len() <= usize::MAX { unimplemented!() }
  #[verifier::external_body] pub fn split_once<P: Pat>(&self, p: P) -> (r: Option<(&String, &String)>)
     ensures match r { Some((a, b)) => find(self@, p.pat()) >= 0 && a@ == self@.take(find(self@, p.pat()))
                                       && b@ == self@.skip(find(self@, p.pat()) + p.pat().len()),
                       None => find(self@, p.pat()) < 0 } { unimplemented!() }
  #[verifier::external_body] pub fn x_starts_with<P: Pat>(&self, p: P) -> (r: bool)
     ensures r == has_prefix(self@, p.pat()) { unimplemented!() }
  // byte offsets
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == u8len(self@), r <= isize::MAX, self@.len() <= r <= 4 * self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn find<P: Pat>(&self, p: P) -> (r: Option<usize>)
     ensures match r { Some(b) => find(self@, p.pat()) >= 0 && found_at(self@, p.pat(), find(self@, p.pat()), b as int), None => find(self@, p.pat()) < 0 } { unimplemented!() }
  #[verifier::external_body] pub fn rfind<P: Pat>(&self, p: P) -> (r: Option<usize>)
     ensures match r { Some(b) => rfind(self@, p.pat(), self@.len() as int) >= 0 && found_at(self@, p.pat(), rfind(self@, p.pat(), self@.len() as int), b as int), None => rfind(self@, p.pat(), self@.len() as int) < 0 } { unimplemented!() }
  #[verifier::external_body] pub fn x_slice(&self, a: usize, b: usize) -> (r: String) requires a <= b, char_at(self@, a as int) >= 0, char_at(self@, b as int) >= 0
     ensures r@ == self@.subrange(char_at(self@, a as int), char_at(self@, b as int)) { unimplemented!() }
  #[verifier::external_body] pub fn x_slice_to(&self, b: usize) -> (r: String) requires char_at(self@, b as int) >= 0 ensures r@ == self@.take(char_at(self@, b as int)) { unimplemented!() }
  #[verifier::external_body] pub fn x_slice_from(&self, a: usize) -> (r: String) requires char_at(self@, a as int) >= 0 ensures r@ == self@.skip(char_at(self@, a as int)) { unimplemented!() }
  #[verifier::external_body] pub fn x_ends_with<P: Pat>(&self, p: P) -> (r: bool)
     ensures r == has_suffix(self@, p.pat()) { unimplemented!() }
  #[verifier::external_body] pub fn x_contains<P: Pat>(&self, p: P) -> (r: bool)
     ensures r == (find(self@, p.pat()) >= 0) { unimplemented!() }
  #[verifier::external_body] pub fn strip_prefix<P: Pat>(&self, p: P) -> (r: Option<&String>)
     ensures match r { Some(x) => has_prefix(self@, p.pat()) && x@ == self@.skip(p.pat().len() as int), None => !has_prefix(self@, p.pat()) } { unimplemented!() }
  #[verifier::external_body] pub fn strip_suffix<P: Pat>(&self, p: P) -> (r: Option<&String>)
     ensures match r { Some(x) => has_suffix(self@, p.pat()) && x@ == self@.take(self@.len() - p.pat().len()), None => !has_suffix(self@, p.pat()) } { unimplemented!() }
}

// UTF-8 lengths, and the character at a byte offset (-1: not on a character boundary)
pub open spec fn clen(c: char) -> int { if c < '\u{80}' { 1 } else if c < '\u{800}' { 2 } else if c < '\u{10000}' { 3 } else { 4 } }
pub open spec fn u8len(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { u8len(s.drop_last()) + clen(s.last()) } }
pub open spec fn char_at(s: Seq<char>, b: int) -> int decreases s.len() { if b == u8len(s) { s.len() as int } else if s.len() == 0 { -1 } else { char_at(s.drop_last(), b) } }
pub open spec fn found_at(s: Seq<char>, p: Seq<char>, i: int, b: int) -> bool {
  char_at(s, b) == i && char_at(s, b + u8len(p)) == i + p.len() && b + u8len(p) <= isize::MAX && (forall|k: int| #![trigger s[i + k]] 0 <= k <= p.len() && (forall|j: int| 0 <= j < p.len() ==> p[j] < '\u{80}') ==> char_at(s, b + k) == i + k)
  && (p.len() == 1 && p[0] < '\u{80}' ==> char_at(s, b + 1) == i + 1) && (p.len() == 2 && p[0] < '\u{80}' && p[1] < '\u{80}' ==> char_at(s, b + 1) == i + 1 && char_at(s, b + 2) == i + 2) }
pub proof fn lemma_u8(s: Seq<char>) ensures u8len(s) >= s.len(), u8len(s) == 0 ==> s.len() == 0, char_at(s, u8len(s)) == s.len() decreases s.len() { if s.len() > 0 { lemma_u8(s.drop_last()); } }
// the boundaries next to one-byte characters at either end
pub proof fn lemma_ends(s: Seq<char>)
  ensures s.len() > 0 && s[0] < '\u{80}' ==> char_at(s, 1) == 1, s.len() > 0 && s.last() < '\u{80}' ==> char_at(s, u8len(s) - 1) == s.len() - 1, char_at(s, 0) == 0
  decreases s.len()
{ lemma_u8(s); if s.len() > 0 { let d = s.drop_last(); lemma_ends(d); lemma_u8(d); assert(char_at(d, u8len(d)) == d.len()); if s.len() > 1 { assert(s[0] == d[0]); } else { assert(d.len() == 0 && u8len(d) == 0); } } }
pub open spec fn rfind(s: Seq<char>, p: Seq<char>, i: int) -> int decreases i + 1 { if i < 0 { -1 } else if occurs_at(s, p, i) { i } else { rfind(s, p, i - 1) } }
// find(s, p): index of the first occurrence of p in s, or -1
pub open spec fn occurs_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn find_from(s: Seq<char>, p: Seq<char>, i: int) -> int decreases s.len() - i + 1 {
  if i < 0 || i > s.len() { -1 } else if occurs_at(s, p, i) { i } else { find_from(s, p, i + 1) }
}
pub open spec fn find(s: Seq<char>, p: Seq<char>) -> int { find_from(s, p, 0) }
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn has_suffix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub open spec fn split_strs(s: Seq<char>, p: Seq<char>) -> Seq<String> decreases s.len() {
  let i = find(s, p);
  if i < 0 || p.len() == 0 || i + p.len() > s.len() { seq![mk(s)] } else { seq![mk(s.take(i))] + split_strs(s.skip(i + p.len()), p) }
}
pub proof fn lemma_find(s: Seq<char>, p: Seq<char>, i: int)
  requires 0 <= i
  ensures find_from(s, p, i) >= 0 ==> find_from(s, p, i) >= i && occurs_at(s, p, find_from(s, p, i)),
          find_from(s, p, i) < 0 ==> find_from(s, p, i) == -1 && forall|j: int| i <= j ==> !occurs_at(s, p, j),
          find_from(s, p, i) >= 0 ==> forall|j: int| i <= j < find_from(s, p, i) ==> !occurs_at(s, p, j),
  decreases s.len() - i + 1
{ if i <= s.len() && !occurs_at(s, p, i) { lemma_find(s, p, i + 1); } }
pub broadcast proof fn bl_find(s: Seq<char>, p: Seq<char>)
  ensures (#[trigger] find(s, p)) >= 0 ==> occurs_at(s, p, find(s, p)), find(s, p) >= -1,
          find(s, p) < 0 ==> forall|j: int| !occurs_at(s, p, j)
{ lemma_find(s, p, 0); }

pub trait Pat: Sized { spec fn pat(&self) -> Seq<char>; }
impl Pat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl<'a> Pat for &'a String { open spec fn pat(&self) -> Seq<char> { (**self)@ } }

// Iterators: the view is the sequence of the items still to come.
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct It<T> { x: core::marker::PhantomData<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> It<T> {
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
    ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@,
                      Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1) }
  { unimplemented!() }
  #[verifier::external_body] pub fn x_rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { unimplemented!() }
  #[verifier::external_body] pub fn x_take(self, n: usize) -> (r: It<T>) ensures r@ == self@.take(if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
  #[verifier::external_body] pub fn x_skip(self, n: usize) -> (r: It<T>) ensures r@ == self@.skip(if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ItRef<'a, T> { x: core::marker::PhantomData<&'a T> }
impl<'a, T> View for ItRef<'a, T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<'a, T> ItRef<'a, T> {
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a T>)
    ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@,
                      Some(x) => old(self)@.len() > 0 && *x == old(self)@[0] && final(self)@ == old(self)@.skip(1) }
  { unimplemented!() }
  #[verifier::external_body] pub fn x_rev(self) -> (r: ItRef<'a, T>) ensures r@ == self@.reverse() { unimplemented!() }
  #[verifier::external_body] pub fn x_take(self, n: usize) -> (r: ItRef<'a, T>) ensures r@ == self@.take(if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
  #[verifier::external_body] pub fn x_skip(self, n: usize) -> (r: ItRef<'a, T>) ensures r@ == self@.skip(if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
}
pub open spec fn range_seq(a: int, b: int) -> Seq<usize> { Seq::new(if b > a { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) }
#[verifier::external_body] pub fn range_it(a: usize, b: usize) -> (r: It<usize>) ensures r@ == range_seq(a as int, b as int), r@.len() <= usize::MAX { unimplemented!() }

pub trait IntoItVec<T>: Sized { spec fn iseq(&self) -> Seq<T>; fn it_into_iter(self) -> (r: It<T>) ensures r@ == self.iseq(), r@.len() <= usize::MAX; }
impl<T> IntoItVec<T> for Vec<T> { open spec fn iseq(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn it_into_iter(self) -> (r: It<T>) { unimplemented!() } }
pub trait IntoItRef<'a, T>: Sized { spec fn irseq(&self) -> Seq<T>; fn it_into_iter(self) -> (r: ItRef<'a, T>) ensures r@ == self.irseq(), r@.len() <= usize::MAX; }
impl<'a, T> IntoItRef<'a, T> for &'a Vec<T> { open spec fn irseq(&self) -> Seq<T> { (**self)@ }
  #[verifier::external_body] fn it_into_iter(self) -> (r: ItRef<'a, T>) { unimplemented!() } }

pub trait VecX<T>: Sized {
  spec fn vseq(&self) -> Seq<T>;
  fn x_is_empty(&self) -> (r: bool) ensures r == (self.vseq().len() == 0);
  fn it_iter<'a>(&'a self) -> (r: ItRef<'a, T>) ensures r@ == self.vseq(), r@.len() <= usize::MAX;
  fn x_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vseq(), self.vis(r);
  spec fn vis(&self, r: Vec<T>) -> bool;
  fn x_extend(&mut self, o: Vec<T>) ensures final(self).vseq() == old(self).vseq() + o@;
  fn x_extend_from_slice(&mut self, o: &Vec<T>) ensures final(self).vseq() == old(self).vseq() + o@;
  fn x_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vseq().len() > 0 && *x == self.vseq()[0], None => self.vseq().len() == 0 };
  fn x_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vseq().len() > 0 && *x == self.vseq().last(), None => self.vseq().len() == 0 };
  fn split_last(&self) -> (r: Option<(&T, &Vec<T>)>) ensures match r { Some((x, v)) => self.vseq().len() > 0 && *x == self.vseq().last() && v@ == self.vseq().drop_last(), None => self.vseq().len() == 0 };
  fn split_first(&self) -> (r: Option<(&T, &Vec<T>)>) ensures match r { Some((x, v)) => self.vseq().len() > 0 && *x == self.vseq()[0] && v@ == self.vseq().skip(1), None => self.vseq().len() == 0 };
  fn x_get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self.vseq().len() && *x == self.vseq()[i as int], None => i >= self.vseq().len() };
  fn x_contains(&self, e: &T) -> (r: bool) ensures r == self.vseq().contains(*e);
  fn x_slice(&self, a: usize, b: usize) -> (r: Vec<T>) requires a <= b <= self.vseq().len() ensures r@ == self.vseq().subrange(a as int, b as int);
  fn x_slice_to(&self, b: usize) -> (r: Vec<T>) requires b <= self.vseq().len() ensures r@ == self.vseq().take(b as int);
  fn x_slice_from(&self, a: usize) -> (r: Vec<T>) requires a <= self.vseq().len() ensures r@ == self.vseq().skip(a as int);
}
impl<T> VecX<T> for Vec<T> {
  open spec fn vseq(&self) -> Seq<T> { self@ }
  open spec fn vis(&self, r: Vec<T>) -> bool { r == *self }
  #[verifier::external_body] fn x_is_empty(&self) -> (r: bool) { unimplemented!() }
  #[verifier::external_body] fn it_iter<'a>(&'a self) -> (r: ItRef<'a, T>) { unimplemented!() }
  #[verifier::external_body] fn x_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
  #[verifier::external_body] fn x_extend(&mut self, o: Vec<T>) { unimplemented!() }
  #[verifier::external_body] fn x_extend_from_slice(&mut self, o: &Vec<T>) { unimplemented!() }
  #[verifier::external_body] fn x_first(&self) -> (r: Option<&T>) { unimplemented!() }
  #[verifier::external_body] fn x_last(&self) -> (r: Option<&T>) { unimplemented!() }
  #[verifier::external_body] fn split_last(&self) -> (r: Option<(&T, &Vec<T>)>) { unimplemented!() }
  #[verifier::external_body] fn split_first(&self) -> (r: Option<(&T, &Vec<T>)>) { unimplemented!() }
  #[verifier::external_body] fn x_get(&self, i: usize) -> (r: Option<&T>) { unimplemented!() }
  #[verifier::external_body] fn x_contains(&self, e: &T) -> (r: bool) { unimplemented!() }
  #[verifier::external_body] fn x_slice(&self, a: usize, b: usize) -> (r: Vec<T>) { unimplemented!() }
  #[verifier::external_body] fn x_slice_to(&self, b: usize) -> (r: Vec<T>) { unimplemented!() }
  #[verifier::external_body] fn x_slice_from(&self, a: usize) -> (r: Vec<T>) { unimplemented!() }
}
#[verifier::external_body] pub fn x_take_vec<T>(v: &mut Vec<T>) -> (r: It<T>) ensures r@ == old(v)@, r@.len() <= usize::MAX, final(v)@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn x_put_vec<T>(v: &mut Vec<T>, a: Vec<T>) ensures final(v)@ == a@ { unimplemented!() }
pub fn x_i32_of_bool(b: bool) -> (r: i32) ensures r == (if b { 1i32 } else { 0i32 }) { if b { 1 } else { 0 } }
#[verifier::external_body] pub fn x_from_elem<T>(e: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == e { unimplemented!() }

// two sequences walked together
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)] pub struct ItZip<'a, A, B> { x: core::marker::PhantomData<(A, &'a B)> }
impl<'a, A, B> View for ItZip<'a, A, B> { type V = Seq<(A, B)>; uninterp spec fn view(&self) -> Seq<(A, B)>; }
impl<'a, A, B> ItZip<'a, A, B> {
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(A, &'a B)>)
    ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@,
                      Some(x) => old(self)@.len() > 0 && (x.0, *x.1) == old(self)@[0] && final(self)@ == old(self)@.skip(1) }
  { unimplemented!() }
}
#[verifier::external_body] pub fn x_zip<'a, A, B>(a: It<A>, b: ItRef<'a, B>) -> (r: ItZip<'a, A, B>)
  ensures r@.len() == (if a@.len() <= b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a@[i], b@[i]), r@.len() <= usize::MAX { unimplemented!() }
pub uninterp spec fn sp_trim(s: Seq<char>) -> Seq<char>;
impl String {
  #[verifier::external_body] pub fn x_trim(&self) -> (r: &String) ensures r@ == sp_trim(self@) { unimplemented!() }
}

pub trait ResX<T>: Sized { spec fn okv(&self) -> Option<T>; fn x_ok(self) -> (r: Option<T>) ensures r == self.okv(); }
impl<T, E> ResX<T> for Result<T, E> { open spec fn okv(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } } #[verifier::external_body] fn x_ok(self) -> (r: Option<T>) { unimplemented!() } }
pub trait OptX<T>: Sized { spec fn oview(&self) -> Option<T>; fn x_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.oview() { Some(x) => x, None => d }); }
impl<T> OptX<T> for Option<T> { open spec fn oview(&self) -> Option<T> { *self } #[verifier::external_body] fn x_unwrap_or(self, d: T) -> (r: T) { unimplemented!() } }
impl<T, E> OptX<T> for Result<T, E> { open spec fn oview(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } } #[verifier::external_body] fn x_unwrap_or(self, d: T) -> (r: T) { unimplemented!() } }

// ---- nested sequences -------------------------------------------------------------------------------------
pub open spec fn deep<T>(v: Seq<Vec<T>>) -> Seq<Seq<T>> { Seq::new(v.len(), |i: int| v[i]@) }
// ---- numbers from text: an optional '+', then decimal digits, within the machine word
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn dec_val(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 10 * dec_val(s.drop_last()) + (s.last() as int - '0' as int) } }
pub open spec fn usize_of(s: Seq<char>) -> Option<usize> { let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
  if t.len() > 0 && (forall|i: int| 0 <= i < t.len() ==> is_digit(#[trigger] t[i])) && dec_val(t) <= usize::MAX { Some(dec_val(t) as usize) } else { None } }
pub struct ParseError { pub x: u8 }
pub trait FromText: Sized { spec fn of_text(s: Seq<char>) -> Option<Self>; fn x_from_str(s: &String) -> (r: Result<Self, ParseError>) ensures match r { Ok(v) => Self::of_text(s@) == Some(v), Err(_) => Self::of_text(s@) is None }; }
impl FromText for usize { open spec fn of_text(s: Seq<char>) -> Option<usize> { usize_of(s) } #[verifier::external_body] fn x_from_str(s: &String) -> (r: Result<usize, ParseError>) { unimplemented!() } }
impl Disp for ParseError { uninterp spec fn disp(&self) -> Seq<char>;
  #[verifier::external_body] fn x_disp(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }
// ---- writing text (std::fmt): succeeds exactly when the sink does
#[verifier::external_body] pub struct Formatter { x: core::marker::PhantomData<()> }
pub struct FmtError { pub x: u8 }
pub type FmtResult = Result<(), FmtError>;
impl View for Formatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Formatter { pub uninterp spec fn good(&self) -> bool;
  #[verifier::external_body] pub fn x_write(&mut self, s: String) -> (r: FmtResult) ensures (r is Ok) == old(self).good(), r is Ok ==> final(self)@ == old(self)@ + s@ && final(self).good() { unimplemented!() }
  #[verifier::external_body] pub fn write_str(&mut self, s: &String) -> (r: FmtResult) ensures (r is Ok) == old(self).good(), r is Ok ==> final(self)@ == old(self)@ + s@ && final(self).good() { unimplemented!() } }
// sep.join(parts)
pub open spec fn joined(sep: Seq<char>, p: Seq<String>) -> Seq<char> decreases p.len() {
  if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0]@ } else { joined(sep, p.drop_last()) + sep + p.last()@ } }
pub trait VecJoin { fn x_join(&self, sep: &String) -> (r: String) ensures r@ == joined(sep@, self.jseq()); spec fn jseq(&self) -> Seq<String>; }
impl VecJoin for Vec<String> { open spec fn jseq(&self) -> Seq<String> { self@ } #[verifier::external_body] fn x_join(&self, sep: &String) -> (r: String) { unimplemented!() } }
// ---- characters
pub open spec fn ascii(c: char) -> bool { c as u32 <= 0x7f }
pub open spec fn ascii_control(c: char) -> bool { c as u32 <= 0x1f || c as u32 == 0x7f }
pub trait CharX: Sized { fn x_is_ascii(&self) -> (r: bool) ensures r == ascii(self.cv()); fn x_is_ascii_control(&self) -> (r: bool) ensures r == ascii_control(self.cv()); spec fn cv(&self) -> char; }
impl CharX for char { open spec fn cv(&self) -> char { *self } #[verifier::external_body] fn x_is_ascii(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn x_is_ascii_control(&self) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub fn x_fmt<T>(spec: &String, v: &T) -> (r: String) { unimplemented!() }
impl String {
  // the length in bytes
  #[verifier::external_body] pub fn it_chars(&self) -> (r: It<char>) ensures r@ == self@, r@.len() <= usize::MAX { unimplemented!() }
}
} // verus!
