// ---- prelude/proc.rs : processes, threads and report files as the extracted code sees them (trusted contracts) ----
verus! {
// One started (or attempted) process.
pub struct Run { pub prog: Seq<char>, pub args: Seq<Seq<char>>, pub cwd: Option<Seq<char>>, pub env: Seq<(Seq<char>, Seq<char>)> }
// The world: every process started so far.  What a process does is fixed by its position in that list.
#[verifier::external_body] pub struct World { x: core::marker::PhantomData<()> }
impl World {
  pub uninterp spec fn runs(&self) -> Seq<Run>;
  pub uninterp spec fn pending(&self) -> Set<int>;
}
pub uninterp spec fn ptext(p: PathBuf) -> Seq<char>;
#[verifier::external_body] pub broadcast proof fn ax_ptext(p: PathBuf) ensures path_of(#[trigger] ptext(p)) == p@ { unimplemented!() }

#[verifier::external_body] pub struct ExitStatus { x: core::marker::PhantomData<()> }
impl ExitStatus { pub uninterp spec fn code(&self) -> Option<i32>;
  #[verifier::external_body] pub fn x_code(&self) -> (r: Option<i32>) ensures r == self.code() { unimplemented!() }
  #[verifier::external_body] pub fn x_success(&self) -> (r: bool) ensures r == (self.code() == Some(0i32)) { unimplemented!() } }
pub struct Output { pub status: ExitStatus, pub stdout: Vec<u8>, pub stderr: Vec<u8> }
// what the n-th process does: cannot be started, or ends with an output
pub uninterp spec fn outcome(n: int) -> Option<Output>;
pub uninterp spec fn died(n: int) -> bool;       // the thread that waits for it panicked
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;

pub trait Text: Sized { spec fn tx(&self) -> Seq<char>; }
impl Text for String { open spec fn tx(&self) -> Seq<char> { self@ } }
impl<'a> Text for &'a String { open spec fn tx(&self) -> Seq<char> { (**self)@ } }
impl Text for PathBuf { open spec fn tx(&self) -> Seq<char> { ptext(*self) } }
impl<'a> Text for &'a PathBuf { open spec fn tx(&self) -> Seq<char> { ptext(**self) } }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn ptexts(v: Seq<PathBuf>) -> Seq<Seq<char>> { v.map_values(|p: PathBuf| ptext(p)) }
pub trait TextList: Sized { spec fn txs(&self) -> Seq<Seq<char>>; }
impl TextList for Vec<String> { open spec fn txs(&self) -> Seq<Seq<char>> { texts(self@) } }
impl<'a> TextList for &'a Vec<String> { open spec fn txs(&self) -> Seq<Seq<char>> { texts((**self)@) } }
impl<'a> TextList for Vec<&'a String> { open spec fn txs(&self) -> Seq<Seq<char>> { self@.map_values(|s: &'a String| s@) } }
impl TextList for Vec<PathBuf> { open spec fn txs(&self) -> Seq<Seq<char>> { ptexts(self@) } }
impl<'a> TextList for &'a Vec<PathBuf> { open spec fn txs(&self) -> Seq<Seq<char>> { ptexts((**self)@) } }

pub trait EnvList: Sized { spec fn pairs(&self) -> Seq<(Seq<char>, Seq<char>)>; }
impl EnvList for Vec<(String, String)> { open spec fn pairs(&self) -> Seq<(Seq<char>, Seq<char>)> { env_texts(self@) } }
impl<'a> EnvList for &'a Vec<(String, String)> { open spec fn pairs(&self) -> Seq<(Seq<char>, Seq<char>)> { env_texts((**self)@) } }
// what a list of items adds to a command line: texts are arguments, pairs are environment assignments
pub trait CmdItem: Sized { spec fn cargs(s: Seq<Self>) -> Seq<Seq<char>>; spec fn cenv(s: Seq<Self>) -> Seq<(Seq<char>, Seq<char>)>; }
impl CmdItem for String { open spec fn cargs(s: Seq<String>) -> Seq<Seq<char>> { texts(s) } open spec fn cenv(s: Seq<String>) -> Seq<(Seq<char>, Seq<char>)> { Seq::empty() } }
impl CmdItem for PathBuf { open spec fn cargs(s: Seq<PathBuf>) -> Seq<Seq<char>> { ptexts(s) } open spec fn cenv(s: Seq<PathBuf>) -> Seq<(Seq<char>, Seq<char>)> { Seq::empty() } }
impl CmdItem for (String, String) { open spec fn cargs(s: Seq<(String, String)>) -> Seq<Seq<char>> { Seq::empty() } open spec fn cenv(s: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { env_texts(s) } }
pub open spec fn env_texts(e: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { e.map_values(|p: (String, String)| (p.0@, p.1@)) }
pub open spec fn added<T: CmdItem>(r: Run, i: Run, s: Seq<T>) -> bool { r.args =~= i.args + T::cargs(s) && r.env =~= i.env + T::cenv(s) && r.cwd == i.cwd && r.prog == i.prog }
pub struct Stdio { pub x: u8 }
impl Stdio { #[verifier::external_body] pub fn piped() -> Stdio { unimplemented!() } #[verifier::external_body] pub fn null() -> Stdio { unimplemented!() } #[verifier::external_body] pub fn inherit() -> Stdio { unimplemented!() } }
#[verifier::external_body] pub struct Command { x: core::marker::PhantomData<()> }
impl View for Command { type V = Run; uninterp spec fn view(&self) -> Run; }
impl Command {
  #[verifier::external_body] pub fn new<P: Text>(p: P) -> (r: Command) ensures r@ == (Run { prog: p.tx(), args: Seq::empty(), cwd: None, env: Seq::empty() }) { unimplemented!() }
  #[verifier::external_body] pub fn arg<A: Text>(&mut self, a: A) ensures final(self)@ == (Run { args: old(self)@.args.push(a.tx()), ..old(self)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn args<A: TextList>(&mut self, a: A) ensures final(self)@ == (Run { args: old(self)@.args + a.txs(), ..old(self)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn envs<E: EnvList>(&mut self, e: E) ensures final(self)@ == (Run { env: old(self)@.env + e.pairs(), ..old(self)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn env<K: Text, V: Text>(&mut self, k: K, v: V) ensures final(self)@ == (Run { env: old(self)@.env.push((k.tx(), v.tx())), ..old(self)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn current_dir<P: Text>(&mut self, p: P) ensures final(self)@ == (Run { cwd: Some(p.tx()), ..old(self)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn stdin(&mut self, s: Stdio) ensures final(self)@ == old(self)@ { unimplemented!() }
  #[verifier::external_body] pub fn stdout(&mut self, s: Stdio) ensures final(self)@ == old(self)@ { unimplemented!() }
  #[verifier::external_body] pub fn stderr(&mut self, s: Stdio) ensures final(self)@ == old(self)@ { unimplemented!() }
  #[verifier::external_body] pub fn output(&mut self, w: &mut World) -> (r: Result<Output, IoError>)
    ensures final(self)@ == old(self)@, final(w).runs() == old(w).runs().push(old(self)@), final(w).pending() == old(w).pending(),
      match r { Ok(o) => outcome(old(w).runs().len() as int) == Some(o), Err(_) => outcome(old(w).runs().len() as int) is None } { unimplemented!() }
  #[verifier::external_body] pub fn status(&mut self, w: &mut World) -> (r: Result<ExitStatus, IoError>)
    ensures final(self)@ == old(self)@, final(w).runs() == old(w).runs().push(old(self)@), final(w).pending() == old(w).pending(),
      match r { Ok(s) => outcome(old(w).runs().len() as int) is Some && outcome(old(w).runs().len() as int).unwrap().status == s, Err(_) => outcome(old(w).runs().len() as int) is None } { unimplemented!() }
}
// A thread: its process counts as unfinished until the thread is joined.
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct JoinHandle<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct Panic { x: core::marker::PhantomData<()> }
impl<T> JoinHandle<T> { pub uninterp spec fn val(&self) -> T; pub uninterp spec fn run(&self) -> int;
  #[verifier::external_body] pub fn join_thread(self, w: &mut World) -> (r: Result<T, Panic>)
    ensures final(w).runs() == old(w).runs(), final(w).pending() == old(w).pending().remove(self.run()),
      match r { Ok(v) => v == self.val() && !died(self.run()), Err(_) => died(self.run()) } { unimplemented!() } }
#[verifier::external_body] pub fn x_spawn<T>(v: T, w: &mut World) -> (r: JoinHandle<T>)
  ensures r.val() == v, r.run() == old(w).runs().len() - 1, final(w).runs() == old(w).runs(), final(w).pending() == old(w).pending().insert(r.run()) { unimplemented!() }
impl String {
  #[verifier::external_body] pub fn from_utf8_lossy(b: &Vec<u8>) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }
}
impl Disp for IoError { uninterp spec fn disp(&self) -> Seq<char>;
  #[verifier::external_body] fn x_disp(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a, T: Disp> Disp for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() }
  #[verifier::external_body] fn x_disp(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }
// formatted with a format spec ({:?} ...): some text

// ---- reading a text file line by line
pub uninterp spec fn fs_lines(p: PathBuf) -> Option<Seq<Result<String, IoError>>>;
#[verifier::external_body] pub struct File { x: core::marker::PhantomData<()> }
impl File { pub uninterp spec fn lines_of(&self) -> Seq<Result<String, IoError>>;
  #[verifier::external_body] pub fn open(p: &PathBuf) -> (r: Result<File, IoError>)
    ensures match r { Ok(f) => fs_lines(*p) == Some(f.lines_of()), Err(_) => fs_lines(*p) is None } { unimplemented!() } }
#[verifier::external_body] pub struct BufReader { x: core::marker::PhantomData<()> }
impl BufReader { pub uninterp spec fn lines_of(&self) -> Seq<Result<String, IoError>>;
  #[verifier::external_body] pub fn new(f: File) -> (r: BufReader) ensures r.lines_of() == f.lines_of() { unimplemented!() }
  #[verifier::external_body] pub fn it_lines(self) -> (r: It<Result<String, IoError>>) ensures r@ == self.lines_of(), r@.len() <= usize::MAX { unimplemented!() } }
#[verifier::external_body] pub struct TempDir { x: core::marker::PhantomData<()> }
impl TempDir { pub uninterp spec fn dir(&self) -> PathBuf;
  #[verifier::external_body] pub fn with_prefix(p: &String, w: &mut World) -> (r: Result<TempDir, IoError>) ensures tmp_ok(*old(w)) == (r is Ok), r is Ok ==> r->Ok_0.dir() == tmp_dir(*old(w)), final(w).runs() == old(w).runs(), final(w).pending() == old(w).pending() { unimplemented!() }
  #[verifier::external_body] pub fn path(&self) -> (r: &PathBuf) ensures *r == self.dir() { unimplemented!() } }
pub uninterp spec fn tmp_ok(w: World) -> bool;
pub uninterp spec fn tmp_dir(w: World) -> PathBuf;
} // verus!
