// ---- prelude/ast.rs : the Python syntax tree (ruff_python_ast) as far as the extracted code looks at it (trusted) ----
verus! {
pub type Identifier = String;
pub type Name = String;
// a source integer is not negative; None when it does not fit
#[verifier::external_body] pub struct Int { x: core::marker::PhantomData<()> }
impl Int { pub uninterp spec fn val(&self) -> int;
  #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures self.val() >= 0, match r { Some(v) => v == self.val(), None => self.val() > i64::MAX } { unimplemented!() } }
impl Disp for Int { open spec fn disp(&self) -> Seq<char> { num_text(self.val()) }
  #[verifier::external_body] fn x_disp(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body] fn x_to_string(&self) -> (r: String) { unimplemented!() } }
pub enum Number { Int(Int), Float(f64), Complex { real: f64, imag: f64 } }
pub struct StringLiteralValue { pub text: String }
impl StringLiteralValue { #[verifier::external_body] pub fn x_to_str(&self) -> (r: &String) ensures *r == self.text { unimplemented!() } }
pub enum UnaryOp { Invert, Not, UAdd, USub }
pub struct ExprName { pub id: Name }
pub struct ExprAttribute { pub value: Box<Expr>, pub attr: Identifier }
pub struct Keyword { pub arg: Option<Identifier>, pub value: Expr }
pub struct Arguments { pub args: Vec<Expr>, pub keywords: Vec<Keyword> }
pub struct ExprCall { pub func: Box<Expr>, pub arguments: Arguments }
pub struct ExprSubscript { pub value: Box<Expr>, pub slice: Box<Expr> }
pub struct ExprNumberLiteral { pub value: Number }
pub struct ExprStringLiteral { pub value: StringLiteralValue }
pub struct ExprBooleanLiteral { pub value: bool }
pub struct ExprList { pub elts: Vec<Expr> }
pub struct ExprTuple { pub elts: Vec<Expr> }
pub struct ExprSet { pub elts: Vec<Expr> }
pub struct ExprUnaryOp { pub op: UnaryOp, pub operand: Box<Expr> }
pub struct ExprBinOp { pub left: Box<Expr>, pub right: Box<Expr> }
pub struct ExprStarred { pub value: Box<Expr> }
// nodes whose parts the code never looks at
#[verifier::external_body] pub struct Opaque { x: core::marker::PhantomData<()> }
pub enum Expr {
  BoolOp(Opaque), Named(Opaque), BinOp(ExprBinOp), UnaryOp(ExprUnaryOp), Lambda(Opaque), If(Opaque), Dict(Opaque), Set(ExprSet), ListComp(Opaque), SetComp(Opaque), DictComp(Opaque), Generator(Opaque),
  Await(Opaque), Yield(Opaque), YieldFrom(Opaque), Compare(Opaque), Call(ExprCall), FString(Opaque), TString(Opaque), StringLiteral(ExprStringLiteral), BytesLiteral(Opaque), NumberLiteral(ExprNumberLiteral),
  BooleanLiteral(ExprBooleanLiteral), NoneLiteral(Opaque), EllipsisLiteral(Opaque), Attribute(ExprAttribute), Subscript(ExprSubscript), Starred(ExprStarred), Name(ExprName), List(ExprList), Tuple(ExprTuple), Slice(Opaque), IpyEscapeCommand(Opaque),
}
pub struct Decorator { pub expression: Expr }
pub struct Alias { pub name: Identifier, pub asname: Option<Identifier> }
pub struct StmtFunctionDef { pub decorator_list: Vec<Decorator>, pub name: Identifier, pub body: Vec<Stmt> }
pub struct StmtClassDef { pub decorator_list: Vec<Decorator>, pub name: Identifier, pub arguments: Option<Box<Arguments>>, pub body: Vec<Stmt> }
pub struct StmtAssign { pub targets: Vec<Expr>, pub value: Box<Expr> }
pub struct StmtAnnAssign { pub target: Box<Expr>, pub value: Option<Box<Expr>> }
pub struct StmtImport { pub names: Vec<Alias> }
pub struct StmtImportFrom { pub module: Option<Identifier>, pub names: Vec<Alias>, pub level: u32 }
pub struct StmtExpr { pub value: Box<Expr> }
pub struct StmtAugAssign { pub target: Box<Expr> }
pub struct ElifElseClause { pub body: Vec<Stmt> }
pub struct StmtIf { pub body: Vec<Stmt>, pub elif_else_clauses: Vec<ElifElseClause> }
pub struct StmtFor { pub target: Box<Expr>, pub body: Vec<Stmt>, pub orelse: Vec<Stmt> }
pub struct StmtWhile { pub body: Vec<Stmt>, pub orelse: Vec<Stmt> }
pub struct StmtWith { pub body: Vec<Stmt> }
pub struct ExceptHandlerExceptHandler { pub body: Vec<Stmt> }
pub enum ExceptHandler { ExceptHandler(ExceptHandlerExceptHandler) }
pub struct StmtTry { pub body: Vec<Stmt>, pub handlers: Vec<ExceptHandler>, pub orelse: Vec<Stmt>, pub finalbody: Vec<Stmt> }
pub enum Stmt {
  FunctionDef(StmtFunctionDef), ClassDef(StmtClassDef), Return(Opaque), Delete(Opaque), TypeAlias(Opaque), Assign(StmtAssign), AugAssign(StmtAugAssign), AnnAssign(StmtAnnAssign), For(StmtFor), While(StmtWhile), If(StmtIf), With(StmtWith),
  Match(Opaque), Raise(Opaque), Try(StmtTry), Assert(Opaque), Import(StmtImport), ImportFrom(StmtImportFrom), Global(Opaque), Nonlocal(Opaque), Expr(StmtExpr), Pass(Opaque), Break(Opaque), Continue(Opaque), IpyEscapeCommand(Opaque),
}
pub struct ModModule { pub body: Vec<Stmt> }
// where a node starts in its file
pub uninterp spec fn line_of_fn(s: StmtFunctionDef) -> u32;
pub uninterp spec fn line_of_class(s: StmtClassDef) -> u32;
pub struct TextSize { pub v: u32 }
impl TextSize { pub fn to_u32(&self) -> (r: u32) ensures r == self.v { self.v } }
pub struct TextRange { pub s: u32, pub e: u32 }
impl TextRange { pub fn start(&self) -> (r: TextSize) ensures r.v == self.s { TextSize { v: self.s } } }
impl StmtFunctionDef { #[verifier::external_body] pub fn range(&self) -> (r: TextRange) ensures r.s == line_of_fn(*self) { unimplemented!() } }
impl StmtClassDef { #[verifier::external_body] pub fn range(&self) -> (r: TextRange) ensures r.s == line_of_class(*self) { unimplemented!() } }
// references to the content
pub trait BoxRef<T>: Sized { spec fn inner(&self) -> T; fn x_as_ref(&self) -> (r: &T) ensures *r == self.inner(); }
impl<T> BoxRef<T> for Box<T> { open spec fn inner(&self) -> T { **self } #[verifier::external_body] fn x_as_ref(&self) -> (r: &T) { unimplemented!() } }
pub trait OptRef<T>: Sized { spec fn same(&self, o: Option<&T>) -> bool; fn x_as_ref<'a>(&'a self) -> (r: Option<&'a T>) ensures self.same(r); }
impl<T> OptRef<T> for Option<T> { open spec fn same(&self, o: Option<&T>) -> bool { match *self { Some(x) => o is Some && *o->Some_0 == x, None => o is None } } #[verifier::external_body] fn x_as_ref<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() } }
} // verus!
