//! Stand-in for the Python syntax tree of the missing parser submodule: the same names and shapes, as far as rtest uses them.
pub use ruff_text_size::{Ranged, TextRange};
use std::fmt;
use std::ops::Deref;

macro_rules! text { ($n:ident) => {
    impl $n { pub fn as_str(&self) -> &str { &self.id } pub fn new(s: &str) -> Self { Self { id: s.to_string() } } }
    impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.id) } }
    impl Deref for $n { type Target = str; fn deref(&self) -> &str { &self.id } }
    impl PartialEq<str> for $n { fn eq(&self, o: &str) -> bool { self.id == o } }
    impl PartialEq<&str> for $n { fn eq(&self, o: &&str) -> bool { self.id == *o } }
    impl AsRef<str> for $n { fn as_ref(&self) -> &str { &self.id } }
    impl From<$n> for String { fn from(n: $n) -> String { n.id } }
} }
#[derive(Debug, Clone, PartialEq)] pub struct Name { pub id: String }
#[derive(Debug, Clone, PartialEq)] pub struct Identifier { pub id: String }
text!(Name); text!(Identifier);

#[derive(Debug, Clone, PartialEq)] pub struct Int { pub text: String }
impl Int { pub fn as_i64(&self) -> Option<i64> { self.text.parse().ok() } }
impl fmt::Display for Int { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.text) } }
#[derive(Debug, Clone, PartialEq)] pub enum Number { Int(Int), Float(f64), Complex { real: f64, imag: f64 } }
#[derive(Debug, Clone, PartialEq)] pub struct StringLiteralValue { pub text: String }
impl StringLiteralValue { pub fn to_str(&self) -> &str { &self.text } }
impl fmt::Display for StringLiteralValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.text) } }

#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum UnaryOp { Invert, Not, UAdd, USub }

macro_rules! node { ($($n:ident { $($f:ident : $t:ty),* })*) => { $(
    #[derive(Debug, Clone, PartialEq)] pub struct $n { pub range: TextRange, $(pub $f: $t),* }
    impl Ranged for $n { fn range(&self) -> TextRange { self.range } }
)* } }
node! {
    ExprName { id: Name }
    ExprAttribute { value: Box<Expr>, attr: Identifier }
    ExprCall { func: Box<Expr>, arguments: Arguments }
    ExprSubscript { value: Box<Expr>, slice: Box<Expr> }
    ExprNumberLiteral { value: Number }
    ExprStringLiteral { value: StringLiteralValue }
    ExprBooleanLiteral { value: bool }
    ExprNoneLiteral { }
    ExprEllipsisLiteral { }
    ExprBytesLiteral { }
    ExprList { elts: Vec<Expr> }
    ExprTuple { elts: Vec<Expr> }
    ExprSet { elts: Vec<Expr> }
    ExprDict { }
    ExprListComp { }
    ExprSetComp { }
    ExprDictComp { }
    ExprGenerator { }
    ExprLambda { }
    ExprUnaryOp { op: UnaryOp, operand: Box<Expr> }
    ExprBinOp { left: Box<Expr>, right: Box<Expr> }
    ExprBoolOp { }
    ExprCompare { }
    ExprIf { }
    ExprStarred { value: Box<Expr> }
    ExprFString { }
    ExprNamed { }
    ExprAwait { }
    ExprYield { }
    ExprSlice { }
    Decorator { expression: Expr }
    Keyword { arg: Option<Identifier>, value: Expr }
    Arguments { args: Box<[Expr]>, keywords: Box<[Keyword]> }
    Alias { name: Identifier, asname: Option<Identifier> }
    StmtFunctionDef { is_async: bool, decorator_list: Vec<Decorator>, name: Identifier, body: Vec<Stmt> }
    StmtClassDef { decorator_list: Vec<Decorator>, name: Identifier, arguments: Option<Box<Arguments>>, body: Vec<Stmt> }
    StmtAssign { targets: Vec<Expr>, value: Box<Expr> }
    StmtAnnAssign { target: Box<Expr>, value: Option<Box<Expr>> }
    StmtImport { names: Vec<Alias> }
    StmtImportFrom { module: Option<Identifier>, names: Vec<Alias>, level: u32 }
    StmtExpr { value: Box<Expr> }
    StmtPass { }
    StmtAugAssign { target: Box<Expr>, value: Box<Expr> }
    StmtIf { body: Vec<Stmt>, elif_else_clauses: Vec<ElifElseClause> }
    ElifElseClause { body: Vec<Stmt> }
    StmtFor { target: Box<Expr>, body: Vec<Stmt>, orelse: Vec<Stmt> }
    StmtWhile { body: Vec<Stmt>, orelse: Vec<Stmt> }
    StmtWith { body: Vec<Stmt> }
    StmtTry { body: Vec<Stmt>, handlers: Vec<ExceptHandler>, orelse: Vec<Stmt>, finalbody: Vec<Stmt> }
    ExceptHandlerExceptHandler { body: Vec<Stmt> }
    ModModule { body: Vec<Stmt> }
    ModExpression { body: Box<Expr> }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Expr {
    Name(ExprName), Attribute(ExprAttribute), Call(ExprCall), Subscript(ExprSubscript), NumberLiteral(ExprNumberLiteral), StringLiteral(ExprStringLiteral),
    BooleanLiteral(ExprBooleanLiteral), NoneLiteral(ExprNoneLiteral), EllipsisLiteral(ExprEllipsisLiteral), BytesLiteral(ExprBytesLiteral), List(ExprList), Tuple(ExprTuple),
    Set(ExprSet), Dict(ExprDict), ListComp(ExprListComp), SetComp(ExprSetComp), DictComp(ExprDictComp), Generator(ExprGenerator), Lambda(ExprLambda), UnaryOp(ExprUnaryOp),
    BinOp(ExprBinOp), BoolOp(ExprBoolOp), Compare(ExprCompare), If(ExprIf), Starred(ExprStarred), FString(ExprFString), Named(ExprNamed), Await(ExprAwait), Yield(ExprYield), Slice(ExprSlice),
}
#[derive(Debug, Clone, PartialEq)]
pub enum Stmt { FunctionDef(StmtFunctionDef), ClassDef(StmtClassDef), Assign(StmtAssign), AnnAssign(StmtAnnAssign), Import(StmtImport), ImportFrom(StmtImportFrom), Expr(StmtExpr), Pass(StmtPass),
    AugAssign(StmtAugAssign), If(StmtIf), For(StmtFor), While(StmtWhile), With(StmtWith), Try(StmtTry) }
#[derive(Debug, Clone, PartialEq)]
pub enum ExceptHandler { ExceptHandler(ExceptHandlerExceptHandler) }
impl Stmt { pub fn as_expr_stmt(&self) -> Option<&StmtExpr> { match self { Stmt::Expr(e) => Some(e), _ => None } } }
#[derive(Debug, Clone, PartialEq)]
pub enum Mod { Module(ModModule), Expression(ModExpression) }
