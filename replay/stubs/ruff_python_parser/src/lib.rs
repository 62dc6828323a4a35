//! Stand-in parser: CPython's own `ast` does the parsing, its tree is carried over.
use ruff_python_ast::*;
use serde_json::Value;
use std::io::Write;
use std::process::{Command, Stdio};

#[derive(Debug, Clone, Copy, PartialEq)] pub enum Mode { Module, Expression }
pub struct ParseOptions { _mode: Mode }
impl From<Mode> for ParseOptions { fn from(m: Mode) -> Self { Self { _mode: m } } }
#[derive(Debug, Clone)] pub struct ParseError(pub String);
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for ParseError {}
pub struct Parsed { m: Mod }
impl Parsed { pub fn into_syntax(self) -> Mod { self.m } pub fn syntax(&self) -> &Mod { &self.m } }

const SCRIPT: &str = r#"
import ast, json, sys
KEEP = ('FunctionDef','AsyncFunctionDef','ClassDef','Assign','AnnAssign','Import','ImportFrom','Expr','AugAssign','If','For','AsyncFor','While','With','AsyncWith','Try','TryStar')
src = sys.stdin.buffer.read().decode('utf-8')
lines = src.encode().split(b'\n'); starts = [0]
for l in lines: starts.append(starts[-1] + len(l) + 1)
def pos(n): return starts[n.lineno - 1] + n.col_offset if hasattr(n, 'lineno') else 0
def c(n):
    if isinstance(n, list): return [c(x) for x in n]
    if not isinstance(n, ast.AST): return n
    k = type(n).__name__
    d = {'k': k, 'p': pos(n)}
    if k == 'Constant':
        v = n.value
        t = type(v).__name__
        d['t'] = t
        d['v'] = str(v) if t in ('int', 'float') else (v if t in ('str', 'bool') else None)
        return d
    if isinstance(n, ast.stmt) and k not in KEEP: return d
    for f in n._fields:
        if f in ('ctx', 'type_params', 'args') and not (f == 'args' and k == 'Call'): continue
        if f in ('returns', 'annotation', 'type_comment', 'ops', 'items', 'test', 'iter', 'type'): continue
        d[f] = c(getattr(n, f))
    return d
print(json.dumps(c(ast.parse(src))))
"#;

pub fn parse(source: &str, _o: ParseOptions) -> Result<Parsed, ParseError> {
    let py = std::env::var("VX_PYTHON").unwrap_or_else(|_| "python3".to_string());
    let mut ch = Command::new(py).args(["-I", "-c", SCRIPT]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("python");
    ch.stdin.take().unwrap().write_all(source.as_bytes()).unwrap();
    let o = ch.wait_with_output().unwrap();
    if !o.status.success() { return Err(ParseError(String::from_utf8_lossy(&o.stderr).into_owned())); }
    let v: Value = serde_json::from_slice(&o.stdout).map_err(|e| ParseError(e.to_string()))?;
    Ok(Parsed { m: Mod::Module(ModModule { range: r(&v), body: stmts(&v["body"]) }) })
}
fn r(v: &Value) -> TextRange { TextRange(v["p"].as_u64().unwrap_or(0) as u32) }
fn s(v: &Value) -> String { v.as_str().unwrap_or("").to_string() }
fn ident(v: &Value) -> Identifier { Identifier { id: s(v) } }
fn list(v: &Value) -> Vec<Value> { v.as_array().cloned().unwrap_or_default() }
fn exprs(v: &Value) -> Vec<Expr> { list(v).iter().map(expr).collect() }
fn stmts(v: &Value) -> Vec<Stmt> { list(v).iter().map(stmt).collect() }
fn decos(v: &Value) -> Vec<Decorator> { list(v).iter().map(|d| Decorator { range: r(d), expression: expr(d) }).collect() }
fn keywords(v: &Value) -> Box<[Keyword]> { list(v).iter().map(|k| Keyword { range: r(k), arg: k["arg"].as_str().map(|_| ident(&k["arg"])), value: expr(&k["value"]) }).collect() }
fn aliases(v: &Value) -> Vec<Alias> { list(v).iter().map(|a| Alias { range: r(a), name: ident(&a["name"]), asname: a["asname"].as_str().map(|_| ident(&a["asname"])) }).collect() }
fn stmt(v: &Value) -> Stmt {
    let range = r(v);
    match v["k"].as_str().unwrap() {
        k @ ("FunctionDef" | "AsyncFunctionDef") => Stmt::FunctionDef(StmtFunctionDef { range, is_async: k != "FunctionDef", decorator_list: decos(&v["decorator_list"]), name: ident(&v["name"]), body: stmts(&v["body"]) }),
        "ClassDef" => { let (a, kw) = (exprs(&v["bases"]), keywords(&v["keywords"]));
            Stmt::ClassDef(StmtClassDef { range, decorator_list: decos(&v["decorator_list"]), name: ident(&v["name"]), body: stmts(&v["body"]),
                arguments: if a.is_empty() && kw.is_empty() { None } else { Some(Box::new(Arguments { range, args: a.into(), keywords: kw })) } }) }
        "Assign" => Stmt::Assign(StmtAssign { range, targets: exprs(&v["targets"]), value: Box::new(expr(&v["value"])) }),
        "AnnAssign" => Stmt::AnnAssign(StmtAnnAssign { range, target: Box::new(expr(&v["target"])), value: if v["value"].is_null() { None } else { Some(Box::new(expr(&v["value"]))) } }),
        "Import" => Stmt::Import(StmtImport { range, names: aliases(&v["names"]) }),
        "ImportFrom" => Stmt::ImportFrom(StmtImportFrom { range, module: v["module"].as_str().map(|_| ident(&v["module"])), names: aliases(&v["names"]), level: v["level"].as_u64().unwrap_or(0) as u32 }),
        "Expr" => Stmt::Expr(StmtExpr { range, value: Box::new(expr(&v["value"])) }),
        "AugAssign" => Stmt::AugAssign(StmtAugAssign { range, target: Box::new(expr(&v["target"])), value: Box::new(expr(&v["value"])) }),
        "If" => { let rest = stmts(&v["orelse"]); Stmt::If(StmtIf { range, body: stmts(&v["body"]), elif_else_clauses: if rest.is_empty() { vec![] } else { vec![ElifElseClause { range, body: rest }] } }) }
        "For" | "AsyncFor" => Stmt::For(StmtFor { range, target: Box::new(expr(&v["target"])), body: stmts(&v["body"]), orelse: stmts(&v["orelse"]) }),
        "While" => Stmt::While(StmtWhile { range, body: stmts(&v["body"]), orelse: stmts(&v["orelse"]) }),
        "With" | "AsyncWith" => Stmt::With(StmtWith { range, body: stmts(&v["body"]) }),
        "Try" | "TryStar" => Stmt::Try(StmtTry { range, body: stmts(&v["body"]), orelse: stmts(&v["orelse"]), finalbody: stmts(&v["finalbody"]),
            handlers: list(&v["handlers"]).iter().map(|h| ExceptHandler::ExceptHandler(ExceptHandlerExceptHandler { range: r(h), body: stmts(&h["body"]) })).collect() }),
        _ => Stmt::Pass(StmtPass { range }),
    }
}
fn expr(v: &Value) -> Expr {
    let range = r(v);
    let e = |k: &str| Box::new(expr(&v[k]));
    match v["k"].as_str().unwrap_or("") {
        "Constant" => match v["t"].as_str().unwrap() {
            "int" => Expr::NumberLiteral(ExprNumberLiteral { range, value: Number::Int(Int { text: s(&v["v"]) }) }),
            "float" => Expr::NumberLiteral(ExprNumberLiteral { range, value: Number::Float(s(&v["v"]).parse().unwrap_or(f64::INFINITY)) }),
            "complex" => Expr::NumberLiteral(ExprNumberLiteral { range, value: Number::Complex { real: 0.0, imag: 0.0 } }),
            "str" => Expr::StringLiteral(ExprStringLiteral { range, value: StringLiteralValue { text: s(&v["v"]) } }),
            "bool" => Expr::BooleanLiteral(ExprBooleanLiteral { range, value: v["v"].as_bool().unwrap() }),
            "NoneType" => Expr::NoneLiteral(ExprNoneLiteral { range }),
            "bytes" => Expr::BytesLiteral(ExprBytesLiteral { range }),
            _ => Expr::EllipsisLiteral(ExprEllipsisLiteral { range }),
        },
        "Name" => Expr::Name(ExprName { range, id: Name { id: s(&v["id"]) } }),
        "Attribute" => Expr::Attribute(ExprAttribute { range, value: e("value"), attr: ident(&v["attr"]) }),
        "Call" => Expr::Call(ExprCall { range, func: e("func"), arguments: Arguments { range, args: exprs(&v["args"]).into(), keywords: keywords(&v["keywords"]) } }),
        "Subscript" => Expr::Subscript(ExprSubscript { range, value: e("value"), slice: e("slice") }),
        "List" => Expr::List(ExprList { range, elts: exprs(&v["elts"]) }),
        "Tuple" => Expr::Tuple(ExprTuple { range, elts: exprs(&v["elts"]) }),
        "Set" => Expr::Set(ExprSet { range, elts: exprs(&v["elts"]) }),
        "Dict" => Expr::Dict(ExprDict { range }),
        "ListComp" => Expr::ListComp(ExprListComp { range }),
        "SetComp" => Expr::SetComp(ExprSetComp { range }),
        "DictComp" => Expr::DictComp(ExprDictComp { range }),
        "GeneratorExp" => Expr::Generator(ExprGenerator { range }),
        "Lambda" => Expr::Lambda(ExprLambda { range }),
        "UnaryOp" => Expr::UnaryOp(ExprUnaryOp { range, op: match v["op"]["k"].as_str().unwrap_or("") { "USub" => UnaryOp::USub, "UAdd" => UnaryOp::UAdd, "Not" => UnaryOp::Not, _ => UnaryOp::Invert }, operand: e("operand") }),
        "BinOp" => Expr::BinOp(ExprBinOp { range, left: e("left"), right: e("right") }),
        "BoolOp" => Expr::BoolOp(ExprBoolOp { range }),
        "Compare" => Expr::Compare(ExprCompare { range }),
        "IfExp" => Expr::If(ExprIf { range }),
        "Starred" => Expr::Starred(ExprStarred { range, value: e("value") }),
        "JoinedStr" => Expr::FString(ExprFString { range }),
        "NamedExpr" => Expr::Named(ExprNamed { range }),
        "Await" => Expr::Await(ExprAwait { range }),
        "Slice" => Expr::Slice(ExprSlice { range }),
        _ => Expr::Yield(ExprYield { range }),
    }
}
