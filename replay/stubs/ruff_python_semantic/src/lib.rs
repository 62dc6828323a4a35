//! Stand-in: rtest builds the model but reads nothing from it.
use ruff_python_ast::Stmt;
use std::marker::PhantomData;
use std::path::Path;
pub enum ModuleKind { Module, Package }
pub enum ModuleSource<'a> { Path(&'a [String]), File(&'a Path) }
pub struct Module<'a> { pub kind: ModuleKind, pub source: ModuleSource<'a>, pub python_ast: &'a [Stmt], pub name: Option<&'a str> }
pub struct SemanticModel<'a> { _a: PhantomData<&'a ()> }
impl<'a> SemanticModel<'a> { pub fn new(_t: &'a [String], _p: &'a Path, _m: Module<'a>) -> Self { Self { _a: PhantomData } } }
