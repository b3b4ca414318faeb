//! Stand-in for the part of ruff_python_semantic that rtest uses: the model is built, never asked.

use ruff_python_ast::Stmt;
use std::marker::PhantomData;
use std::path::Path;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ModuleKind {
    Module,
    Package,
}

#[derive(Debug, Clone, Copy)]
pub enum ModuleSource<'a> {
    Path(&'a [String]),
    File(&'a Path),
}

#[derive(Debug, Clone)]
pub struct Module<'a> {
    pub kind: ModuleKind,
    pub source: ModuleSource<'a>,
    pub python_ast: &'a [Stmt],
    pub name: Option<&'a str>,
}

pub struct SemanticModel<'a>(PhantomData<&'a ()>);

impl<'a> SemanticModel<'a> {
    pub fn new(_typing_modules: &'a [String], _path: &Path, _module: Module<'a>) -> Self {
        Self(PhantomData)
    }
}
