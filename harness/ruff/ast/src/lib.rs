//! Stand-in for the part of ruff_python_ast that rtest uses. Nodes and fields have ruff's names.

use std::fmt;
use std::ops::Deref;

pub use ruff_text_size::{Ranged, TextRange, TextSize};

pub mod name {
    pub use super::Name;
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Name(String);

impl Name {
    pub fn new(s: impl Into<String>) -> Self {
        Self(s.into())
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
}
impl Deref for Name {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl AsRef<str> for Name {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for Name {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl PartialEq<str> for Name {
    fn eq(&self, other: &str) -> bool {
        self.0 == other
    }
}
impl PartialEq<&str> for Name {
    fn eq(&self, other: &&str) -> bool {
        self.0 == *other
    }
}
impl From<Name> for String {
    fn from(n: Name) -> String {
        n.0
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Identifier {
    pub id: Name,
    pub range: TextRange,
}

impl Identifier {
    pub fn new(id: impl Into<String>, range: TextRange) -> Self {
        Self { id: Name::new(id), range }
    }
    pub fn id(&self) -> &Name {
        &self.id
    }
    pub fn as_str(&self) -> &str {
        self.id.as_str()
    }
}
impl Deref for Identifier {
    type Target = str;
    fn deref(&self) -> &str {
        self.id.as_str()
    }
}
impl AsRef<str> for Identifier {
    fn as_ref(&self) -> &str {
        self.id.as_str()
    }
}
impl fmt::Display for Identifier {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.id.as_str())
    }
}
impl PartialEq<str> for Identifier {
    fn eq(&self, other: &str) -> bool {
        self.id == *other
    }
}
impl PartialEq<&str> for Identifier {
    fn eq(&self, other: &&str) -> bool {
        self.id == **other
    }
}
impl Ranged for Identifier {
    fn range(&self) -> TextRange {
        self.range
    }
}

macro_rules! node {
    ($name:ident { $($field:ident : $ty:ty),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq)]
        pub struct $name {
            pub range: TextRange,
            $(pub $field: $ty,)*
        }
        impl Ranged for $name {
            fn range(&self) -> TextRange {
                self.range
            }
        }
    };
}

macro_rules! sum {
    ($name:ident { $($variant:ident ( $ty:ident ) $is:ident $as_:ident),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq)]
        pub enum $name {
            $($variant($ty),)*
        }
        impl $name {
            $(
                pub fn $is(&self) -> bool {
                    matches!(self, Self::$variant(_))
                }
                pub fn $as_(&self) -> Option<&$ty> {
                    match self {
                        Self::$variant(x) => Some(x),
                        #[allow(unreachable_patterns)]
                        _ => None,
                    }
                }
            )*
        }
        impl Ranged for $name {
            fn range(&self) -> TextRange {
                match self {
                    $(Self::$variant(x) => x.range(),)*
                }
            }
        }
        $(
            impl From<$ty> for $name {
                fn from(x: $ty) -> Self {
                    Self::$variant(x)
                }
            }
        )*
    };
}

node!(ModModule { body: Vec<Stmt> });
node!(ModExpression { body: Box<Expr> });
sum!(Mod {
    Module(ModModule) is_module as_module,
    Expression(ModExpression) is_expression as_expression,
});

// ------------------------------------------------------------------------------------------------- statements

node!(StmtFunctionDef {
    is_async: bool,
    decorator_list: Vec<Decorator>,
    name: Identifier,
    parameters: Box<Parameters>,
    returns: Option<Box<Expr>>,
    body: Vec<Stmt>,
});
node!(StmtClassDef {
    decorator_list: Vec<Decorator>,
    name: Identifier,
    arguments: Option<Box<Arguments>>,
    body: Vec<Stmt>,
});
impl StmtClassDef {
    pub fn bases(&self) -> &[Expr] {
        self.arguments.as_ref().map_or(&[], |a| &a.args)
    }
    pub fn keywords(&self) -> &[Keyword] {
        self.arguments.as_ref().map_or(&[], |a| &a.keywords)
    }
}
node!(StmtReturn { value: Option<Box<Expr>> });
node!(StmtDelete { targets: Vec<Expr> });
node!(StmtTypeAlias { name: Box<Expr>, value: Box<Expr> });
node!(StmtAssign { targets: Vec<Expr>, value: Box<Expr> });
node!(StmtAugAssign { target: Box<Expr>, op: Operator, value: Box<Expr> });
node!(StmtAnnAssign { target: Box<Expr>, annotation: Box<Expr>, value: Option<Box<Expr>>, simple: bool });
node!(StmtFor { is_async: bool, target: Box<Expr>, iter: Box<Expr>, body: Vec<Stmt>, orelse: Vec<Stmt> });
node!(StmtWhile { test: Box<Expr>, body: Vec<Stmt>, orelse: Vec<Stmt> });
node!(StmtIf { test: Box<Expr>, body: Vec<Stmt>, elif_else_clauses: Vec<ElifElseClause> });
node!(ElifElseClause { test: Option<Expr>, body: Vec<Stmt> });
node!(StmtWith { is_async: bool, items: Vec<WithItem>, body: Vec<Stmt> });
node!(WithItem { context_expr: Expr, optional_vars: Option<Box<Expr>> });
node!(StmtMatch { subject: Box<Expr>, cases: Vec<MatchCase> });
node!(MatchCase { guard: Option<Box<Expr>>, body: Vec<Stmt> });
node!(StmtRaise { exc: Option<Box<Expr>>, cause: Option<Box<Expr>> });
node!(StmtTry { body: Vec<Stmt>, handlers: Vec<ExceptHandler>, orelse: Vec<Stmt>, finalbody: Vec<Stmt>, is_star: bool });
node!(ExceptHandlerExceptHandler { type_: Option<Box<Expr>>, name: Option<Identifier>, body: Vec<Stmt> });
sum!(ExceptHandler {
    ExceptHandler(ExceptHandlerExceptHandler) is_except_handler as_except_handler,
});
node!(StmtAssert { test: Box<Expr>, msg: Option<Box<Expr>> });
node!(StmtImport { names: Vec<Alias> });
node!(StmtImportFrom { module: Option<Identifier>, names: Vec<Alias>, level: u32 });
node!(Alias { name: Identifier, asname: Option<Identifier> });
node!(StmtGlobal { names: Vec<Identifier> });
node!(StmtNonlocal { names: Vec<Identifier> });
node!(StmtExpr { value: Box<Expr> });
node!(StmtPass {});
node!(StmtBreak {});
node!(StmtContinue {});
node!(StmtIpyEscapeCommand {});

sum!(Stmt {
    FunctionDef(StmtFunctionDef) is_function_def_stmt as_function_def_stmt,
    ClassDef(StmtClassDef) is_class_def_stmt as_class_def_stmt,
    Return(StmtReturn) is_return_stmt as_return_stmt,
    Delete(StmtDelete) is_delete_stmt as_delete_stmt,
    TypeAlias(StmtTypeAlias) is_type_alias_stmt as_type_alias_stmt,
    Assign(StmtAssign) is_assign_stmt as_assign_stmt,
    AugAssign(StmtAugAssign) is_aug_assign_stmt as_aug_assign_stmt,
    AnnAssign(StmtAnnAssign) is_ann_assign_stmt as_ann_assign_stmt,
    For(StmtFor) is_for_stmt as_for_stmt,
    While(StmtWhile) is_while_stmt as_while_stmt,
    If(StmtIf) is_if_stmt as_if_stmt,
    With(StmtWith) is_with_stmt as_with_stmt,
    Match(StmtMatch) is_match_stmt as_match_stmt,
    Raise(StmtRaise) is_raise_stmt as_raise_stmt,
    Try(StmtTry) is_try_stmt as_try_stmt,
    Assert(StmtAssert) is_assert_stmt as_assert_stmt,
    Import(StmtImport) is_import_stmt as_import_stmt,
    ImportFrom(StmtImportFrom) is_import_from_stmt as_import_from_stmt,
    Global(StmtGlobal) is_global_stmt as_global_stmt,
    Nonlocal(StmtNonlocal) is_nonlocal_stmt as_nonlocal_stmt,
    Expr(StmtExpr) is_expr_stmt as_expr_stmt,
    Pass(StmtPass) is_pass_stmt as_pass_stmt,
    Break(StmtBreak) is_break_stmt as_break_stmt,
    Continue(StmtContinue) is_continue_stmt as_continue_stmt,
    IpyEscapeCommand(StmtIpyEscapeCommand) is_ipy_escape_command_stmt as_ipy_escape_command_stmt,
});

node!(Decorator { expression: Expr });
node!(Keyword { arg: Option<Identifier>, value: Expr });
node!(Arguments { args: Box<[Expr]>, keywords: Box<[Keyword]> });
impl Arguments {
    pub fn find_keyword(&self, name: &str) -> Option<&Keyword> {
        self.keywords.iter().find(|k| k.arg.as_deref() == Some(name))
    }
    pub fn find_positional(&self, position: usize) -> Option<&Expr> {
        self.args.iter().take_while(|e| !e.is_starred_expr()).nth(position)
    }
    pub fn find_argument_value(&self, name: &str, position: usize) -> Option<&Expr> {
        self.find_keyword(name).map(|k| &k.value).or_else(|| self.find_positional(position))
    }
    pub fn len(&self) -> usize {
        self.args.len() + self.keywords.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
node!(Parameter { name: Identifier, annotation: Option<Box<Expr>> });
node!(ParameterWithDefault { parameter: Parameter, default: Option<Box<Expr>> });
node!(Parameters {
    posonlyargs: Vec<ParameterWithDefault>,
    args: Vec<ParameterWithDefault>,
    vararg: Option<Box<Parameter>>,
    kwonlyargs: Vec<ParameterWithDefault>,
    kwarg: Option<Box<Parameter>>,
});

// ------------------------------------------------------------------------------------------------- expressions

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BoolOp {
    And,
    Or,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Operator {
    Add,
    Sub,
    Mult,
    MatMult,
    Div,
    Mod,
    Pow,
    LShift,
    RShift,
    BitOr,
    BitXor,
    BitAnd,
    FloorDiv,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum UnaryOp {
    Invert,
    Not,
    UAdd,
    USub,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Int(String);

impl Int {
    pub fn from_decimal(s: &str) -> Self {
        Self(s.to_string())
    }
    pub fn as_i64(&self) -> Option<i64> {
        self.0.parse().ok()
    }
    pub fn as_u64(&self) -> Option<u64> {
        self.0.parse().ok()
    }
    pub fn as_i32(&self) -> Option<i32> {
        self.0.parse().ok()
    }
    pub fn as_u32(&self) -> Option<u32> {
        self.0.parse().ok()
    }
}
impl fmt::Display for Int {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Number {
    Int(Int),
    Float(f64),
    Complex { real: f64, imag: f64 },
}

#[derive(Debug, Clone, PartialEq)]
pub struct StringLiteralValue(String);

impl StringLiteralValue {
    pub fn new(s: String) -> Self {
        Self(s)
    }
    pub fn to_str(&self) -> &str {
        &self.0
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn chars(&self) -> impl Iterator<Item = char> + '_ {
        self.0.chars()
    }
}
impl PartialEq<str> for StringLiteralValue {
    fn eq(&self, other: &str) -> bool {
        self.0 == other
    }
}
impl PartialEq<&str> for StringLiteralValue {
    fn eq(&self, other: &&str) -> bool {
        self.0 == *other
    }
}
impl fmt::Display for StringLiteralValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

node!(ExprBoolOp { op: BoolOp, values: Vec<Expr> });
node!(ExprNamed { target: Box<Expr>, value: Box<Expr> });
node!(ExprBinOp { left: Box<Expr>, op: Operator, right: Box<Expr> });
node!(ExprUnaryOp { op: UnaryOp, operand: Box<Expr> });
node!(ExprLambda { parameters: Option<Box<Parameters>>, body: Box<Expr> });
node!(ExprIf { test: Box<Expr>, body: Box<Expr>, orelse: Box<Expr> });
node!(DictItem { key: Option<Expr>, value: Expr });
node!(ExprDict { items: Vec<DictItem> });
node!(ExprSet { elts: Vec<Expr> });
node!(Comprehension { target: Expr, iter: Expr, ifs: Vec<Expr>, is_async: bool });
node!(ExprListComp { elt: Box<Expr>, generators: Vec<Comprehension> });
node!(ExprSetComp { elt: Box<Expr>, generators: Vec<Comprehension> });
node!(ExprDictComp { key: Box<Expr>, value: Box<Expr>, generators: Vec<Comprehension> });
node!(ExprGenerator { elt: Box<Expr>, generators: Vec<Comprehension>, parenthesized: bool });
node!(ExprAwait { value: Box<Expr> });
node!(ExprYield { value: Option<Box<Expr>> });
node!(ExprYieldFrom { value: Box<Expr> });
node!(ExprCompare { left: Box<Expr>, comparators: Box<[Expr]> });
node!(ExprCall { func: Box<Expr>, arguments: Arguments });
node!(ExprFString {});
node!(ExprStringLiteral { value: StringLiteralValue });
node!(ExprBytesLiteral { value: Vec<u8> });
node!(ExprNumberLiteral { value: Number });
node!(ExprBooleanLiteral { value: bool });
node!(ExprNoneLiteral {});
node!(ExprEllipsisLiteral {});
node!(ExprAttribute { value: Box<Expr>, attr: Identifier });
node!(ExprSubscript { value: Box<Expr>, slice: Box<Expr> });
node!(ExprStarred { value: Box<Expr> });
node!(ExprName { id: Name });
node!(ExprList { elts: Vec<Expr> });
node!(ExprTuple { elts: Vec<Expr>, parenthesized: bool });
node!(ExprSlice { lower: Option<Box<Expr>>, upper: Option<Box<Expr>>, step: Option<Box<Expr>> });
node!(ExprIpyEscapeCommand {});

impl ExprName {
    pub fn id(&self) -> &Name {
        &self.id
    }
}
impl ExprList {
    pub fn iter(&self) -> std::slice::Iter<'_, Expr> {
        self.elts.iter()
    }
    pub fn len(&self) -> usize {
        self.elts.len()
    }
    pub fn is_empty(&self) -> bool {
        self.elts.is_empty()
    }
}
impl ExprTuple {
    pub fn iter(&self) -> std::slice::Iter<'_, Expr> {
        self.elts.iter()
    }
    pub fn len(&self) -> usize {
        self.elts.len()
    }
    pub fn is_empty(&self) -> bool {
        self.elts.is_empty()
    }
}
impl<'a> IntoIterator for &'a ExprList {
    type Item = &'a Expr;
    type IntoIter = std::slice::Iter<'a, Expr>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a> IntoIterator for &'a ExprTuple {
    type Item = &'a Expr;
    type IntoIter = std::slice::Iter<'a, Expr>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

sum!(Expr {
    BoolOp(ExprBoolOp) is_bool_op_expr as_bool_op_expr,
    Named(ExprNamed) is_named_expr as_named_expr,
    BinOp(ExprBinOp) is_bin_op_expr as_bin_op_expr,
    UnaryOp(ExprUnaryOp) is_unary_op_expr as_unary_op_expr,
    Lambda(ExprLambda) is_lambda_expr as_lambda_expr,
    If(ExprIf) is_if_expr as_if_expr,
    Dict(ExprDict) is_dict_expr as_dict_expr,
    Set(ExprSet) is_set_expr as_set_expr,
    ListComp(ExprListComp) is_list_comp_expr as_list_comp_expr,
    SetComp(ExprSetComp) is_set_comp_expr as_set_comp_expr,
    DictComp(ExprDictComp) is_dict_comp_expr as_dict_comp_expr,
    Generator(ExprGenerator) is_generator_expr as_generator_expr,
    Await(ExprAwait) is_await_expr as_await_expr,
    Yield(ExprYield) is_yield_expr as_yield_expr,
    YieldFrom(ExprYieldFrom) is_yield_from_expr as_yield_from_expr,
    Compare(ExprCompare) is_compare_expr as_compare_expr,
    Call(ExprCall) is_call_expr as_call_expr,
    FString(ExprFString) is_f_string_expr as_f_string_expr,
    StringLiteral(ExprStringLiteral) is_string_literal_expr as_string_literal_expr,
    BytesLiteral(ExprBytesLiteral) is_bytes_literal_expr as_bytes_literal_expr,
    NumberLiteral(ExprNumberLiteral) is_number_literal_expr as_number_literal_expr,
    BooleanLiteral(ExprBooleanLiteral) is_boolean_literal_expr as_boolean_literal_expr,
    NoneLiteral(ExprNoneLiteral) is_none_literal_expr as_none_literal_expr,
    EllipsisLiteral(ExprEllipsisLiteral) is_ellipsis_literal_expr as_ellipsis_literal_expr,
    Attribute(ExprAttribute) is_attribute_expr as_attribute_expr,
    Subscript(ExprSubscript) is_subscript_expr as_subscript_expr,
    Starred(ExprStarred) is_starred_expr as_starred_expr,
    Name(ExprName) is_name_expr as_name_expr,
    List(ExprList) is_list_expr as_list_expr,
    Tuple(ExprTuple) is_tuple_expr as_tuple_expr,
    Slice(ExprSlice) is_slice_expr as_slice_expr,
    IpyEscapeCommand(ExprIpyEscapeCommand) is_ipy_escape_command_expr as_ipy_escape_command_expr,
});
