//! Stand-in for the part of ruff_python_parser that rtest uses: CPython's own parser, asked through a helper process.

use ruff_python_ast::*;
use serde_json::Value;
use std::fmt;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Module,
    Expression,
}

#[derive(Debug, Clone)]
pub struct ParseOptions {
    pub mode: Mode,
}

impl From<Mode> for ParseOptions {
    fn from(mode: Mode) -> Self {
        Self { mode }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct ParseError {
    pub error: String,
    pub location: TextRange,
}

impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.error)
    }
}
impl std::error::Error for ParseError {}

#[derive(Debug, Clone)]
pub struct Parsed<T> {
    syntax: T,
}

impl<T> Parsed<T> {
    pub fn syntax(&self) -> &T {
        &self.syntax
    }
    pub fn into_syntax(self) -> T {
        self.syntax
    }
    pub fn suite(&self) -> &[Stmt]
    where
        T: AsSuite,
    {
        self.syntax.as_suite()
    }
}

pub trait AsSuite {
    fn as_suite(&self) -> &[Stmt];
}
impl AsSuite for ModModule {
    fn as_suite(&self) -> &[Stmt] {
        &self.body
    }
}

pub fn parse(source: &str, _options: ParseOptions) -> Result<Parsed<Mod>, ParseError> {
    Ok(Parsed { syntax: Mod::Module(parse_module(source)?.into_syntax()) })
}

pub fn parse_module(source: &str) -> Result<Parsed<ModModule>, ParseError> {
    let answer = ask(source);
    let range = TextRange::new(TextSize::new(0), TextSize::new(source.len() as u32));
    if answer[0] == "ok" {
        Ok(Parsed { syntax: ModModule { range, body: stmts(&answer[1]) } })
    } else {
        Err(ParseError { error: text(&answer[1]), location: range })
    }
}

// ------------------------------------------------------------------------------------------------- helper process

struct Helper {
    _child: Child,
    input: ChildStdin,
    output: BufReader<ChildStdout>,
}

static HELPER: Mutex<Option<Helper>> = Mutex::new(None);

fn start() -> Helper {
    let python = std::env::var("RUFF_SHIM_PYTHON").unwrap_or_else(|_| "python3".to_string());
    let mut child = Command::new(python)
        .args(["-I", "-S", "-W", "ignore", "-c", include_str!("bridge.py")])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("ruff shim: cannot start Python");
    let input = child.stdin.take().unwrap();
    let output = BufReader::new(child.stdout.take().unwrap());
    Helper { _child: child, input, output }
}

fn ask(source: &str) -> Value {
    let mut guard = HELPER.lock().unwrap_or_else(|e| e.into_inner());
    let helper = guard.get_or_insert_with(start);
    helper.input.write_all(format!("{}\n", source.len()).as_bytes()).expect("ruff shim: write");
    helper.input.write_all(source.as_bytes()).expect("ruff shim: write");
    helper.input.flush().expect("ruff shim: flush");
    let mut line = String::new();
    helper.output.read_line(&mut line).expect("ruff shim: read");
    let mut de = serde_json::Deserializer::from_str(&line);
    de.disable_recursion_limit();
    serde::Deserialize::deserialize(&mut de).expect("ruff shim: answer")
}

// ------------------------------------------------------------------------------------------------- conversion

fn text(v: &Value) -> String {
    v.as_str().expect("ruff shim: text").to_string()
}

fn list(v: &Value) -> &[Value] {
    v.as_array().expect("ruff shim: list")
}

fn span(a: &Value, b: &Value) -> TextRange {
    TextRange::new(TextSize::new(a.as_u64().unwrap() as u32), TextSize::new(b.as_u64().unwrap() as u32))
}

fn ident(v: &Value, range: TextRange) -> Identifier {
    Identifier::new(text(v), range)
}

fn opt_ident(v: &Value, range: TextRange) -> Option<Identifier> {
    (!v.is_null()).then(|| ident(v, range))
}

fn stmts(v: &Value) -> Vec<Stmt> {
    list(v).iter().map(stmt).collect()
}

fn exprs(v: &Value) -> Vec<Expr> {
    list(v).iter().map(expr).collect()
}

fn boxed(v: &Value) -> Box<Expr> {
    Box::new(expr(v))
}

fn opt(v: &Value) -> Option<Box<Expr>> {
    (!v.is_null()).then(|| boxed(v))
}

fn decorators(v: &Value) -> Vec<Decorator> {
    exprs(v).into_iter().map(|expression| Decorator { range: expression.range(), expression }).collect()
}

fn keywords(v: &Value) -> Vec<Keyword> {
    list(v)
        .iter()
        .map(|k| {
            let range = span(&k[0], &k[1]);
            Keyword { range, arg: opt_ident(&k[2], range), value: expr(&k[3]) }
        })
        .collect()
}

fn parameter(v: &Value) -> Parameter {
    let range = span(&v[0], &v[1]);
    Parameter { range, name: ident(&v[2], range), annotation: opt(&v[3]) }
}

fn with_default(v: &Value) -> ParameterWithDefault {
    let parameter = parameter(&v[0]);
    ParameterWithDefault { range: parameter.range, parameter, default: opt(&v[1]) }
}

fn parameters(v: &Value, range: TextRange) -> Parameters {
    let many = |v: &Value| list(v).iter().map(with_default).collect::<Vec<_>>();
    let one = |v: &Value| (!v.is_null()).then(|| Box::new(parameter(v)));
    Parameters { range, posonlyargs: many(&v[0]), args: many(&v[1]), vararg: one(&v[2]), kwonlyargs: many(&v[3]), kwarg: one(&v[4]) }
}

fn aliases(v: &Value) -> Vec<Alias> {
    list(v)
        .iter()
        .map(|a| {
            let range = span(&a[0], &a[1]);
            Alias { range, name: ident(&a[2], range), asname: opt_ident(&a[3], range) }
        })
        .collect()
}

fn identifiers(v: &Value, range: TextRange) -> Vec<Identifier> {
    list(v).iter().map(|x| ident(x, range)).collect()
}

fn operator(v: &Value) -> Operator {
    match v.as_str().unwrap() {
        "Add" => Operator::Add,
        "Sub" => Operator::Sub,
        "Mult" => Operator::Mult,
        "MatMult" => Operator::MatMult,
        "Div" => Operator::Div,
        "Mod" => Operator::Mod,
        "Pow" => Operator::Pow,
        "LShift" => Operator::LShift,
        "RShift" => Operator::RShift,
        "BitOr" => Operator::BitOr,
        "BitXor" => Operator::BitXor,
        "BitAnd" => Operator::BitAnd,
        "FloorDiv" => Operator::FloorDiv,
        x => panic!("ruff shim: operator {x}"),
    }
}

fn stmt(v: &Value) -> Stmt {
    let kind = v[0].as_str().expect("ruff shim: kind");
    let range = span(&v[1], &v[2]);
    let f = &list(v)[3..];
    match kind {
        "FunctionDef" | "AsyncFunctionDef" => {
            let decorator_list = decorators(&f[0]);
            // ruff counts the decorators in
            let start = decorator_list.first().map_or(range.start(), |d| TextSize::new(d.range.start().to_u32().saturating_sub(1)));
            Stmt::FunctionDef(StmtFunctionDef {
                range: TextRange::new(start, range.end()),
                is_async: kind == "AsyncFunctionDef",
                decorator_list,
                name: ident(&f[1], range),
                parameters: Box::new(parameters(&f[2], range)),
                returns: opt(&f[3]),
                body: stmts(&f[4]),
            })
        }
        "ClassDef" => {
            let decorator_list = decorators(&f[0]);
            let start = decorator_list.first().map_or(range.start(), |d| TextSize::new(d.range.start().to_u32().saturating_sub(1)));
            let (args, keywords) = (exprs(&f[2]), keywords(&f[3]));
            let arguments = (!args.is_empty() || !keywords.is_empty())
                .then(|| Box::new(Arguments { range, args: args.into(), keywords: keywords.into() }));
            Stmt::ClassDef(StmtClassDef {
                range: TextRange::new(start, range.end()),
                decorator_list,
                name: ident(&f[1], range),
                arguments,
                body: stmts(&f[4]),
            })
        }
        "Return" => Stmt::Return(StmtReturn { range, value: opt(&f[0]) }),
        "Delete" => Stmt::Delete(StmtDelete { range, targets: exprs(&f[0]) }),
        "TypeAlias" => Stmt::TypeAlias(StmtTypeAlias { range, name: boxed(&f[0]), value: boxed(&f[1]) }),
        "Assign" => Stmt::Assign(StmtAssign { range, targets: exprs(&f[0]), value: boxed(&f[1]) }),
        "AugAssign" => Stmt::AugAssign(StmtAugAssign { range, target: boxed(&f[0]), op: operator(&f[1]), value: boxed(&f[2]) }),
        "AnnAssign" => Stmt::AnnAssign(StmtAnnAssign {
            range,
            target: boxed(&f[0]),
            annotation: boxed(&f[1]),
            value: opt(&f[2]),
            simple: f[3].as_bool().unwrap(),
        }),
        "For" | "AsyncFor" => Stmt::For(StmtFor {
            range,
            is_async: kind == "AsyncFor",
            target: boxed(&f[0]),
            iter: boxed(&f[1]),
            body: stmts(&f[2]),
            orelse: stmts(&f[3]),
        }),
        "While" => Stmt::While(StmtWhile { range, test: boxed(&f[0]), body: stmts(&f[1]), orelse: stmts(&f[2]) }),
        "If" => Stmt::If(StmtIf {
            range,
            test: boxed(&f[0]),
            body: stmts(&f[1]),
            elif_else_clauses: list(&f[2])
                .iter()
                .map(|c| ElifElseClause { range, test: (!c[0].is_null()).then(|| expr(&c[0])), body: stmts(&c[1]) })
                .collect(),
        }),
        "With" | "AsyncWith" => Stmt::With(StmtWith {
            range,
            is_async: kind == "AsyncWith",
            items: list(&f[0]).iter().map(|i| WithItem { range, context_expr: expr(&i[0]), optional_vars: opt(&i[1]) }).collect(),
            body: stmts(&f[1]),
        }),
        "Match" => Stmt::Match(StmtMatch {
            range,
            subject: boxed(&f[0]),
            cases: list(&f[1]).iter().map(|c| MatchCase { range, guard: opt(&c[0]), body: stmts(&c[1]) }).collect(),
        }),
        "Raise" => Stmt::Raise(StmtRaise { range, exc: opt(&f[0]), cause: opt(&f[1]) }),
        "Try" | "TryStar" => Stmt::Try(StmtTry {
            range,
            body: stmts(&f[0]),
            handlers: list(&f[1])
                .iter()
                .map(|h| {
                    ExceptHandler::ExceptHandler(ExceptHandlerExceptHandler {
                        range,
                        type_: opt(&h[0]),
                        name: opt_ident(&h[1], range),
                        body: stmts(&h[2]),
                    })
                })
                .collect(),
            orelse: stmts(&f[2]),
            finalbody: stmts(&f[3]),
            is_star: kind == "TryStar",
        }),
        "Assert" => Stmt::Assert(StmtAssert { range, test: boxed(&f[0]), msg: opt(&f[1]) }),
        "Import" => Stmt::Import(StmtImport { range, names: aliases(&f[0]) }),
        "ImportFrom" => Stmt::ImportFrom(StmtImportFrom {
            range,
            module: opt_ident(&f[0], range),
            names: aliases(&f[1]),
            level: f[2].as_u64().unwrap() as u32,
        }),
        "Global" => Stmt::Global(StmtGlobal { range, names: identifiers(&f[0], range) }),
        "Nonlocal" => Stmt::Nonlocal(StmtNonlocal { range, names: identifiers(&f[0], range) }),
        "Expr" => Stmt::Expr(StmtExpr { range, value: boxed(&f[0]) }),
        "Pass" => Stmt::Pass(StmtPass { range }),
        "Break" => Stmt::Break(StmtBreak { range }),
        "Continue" => Stmt::Continue(StmtContinue { range }),
        x => panic!("ruff shim: statement {x}"),
    }
}

fn comprehensions(v: &Value, range: TextRange) -> Vec<Comprehension> {
    list(v)
        .iter()
        .map(|g| Comprehension { range, target: expr(&g[0]), iter: expr(&g[1]), ifs: exprs(&g[2]), is_async: g[3].as_bool().unwrap() })
        .collect()
}

fn constant(f: &[Value], range: TextRange) -> Expr {
    let value = f[1].as_str().unwrap();
    match f[0].as_str().unwrap() {
        "None" => Expr::NoneLiteral(ExprNoneLiteral { range }),
        "Ellipsis" => Expr::EllipsisLiteral(ExprEllipsisLiteral { range }),
        "bool" => Expr::BooleanLiteral(ExprBooleanLiteral { range, value: value == "True" }),
        "str" => Expr::StringLiteral(ExprStringLiteral { range, value: StringLiteralValue::new(value.to_string()) }),
        "bytes" => Expr::BytesLiteral(ExprBytesLiteral {
            range,
            value: (0..value.len() / 2).map(|i| u8::from_str_radix(&value[2 * i..2 * i + 2], 16).unwrap()).collect(),
        }),
        "int" => Expr::NumberLiteral(ExprNumberLiteral { range, value: Number::Int(Int::from_decimal(value)) }),
        "float" => Expr::NumberLiteral(ExprNumberLiteral { range, value: Number::Float(value.parse().unwrap()) }),
        "complex" => {
            Expr::NumberLiteral(ExprNumberLiteral { range, value: Number::Complex { real: 0.0, imag: value.parse().unwrap() } })
        }
        x => panic!("ruff shim: constant {x}"),
    }
}

fn expr(v: &Value) -> Expr {
    let kind = v[0].as_str().expect("ruff shim: kind");
    let range = span(&v[1], &v[2]);
    let f = &list(v)[3..];
    match kind {
        "BoolOp" => Expr::BoolOp(ExprBoolOp { range, op: if f[0] == "And" { BoolOp::And } else { BoolOp::Or }, values: exprs(&f[1]) }),
        "NamedExpr" => Expr::Named(ExprNamed { range, target: boxed(&f[0]), value: boxed(&f[1]) }),
        "BinOp" => Expr::BinOp(ExprBinOp { range, left: boxed(&f[0]), op: operator(&f[1]), right: boxed(&f[2]) }),
        "UnaryOp" => {
            let op = match f[0].as_str().unwrap() {
                "Invert" => UnaryOp::Invert,
                "Not" => UnaryOp::Not,
                "UAdd" => UnaryOp::UAdd,
                _ => UnaryOp::USub,
            };
            Expr::UnaryOp(ExprUnaryOp { range, op, operand: boxed(&f[1]) })
        }
        "Lambda" => Expr::Lambda(ExprLambda { range, parameters: Some(Box::new(parameters(&f[0], range))), body: boxed(&f[1]) }),
        "IfExp" => Expr::If(ExprIf { range, test: boxed(&f[0]), body: boxed(&f[1]), orelse: boxed(&f[2]) }),
        "Dict" => Expr::Dict(ExprDict {
            range,
            items: list(&f[0]).iter().map(|i| DictItem { range, key: (!i[0].is_null()).then(|| expr(&i[0])), value: expr(&i[1]) }).collect(),
        }),
        "Set" => Expr::Set(ExprSet { range, elts: exprs(&f[0]) }),
        "ListComp" => Expr::ListComp(ExprListComp { range, elt: boxed(&f[0]), generators: comprehensions(&f[1], range) }),
        "SetComp" => Expr::SetComp(ExprSetComp { range, elt: boxed(&f[0]), generators: comprehensions(&f[1], range) }),
        "DictComp" => {
            Expr::DictComp(ExprDictComp { range, key: boxed(&f[0]), value: boxed(&f[1]), generators: comprehensions(&f[2], range) })
        }
        "GeneratorExp" => {
            Expr::Generator(ExprGenerator { range, elt: boxed(&f[0]), generators: comprehensions(&f[1], range), parenthesized: true })
        }
        "Await" => Expr::Await(ExprAwait { range, value: boxed(&f[0]) }),
        "Yield" => Expr::Yield(ExprYield { range, value: opt(&f[0]) }),
        "YieldFrom" => Expr::YieldFrom(ExprYieldFrom { range, value: boxed(&f[0]) }),
        "Compare" => Expr::Compare(ExprCompare { range, left: boxed(&f[0]), comparators: exprs(&f[1]).into() }),
        "Call" => Expr::Call(ExprCall {
            range,
            func: boxed(&f[0]),
            arguments: Arguments { range, args: exprs(&f[1]).into(), keywords: keywords(&f[2]).into() },
        }),
        "JoinedStr" | "FormattedValue" => Expr::FString(ExprFString { range }),
        "Constant" => constant(f, range),
        "Attribute" => Expr::Attribute(ExprAttribute { range, value: boxed(&f[0]), attr: ident(&f[1], range) }),
        "Subscript" => Expr::Subscript(ExprSubscript { range, value: boxed(&f[0]), slice: boxed(&f[1]) }),
        "Starred" => Expr::Starred(ExprStarred { range, value: boxed(&f[0]) }),
        "Name" => Expr::Name(ExprName { range, id: Name::new(text(&f[0])) }),
        "List" => Expr::List(ExprList { range, elts: exprs(&f[0]) }),
        "Tuple" => Expr::Tuple(ExprTuple { range, elts: exprs(&f[0]), parenthesized: true }),
        "Slice" => Expr::Slice(ExprSlice { range, lower: opt(&f[0]), upper: opt(&f[1]), step: opt(&f[2]) }),
        x => panic!("ruff shim: expression {x}"),
    }
}
