//! Driver around the collection of rtest: one JSON op per stdin line, one JSON answer per stdout line.
//!   {"op": "collect", "root": DIR, "args": [PATH, ...]} -> {"ids", "errors": [[node, kind, text]], "warnings": [[file, text]]}
//!   or {"fatal": kind, "path"}
use rtest::CollectionError;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

fn kind(e: &CollectionError) -> (&'static str, String) {
    match e {
        CollectionError::ParseError(m) => ("parse", m.clone()),
        CollectionError::ImportError(m) => ("import", m.clone()),
        CollectionError::IoError(m) => ("io", m.to_string()),
        CollectionError::SkipError(m) => ("skip", m.clone()),
        CollectionError::FileNotFound(p) => ("missing", p.to_string_lossy().into_owned()),
    }
}

fn op(v: &Value) -> Value {
    if v["op"] != "collect" {
        return json!({"unsupported": true});
    }
    let root = PathBuf::from(v["root"].as_str().unwrap_or(""));
    let args: Vec<String> = v["args"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default();
    match rtest::collect_tests_rust(root, &args) {
        Ok((ids, found)) => {
            let errors: Vec<Value> = found
                .errors
                .iter()
                .map(|(node, e)| {
                    let (k, text) = kind(e);
                    json!([node, k, text])
                })
                .collect();
            let warnings: Vec<Value> =
                found.warnings.iter().map(|w| json!([w.file_path, w.message])).collect();
            json!({"ids": ids, "errors": errors, "warnings": warnings})
        }
        Err(e) => {
            let (k, text) = kind(&e);
            json!({"fatal": k, "path": text})
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdout = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let Ok(v) = serde_json::from_str::<Value>(&line) else { break };
        let answer = catch_unwind(AssertUnwindSafe(|| op(&v))).unwrap_or_else(|_| json!({"panic": true}));
        let mut out = stdout.lock();
        if writeln!(out, "{answer}").and_then(|_| out.flush()).is_err() {
            break;
        }
    }
}
