//! A scriptable stand-in for pytest and for the Python worker.
//!
//! Environment: FW_PLAN (JSON file), FW_LOG (event log, appended one line per event).
//! Plan: {"by": {key: behaviour}, "envkeys": [..], "barrier": bool, "wait_s": n, "native": bool}
//! A key is a test id or file as the worker sees it, resolved against its cwd when the plan says "abs".
//! Behaviour: {"rank": n, "exit": n, "signal": n, "out": bytes-spec, "err": bytes-spec,
//!             "results": [record text...], "fault": name}
//! The worker logs start (argv, cwd, env), may wait for others, writes, logs end, and ends.
use serde_json::{json, Value};
use std::fs::OpenOptions;
use std::io::Write;
use std::path::{Component, Path, PathBuf};
use std::time::{Duration, Instant};

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn getpid() -> i32;
}

fn log(path: &str, v: Value) {
    let mut line = v.to_string();
    line.push('\n');
    if let Ok(mut f) = OpenOptions::new().append(true).create(true).open(path) {
        let _ = f.write_all(line.as_bytes());
    }
}

fn events(path: &str) -> Vec<Value> {
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| serde_json::from_str(l).ok())
        .collect()
}

/// The text a worker is told to write: `lines` numbered lines that name the worker, or raw bytes.
fn render(spec: &Value, tag: &str) -> Vec<u8> {
    let mut out = Vec::new();
    let lines = spec["lines"].as_u64().unwrap_or(0);
    let width = spec["width"].as_u64().unwrap_or(8) as usize;
    let pre = spec["pre"].as_str().unwrap_or("");
    let post = spec["post"].as_str().unwrap_or("");
    for i in 0..lines {
        out.extend_from_slice(pre.as_bytes());
        out.extend_from_slice(format!("<{tag}:{i}:{}>", "x".repeat(width)).as_bytes());
        out.extend_from_slice(post.as_bytes());
        if spec["bin"].as_bool().unwrap_or(false) {
            out.extend_from_slice(&[0xff, 0xfe, 0xc3, 0x28, 0x80]);
        }
        if i + 1 < lines || spec["nl"].as_bool().unwrap_or(true) {
            out.push(b'\n');
        }
    }
    out
}

fn write_output(out: &Value, err: &Value, tag: &str) {
    let o = render(out, tag);
    let e = render(err, tag);
    // Interleave in chunks, so that a reader that drains one stream only would block us
    let (mut so, mut se) = (std::io::stdout(), std::io::stderr());
    let (mut i, mut j) = (0, 0);
    while i < o.len() || j < e.len() {
        let a = (i + 8192).min(o.len());
        let b = (j + 8192).min(e.len());
        let _ = so.write_all(&o[i..a]);
        let _ = so.flush();
        let _ = se.write_all(&e[j..b]);
        i = a;
        j = b;
    }
}

fn lexical(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            Component::CurDir => {}
            other => out.push(other),
        }
    }
    out
}

fn main() {
    let argv: Vec<String> = std::env::args_os().map(|a| a.to_string_lossy().into_owned()).collect();
    let log_path = std::env::var("FW_LOG").unwrap_or_default();
    let plan: Value = std::env::var("FW_PLAN")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or(json!({}));
    let cwd = std::env::current_dir().unwrap_or_default();
    let pid = unsafe { getpid() };
    let tag = format!("w{pid}");
    let mut env = serde_json::Map::new();
    for k in plan["envkeys"].as_array().cloned().unwrap_or_default() {
        let key = k.as_str().unwrap_or("");
        if let Some(val) = std::env::var_os(key) {
            env.insert(key.to_string(), json!(val.to_string_lossy()));
        }
    }
    let args = &argv[1..];
    let native = plan["native"].as_bool().unwrap_or(false);
    // What this worker was given, as absolute `file[::rest]`
    let mut given: Vec<String> = Vec::new();
    let mut out_file: Option<PathBuf> = None;
    let rest: &[String] = if native {
        if let Some(i) = args.iter().position(|a| a == "--out") {
            out_file = args.get(i + 1).map(PathBuf::from);
        }
        match args.iter().position(|a| a == "--") {
            Some(i) => &args[i + 1..],
            None => &[],
        }
    } else {
        args
    };
    for a in rest {
        let (file, tail) = match a.split_once("::") {
            Some((f, t)) => (f.to_string(), format!("::{t}")),
            None => (a.clone(), String::new()),
        };
        let joined = cwd.join(&file);
        let full = joined.canonicalize().unwrap_or_else(|_| lexical(&joined));
        given.push(format!("{}{}", full.to_string_lossy(), tail));
    }
    log(&log_path, json!({"ev": "start", "pid": pid, "argv": args, "cwd": cwd.to_string_lossy(), "env": env,
        "given": given, "out": out_file.as_ref().map(|p| p.to_string_lossy().into_owned()).unwrap_or_default()}));

    let by = &plan["by"];
    let mine: Vec<&Value> = given.iter().filter_map(|g| by.get(g)).collect();
    let wait = Duration::from_secs_f64(plan["wait_s"].as_f64().unwrap_or(15.0));
    let abort = format!("{log_path}.abort");
    let began = Instant::now();
    let mut stuck = false;
    let mut wait_for = |what: &str, names: &[String], ev: &[&str]| {
        if names.is_empty() {
            return;
        }
        loop {
            let seen: std::collections::HashSet<String> = events(&log_path)
                .into_iter()
                .filter(|e| ev.contains(&e["ev"].as_str().unwrap_or("")))
                .flat_map(|e| {
                    e["given"].as_array().cloned().unwrap_or_default().into_iter()
                        .map(|x| x.as_str().unwrap_or("").to_string()).collect::<Vec<_>>()
                })
                .collect();
            if names.iter().all(|n| seen.contains(n)) || Path::new(&abort).exists() {
                return;
            }
            if began.elapsed() > wait {
                log(&log_path, json!({"ev": "stuck", "pid": pid, "what": what}));
                let _ = std::fs::write(&abort, "");
                stuck = true;
                return;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    };
    let null = Value::Null;
    let pick = |name: &str| mine.iter().map(|b| &b[name]).find(|v| !v.is_null()).unwrap_or(&null).clone();
    let out_spec = pick("out");
    let err_spec = pick("err");
    let early = plan["early"].as_bool().unwrap_or(false);
    if early {
        write_output(&out_spec, &err_spec, &tag);
    }
    if plan["barrier"].as_bool().unwrap_or(false) {
        let all: Vec<String> = by.as_object().map(|o| o.iter()
            .filter(|(_, b)| !b["nostart"].as_bool().unwrap_or(false))
            .map(|(k, _)| k.clone()).collect()).unwrap_or_default();
        wait_for("start", &all, &["start"]);
    }
    if let Some(my_rank) = mine.iter().filter_map(|b| b["rank"].as_i64()).min() {
        let earlier: Vec<String> = by.as_object().map(|o| o.iter()
            .filter(|(k, b)| b["rank"].as_i64().map(|r| r < my_rank).unwrap_or(false)
                && !b["nostart"].as_bool().unwrap_or(false) && !given.contains(k))
            .map(|(k, _)| k.clone()).collect()).unwrap_or_default();
        wait_for("end", &earlier, &["end"]);
    }

    let mut exit = pick("exit").as_i64();
    let signal = pick("signal").as_i64();
    let fault = pick("fault").as_str().unwrap_or("").to_string();

    if native {
        // Results of every given file, in order, damaged as told
        let mut bytes: Vec<u8> = Vec::new();
        let mut bad = false;
        let mut n = 0;
        for b in &mine {
            for r in b["results"].as_array().cloned().unwrap_or_default() {
                let outcome = r["outcome"].as_str().unwrap_or("");
                bad |= outcome != "passed" && outcome != "skipped";
                n += 1;
                bytes.extend_from_slice(r.to_string().as_bytes());
                bytes.push(b'\n');
            }
        }
        if pick("blank").as_bool().unwrap_or(false) {
            // Lines with nothing in them say nothing
            // (none after the last record, which a fault may cut)
            let mut spaced: Vec<u8> = Vec::new();
            for line in bytes.split_inclusive(|c| *c == b'\n') {
                spaced.extend_from_slice(b"\n  \n");
                spaced.extend_from_slice(line);
            }
            bytes = spaced;
        }
        match fault.as_str() {
            "truncate" => {
                // cut the last record in the middle, or leave half a record when there is none
                if n == 0 {
                    bytes.extend_from_slice(b"{\"nodeid\": \"x");
                } else {
                    let cut = pick("cut").as_u64().unwrap_or(5) as usize;
                    let start = bytes[..bytes.len() - 1].iter().rposition(|c| *c == b'\n').map(|i| i + 1).unwrap_or(0);
                    let last = bytes.len() - 1 - start;
                    bytes.truncate(start + 1 + cut % (last - 1));
                }
            }
            "garbage" => bytes.extend_from_slice(b"not json\n"),
            "garbage_first" => bytes.splice(0..0, b"<<<>>>\n".iter().cloned()).for_each(drop),
            "null" => bytes.extend_from_slice(b"null\n"),
            "noutcome" => bytes.extend_from_slice(b"{\"nodeid\": \"a.py::t\", \"duration_ms\": 1.0}\n"),
            "binary" => bytes.extend_from_slice(&[0xff, 0xfe, b'\n']),
            _ => {}
        }
        if fault == "dir" {
            if let Some(p) = &out_file {
                let _ = std::fs::create_dir_all(p);
            }
        } else if fault != "missing" {
            if let Some(p) = &out_file {
                let _ = std::fs::write(p, &bytes);
            }
        }
        if exit.is_none() {
            exit = Some(if bad { 1 } else { 0 });
        }
    }
    if !early {
        write_output(&out_spec, &err_spec, &tag);
    }
    let code = exit.unwrap_or(0);
    log(&log_path, json!({"ev": "end", "pid": pid, "given": given, "exit": code, "signal": signal.unwrap_or(0),
        "fault": fault, "out": out_spec, "err": err_spec}));
    if let Some(sig) = signal {
        // Twice: the runtime's own handler swallows the first SIGSEGV
        for _ in 0..100 {
            unsafe { kill(getpid(), sig as i32) };
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    std::process::exit(code as i32);
}
