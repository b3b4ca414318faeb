//! Driver around the public API of rtest.
//!
//!   vh batch            one JSON op per stdin line, one JSON answer per stdout line
//!   vh parallel OUT     execute_tests_parallel on the JSON config read from stdin; {"ret": n} goes to OUT
//!   vh native OUT       execute_native, likewise
//!   vh seq OUT          execute_tests (one pytest launch), likewise
//!   vh pool OUT         WorkerPool on a list of tasks; results go to OUT
use clap::Parser;
use serde_json::{json, Value};
use std::io::{BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default()
}

fn pairs(v: &Value) -> Vec<(String, String)> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|p| (p[0].as_str().unwrap_or("").to_string(), p[1].as_str().unwrap_or("").to_string()))
                .collect()
        })
        .unwrap_or_default()
}

fn path_str(p: &Path) -> String {
    p.to_string_lossy().into_owned()
}

fn op(v: &Value) -> Value {
    match v["op"].as_str().unwrap_or("") {
        "distribute" => {
            let mode = match v["mode"].as_str().unwrap_or("").parse::<rtest::DistributionMode>() {
                Ok(m) => m,
                Err(e) => return json!({"err": e.to_string()}),
            };
            let scheduler = rtest::create_scheduler(mode);
            let n = v["n"].as_u64().unwrap_or(0) as usize;
            json!({"batches": scheduler.distribute_tests(strs(&v["tests"]), n)})
        }
        "group" => {
            let root = PathBuf::from(v["root"].as_str().unwrap_or(""));
            let mut groups: Vec<(String, Vec<String>)> =
                rtest::subproject::group_tests_by_subproject(&root, &strs(&v["ids"]))
                    .into_iter()
                    .map(|(dir, ids)| (path_str(&dir), ids))
                    .collect();
            groups.sort();
            let relative: Vec<Vec<String>> = groups
                .iter()
                .map(|(dir, ids)| rtest::subproject::make_test_paths_relative(ids, &root, Path::new(dir)))
                .collect();
            json!({"groups": groups, "relative": relative})
        }
        "relativize" => json!({"ids": rtest::subproject::make_test_paths_relative(
            &strs(&v["ids"]),
            Path::new(v["old"].as_str().unwrap_or("")),
            Path::new(v["new"].as_str().unwrap_or("")),
        )}),
        "files" => {
            let files = rtest::collect_test_files(
                Path::new(v["root"].as_str().unwrap_or("")),
                &strs(&v["paths"]),
                &strs(&v["patterns"]),
            );
            json!({"files": files.iter().map(|p| path_str(p)).collect::<Vec<_>>()})
        }
        "config" => {
            let c = rtest::config::read_pytest_config(Path::new(v["root"].as_str().unwrap_or("")));
            json!({
                "testpaths": c.testpaths.iter().map(|p| path_str(p)).collect::<Vec<_>>(),
                "python_files": c.python_files,
                "python_classes": c.python_classes,
                "python_functions": c.python_functions,
            })
        }
        "args" => {
            let mut argv = vec!["rtest".to_string()];
            argv.extend(strs(&v["argv"]));
            let args = match rtest::cli::Args::try_parse_from(argv) {
                Ok(a) => a,
                Err(e) => return json!({"parse": false, "err": e.to_string()}),
            };
            let dist_ok = args.validate_dist().is_ok();
            let (n_ok, workers) = match args.get_num_processes() {
                Ok(n) => (true, rtest::determine_worker_count(n, args.maxprocesses)),
                Err(_) => (false, 0),
            };
            json!({
                "parse": true, "dist_ok": dist_ok, "dist": args.dist, "n_ok": n_ok, "workers": workers,
                "env": args.env, "files": args.files, "collect_only": args.collect_only,
                "native": matches!(args.runner, rtest::cli::Runner::Native),
            })
        }
        "env" => {
            let runner = rtest::PytestRunner::new(strs(&v["env"]));
            json!({"env": runner.env_vars, "program": runner.program, "initial": runner.initial_args})
        }
        // The environment's own answer, not rtest's
        "cpus" => json!({"auto": num_cpus::get_physical(), "logical": num_cpus::get()}),
        "defaults" => json!({
            "files": rtest::default_python_files(),
            "classes": rtest::default_python_classes(),
            "functions": rtest::default_python_functions(),
        }),
        other => json!({"unsupported": other}),
    }
}

fn batch() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdout = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("op");
        let answer = catch_unwind(AssertUnwindSafe(|| op(&v))).unwrap_or_else(|e| {
            let text = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({"panic": text})
        });
        let mut out = stdout.lock();
        writeln!(out, "{answer}").expect("stdout");
        out.flush().expect("flush");
    }
}

fn single(kind: &str, out: &str) {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("stdin");
    let v: Value = serde_json::from_str(&text).expect("config");
    let program = v["program"].as_str().unwrap_or("").to_string();
    let initial = strs(&v["initial"]);
    let env = pairs(&v["env"]);
    let root = PathBuf::from(v["root"].as_str().unwrap_or(""));
    let n = v["n"].as_u64().unwrap_or(0) as usize;
    let answer = catch_unwind(AssertUnwindSafe(|| match kind {
        "parallel" => {
            let config = rtest::ParallelExecutionConfig {
                program: &program,
                initial_args: &initial,
                worker_count: n,
                dist_mode: v["mode"].as_str().unwrap_or(""),
                rootpath: &root,
                use_subprojects: v["subprojects"].as_bool().unwrap_or(true),
                env_vars: &env,
            };
            json!({"ret": rtest::execute_tests_parallel(&config, strs(&v["ids"]))})
        }
        "seq" => {
            let dir = v["dir"].as_str().map(PathBuf::from);
            json!({"ret": rtest::execute_tests(
                &program, &initial, strs(&v["ids"]), strs(&v["extra"]), dir.as_deref(), &env)})
        }
        "native" => {
            let config = rtest::NativeRunnerConfig {
                python_executable: program.clone(),
                root_path: root.clone(),
                num_workers: n,
                python_files: strs(&v["files_patterns"]),
                python_classes: strs(&v["classes"]),
                python_functions: strs(&v["functions"]),
            };
            let files = strs(&v["files"]).into_iter().map(PathBuf::from).collect();
            json!({"ret": rtest::execute_native(&config, files)})
        }
        "pool" => {
            let mut pool = rtest::WorkerPool::new();
            for t in v["tasks"].as_array().expect("tasks") {
                pool.spawn_worker(rtest::WorkerTask {
                    worker_id: t["id"].as_u64().unwrap_or(0) as usize,
                    program: t["program"].as_str().unwrap_or("").to_string(),
                    initial_args: strs(&t["initial"]),
                    tests: strs(&t["tests"]),
                    pytest_args: strs(&t["extra"]),
                    working_dir: t["dir"].as_str().map(PathBuf::from),
                    env_vars: pairs(&t["env"]),
                });
            }
            let results: Vec<Value> = pool
                .wait_for_all()
                .into_iter()
                .map(|r| json!({"id": r.worker_id, "code": r.exit_code, "out": r.stdout, "err": r.stderr}))
                .collect();
            json!({"results": results})
        }
        other => panic!("unknown kind {other}"),
    }))
    .unwrap_or_else(|_| json!({"panic": true}));
    std::io::stdout().flush().ok();
    if let Ok(log) = std::env::var("FW_LOG") {
        let mut event = answer.clone();
        event["ev"] = json!("return");
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(log) {
            let _ = f.write_all(format!("{event}\n").as_bytes());
        }
    }
    std::fs::write(out, answer.to_string()).expect("answer");
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    match argv[1].as_str() {
        "batch" => batch(),
        kind => single(kind, &argv[2]),
    }
}
