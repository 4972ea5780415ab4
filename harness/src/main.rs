//! Conformance harness: executes programs and session histories on the real compiler, one JSON job
//! per input line, one JSON result per output line.  It judges nothing: it only records what the
//! code did (values, failures, event logs, signatures, revisions).
mod host;
mod job;
mod session_job;
mod value_json;

use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

use serde_json::{Value as J, json};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).map(String::as_str).unwrap_or("worker").to_string();
    let thread = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || run(&mode))
        .unwrap();
    thread.join().unwrap();
}

fn run(_mode: &str) {
    let last: Arc<Mutex<String>> = Arc::default();
    let sink = last.clone();
    std::panic::set_hook(Box::new(move |info| {
        *sink.lock().unwrap_or_else(|e| e.into_inner()) = info.to_string();
    }));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut state = job::State::default();
    for line in stdin.lock().lines() {
        let line = line.expect("readable stdin");
        if line.trim().is_empty() {
            continue;
        }
        let job: J = serde_json::from_str(&line).expect("valid job");
        let id = job["id"].clone();
        let result = catch_unwind(AssertUnwindSafe(|| job::run(&mut state, &job)));
        let (mut result, panicked) = match result {
            Ok(r) => (r, false),
            Err(_) => {
                let message = last.lock().unwrap_or_else(|e| e.into_inner()).clone();
                (json!({ "panic": message, "log": host::take_log() }), true)
            }
        };
        result["id"] = id;
        let mut out = stdout.lock();
        writeln!(out, "{result}").unwrap();
        out.flush().unwrap();
        if panicked {
            // The type universe may be left locked by the unwound compilation: start afresh.
            std::process::exit(3);
        }
    }
}
