//! Program jobs: compile one or several modules, then run entries in the requested modes.
use ferlium::{
    CompilerSession, ExecutionTarget, MirOptimization, Path,
    compiler::error::{RuntimeErrorKind, SandboxViolationKind, SourceFailureKind},
    eval::RuntimeError,
    execution::ReferenceInterpreterLimits,
    hir::value::Value,
    module::ModuleId,
};
use serde_json::{Value as J, json};
use ustr::ustr;

use crate::{host, session_job, value_json::to_json};

#[derive(Default)]
pub struct State {
    session: Option<CompilerSession>,
    uses: usize,
}

pub fn new_session() -> CompilerSession {
    let mut s = CompilerSession::new();
    let id = s.modules().next_id();
    s.register_module(Path::single_str("host"), host::module(id));
    s
}

pub fn path(name: &str) -> Path {
    Path::new(name.split("::").map(ustr).collect())
}

pub fn failure_kind(kind: &SourceFailureKind) -> String {
    kind.to_string()
}

pub fn violation_kind(kind: &SandboxViolationKind) -> &'static str {
    match kind {
        SandboxViolationKind::CallDepthLimitExceeded { .. } => "depth",
        SandboxViolationKind::EnvironmentCellLimitExceeded { .. } => "cells",
        SandboxViolationKind::FuelExhausted => "fuel",
    }
}

pub fn outcome(result: Result<Value, RuntimeError>) -> J {
    match result {
        Ok(v) => {
            let j = json!({ "ok": to_json(&v) });
            v.discard_storage();
            j
        }
        Err(e) => error_json(&e),
    }
}

pub fn error_json(e: &RuntimeError) -> J {
    match e {
        RuntimeError::SourceFailure(f) => json!({ "fail": failure_kind(&f.kind()) }),
        RuntimeError::SandboxViolation(v) => {
            let mut j = json!({ "sandbox": violation_kind(&v.kind()) });
            if let Some(f) = v.interrupted_source_failure() {
                j["interrupted"] = json!(failure_kind(&f.kind()));
            }
            j
        }
        RuntimeError::FailureDuringCleanup(f) => json!({
            "cleanup": [failure_kind(&f.initial().kind()), failure_kind(&f.during_cleanup().kind())],
        }),
    }
    .also(|_| {
        let _ = matches!(e.kind(), RuntimeErrorKind::FailureDuringCleanup);
    })
}

trait Also: Sized {
    fn also(self, f: impl FnOnce(&Self)) -> Self {
        f(&self);
        self
    }
}
impl Also for J {}

fn limits(run: &J) -> ReferenceInterpreterLimits {
    let mut l = ReferenceInterpreterLimits::default();
    let fuel = run.get("fuel").and_then(J::as_u64).map(|f| f as usize);
    l = l.with_fuel_limit(Some(fuel.unwrap_or(5_000_000)));
    if run.get("fuel").is_some_and(J::is_null) {
        l = l.with_fuel_limit(None);
    }
    if let Some(d) = run.get("depth").and_then(J::as_u64) {
        l = l.with_call_depth_limit(d as usize);
    }
    if let Some(c) = run.get("cells").and_then(J::as_u64) {
        l = l.with_environment_cell_limit(c as usize);
    }
    l
}

pub fn from_json(j: &J) -> Value {
    match j {
        J::Null => Value::unit(),
        J::Bool(b) => Value::native(*b),
        J::Number(n) => Value::native(n.as_i64().unwrap() as isize),
        J::String(s) => {
            use std::str::FromStr;
            Value::native(ferlium::std::string::String::from_str(s).unwrap())
        }
        J::Array(a) => Value::tuple(a.iter().map(from_json).collect::<Vec<_>>()),
        J::Object(o) => {
            if let Some(J::Array(a)) = o.get("arr") {
                ferlium::std::array::array_value_from_vec(a.iter().map(from_json).collect())
            } else {
                panic!("unsupported argument {j}")
            }
        }
    }
}

pub fn run_one(s: &mut CompilerSession, module_id: ModuleId, expr: Option<ferlium::module::LocalFunctionId>, run: &J) -> J {
    let entry = match run.get("entry").and_then(J::as_str) {
        Some(name) => match s.expect_fresh_module(module_id).get_local_function_id(ustr(name)) {
            Some(id) => id,
            None => return json!({ "noentry": name }),
        },
        None => match expr {
            Some(e) => e,
            None => return json!({ "noentry": "expression" }),
        },
    };
    let args: Vec<Value> = run
        .get("args")
        .and_then(J::as_array)
        .map(|a| a.iter().map(from_json).collect())
        .unwrap_or_default();
    let (target, opt) = match run["mode"].as_str().unwrap_or("hir") {
        "hir" => (ExecutionTarget::Hir, MirOptimization::Disabled),
        "mir" => (ExecutionTarget::Mir, MirOptimization::Disabled),
        _ => (ExecutionTarget::Mir, MirOptimization::Enabled),
    };
    s.set_mir_optimization(opt);
    host::take_log();
    if run.get("reenter").is_some() {
        return run_twice(s, target, module_id, entry, args, run);
    }
    let result = s.run_entry_with_limits(target, module_id, entry, args, limits(run));
    let mut j = outcome(result);
    s.set_mir_optimization(MirOptimization::Disabled);
    j["log"] = json!(host::take_log());
    j
}

/// One executor: runs the entry, and when that poisoned it, tries to enter again.
fn run_twice(
    s: &mut CompilerSession,
    target: ExecutionTarget,
    module_id: ModuleId,
    entry: ferlium::module::LocalFunctionId,
    args: Vec<Value>,
    run: &J,
) -> J {
    use ferlium::eval::{EvalCtx, ValOrMut, eval_function_with_ctx};
    use ferlium::mir::interpreter::Interpreter;
    s.prepare_execution_target(target, module_id);
    let again = || -> Vec<Value> {
        run.get("args")
            .and_then(J::as_array)
            .map(|a| a.iter().map(from_json).collect())
            .unwrap_or_default()
    };
    let mut j;
    match target {
        ExecutionTarget::Hir => {
            let vals = |a: Vec<Value>| a.into_iter().map(ValOrMut::Val).collect::<Vec<_>>();
            let mut ctx = EvalCtx::with_limits(module_id, s, limits(run));
            let r = eval_function_with_ctx(module_id, entry, vals(args), &mut ctx);
            j = outcome(r.map(|c| c.into_value()));
            j["log"] = json!(host::take_log());
            if j.get("sandbox").is_some() {
                let r = eval_function_with_ctx(module_id, entry, vals(again()), &mut ctx);
                j["re"] = outcome(r.map(|c| c.into_value()));
                j["relog"] = json!(host::take_log());
            }
        }
        ExecutionTarget::Mir => {
            let mut interp = Interpreter::with_limits(module_id, s, limits(run));
            j = outcome(interp.run_entry(module_id, entry, args));
            j["log"] = json!(host::take_log());
            if j.get("sandbox").is_some() {
                j["re"] = outcome(interp.run_entry(module_id, entry, again()));
                j["relog"] = json!(host::take_log());
            }
        }
    }
    s.set_mir_optimization(MirOptimization::Disabled);
    j
}

pub fn run(state: &mut State, job: &J) -> J {
    if job.get("session").is_some() {
        return session_job::run(job);
    }
    // A session is reused for a number of programs: creating one costs more than compiling.
    state.uses += 1;
    if state.uses > 200 || job.get("fresh").is_some() || job.get("mods").is_some() {
        state.session = None;
        state.uses = 0;
    }
    let s = state.session.get_or_insert_with(new_session);
    s.set_allow_experimental(job.get("exp").and_then(J::as_bool).unwrap_or(false));
    if let Some(mods) = job.get("mods").and_then(J::as_array) {
        for m in mods {
            let name = m["name"].as_str().unwrap();
            if let Err(e) = s.compile(m["src"].as_str().unwrap(), name, path(name)) {
                return json!({ "err": format!("{e:?}"), "in": name });
            }
        }
    }
    let src = job["src"].as_str().unwrap();
    let name = job.get("name").and_then(J::as_str).unwrap_or("test");
    let out = match s.compile(src, name, path(name)) {
        Ok(out) => out,
        Err(e) => return json!({ "err": format!("{e:?}") }),
    };
    let mut result = json!({ "ok": true });
    if let Some(want) = job.get("sigs").and_then(J::as_array) {
        let module = s.expect_fresh_module(out.module_id);
        let env = s.modules().env_for(module);
        let mut sigs = serde_json::Map::new();
        for name in want.iter().filter_map(J::as_str) {
            if let Some(f) = module.get_function(ustr(name)) {
                sigs.insert(
                    name.to_string(),
                    json!(f.definition.ty_scheme.display(&env).to_string()),
                );
            }
        }
        result["sigs"] = J::Object(sigs);
    }
    if let Some(runs) = job.get("runs").and_then(J::as_array) {
        let results: Vec<J> = runs
            .iter()
            .map(|r| run_one(s, out.module_id, out.expr, r))
            .collect();
        result["runs"] = json!(results);
    }
    result
}
