//! Session histories: sources are submitted for modules; after each submission the state of every module is recorded.
use ferlium::{
    CompilerSession, ExecutionTarget, MirOptimization, execution::ReferenceInterpreterLimits, module::ModuleId,
};
use ferlium::module::id::Id;
use serde_json::{Value as J, json};
use ustr::ustr;

use crate::job::{new_session, outcome, path};

fn run_in(s: &mut CompilerSession, id: ModuleId, entry: &str, mode: &str) -> J {
    let Some(f) = s.expect_fresh_module(id).get_local_function_id(ustr(entry)) else {
        return json!({ "noentry": entry });
    };
    let (target, opt) = match mode {
        "hir" => (ExecutionTarget::Hir, MirOptimization::Disabled),
        "mir" => (ExecutionTarget::Mir, MirOptimization::Disabled),
        _ => (ExecutionTarget::Mir, MirOptimization::Enabled),
    };
    s.set_mir_optimization(opt);
    let r = s.run_entry_with_limits(target, id, f, vec![], ReferenceInterpreterLimits::default().with_fuel_limit(Some(1_000_000)));
    s.set_mir_optimization(MirOptimization::Disabled);
    outcome(r)
}

pub fn run(job: &J) -> J {
    let mut s = new_session();
    s.set_allow_experimental(job.get("exp").and_then(J::as_bool).unwrap_or(false));
    let names: Vec<&str> = job["names"].as_array().unwrap().iter().filter_map(J::as_str).collect();
    let mut steps = Vec::new();
    for step in job["session"].as_array().unwrap() {
        let name = step["name"].as_str().unwrap();
        let src = step["src"].as_str().unwrap();
        let id = s.modules().id_by_path(&path(name));
        let mut rec;
        if step["upd"].as_bool() == Some(true) && id.is_some() {
            let r = s.update_module_source(id.unwrap(), src);
            rec = json!({ "updated": r.is_ok() });
        } else {
            let target = if step["mir"].as_bool() == Some(true) { ExecutionTarget::Mir } else { ExecutionTarget::Hir };
            let r = s.compile_for(target, src, name, path(name));
            rec = json!({ "ok": r.is_ok() });
            if let Err(e) = r {
                rec["err"] = json!(format!("{e:?}").chars().take(300).collect::<String>());
            }
        }
        let modes: Vec<&str> = step["modes"].as_array().unwrap().iter().filter_map(J::as_str).collect();
        let entry = step["entry"].as_str().unwrap_or("f");
        let mut mods = Vec::new();
        for n in &names {
            let Some(id) = s.modules().id_by_path(&path(n)) else {
                mods.push(json!({ "ex": false }));
                continue;
            };
            let info = s.modules().info(id).unwrap();
            let stale = info.is_stale();
            let deps: Vec<String> = info
                .latest_deps()
                .iter()
                .filter_map(|d| s.modules().path(*d).map(|p| format!("{p}")))
                .collect();
            let errors = info.diagnostics().iter().filter(|d| format!("{:?}", d.severity).contains("Error")).count();
            let mut m = json!({
                "ex": true, "stale": stale, "has": info.has_compiled_module(), "deps": deps, "errors": errors,
                "rev": info.compilation_revision().as_index(),
                "ver": info.source_version().map(|v| v.as_index()),
                "src": s.get_module_source(id).map(|m| m.source.to_string()),
            });
            if !stale {
                m["runs"] = json!(modes.iter().map(|mode| run_in(&mut s, id, entry, mode)).collect::<Vec<_>>());
            }
            mods.push(m);
        }
        rec["mods"] = json!(mods);
        steps.push(rec);
    }
    json!({ "steps": steps })
}
