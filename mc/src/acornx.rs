//! Driving the real system from Acorn source text.
use acorn::certificate::Certificate;
use acorn::elaborator::lowered_module::LoweredGoalId;
use acorn::module::{LoadState, ModuleId};
use acorn::processor::Processor;
use acorn::project::Project;
use acorn::prover::{Outcome, ProverMode, ScoringConfig, ScoringPolicy};

pub struct Loaded {
    pub project: Project,
    pub module_id: ModuleId,
}

/// Loads `text` as module `main` of a mock project; Err is the elaboration error.
pub fn load(text: &str) -> Result<Loaded, String> { load_in(Project::new_mock(), &[("main", text)]) }

/// Keeps the elaborated environment.
pub fn load_ide(text: &str) -> Result<Loaded, String> { load_in(ide_project(), &[("main", text)]) }

pub fn ide_project() -> Project {
    let config = acorn::project::ProjectConfig { usage_mode: acorn::project::UsageMode::Ide, use_filesystem: false, read_cache: false, write_cache: false, update_version: false };
    Project::new("/mock".into(), "/mock/build".into(), config).unwrap()
}

/// Several modules, the last of which must be `main`.
pub fn load_in(mut project: Project, files: &[(&str, &str)]) -> Result<Loaded, String> {
    for (name, text) in files {
        project.mock(&format!("/mock/{name}.ac"), text);
    }
    let module_id = project.load_module_by_name("main").map_err(|e| format!("{e:?}"))?;
    match project.get_module_by_id(module_id) {
        LoadState::Ok(_) => {}
        LoadState::Error(e) => return Err(format!("{e}")),
        _ => return Err("module not loaded".into()),
    }
    Ok(Loaded { project, module_id })
}

impl Loaded {
    pub fn goal_id(&self, name: &str) -> Option<LoweredGoalId> {
        Some(self.project.get_lowered_module(self.module_id)?.goal_by_name(name)?.0)
    }

    /// A processor holding the facts visible at the goal, with the goal set when proving.
    pub fn processor(&self, goal: LoweredGoalId, policy: Option<ScoringPolicy>) -> Processor {
        let lowered = self.project.get_lowered_module(self.module_id).unwrap();
        let entry = lowered.goal(goal);
        let mut p = match policy {
            Some(policy) => Processor::with_imports_and_scoring_config(None, &entry.bindings, &self.project, ScoringConfig::new(policy)),
            None => Processor::with_imports_for_checking(None, &entry.bindings, &self.project),
        }
        .map_err(|e| e.message)
        .unwrap();
        p.add_visible_module_facts(lowered, goal).map_err(|e| e.message).unwrap();
        if policy.is_some() {
            p.set_lowered_goal(&entry.lowered_goal);
        }
        p
    }

    pub fn check_cert(&self, goal: LoweredGoalId, p: &Processor, cert: &Certificate) -> Result<usize, String> {
        let lowered = self.project.get_lowered_module(self.module_id).unwrap();
        let entry = lowered.goal(goal);
        p.check_cert_with_usage(cert, Some(&entry.lowered_goal), &entry.lowered_goal.kernel_context, &self.project, &entry.bindings)
            .map(|c| c.consumed_proof_steps)
            .map_err(|e| e.to_string())
    }

    pub fn search(&self, goal: LoweredGoalId, p: &mut Processor, mode: ProverMode) -> Outcome {
        let lowered = self.project.get_lowered_module(self.module_id).unwrap();
        p.search(mode, &lowered.goal(goal).lowered_goal.kernel_context)
    }

    pub fn make_cert(&self, goal: LoweredGoalId, p: &Processor) -> Result<Certificate, String> {
        let lowered = self.project.get_lowered_module(self.module_id).unwrap();
        let entry = lowered.goal(goal);
        p.make_cert(&entry.bindings, &entry.lowered_goal.kernel_context, &self.project, Some(&entry.lowered_goal), false)
            .map_err(|e| e.to_string())
    }
}

pub fn parse_cert(json: &str) -> Certificate {
    serde_json::from_str(json).unwrap()
}
