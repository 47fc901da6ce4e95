//! An editor session on a project directory: files are saved, changed without saving, closed,
//! or changed on disk behind the project's back, and builds run as the language server runs them.
use crate::buildx::*;
use crate::projects::Module;
use acorn::build_cache::BuildCache;
use acorn::builder::{BuildEvent, Builder};
use acorn::module::{LoadState, ModuleDescriptor};
use acorn::project::{Project, ProjectConfig, ProjectView, UsageMode};
use acorn::prover::{ScoringConfig, ScoringPolicy};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use tokio_util::sync::CancellationToken;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Act {
    /// Save module `.0` as variant `.1`, then build what depends on it.
    Save(usize, usize),
    /// The same, but the build is overtaken by the next action after `.2` events.
    Overtaken(usize, usize, usize),
    /// Change the contents without saving or building.
    Update(usize, usize),
    Close(usize),
    /// The file changes on disk and nobody tells the project.
    Disk(usize, usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Seen {
    /// What the reload returned.
    pub reload: String,
    pub modules: BTreeMap<String, String>,
    pub status: String,
    pub diags: Vec<String>,
    /// per module: verified lines, for modules that reported anything
    pub verified: BTreeMap<String, BTreeSet<(u32, u32)>>,
    pub built: BTreeSet<String>,
    pub skipped: i32,
    pub finished: bool,
    /// per line of the saved module
    pub selection: Vec<String>,
}

pub struct Session {
    pub root: PathBuf,
    pub project: Project,
    version: i32,
    pub jobs: usize,
}

impl Session {
    pub fn open(root: &Path, jobs: usize) -> Session {
        let config = ProjectConfig { usage_mode: UsageMode::Ide, ..Default::default() };
        let mut project = Project::new(root.join("src"), root.join("build"), config).unwrap();
        project.add_unloaded_src_targets();
        Session { root: root.to_path_buf(), project, version: 0, jobs }
    }

    pub fn put(&mut self, m: &Module, text: &str) -> Result<(), String> {
        self.version += 1;
        self.project.update_file_for_ide(self.root.join(m.path), text, self.version).map_err(|e| self.clean(&e.to_string()))
    }

    pub fn update(&mut self, m: &Module, text: &str) -> Result<(), String> {
        self.version += 1;
        self.project.update_file(self.root.join(m.path), text, self.version).map_err(|e| self.clean(&e.to_string()))
    }

    pub fn close(&mut self, m: &Module) { let _ = self.project.close_file(self.root.join(m.path)); }

    fn clean(&self, s: &str) -> String { s.replace(&*self.root.to_string_lossy(), "") }

    pub fn modules(&self, names: &[&str]) -> BTreeMap<String, String> {
        let mut out = BTreeMap::new();
        for n in names {
            let d = ModuleDescriptor::name(n);
            let id = self.project.get_module_id_by_name(n);
            let s = match self.project.get_module(&d) {
                LoadState::None => "none".into(),
                LoadState::Registered => "registered".into(),
                LoadState::Loading => "loading".into(),
                LoadState::Error(e) => format!("error indirect={} {}", e.indirect, self.clean(&e.to_string())),
                LoadState::Ok(l) => {
                    let mut s = String::from("ok");
                    if l.env().is_none() { s += " NO ENVIRONMENT"; }
                    match l.lowered() {
                        None => s += " NO LOWERED WORK",
                        Some(w) => {
                            for f in w.facts() {
                                s += " fact";
                                for st in &f.steps { s += &format!(" {};", st.clause); }
                            }
                            for (_, g) in w.goals() {
                                s += &format!(" goal {} {:?}", g.lowered_goal.goal.name, g.lowered_goal.goal.proposition.source.range);
                                for st in &g.lowered_goal.steps { s += &format!(" {};", st.clause); }
                            }
                        }
                    }
                    s += &format!(" exports {} {:?}", l.export.fact_count(), id.map(|i| self.project.get_module_content_hash(i)));
                    s
                }
            };
            out.insert(n.to_string(), s);
        }
        out
    }

    /// Reloads and builds what depends on `m`, the way a save does.
    pub fn save(&mut self, m: &Module, names: &[&str], overtaken: Option<usize>) -> Seen {
        let path = self.root.join(m.path);
        let mut seen = Seen::default();
        let targets = match self.project.reload_dependent_targets_by_path(&path, self.jobs) {
            Ok(t) => t,
            Err(e) => {
                seen.reload = format!("failed {}", self.clean(&e.to_string()));
                seen.modules = self.modules(names);
                return seen;
            }
        };
        let mut t: Vec<String> = targets.iter().map(|t| t.to_string()).collect();
        t.sort();
        seen.reload = t.join(",");
        seen.modules = self.modules(names);
        let view = ProjectView::new_for_targets(&self.project, targets);
        let cancel = CancellationToken::new();
        let mut events: Vec<BuildEvent> = vec![];
        let mut n = 0;
        let token = cancel.clone();
        let cache = {
            let mut b = Builder::new_with_view(view, cancel, |e| {
                events.push(e);
                n += 1;
                if overtaken == Some(n) { token.cancel(); }
            });
            b.check_hashes = true;
            b.check_jobs = self.jobs;
            b.timeout_secs = 1000.0;
            b.activation_limit = 60;
            b.scoring_config = ScoringConfig::new(ScoringPolicy::Handcrafted);
            b.build();
            seen.status = format!("{:?}", b.status);
            seen.skipped = b.metrics.modules_cached;
            b.into_build_cache()
        };
        for e in &events {
            let name = e.module.to_string();
            if let Some(d) = &e.diagnostic {
                seen.diags.push(format!("{name}:{}: {:?} {}", d.range.start.line + 1, d.severity, self.clean(&d.message)));
                seen.built.insert(name.clone());
            }
            if let Some(v) = e.verified {
                seen.verified.entry(name.clone()).or_default().insert(v);
                seen.built.insert(name);
            }
            if let Some((done, total)) = e.progress { seen.finished = done == total; }
        }
        seen.diags.sort();
        if overtaken.is_none() {
            if let Some(c) = cache { self.project.update_build_cache(c, true); }
        }
        seen
    }

    pub fn selection(&self, m: &Module, lines: u32) -> Vec<String> {
        let path = self.root.join(m.path);
        (0..lines)
            .map(|l| match self.project.handle_selection(&path, l) {
                Err(e) => format!("{l} no {}", self.clean(&e)),
                Ok(acorn::project::SelectionInfo::Goals { goal_infos, goal_range }) => format!(
                    "{l} {:?} {}",
                    goal_range,
                    goal_infos.iter().map(|g| format!("{} {} {}", g.goal_name, g.has_cached_proof, g.steps.is_some())).collect::<Vec<_>>().join("; ")
                ),
                Ok(acorn::project::SelectionInfo::Citation(c)) => format!("{l} cites {:?} {} {:?}", c.theorem_name, c.expansion, c.theorem_location.is_some()),
            })
            .collect()
    }

    /// Goal names of the certificates held in memory for each module.
    pub fn certs(cache: &BuildCache, names: &[&str]) -> BTreeMap<String, Vec<String>> {
        names
            .iter()
            .map(|n| {
                let mut v: Vec<String> = cache
                    .get_certificates(&ModuleDescriptor::name(n))
                    .map(|s| s.certs.iter().map(|c| serde_json::to_string(c).unwrap_or_default()).collect())
                    .unwrap_or_default();
                v.sort();
                (n.to_string(), v)
            })
            .collect()
    }
}

/// Writes one source file; None removes it.
pub fn put_file(root: &Path, m: &Module, v: usize) {
    let p = root.join(m.path);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    match m.variants[v] {
        Some(t) => std::fs::write(p, t).unwrap(),
        None => { let _ = std::fs::remove_file(p); }
    }
}

pub fn run_all(root: &Path, mode: Mode) -> Outcome { run(root, &action(mode, None, 1)) }
