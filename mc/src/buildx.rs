//! Runs the real verifier on project directories held as values, so that build histories can
//! be explored as an explicit state graph.
use acorn::builder::BuildStatus;
use acorn::project::{ProjectConfig, UsageMode};
use acorn::prover::{ScoringConfig, ScoringPolicy};
use acorn::verifier::Verifier;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

/// A project directory: relative path to contents.
pub type Files = BTreeMap<String, Vec<u8>>;

/// The verifier logs to standard output; a check's own output must not drown in it.
/// Every `println!` after this goes nowhere until `loud`.
pub fn quiet() -> i32 {
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    use std::os::fd::AsRawFd;
    unsafe {
        let saved = dup(1);
        dup2(null.as_raw_fd(), 1);
        saved
    }
}

pub fn loud(saved: i32) {
    extern "C" {
        fn dup2(a: i32, b: i32) -> i32;
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { dup2(saved, 1) };
}

pub struct Workdir {
    dir: tempfile::TempDir,
}

fn scratch() -> tempfile::TempDir {
    tempfile::Builder::new().prefix("acornmc").tempdir_in("/dev/shm").or_else(|_| tempfile::tempdir()).unwrap()
}

fn walk(root: &Path, dir: &Path, out: &mut Files) {
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let p = e.path();
        if e.file_type().unwrap().is_dir() {
            walk(root, &p, out);
        } else {
            let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
            out.insert(rel, std::fs::read(&p).unwrap());
        }
    }
}

impl Workdir {
    pub fn new() -> Workdir { Workdir { dir: scratch() } }

    pub fn path(&self) -> PathBuf { self.dir.path().canonicalize().unwrap() }

    pub fn read(&self) -> Files {
        let mut out = Files::new();
        walk(self.dir.path(), self.dir.path(), &mut out);
        out
    }

    /// Makes the directory hold exactly `files`.
    pub fn write(&self, files: &Files) {
        let root = self.dir.path();
        for e in std::fs::read_dir(root).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() { std::fs::remove_dir_all(&p).unwrap() } else { std::fs::remove_file(&p).unwrap() }
        }
        std::fs::create_dir_all(root.join("src")).unwrap();
        std::fs::create_dir_all(root.join("build")).unwrap();
        for (rel, c) in files {
            let p = root.join(rel);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, c).unwrap();
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Mode {
    /// `acorn verify [target]`
    Verify,
    /// `acorn verify --ignore-hash`
    IgnoreHash,
    /// `acorn verify --force-search --save-results`
    Force,
    /// `acorn check [--strict]`
    Check,
    Strict,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Action {
    pub mode: Mode,
    pub target: Option<String>,
    pub jobs: usize,
}

pub fn action(mode: Mode, target: Option<&str>, jobs: usize) -> Action {
    Action { mode, target: target.map(|s| s.to_string()), jobs }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outcome {
    pub status: String,
    /// "module:line: severity message", sorted
    pub diags: Vec<String>,
    /// modules skipped as unchanged
    pub skipped: i32,
    pub goals: (i32, i32),
    pub searches: i32,
}

impl Outcome {
    pub fn verdict(&self) -> (&str, &[String]) { (&self.status, &self.diags) }
}

pub fn run(dir: &Path, a: &Action) -> Outcome {
    let check = matches!(a.mode, Mode::Check | Mode::Strict);
    let config = ProjectConfig {
        usage_mode: if check { UsageMode::Check } else { UsageMode::Verify },
        use_filesystem: true,
        read_cache: a.mode != Mode::Force,
        write_cache: !check,
        update_version: false,
    };
    let fail = |m: String| Outcome { status: "refused".into(), diags: vec![m.replace(&*dir.to_string_lossy(), "")], skipped: 0, goals: (0, 0), searches: 0 };
    let v = if check {
        Verifier::new_for_check(dir.to_path_buf(), config, a.target.clone())
    } else {
        Verifier::new(dir.to_path_buf(), config, a.target.clone())
    };
    let mut v = match v {
        Ok(v) => v,
        Err(e) => return fail(e.to_string()),
    };
    v.builder.check_mode = check;
    v.builder.strict = a.mode == Mode::Strict;
    v.builder.check_hashes = a.mode == Mode::Verify;
    v.builder.force_search = a.mode == Mode::Force;
    v.builder.check_jobs = a.jobs;
    v.builder.timeout_secs = 1000.0;
    v.builder.activation_limit = 60;
    v.builder.scoring_config = ScoringConfig::new(ScoringPolicy::Handcrafted);
    match v.run() {
        Err(e) => fail(e),
        Ok(o) => {
            let mut diags: Vec<String> = o
                .events
                .iter()
                .filter_map(|e| {
                    let d = e.diagnostic.as_ref()?;
                    Some(format!("{}:{}: {:?} {}", e.module, d.range.start.line + 1, d.severity, d.message))
                })
                .collect();
            diags.sort();
            let status = match o.status {
                BuildStatus::Good => "good",
                BuildStatus::Warning => "warning",
                BuildStatus::Error => "error",
            };
            Outcome {
                status: status.into(),
                diags,
                skipped: o.metrics.modules_cached,
                goals: (o.metrics.goals_success, o.metrics.goals_total),
                searches: o.metrics.searches_total,
            }
        }
    }
}

/// Certificates and manifests, as opposed to what the user wrote.
pub fn is_cache(path: &str) -> bool { path.contains("/certs/") || path.starts_with("build/") || path == "acorn.toml" }

pub fn sources(f: &Files) -> Files { f.iter().filter(|(k, _)| !is_cache(k)).map(|(k, v)| (k.clone(), v.clone())).collect() }
