//! Every small theory over the menus of `families`: which proof searches end how, and what
//! becomes of the certificates. Shared by P02 (verdicts) and P03 (certificates).
use crate::{acornx, families::*, fol::*, report::*};
use acorn::certificate::Certificate;
use acorn::prover::{Outcome, ProverMode, ScoringPolicy};

pub struct Case<'a> {
    pub fam: &'a Family,
    pub facts: Vec<usize>,
    pub goal: usize,
    pub key: String,
    pub text: String,
}

impl Case<'_> {
    pub fn countermodel(&self) -> Option<usize> {
        let facts: Vec<Ex> = self.facts.iter().map(|i| self.fam.menu[*i].clone()).collect();
        self.fam.space.countermodel(&facts, &self.fam.menu[self.goal])
    }
}

pub struct Searched {
    pub outcome: Outcome,
    /// Some on Success: the certificate, or why none could be written.
    pub cert: Option<Result<Certificate, String>>,
    /// Some when there is a certificate: what an independent check-only session says about its
    /// JSON form.
    pub checked: Option<Result<usize, String>>,
    pub json_stable: bool,
}

pub fn search(text: &str) -> Result<Searched, String> {
    let l = acornx::load(text)?;
    let gid = l.goal_id("goal").ok_or("no goal")?;
    let mut p = l.processor(gid, Some(ScoringPolicy::Handcrafted));
    let outcome = l.search(gid, &mut p, ProverMode::Interactive { timeout_secs: 20.0, activation_limit: 15 });
    let (mut cert, mut checked, mut json_stable) = (None, None, true);
    if outcome == Outcome::Success {
        let c = l.make_cert(gid, &p);
        if let Ok(c) = &c {
            // Nothing of the proving session survives into the checking one.
            let json = serde_json::to_string(c).map_err(|e| e.to_string())?;
            let back: Certificate = serde_json::from_str(&json).map_err(|e| e.to_string())?;
            json_stable = serde_json::to_string(&back).map_err(|e| e.to_string())? == json;
            let fresh = acornx::load(text)?;
            let fid = fresh.goal_id("goal").ok_or("no goal")?;
            checked = Some(fresh.check_cert(fid, &fresh.processor(fid, None), &back));
        }
        cert = Some(c);
    }
    Ok(Searched { outcome, cert, checked, json_stable })
}

pub fn guarded_search(text: &str) -> Result<Searched, String> {
    guard(|| search(text)).unwrap_or_else(|p| Err(format!("panic: {p}")))
}

fn make_case<'a>(fam: &'a Family, texts: &[String], facts: Vec<usize>, g: usize) -> Case<'a> {
    let mut text = fam.preamble.clone();
    for (k, f) in facts.iter().enumerate() {
        text += &format!("axiom ax{k} {{ {} }}\n", texts[*f]);
    }
    text += &format!("theorem goal {{ {} }}\n", texts[g]);
    let key = format!("{}:{}=>{}", fam.name, facts.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("+"), g);
    Case { fam, facts, goal: g, key, text }
}

/// The case a key names.
pub fn with_case<T>(key: &str, f: impl FnOnce(&Case) -> T) -> T {
    let (name, rest) = key.split_once(':').expect("case key");
    let (facts, goal) = rest.split_once("=>").expect("case key");
    let facts = facts.split('+').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let fams = all_families();
    let fam = fams.iter().find(|f| f.name == name).expect("family");
    let texts: Vec<String> = fam.menu.iter().map(|e| fam.space.sig.show(e, 0)).collect();
    f(&make_case(fam, &texts, facts, goal.parse().unwrap()))
}

/// All theories within the bounds: `full` facts from the whole menu, and one more fact from
/// the first `head` entries; every menu entry as the goal.
pub fn explore(run: &Run, full: usize, head: usize, f: impl Fn(&Case, Result<Searched, String>) + Sync) {
    let fams: Vec<Family> = all_families().into_iter().filter(|f| std::env::var("FAMS").map_or(true, |s| s.contains(f.name))).collect();
    for fam in &fams {
        let menu = &fam.menu;
        for e in menu {
            fam.space.truth(e);
        }
        let texts: Vec<String> = menu.iter().map(|e| fam.space.sig.show(e, 0)).collect();
        let n = menu.len();
        let mut sets: Vec<Vec<usize>> = vec![vec![]];
        let mut level = sets.clone();
        for size in 1..=full + 1 {
            let lim = if size <= full { n } else { head.min(n) };
            let mut next = vec![];
            for s in &level {
                if size > full && s.iter().any(|i| *i >= lim) {
                    continue;
                }
                for i in s.last().map_or(0, |l| l + 1)..lim {
                    let mut t = s.clone();
                    t.push(i);
                    next.push(t);
                }
            }
            sets.extend(next.iter().cloned());
            level = next;
        }
        run.add("theories", sets.len() as u64);
        run.add("models_in_oracle", fam.space.models.len() as u64);
        parallel(sets.len(), |ci| {
            for g in 0..n {
                let case = make_case(fam, &texts, sets[ci].clone(), g);
                let r = guarded_search(&case.text);
                run.add("evaluations", 1);
                f(&case, r);
            }
        });
    }
}
