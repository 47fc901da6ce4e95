//! P06: whatever was verified, edited, partially verified or checked before, a build reports
//! for the current sources what a build from scratch reports.
use mc::{buildx::*, projects::*, report::*};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Mutex;

struct State { cache: Files, path: String }


fn main() {
    let out = quiet();
    let run = Run::new("P06");
    let depth = if run.thorough() { 3 } else { 2 };
    for f in families() {
        let all = choices(&f);
        let toml: Files = [("acorn.toml".to_string(), vec![])].into();
        // From scratch, one module at a time.
        let fresh: Mutex<HashMap<(Vec<usize>, Option<String>), Outcome>> = Default::default();
        let mut jobs = vec![];
        for c in &all {
            for t in std::iter::once(None).chain(f.targets.iter().map(|t| Some(t.to_string()))) {
                jobs.push((c.clone(), t));
            }
        }
        parallel(jobs.len(), |i| {
            let (c, t) = &jobs[i];
            let mut files = source_files(&f, c);
            files.extend(toml.clone());
            let (r, _) = exec(&files, &action(Mode::IgnoreHash, t.as_deref(), 1));
            run.add("evaluations", 1);
            match r {
                Err(e) => run.violation(&format!("{} scratch {} {:?}", f.name, describe(&f, c), t), format!("panic {e}")),
                Ok(o) => {
                    // The goals of the menu have known verdicts.
                    let mut want = V::Good;
                    for (m, module) in f.modules.iter().enumerate() {
                        if t.is_none() && f.modules[m].variants[c[m]].is_none() && m == 2 { continue; }
                        if t.is_none() || t.as_deref() == Some(module.name) {
                            want = want.max((f.expect)(c, m));
                        }
                    }
                    let got = match o.status.as_str() { "good" => V::Good, "warning" => V::Warning, _ => V::Error };
                    if got != want {
                        run.violation(&format!("{} scratch {} {:?}", f.name, describe(&f, c), t), format!("a build from scratch reports {o:?}, expected {want:?}"));
                    }
                    fresh.lock().unwrap().insert((c.clone(), t.clone()), o);
                }
            }
        });
        let fresh = fresh.into_inner().unwrap();
        run.add("scratch_builds", fresh.len() as u64);
        if std::env::var("DBG").is_ok() { eprintln!("{} scratch {} {:.1}s", f.name, fresh.len(), run.elapsed()); }
        let mut muts: Vec<Action> = vec![action(Mode::Verify, None, 1), action(Mode::Verify, None, 3)];
        muts.extend(f.targets.iter().map(|t| action(Mode::Verify, Some(t), 1)));
        muts.push(action(Mode::IgnoreHash, None, 2));
        muts.push(action(Mode::Force, None, 1));
        let mut seen: BTreeSet<Vec<u8>> = BTreeSet::new();
        let mut level = vec![State { cache: toml.clone(), path: "start".into() }];
        for s in &f.seeds {
            let mut files = source_files(&f, s);
            files.extend(toml.clone());
            let (_, after) = exec(&files, &action(Mode::Verify, None, 1));
            level.push(State { cache: cache_of(&after), path: format!("verified {}", describe(&f, s)) });
        }
        for s in &level { seen.insert(canon(&s.cache)); }
        for d in 0..depth {
            run.add("states", level.len() as u64);
            let next: Mutex<BTreeMap<Vec<u8>, State>> = Default::default();
            parallel(level.len() * all.len(), |i| {
                let (s, c) = (&level[i / all.len()], &all[i % all.len()]);
                let mut files = source_files(&f, c);
                files.extend(s.cache.clone());
                let src = sources(&files);
                for a in &muts {
                    let (r, after) = exec(&files, a);
                    run.add("transitions", 1);
                    let path = format!("{} / {} {}", s.path, describe(&f, c), act_name(a));
                    let key = format!("{} {path}", f.name);
                    let o = match r {
                        Err(e) => { run.violation(&key, format!("panic {e}")); continue; }
                        Ok(o) => o,
                    };
                    let want = &fresh[&(c.clone(), a.target.clone())];
                    if o.skipped > 0 { run.add("distinct_nontrivial", 1); }
                    run.add("modules_skipped", o.skipped as u64);
                    // Which of several load errors count as secondary depends on the loading order.
                    let same = if want.status == "error" { o.status == "error" && o.diags.is_empty() == want.diags.is_empty() } else { o.verdict() == want.verdict() };
                    if !same {
                        run.violation(&key, format!("this build reports {o:?}\nfrom scratch: {want:?}"));
                    }
                    if sources(&after) != src {
                        run.violation(&format!("{key} sources"), "the build changed source files".into());
                    }
                    if o.status == "error" || o.status == "refused" {
                        if cache_of(&after) != s.cache {
                            run.violation(&format!("{key} error-writes"), "a failed build changed the stored certificates or manifests".into());
                        }
                    } else {
                        let cache = cache_of(&after);
                        let k = canon(&cache);
                        if !seen.contains(&k) {
                            next.lock().unwrap().entry(k).and_modify(|s| if path < s.path { s.path = path.clone() }).or_insert(State { cache, path: path.clone() });
                        }
                        if o.status == "good" {
                            // What was just verified is accepted by a check that never searches,
                            // and verifying again has nothing to do.
                            let (r, after2) = exec(&after, &action(Mode::Check, a.target.as_deref(), 1 + (i % 2)));
                            run.add("traces_validated_against_impl", 1);
                            match r {
                                Ok(o) if o.status == "good" && o.searches == 0 => {}
                                o => run.violation(&format!("{key} check"), format!("a check right after a good build reports {o:?}")),
                            }
                            if after2 != after {
                                run.violation(&format!("{key} check-writes"), "a check changed files".into());
                            }
                            let (r, after3) = exec(&after, &action(Mode::Verify, a.target.as_deref(), 1));
                            match r {
                                Ok(o2) if o2.status == "good" && o2.searches == 0 && o2.goals == o.goals => {}
                                o => run.violation(&format!("{key} again"), format!("verifying again reports {o:?}")),
                            }
                            // A replay may shorten a certificate, nothing else.
                            let rest = |f: &Files| f.iter().filter(|(k, _)| !k.ends_with(".jsonl")).map(|(k, v)| (k.clone(), v.clone())).collect::<Files>();
                            if rest(&after3) != rest(&after) || after3.len() != after.len() {
                                run.violation(&format!("{key} again-writes"), "verifying again changed files".into());
                            }
                        }
                    }
                }
                // A check never accepts what a build would reject.
                for (k, t) in std::iter::once(None).chain(f.targets.iter().map(|t| Some(*t))).enumerate() {
                    let (r, after) = exec(&files, &action(Mode::Check, t, 1 + (i + k) % 2));
                    run.add("checks", 1);
                    let want = &fresh[&(c.clone(), t.map(|s| s.to_string()))];
                    let key = format!("{} {} / {} check {:?}", f.name, s.path, describe(&f, c), t);
                    match r {
                        Err(e) => run.violation(&key, format!("panic {e}")),
                        Ok(o) => {
                            if o.status == "good" {
                                run.add("checks_accepted", 1);
                                if want.status != "good" {
                                    run.violation(&key, format!("check accepts: {o:?}\nfrom scratch: {want:?}"));
                                }
                            }
                        }
                    }
                    if after != files {
                        run.violation(&format!("{key} writes"), "a check changed files".into());
                    }
                }
            });
            level = next.into_inner().unwrap().into_iter().map(|(k, s)| { seen.insert(k); s }).collect();
            if std::env::var("DBG").is_ok() { eprintln!("{} depth {} next {} {:.1}s", f.name, d, level.len(), run.elapsed()); }
            if level.is_empty() { run.add("fixpoints", 1); break; }
        }
        run.add("unexpanded_states", level.len() as u64);
        if let Some(s) = level.last() { run.sample(json!({"family": f.name, "history": s.path})); }
    }
    run.extra("bounds", json!({"actions_per_history": depth}));
    run.extra("exhaustive", json!(true));
    loud(out);
    run.finish(
        "exploration",
        "state: stored certificates and manifests; transition: any choice of variants for every source file, then one build; non-trivial: a build that skipped a module as unchanged",
        &["Handcrafted scoring policy, 60 activations; menu goals are decided well within that"],
        &["transitions", "distinct_nontrivial", "checks_accepted"],
    )
}
