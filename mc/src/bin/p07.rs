//! P07: a build that dies while it stores its results, or that one file operation fails for,
//! leaves a project that can be built, checked and edited as if it had not happened.
use mc::{buildx::*, faults::*, hashorder::with_seed, projects::*, report::*};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Mutex;

/// A build that stores something, and what it did to the disk.
struct Tr { fam: usize, before: Files, prev: Vec<usize>, c: Vec<usize>, a: Action, name: String }

struct Crash { fam: usize, c: Vec<usize>, prev: Vec<usize>, files: Files, path: String }

fn root(d: &Workdir) -> String { d.path().to_string_lossy().to_string() }

/// Lengths of the part of a write that reached the disk.
fn torn(bytes: &[u8], all: bool) -> Vec<usize> {
    let n = bytes.len();
    if all { return (1..n).collect(); }
    let mut out = BTreeSet::from([1, n / 2, n.saturating_sub(1)]);
    for (i, b) in bytes.iter().enumerate() {
        if *b == b'\n' { out.extend([i, i + 1, i + 2]); }
    }
    out.into_iter().filter(|k| *k > 0 && *k < n).collect()
}

fn main() {
    let out = quiet();
    let run = Run::new("P07");
    let fams: Vec<Family> = families();
    let seeds: u64 = if run.thorough() { 6 } else { 2 };
    let toml: Files = [("acorn.toml".to_string(), vec![])].into();
    // Verdicts from scratch.
    let fresh: Mutex<HashMap<(usize, Vec<usize>), Outcome>> = Default::default();
    let mut jobs = vec![];
    for (i, f) in fams.iter().enumerate() { for c in choices(f) { jobs.push((i, c)); } }
    parallel(jobs.len(), |i| {
        let (fi, c) = &jobs[i];
        let mut files = source_files(&fams[*fi], c);
        files.extend(toml.clone());
        if let (Ok(o), _) = exec(&files, &action(Mode::IgnoreHash, None, 1)) { fresh.lock().unwrap().insert((*fi, c.clone()), o); }
    });
    let fresh = fresh.into_inner().unwrap();
    let status = |fi: usize, c: &Vec<usize>| fresh.get(&(fi, c.clone())).map(|o| o.status.clone()).unwrap_or_default();

    // The interrupted builds: from each earlier verified state, to each choice of sources.
    let mut trs = vec![];
    for (fi, f) in fams.iter().enumerate() {
        let ok: Vec<Vec<usize>> = choices(f).into_iter().filter(|c| matches!(status(fi, c).as_str(), "good" | "warning")).collect();
        let mut starts: Vec<(Option<Vec<usize>>, Files)> = vec![(None, toml.clone())];
        for s in ok.iter().filter(|c| run.thorough() || status(fi, c) == "good" || f.seeds.contains(c)).take(if run.thorough() { 12 } else { 4 }) {
            let mut files = source_files(f, s);
            files.extend(toml.clone());
            let (_, after) = exec(&files, &action(Mode::Verify, None, 1));
            starts.push((Some(s.clone()), cache_of(&after)));
        }
        for (s, cache) in &starts {
            for c in &ok {
                let mut acts = vec![action(Mode::Verify, None, 1)];
                if s.is_some() { acts.push(action(Mode::Force, None, 1)); }
                if run.thorough() { for t in &f.targets { acts.push(action(Mode::Verify, Some(t), 1)); } }
                for a in acts {
                    let mut files = source_files(f, c);
                    files.extend(cache.clone());
                    let name = format!("{} {} / {} {}", f.name, s.as_ref().map(|s| format!("verified {}", describe(f, s))).unwrap_or("start".into()), describe(f, c), act_name(&a));
                    trs.push(Tr { fam: fi, before: files, prev: s.clone().unwrap_or_else(|| c.clone()), c: c.clone(), a, name });
                }
            }
        }
    }
    run.add("interrupted_builds", trs.len() as u64);
    let crashes: Mutex<BTreeMap<(usize, Vec<usize>, Vec<usize>, Vec<u8>), Crash>> = Default::default();
    let reals: Mutex<Vec<(usize, u64, Fault)>> = Default::default();
    parallel(trs.len(), |i| {
        let t = &trs[i];
        let d = Workdir::new();
        let mut logs: Vec<(u64, Vec<Op>)> = vec![];
        for seed in 0..seeds {
            d.write(&t.before);
            let (r, log) = with_seed(seed, || with_fault(&root(&d), Fault::None, || guard(|| mc::buildx::run(&d.path(), &t.a))));
            if let Err(e) = r { run.violation(&t.name, format!("panic {e}")); }
            let mut disk = t.before.clone();
            for op in &log { apply(&mut disk, op); }
            // The model of the disk must explain the real outcome, else it is not used.
            if disk != d.read() || log.iter().any(|o| matches!(o, Op::Other(_))) { run.add("unmodelled", 1); continue; }
            run.add("traces_validated_against_impl", 1);
            if !logs.iter().any(|(_, l)| *l == log) { logs.push((seed, log)); }
        }
        run.add("save_orders", logs.len() as u64);
        for (seed, log) in &logs {
            let mut disk = t.before.clone();
            let add = |disk: &Files, what: String| {
                run.add("crash_points", 1);
                let key = (t.fam, t.c.clone(), t.prev.clone(), canon_exact(&cache_of(disk)));
                let path = format!("{} {what}", t.name);
                crashes.lock().unwrap().entry(key).and_modify(|c| if path < c.path { c.path = path.clone() }).or_insert(Crash { fam: t.fam, c: t.c.clone(), prev: t.prev.clone(), files: cache_of(disk), path });
            };
            for (k, op) in log.iter().enumerate() {
                if let Op::Write(p, at, bytes) = op {
                    for n in torn(bytes, run.thorough() && t.fam != 0) {
                        let mut d = disk.clone();
                        apply(&mut d, &Op::Write(p.clone(), *at, bytes[..n].to_vec()));
                        add(&d, format!("dies {n} bytes into change {k} {}", short(op)));
                    }
                }
                apply(&mut disk, op);
                add(&disk, format!("dies after change {k} {}", short(op)));
                let mut r = reals.lock().unwrap();
                r.push((i, *seed, Fault::Die { at: k, torn: 0 }));
                r.push((i, *seed, Fault::Fail { at: k }));
            }
        }
    });
    // The same on the real code: the process stops having any effect at the chosen change, or
    // that change fails.
    let mut reals = reals.into_inner().unwrap();
    reals.sort_by_key(|r| (r.0, r.1, format!("{:?}", r.2)));
    if !run.thorough() { let mut k = 0; reals.retain(|r| { k += 1; matches!(r.2, Fault::Fail { .. }) || k % 5 == 0 }); }
    parallel(reals.len(), |i| {
        let (ti, seed, fault) = &reals[i];
        let t = &trs[*ti];
        let d = Workdir::new();
        d.write(&t.before);
        let (r, log) = with_seed(*seed, || with_fault(&root(&d), *fault, || guard(|| mc::buildx::run(&d.path(), &t.a))));
        run.add("injected_faults", 1);
        if let Err(e) = &r { run.violation(&format!("{} {fault:?}", t.name), format!("panic {e}")); }
        let after = d.read();
        if !kept(&t.before, &after) { run.violation(&format!("{} {fault:?} sources", t.name), "source files changed".into()); }
        if let Fault::Die { at, .. } = fault {
            let mut disk = t.before.clone();
            for op in log.iter().take(*at) { apply(&mut disk, op); }
            if disk == after { run.add("traces_validated_against_impl", 1); } else { run.add("unmodelled", 1); }
        }
        let key = (t.fam, t.c.clone(), t.prev.clone(), canon_exact(&cache_of(&after)));
        let path = format!("{} with {fault:?} {}", t.name, log.get(match fault { Fault::Die { at, .. } | Fault::Fail { at } => *at, _ => 0 }).map(short).unwrap_or_default());
        crashes.lock().unwrap().entry(key).and_modify(|c| if path < c.path { c.path = path.clone() }).or_insert(Crash { fam: t.fam, c: t.c.clone(), prev: t.prev.clone(), files: cache_of(&after), path });
    });
    let crashes: Vec<Crash> = crashes.into_inner().unwrap().into_values().collect();
    run.add("states", crashes.len() as u64);
    if std::env::var("DBG").is_ok() { eprintln!("{} crash states {:.1}s", crashes.len(), run.elapsed()); }
    parallel(crashes.len(), |i| {
        let x = &crashes[i];
        let f = &fams[x.fam];
        // Carry on with the same sources, go back to the earlier ones, or edit further.
        let mut nexts = vec![x.c.clone()];
        if x.prev != x.c { nexts.push(x.prev.clone()); }
        if run.thorough() {
            let all = choices(f);
            nexts.extend((0..3).map(|k| all[(i * 7 + k * 5) % all.len()].clone()));
        }
        for c in nexts {
            let mut files = source_files(f, &c);
            files.extend(x.files.clone());
            let key = format!("{} / {}", x.path, describe(f, &c));
            let want = &fresh[&(x.fam, c.clone())];
            let (r, after) = exec(&files, &action(Mode::Check, None, 1));
            run.add("transitions", 1);
            match r {
                Err(e) => run.violation(&format!("{key} check"), format!("panic {e}")),
                Ok(o) => {
                    if o.status == "good" {
                        run.add("accepted_after_crash", 1);
                        if want.status != "good" { run.violation(&format!("{key} check"), format!("check accepts: {o:?}\nfrom scratch: {want:?}")); }
                    }
                    if after != files { run.violation(&format!("{key} check-writes"), "a check changed files".into()); }
                }
            }
            let (r, after) = exec(&files, &action(Mode::Verify, None, 1));
            run.add("transitions", 1);
            let o = match r {
                Err(e) => { run.violation(&format!("{key} verify"), format!("panic {e}")); continue; }
                Ok(o) => o,
            };
            if o.skipped > 0 { run.add("distinct_nontrivial", 1); }
            let same = if want.status == "error" { o.status == "error" } else { o.verdict() == want.verdict() };
            if !same { run.violation(&format!("{key} verify"), format!("the next build reports {o:?}\nfrom scratch: {want:?}")); continue; }
            if !kept(&files, &after) { run.violation(&format!("{key} sources"), "source files changed".into()); }
            if o.status == "good" {
                let (r, _) = exec(&after, &action(Mode::Check, None, 1));
                run.add("transitions", 1);
                match r {
                    Ok(o2) if o2.status == "good" && o2.searches == 0 => run.add("recovered", 1),
                    o2 => run.violation(&format!("{key} verify check"), format!("after the crash a build reports {o:?}, then a check reports {o2:?}")),
                }
            }
        }
        if i % 97 == 0 { run.sample(json!({"state": x.path})); }
    });
    run.extra("exhaustive", json!(true));
    run.extra("bounds", json!({"hash_orders": seeds, "torn_writes": if run.thorough() { "every length (package and pair), line boundaries (flat)" } else { "line boundaries, first, middle, last byte" }}));
    loud(out);
    run.finish(
        "fault_enumeration",
        "crash states of every recorded build: the disk after each change and after part of each write, and after each injected failure; non-trivial: a later build that skipped modules on the word of what the crash left",
        &["a process that dies loses nothing the operating system already has (no power loss)", "one fault per history"],
        &["states", "transitions", "distinct_nontrivial", "recovered", "injected_faults", "traces_validated_against_impl"],
    )
}

fn canon_exact(f: &Files) -> Vec<u8> {
    let mut out = vec![];
    for (k, v) in f { out.extend_from_slice(k.as_bytes()); out.push(0); out.extend_from_slice(v); out.push(0); }
    out
}

fn short(op: &Op) -> String {
    match op {
        Op::Write(p, at, b) => format!("Write({p},{at},{})", b.len()),
        o => format!("{o:?}"),
    }
}

/// What the user wrote is still there, unchanged.
fn kept(before: &Files, after: &Files) -> bool { sources(before).iter().all(|(k, v)| after.get(k) == Some(v)) }
