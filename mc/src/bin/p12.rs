//! P12: whatever was saved, changed, overtaken or closed in an editor session before, the
//! project says of the current contents what a session that just opened says of them.
use mc::{buildx::*, projects::*, report::*, session::*};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

struct World {
    name: &'static str,
    modules: Vec<Module>,
    start: Vec<usize>,
    depth: usize,
}

fn worlds(thorough: bool) -> Vec<World> {
    let s = |s: String| -> Option<&'static str> { Some(Box::leak(s.into_boxed_str())) };
    let mut out = vec![];
    out.push(World {
        name: "chain",
        modules: vec![
            Module {
                path: "src/base.ac", name: "base",
                variants: vec![
                    s(format!("{AXIOMS}axiom pa {{ p(a) }}\ntheorem pb {{ p(b) }}\n")),
                    s(format!("{AXIOMS}theorem tt {{ p(a) implies p(b) }}\ntheorem un {{ p(b) }}\n")),
                    s("type Thing axiom\n".into()),
                    s("from top import t\nlet a: Bool = true\n".into()),
                    s(format!("{AXIOMS}axiom pa {{ p(a) }}\nlet q: Nope = axiom\n")),
                ],
            },
            Module {
                path: "src/mid.ac", name: "mid",
                variants: vec![
                    s("from base import Thing, p, a, b\nlet mk: Bool = true\ntheorem mp { exists(x: Thing) { p(x) } } by {\n    p(a)\n    p(b)\n}\n".into()),
                    s("let mk: Bool = true\ntheorem mt { true }\n".into()),
                    s("let mk: Bool = lib(base).p(lib(base).a)\ntheorem mt { mk or not mk }\n".into()),
                ],
            },
            Module {
                path: "src/top.ac", name: "top",
                variants: vec![
                    None,
                    s("from mid import mk\nfrom base import Thing, p, a, b\ntheorem t { p(b) or p(b) }\n".into()),
                    s("from mid import gone\ntheorem t { true }\n".into()),
                ],
            },
        ],
        start: vec![0, 0, 0],
        depth: 3,
    });
    out.push(World {
        name: "package",
        modules: vec![
            Module {
                path: "src/pkg/interface.ac", name: "pkg",
                variants: vec![
                    s("theorem pub1 { forall(x: Bool) { x implies x } }\n".into()),
                    s("theorem pub1 { forall(x: Bool) { x implies x } }\ntheorem pub2 { forall(x: Bool) { x or not x } }\n".into()),
                    s("theorem pub1 { true } by { true }\n".into()),
                ],
            },
            Module {
                path: "src/pkg/internal.ac", name: "pkg.internal",
                variants: vec![
                    s("theorem pub1 { forall(x: Bool) { x implies x } }\n".into()),
                    s("theorem pub1 { forall(x: Bool) { x implies x } }\ntheorem pub2 { forall(x: Bool) { x or not x } }\n".into()),
                    s("theorem pub1 { forall(x: Bool) { x implies x } }\ntheorem un { forall(x: Bool) { x } }\n".into()),
                ],
            },
            Module {
                path: "src/pkg/extra.ac", name: "pkg.extra",
                variants: vec![None, s("theorem pub2 { forall(x: Bool) { x or not x } }\n".into())],
            },
            Module {
                path: "src/user.ac", name: "user",
                variants: vec![
                    s("from pkg import pub1\ntheorem u { forall(x: Bool) { not x or x } }\n".into()),
                    s("from pkg.internal import pub1\ntheorem u { true }\n".into()),
                    s("from pkg import pub2\ntheorem u { true }\n".into()),
                ],
            },
        ],
        start: vec![0, 0, 0, 0],
        depth: if thorough { 3 } else { 2 },
    });
    out.push(World {
        name: "prelude",
        modules: vec![
            Module {
                path: "src/prelude.ac", name: "prelude",
                variants: vec![None, s("inductive Unit {\n    one\n}\naxiom pr { true }\n".into()), s("let zz: Nope = axiom\n".into())],
            },
            Module {
                path: "src/one.ac", name: "one",
                variants: vec![s("let a: Bool = axiom\naxiom fact { a }\ntheorem goal { a }\n".into()), s("let a: Bool = axiom\ntheorem goal { a }\n".into())],
            },
            Module {
                path: "src/two.ac", name: "two",
                variants: vec![
                    s("from one import a, goal\ntheorem u { a } by {\n    goal\n}\n".into()),
                    s("theorem u { forall(x: Bool) { x implies x } }\n".into()),
                ],
            },
        ],
        start: vec![0, 0, 0],
        depth: if thorough { 4 } else { 3 },
    });
    out
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Now { disk: Vec<usize>, open: BTreeMap<usize, usize> }

fn step(w: &World, now: &Now, a: Act) -> Option<Now> {
    let mut n = now.clone();
    match a {
        Act::Save(m, v) | Act::Overtaken(m, v, _) => { w.modules[m].variants[v]?; n.disk[m] = v; n.open.insert(m, v); }
        Act::Update(m, v) => { w.modules[m].variants[v]?; n.open.insert(m, v); }
        Act::Close(m) => { n.open.remove(&m)?; }
        Act::Disk(m, v) => { w.modules[m].variants[v]?; w.modules[m].variants[n.disk[m]]?; if n.disk[m] == v { return None; } n.disk[m] = v; }
    }
    Some(n)
}

fn menu(w: &World) -> Vec<Act> {
    let mut out = vec![];
    for (m, module) in w.modules.iter().enumerate() {
        for v in 0..module.variants.len() {
            out.push(Act::Save(m, v));
            out.push(Act::Update(m, v));
            out.push(Act::Disk(m, v));
            for k in [1, 3] { out.push(Act::Overtaken(m, v, k)); }
        }
        out.push(Act::Close(m));
    }
    out
}

thread_local!(static DIR: Workdir = Workdir::new());

/// What a session that just opened the current contents says after the same last action.
fn fresh(w: &World, now: &Now, last: Act) -> Result<Seen, String> {
    DIR.with(|d| {
        d.write(&[("acorn.toml".to_string(), vec![])].into());
        let root = d.path();
        for (m, v) in w.modules.iter().zip(&now.disk) { put_file(&root, m, *v); }
        guard(|| {
            let mut s = Session::open(&root, 1);
            let (key, is_save) = match last { Act::Save(m, _) => (m, true), Act::Update(m, _) => (m, false), _ => (usize::MAX, false) };
            for (m, v) in now.open.iter().filter(|(m, _)| **m != key) {
                let _ = s.put(&w.modules[*m], w.modules[*m].variants[*v].unwrap());
            }
            finish(w, &mut s, now, last, is_save, key, true)
        })
    })
}

fn finish(w: &World, s: &mut Session, now: &Now, last: Act, is_save: bool, key: usize, is_fresh: bool) -> Seen {
    let names: Vec<&str> = w.modules.iter().map(|m| m.name).collect();
    let lines = |m: usize| now.open.get(&m).and_then(|v| w.modules[m].variants[*v]).map_or(0, |t| t.lines().count() as u32 + 1);
    match last {
        Act::Save(m, v) => {
            let text = w.modules[m].variants[v].unwrap();
            let put = s.put(&w.modules[m], text);
            let mut seen = s.save(&w.modules[m], &names, None);
            if let Err(e) = put { seen.reload = format!("refused {e} {}", seen.reload); }
            // Only what this build covers has been verified by a session that just opened.
            for &o in now.open.keys().filter(|o| seen.reload.split(',').any(|t| t == names[**o])).collect::<Vec<_>>() {
                seen.selection.extend(s.selection(&w.modules[o], lines(o)).into_iter().map(|x| format!("{} {x}", names[o])));
            }
            seen
        }
        Act::Update(m, v) => {
            let r = s.update(&w.modules[m], w.modules[m].variants[v].unwrap());
            Seen { reload: format!("{r:?}"), modules: s.modules(&names), ..Default::default() }
        }
        Act::Close(m) => {
            if is_fresh { s.project.reload_targets() } else { s.close(&w.modules[m]) }
            Seen { modules: s.modules(&names), ..Default::default() }
        }
        _ => { let _ = (is_save, key); Seen::default() }
    }
}

/// Which of several modules reports a problem and which reports that another one has a problem
/// may depend on the order in which they were loaded, as may the number in a cycle's message.
fn same_modules(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> bool {
    let direct = |m: &BTreeMap<String, String>| m.values().any(|s| s.starts_with("error indirect=false"));
    let secondary = |s: &String| s.starts_with("error indirect=true");
    a.len() == b.len()
        && a.iter().all(|(n, x)| {
            let y = &b[n];
            x == y || (direct(a) && direct(b) && (secondary(x) || secondary(y)))
        })
}

fn text(w: &World, h: &[Act]) -> String {
    h.iter()
        .map(|a| match a {
            Act::Save(m, v) => format!("save {}{v}", w.modules[*m].name),
            Act::Overtaken(m, v, k) => format!("save {}{v} overtaken at {k}", w.modules[*m].name),
            Act::Update(m, v) => format!("change {}{v}", w.modules[*m].name),
            Act::Close(m) => format!("close {}", w.modules[*m].name),
            Act::Disk(m, v) => format!("disk {}{v}", w.modules[*m].name),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn main() {
    let out = quiet();
    let run = Run::new("P12");
    for w in worlds(run.thorough()) {
        let acts = menu(&w);
        // Every history that ends in an action whose outcome is judged.
        let mut all: Vec<(Vec<Act>, Now)> = vec![(vec![], Now { disk: w.start.clone(), open: BTreeMap::new() })];
        let mut judged: Vec<(Vec<Act>, Now)> = vec![];
        for d in 1..=w.depth {
            let mut next = vec![];
            for (h, now) in &all {
                for &a in &acts {
                    let Some(n) = step(&w, now, a) else { continue };
                    let mut h = h.clone();
                    h.push(a);
                    if matches!(a, Act::Save(..) | Act::Update(..) | Act::Close(_)) { judged.push((h.clone(), n.clone())); }
                    // The last action but one of the longest histories should be one that did something.
                    if d < w.depth { next.push((h, n)); }
                }
            }
            all = next;
        }
        type Memo = HashMap<(Now, Act), Arc<Result<Seen, String>>>;
        let memo: Mutex<Memo> = Default::default();
        let names: Vec<&str> = w.modules.iter().map(|m| m.name).collect();
        parallel(judged.len(), |i| {
            let (h, now) = &judged[i];
            let last = *h.last().unwrap();
            let key = format!("{} {}", w.name, text(&w, h));
            let k = (now.clone(), last);
            let known = memo.lock().unwrap().get(&k).cloned();
            let want = known.unwrap_or_else(|| {
                let r = Arc::new(fresh(&w, now, last));
                run.add("evaluations", 1);
                memo.lock().unwrap().insert(k, r.clone());
                r
            });
            let want = match &*want {
                Ok(s) => s,
                Err(e) => { run.violation(&key, format!("a session that just opened panics: {e}")); return; }
            };
            DIR.with(|d| {
                d.write(&[("acorn.toml".to_string(), vec![])].into());
                let root = d.path();
                for (m, v) in w.modules.iter().zip(&w.start) { put_file(&root, m, *v); }
                let r = guard(|| {
                    let mut s = Session::open(&root, 1 + 3 * (i % 2));
                    for a in &h[..h.len() - 1] {
                        match *a {
                            Act::Save(m, v) | Act::Overtaken(m, v, _) => {
                                put_file(&root, &w.modules[m], v);
                                let _ = s.put(&w.modules[m], w.modules[m].variants[v].unwrap());
                                s.save(&w.modules[m], &names, if let Act::Overtaken(_, _, k) = *a { Some(k) } else { None });
                            }
                            Act::Update(m, v) => { let _ = s.update(&w.modules[m], w.modules[m].variants[v].unwrap()); }
                            Act::Close(m) => s.close(&w.modules[m]),
                            Act::Disk(m, v) => put_file(&root, &w.modules[m], v),
                        }
                    }
                    if let Act::Save(m, v) = last { put_file(&root, &w.modules[m], v); }
                    let seen = finish(&w, &mut s, now, last, false, 0, false);
                    let kept: Vec<&str> = w.modules.iter().zip(&now.disk).filter(|(m, v)| m.variants[**v].is_some()).map(|(m, _)| m.name).collect();
                    let certs = Session::certs(&s.project.build_cache, &kept);
                    let disk = acorn::build_cache::BuildCache::load(root.join("src"), root.join("build")).map(|c| Session::certs(&c, &kept)).unwrap_or_default();
                    (seen, certs, disk)
                });
                run.add("transitions", 1);
                let (seen, certs, disk) = match r {
                    Err(e) => { run.violation(&key, format!("panic {e}")); return; }
                    Ok(x) => x,
                };
                let bad = |what: &str, a: String, b: String| run.violation(&format!("{key} [{what}]"), format!("{what}: after this history {a}\njust opened: {b}"));
                // An import cycle stops the reload when every module of it was known before the
                // reload started, and is reported where the import stands otherwise.
                let cyclic = |s: &Seen| s.reload.starts_with("failed circular");
                if cyclic(&seen) || cyclic(want) {
                    let told = |s: &Seen| cyclic(s) || (s.status == "Error" && s.diags.iter().any(|d| d.contains("circular import")));
                    if !told(&seen) || !told(want) { bad("cycle", format!("{seen:?}"), format!("{want:?}")); }
                    run.add("import_cycles", 1);
                    return;
                }
                if seen.reload != want.reload { bad("reload", seen.reload.clone(), want.reload.clone()); }
                if !same_modules(&seen.modules, &want.modules) { bad("modules", format!("{:?}", seen.modules), format!("{:?}", want.modules)); }
                if matches!(last, Act::Save(..)) {
                    if seen.status == "Good" { run.add("good_builds", 1); }
                    if seen.skipped > 0 { run.add("distinct_nontrivial", 1); }
                    if seen.status != want.status || seen.diags != want.diags { bad("diagnostics", format!("{} {:?}", seen.status, seen.diags), format!("{} {:?}", want.status, want.diags)); }
                    for (m, v) in &want.verified {
                        // A module skipped as unchanged reports nothing.
                        if seen.verified.get(m) != Some(v) && !(seen.skipped > 0 && !seen.built.contains(m)) {
                            bad("verified", format!("{m} {:?}", seen.verified.get(m)), format!("{v:?}"));
                        }
                    }
                    if seen.verified.keys().any(|m| !want.verified.contains_key(m)) { bad("verified", format!("{:?}", seen.verified), format!("{:?}", want.verified)); }
                    if seen.status != "" && seen.finished != want.finished { bad("progress", seen.finished.to_string(), want.finished.to_string()); }
                    // An earlier proof may still stand when this build failed before verifying anything.
                    let strip = |v: &Vec<String>| if want.status == "Error" { v.iter().map(|s| s.replace("true true", "?").replace("false false", "?")).collect() } else { v.clone() };
                    if strip(&seen.selection) != strip(&want.selection) { bad("selection", format!("{:?}", seen.selection), format!("{:?}", want.selection)); }
                    // Nothing is lost when the editor is closed: the directory holds what the session holds.
                    if certs != disk { bad("certificates", format!("in memory {certs:?}"), format!("on disk {disk:?}")); }
                    if seen.selection.iter().any(|s| s.contains("true true")) { run.add("traces_validated_against_impl", 1); }
                }
            });
        });
        run.add("states", memo.into_inner().unwrap().len() as u64);
        if std::env::var("DBG").is_ok() { eprintln!("{} {} histories {:.1}s", w.name, judged.len(), run.elapsed()); }
        run.sample(json!({"world": w.name, "history": text(&w, &judged.last().unwrap().0)}));
    }
    run.extra("exhaustive", json!(true));
    loud(out);
    run.finish(
        "exploration",
        "state: file contents on disk and in the editor; transition: one history of saves, overtaken saves, unsaved changes, closes and unnoticed changes on disk, run on the real project and compared with a session that just opened; non-trivial: the last build skipped an unchanged module",
        &["the language server's loop around the project (update, reload dependents, build, merge the cache) is repeated in the harness for this check"],
        &["transitions", "distinct_nontrivial", "good_builds", "import_cycles"],
    )
}
