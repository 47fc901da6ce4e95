//! P01: a certificate is accepted only if the goal follows, and every accepted step follows.
//!
//! Part 1 explores certificate prefixes breadth first: from every prefix the checker has
//! accepted, every step of the menu (rule, claim, premises, flags) is tried on the real checker.
//! An accepted claim must hold in every finite model of the axioms, the negated goal and the
//! witness condition; a witness may only be introduced if it exists in every such model; and the
//! proof may only close if there is no such model.
//! Part 2 takes every certificate the prover writes for the theories of the menus, and every
//! certificate one edit away from it, to every theory one formula away: the ones that do not
//! entail their goal must be rejected.
use mc::{acornx::*, families::*, fol::*, proofspace, report::*};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Mutex;

const KINDS: &[&str] = &[
    "false_lit", "ite_left", "ite_right", "ite_left_then", "ite_left_else", "ite_right_then", "ite_right_else", "fn_neq_exists", "signed_not",
    "bool_eq_to_eq", "pos_forall", "pos_exists_wit", "pos_exists", "neg_forall_exists", "neg_exists", "pos_and_left", "pos_and_right", "neg_and",
    "pos_or", "neg_or_left", "neg_or_right", "bool_eq_l_or_not_r", "bool_eq_not_l_or_r", "bool_neq_not_l_or_not_r", "bool_neq_l_or_r",
];

#[derive(Clone)]
struct Claim {
    text: String,
    meaning: Ex,
    /// `function(..) {..}(..)`: the text of the generic part is shared by all instances.
    instance: bool,
}

/// Formulas close to `e`: parts, negations, weakenings and strengthenings, in a fixed order.
fn near(e: &Ex, out: &mut Vec<Ex>) {
    let n = |e: &Ex| if let Ex::Not(a) = e { (**a).clone() } else { not(e.clone()) };
    match e {
        Ex::Not(a) => {
            out.push((**a).clone());
            match &**a {
                Ex::And(x, y) => out.extend([or(n(x), n(y)), n(x), n(y), and(n(x), n(y))]),
                Ex::Or(x, y) => out.extend([n(x), n(y), or(n(x), n(y))]),
                Ex::Imp(x, y) => out.extend([(**x).clone(), n(y), n(x)]),
                Ex::All(t, b) => out.extend([some(t, n(b)), some(t, (**b).clone()), all(t, n(b))]),
                Ex::Some(t, b) => out.extend([all(t, n(b)), some(t, n(b)), all(t, (**b).clone())]),
                Ex::Eq(x, y) | Ex::Iff(x, y) => out.extend([ne((**x).clone(), (**y).clone()), or(n(x), n(y)), or((**x).clone(), (**y).clone()), or(n(x), (**y).clone())]),
                _ => {}
            }
        }
        Ex::And(x, y) => out.extend([(**x).clone(), (**y).clone(), n(x), n(y), or((**x).clone(), (**y).clone())]),
        Ex::Or(x, y) => out.extend([(**x).clone(), (**y).clone(), or((**y).clone(), (**x).clone()), and((**x).clone(), (**y).clone()), or(n(x), (**y).clone())]),
        Ex::Imp(x, y) => out.extend([or(n(x), (**y).clone()), (**y).clone(), n(x), imp((**y).clone(), (**x).clone()), or((**x).clone(), (**y).clone())]),
        Ex::Iff(x, y) | Ex::Eq(x, y) => out.extend([or(n(x), (**y).clone()), or((**x).clone(), n(y)), or((**x).clone(), (**y).clone()), or(n(x), n(y)), (**x).clone(), eq((**y).clone(), (**x).clone())]),
        Ex::Ne(x, y) => out.extend([or((**x).clone(), (**y).clone()), or(n(x), n(y)), or(n(x), (**y).clone()), eq((**x).clone(), (**y).clone())]),
        Ex::If(c, x, y) => out.extend([(**x).clone(), (**y).clone(), or(n(c), (**x).clone()), or((**c).clone(), (**y).clone()), or(n(c), (**y).clone()), or((**c).clone(), (**x).clone())]),
        Ex::All(t, b) => {
            let mut inner = vec![];
            near(b, &mut inner);
            out.extend(inner.into_iter().map(|b| all(t, b)));
            out.push(some(t, (**b).clone()));
        }
        Ex::Some(t, b) => {
            let mut inner = vec![];
            near(b, &mut inner);
            out.extend(inner.into_iter().map(|b| some(t, b)));
            out.push(all(t, (**b).clone()));
        }
        _ => {}
    }
    out.push(n(e));
}

fn bool_typed(e: &Ex, sig: &Sig) -> bool {
    let r = guard(|| type_of(e, sig, &mut vec![]));
    matches!(r, Ok(Ty::Bool))
}

fn claim_of(e: &Ex, sig: &Sig) -> Claim { Claim { text: format!("({})", sig.show(e, 0)), meaning: e.clone(), instance: false } }

/// Ground terms of a sort, in a fixed order.
fn grounds(sig: &Sig, ty: &Ty) -> Vec<Ex> {
    let mut v: Vec<Ex> = (0..sig.consts.len()).filter(|i| sig.consts[*i].1 == *ty).map(con).collect();
    for i in 0..sig.consts.len() {
        if let Ty::Fun(a, r) = &sig.consts[i].1 {
            if **r == *ty && a.len() == 1 {
                for c in (0..sig.consts.len()).filter(|c| sig.consts[*c].1 == a[0]) {
                    v.push(app(con(i), &[con(c)]));
                }
            }
        }
    }
    if *ty == Ty::Bool {
        v.retain(|e| matches!(e, Ex::Con(_)));
        v.push(True);
        v.push(False);
    }
    v
}

fn instances(e: &Ex, sig: &Sig) -> Vec<Claim> {
    let Ex::All(ts, b) = e else { return vec![] };
    let mut args: Vec<Vec<Ex>> = vec![vec![]];
    for t in ts {
        let g: Vec<Ex> = grounds(sig, t).into_iter().take(3).collect();
        args = args.iter().flat_map(|a| g.iter().map(move |x| [a.clone(), vec![x.clone()]].concat())).collect();
    }
    args.into_iter().take(9).map(|a| {
        let m = app(lam(ts, (**b).clone()), &a);
        // `function(..) {..}(..)` is written without parentheses.
        let list = a.iter().map(|x| sig.show(x, 0)).collect::<Vec<_>>().join(", ");
        Claim { text: format!("{}({list})", sig.show(&lam(ts, (**b).clone()), 0)), meaning: m, instance: true }
    }).collect()
}

fn parts(e: &Ex) -> Vec<Ex> {
    let mut v = vec![];
    near(e, &mut v);
    v
}

struct Node {
    steps: Vec<Value>,
    claims: Vec<Claim>,
    witness: Option<(Ty, Ex)>,
}

fn witness_types(sig: &Sig) -> Vec<Ty> {
    let mut v: Vec<Ty> = (0..sig.sorts.len() as u8).map(Ty::Sort).collect();
    if v.is_empty() {
        v.push(Ty::Bool);
    }
    v
}

fn explore_theory(run: &Run, fam: &Family, wspaces: &[(Ty, Space)], fact: Option<usize>, goal: usize, depth: usize, width: usize) {
    let sig = &fam.space.sig;
    let mut text = fam.preamble.clone();
    if let Some(f) = fact {
        text += &format!("axiom ax {{ {} }}\n", sig.show(&fam.menu[f], 0));
    }
    text += &format!("theorem goal {{ {} }}\n", sig.show(&fam.menu[goal], 0));
    let name = format!("{}:{:?}=>{}", fam.name, fact, goal);
    let l = match load(&text) {
        Ok(l) => l,
        Err(e) => return run.violation(&name, format!("theory not accepted: {e}\n{text}")),
    };
    let gid = l.goal_id("goal").unwrap();
    let proc = l.processor(gid, None);
    let check = |steps: &[Value]| -> Result<(), String> {
        let cert = parse_cert(&json!({"goal": "goal", "p": steps}).to_string());
        run.add("transitions", 1);
        guard(|| l.check_cert(gid, &proc, &cert)).unwrap_or_else(|p| Err(format!("panic: {p}"))).map(|_| ())
    };
    let Err(unfinished) = check(&[]) else {
        if !assumptions(fam, &fam.space, fact, goal).is_empty() {
            run.violation(&name, format!("the empty certificate is accepted although the goal does not follow\n{text}"));
        }
        return;
    };
    let alive = assumptions(fam, &fam.space, fact, goal);
    // Formulas the theory talks about, then what is near them, then fixed strangers.
    let mut forms: Vec<Ex> = vec![];
    let mut roots = vec![not(fam.menu[goal].clone()), fam.menu[goal].clone()];
    if let Some(f) = fact {
        roots.insert(0, fam.menu[f].clone());
    }
    for r in &roots {
        forms.push(r.clone());
    }
    for r in &roots[..roots.len() - 1] {
        for e in parts(r) {
            forms.extend(parts(&e).into_iter().take(6));
            forms.push(e);
        }
    }
    forms.extend(fam.menu.iter().take(8).cloned());
    let mut seen = HashSet::new();
    forms.retain(|e| bool_typed(e, sig) && seen.insert(e.clone()));
    forms.truncate(width);
    let base_claims: Vec<Claim> = {
        let mut v: Vec<Claim> = forms.iter().map(|e| claim_of(e, sig)).collect();
        for e in &forms {
            v.extend(instances(e, sig));
        }
        v.push(Claim { text: "goal".into(), meaning: fam.menu[goal].clone(), instance: false });
        v.push(Claim { text: "not goal".into(), meaning: not(fam.menu[goal].clone()), instance: false });
        v
    };
    let mut wit_steps: Vec<(String, Ty, Ex)> = vec![];
    for ty in witness_types(sig) {
        for e in &forms {
            if let Ex::Some(ts, b) = e {
                if ts.len() == 1 && ts[0] == ty {
                    let body = subst0(b, &con(sig.consts.len()), 0);
                    let mut ws = sig.clone();
                    ws.consts.push(("w0".into(), ty.clone()));
                    wit_steps.push((format!("let w0: {} satisfy {{ {} }}", sig.ty_str(&ty), ws.show(&body, 0)), ty.clone(), body));
                }
            }
        }
    }
    let mut frontier = vec![Node { steps: vec![], claims: vec![], witness: None }];
    let mut seen: HashSet<String> = HashSet::new();
    for level in 0..depth {
        let mut next = vec![];
        for node in &frontier {
            run.add("states", 1);
            let wsp = node.witness.as_ref().map(|(t, _)| &wspaces.iter().find(|w| w.0 == *t).unwrap().1);
            let space = wsp.unwrap_or(&fam.space);
            let mut models = assumptions(fam, space, fact, goal);
            let mut claims = base_claims.clone();
            if let Some((_, body)) = &node.witness {
                models = models.and(&space.truth(body));
                let mut extra = vec![body.clone()];
                extra.extend(parts(body));
                extra.retain(|e| bool_typed(e, &space.sig));
                claims.extend(extra.iter().map(|e| claim_of(e, &space.sig)));
                for e in forms.iter().take(20) {
                    claims.extend(instances(e, &space.sig).into_iter().filter(|c| c.text.contains("w0")));
                }
            }
            // The menu of next steps.
            let mut steps: Vec<(Value, Option<&Claim>, Option<&(String, Ty, Ex)>)> = vec![];
            let k = node.steps.len();
            let last = k.checked_sub(1);
            for c in &claims {
                for g in [false, true] {
                    steps.push((json!({"c": c.text, "g": g}), Some(c), None));
                    // The earlier premises had their turn in the prefix this one extends.
                    if let Some(p) = last {
                        if c.instance {
                            steps.push((json!({"r": "inst", "c": c.text, "f": [p], "g": g}), Some(c), None));
                        }
                        steps.push((json!({"r": "br_intro", "c": c.text, "f": [p], "g": g}), Some(c), None));
                        if !g {
                            steps.push((json!({"r": "eq", "c": c.text, "f": [p]}), Some(c), None));
                            for q in 0..p {
                                steps.push((json!({"r": "eq", "c": c.text, "f": [q, p]}), Some(c), None));
                                steps.push((json!({"r": "br_intro", "c": c.text, "f": [q, p]}), Some(c), None));
                            }
                        }
                    }
                }
                steps.push((json!({"r": "br_intro", "c": c.text}), Some(c), None));
                if level > 0 {
                    steps.push((json!({"r": "eq", "c": c.text}), Some(c), None));
                }
            }
            if let Some(p) = last {
                let mut around: Vec<Ex> = vec![];
                if let Some(c) = node.claims.last() {
                    around.extend(parts(&c.meaning));
                    if let Ex::All(ts, b) = &c.meaning {
                        // Generic claims are stated about their body.
                        around.extend(parts(b).into_iter().map(|b| all(ts, b)));
                    }
                }
                let mut seen = HashSet::new();
                around.retain(|e| bool_typed(e, &space.sig) && seen.insert(e.clone()));
                let mut targets: Vec<Claim> = around.iter().map(|e| claim_of(e, &space.sig)).collect();
                for e in &around {
                    targets.extend(instances(e, &space.sig).into_iter().take(2));
                }
                targets.truncate(width / 2);
                for c in targets {
                    let Some(c) = claims.iter().find(|d| d.text == c.text) else { continue };
                    for kind in KINDS {
                        let lits = if node.claims.last().is_some_and(|c| c.text.contains(" or ") || c.text.contains(" implies ")) { 3 } else { 1 };
                        for i in 0..lits {
                            steps.push((json!({"r": "br", "c": c.text, "f": [p], "k": kind, "i": i, "g": c.instance}), Some(c), None));
                        }
                    }
                    for r in ["er", "ef", "ext", "inj"] {
                        steps.push((json!({"r": r, "c": c.text, "f": [p]}), Some(c), None));
                    }
                }
                steps.push((json!({"r": "contra", "c": "false", "f": [p]}), None, None));
                for q in 0..p {
                    steps.push((json!({"r": "contra", "c": "false", "f": [q, p]}), None, None));
                }
            }
            steps.push((json!({"r": "contra", "c": "false"}), None, None));
            for w in &wit_steps {
                steps.push((json!({"r": "wit", "c": w.0}), None, Some(w)));
            }
            for (step, claim, wit) in steps {
                let mut all_steps = node.steps.clone();
                all_steps.push(step.clone());
                let r = check(&all_steps);
                let accepted = match &r {
                    Ok(()) => true,
                    Err(e) => *e == unfinished,
                };
                if let Err(e) = &r {
                    if e.starts_with("panic: ") {
                        run.add("panics", 1);
                        run.violation(&format!("{name} {}", json!(all_steps)), format!("the checker panics: {e}\n{text}{}", json!(all_steps)));
                    }
                }
                if !accepted {
                    run.add("rejected", 1);
                    continue;
                }
                run.add("accepted", 1);
                let complain = |what: &str, bad: &Bits, sp: &Space| {
                    let i = bad.first().unwrap();
                    run.violation(&format!("{name} {}", json!(all_steps)), format!("{what}\n{text}certificate: {}\ncounterexample: {}", json!({"goal": "goal", "p": all_steps}), sp.describe(i)));
                };
                if r.is_ok() && !models.is_empty() && wit.is_none() {
                    complain("a certificate is accepted although the goal does not follow", &models, space);
                    continue;
                }
                if let Some(c) = claim {
                    let bad = models.minus(&space.truth(&c.meaning));
                    if !bad.is_empty() {
                        complain("an accepted step does not follow from the axioms and the negated goal", &bad, space);
                        continue;
                    }
                    run.add("distinct_nontrivial", 1);
                    let skey = format!("{:?}{}{}", node.claims.iter().map(|c| &c.text).collect::<Vec<_>>(), c.text, step.get("g") == Some(&json!(true)));
                    let trivial = space.truth(&c.meaning).count() == space.models.len();
                    if r.is_err() && !trivial && level + 1 < depth && seen.insert(skey) {
                        let mut claims = node.claims.clone();
                        claims.push(c.clone());
                        next.push(Node { steps: all_steps, claims, witness: node.witness.clone() });
                    }
                } else if let Some((wtext, ty, body)) = wit {
                    if node.witness.is_some() {
                        complain("a witness name is declared twice", &models, space);
                        continue;
                    }
                    let wspace = &wspaces.iter().find(|w| w.0 == *ty).unwrap().1;
                    let have = assumptions(fam, wspace, fact, goal).and(&wspace.truth(body));
                    // Base models that have an extension with the witness.
                    let mut ok: HashSet<(Vec<usize>, Vec<usize>)> = HashSet::new();
                    for i in 0..wspace.models.len() {
                        if have.get(i) {
                            ok.insert((wspace.models[i].sizes.clone(), wspace.models[i].vals[..wspace.base].to_vec()));
                        }
                    }
                    let mut bad = Bits::empty(fam.space.models.len());
                    for i in 0..fam.space.models.len() {
                        let m = &fam.space.models[i];
                        if alive.get(i) && !ok.contains(&(m.sizes.clone(), m.vals.clone())) {
                            bad.set(i);
                        }
                    }
                    if !bad.is_empty() {
                        complain("a witness is introduced that need not exist", &bad, &fam.space);
                        continue;
                    }
                    if r.is_ok() && !have.is_empty() {
                        complain("a witness step closes the proof although the goal does not follow", &have, wspace);
                        continue;
                    }
                    run.add("witness_steps", 1);
                    if r.is_err() && level + 1 < depth {
                        let mut claims = node.claims.clone();
                        let mut ws = sig.clone();
                        ws.consts.push(("w0".into(), ty.clone()));
                        claims.push(claim_of(body, &ws));
                        let _ = wtext;
                        next.push(Node { steps: all_steps, claims, witness: Some((ty.clone(), body.clone())) });
                    }
                }
            }
        }
        frontier = next;
    }
}

fn assumptions(fam: &Family, space: &Space, fact: Option<usize>, goal: usize) -> Bits {
    let mut b = space.truth(&not(fam.menu[goal].clone())).as_ref().clone();
    if let Some(f) = fact {
        b = b.and(&space.truth(&fam.menu[f]));
    }
    b
}

/// `b` without its outermost binder: variable 0 becomes `w`, the others move down.
fn subst0(e: &Ex, w: &Ex, d: usize) -> Ex {
    use std::sync::Arc;
    let s = |e: &Arc<Ex>| Arc::new(subst0(e, w, d));
    match e {
        Ex::Var(0) => w.clone(),
        Ex::Var(i) => Ex::Var(i - 1),
        True | False | Ex::Con(_) => e.clone(),
        Ex::App(f, a) => Ex::App(s(f), a.iter().map(|x| subst0(x, w, d)).collect()),
        Ex::Lam(t, b) => Ex::Lam(t.clone(), s(b)),
        Ex::Not(a) => Ex::Not(s(a)),
        Ex::And(a, b) => Ex::And(s(a), s(b)),
        Ex::Or(a, b) => Ex::Or(s(a), s(b)),
        Ex::Imp(a, b) => Ex::Imp(s(a), s(b)),
        Ex::Iff(a, b) => Ex::Iff(s(a), s(b)),
        Ex::Eq(a, b) => Ex::Eq(s(a), s(b)),
        Ex::Ne(a, b) => Ex::Ne(s(a), s(b)),
        Ex::All(t, b) => Ex::All(t.clone(), s(b)),
        Ex::Some(t, b) => Ex::Some(t.clone(), s(b)),
        Ex::If(c, a, b) => Ex::If(s(c), s(a), s(b)),
        Ex::Case(..) => unreachable!(),
    }
}

/// Part 2.
fn transplant(run: &Run, fams: &[Family], full: usize, head: usize, edits: bool) {
    // One certificate per distinct proof text and theory, from every provable theory.
    let found: Mutex<Vec<(usize, Vec<usize>, usize, Value)>> = Mutex::new(vec![]);
    proofspace::explore(run, full, head, |c, r| {
        if let Ok(s) = r {
            if let Some(Ok(cert)) = s.cert {
                let v = serde_json::to_value(&cert).unwrap();
                let fi = fams.iter().position(|f| f.name == c.fam.name).unwrap();
                found.lock().unwrap().push((fi, c.facts.clone(), c.goal, v));
            }
        }
    });
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|a| (a.0, a.1.clone(), a.2));
    // Proofs of the same shape from the same number of axioms are tried once per family.
    let mut shapes = HashSet::new();
    found.retain(|(fi, facts, _, v)| {
        let steps = v["p"].as_array().cloned().unwrap_or_default();
        let shape: Vec<String> = steps.iter().map(|s| format!("{}{}{}{}", s["r"], s["f"], s["k"], s["i"])).collect();
        !steps.is_empty() && shapes.insert((*fi, facts.len(), shape))
    });
    run.add("genuine_certificates", found.len() as u64);
    parallel(found.len(), |n| {
        let (fi, facts, goal, cert) = &found[n];
        let fam = &fams[*fi];
        let sig = &fam.space.sig;
        let steps: Vec<Value> = cert["p"].as_array().unwrap().clone();
        let mut variants: Vec<Vec<Value>> = vec![steps.clone()];
        if edits {
            for i in 0..steps.len() {
                let mut v = steps.clone();
                v.remove(i);
                variants.push(v.clone());
                // Dropping a step, with later references moved along.
                for s in v.iter_mut() {
                    if let Some(f) = s.get_mut("f").and_then(|f| f.as_array_mut()) {
                        for x in f.iter_mut() {
                            let k = x.as_u64().unwrap();
                            if k > i as u64 {
                                *x = json!(k - 1);
                            }
                        }
                    }
                }
                variants.push(v);
                if let Some(f) = steps[i].get("f").and_then(|f| f.as_array()) {
                    for (k, _) in f.iter().enumerate() {
                        for j in 0..i {
                            let mut v = steps.clone();
                            v[i]["f"][k] = json!(j);
                            variants.push(v);
                        }
                    }
                }
            }
        }
        let mut near_theories: Vec<(Vec<usize>, usize)> = vec![];
        for k in 0..facts.len() {
            for r in 0..fam.menu.len() {
                let mut f = facts.clone();
                f[k] = r;
                near_theories.push((f, *goal));
            }
            let mut f = facts.clone();
            f.remove(k);
            near_theories.push((f, *goal));
        }
        for g in 0..fam.menu.len() {
            near_theories.push((facts.clone(), g));
        }
        for (f, g) in near_theories {
            let fx: Vec<Ex> = f.iter().map(|i| fam.menu[*i].clone()).collect();
            let Some(cm) = fam.space.countermodel(&fx, &fam.menu[g]) else { continue };
            let mut text = fam.preamble.clone();
            for (k, f) in fx.iter().enumerate() {
                text += &format!("axiom ax{k} {{ {} }}\n", sig.show(f, 0));
            }
            text += &format!("theorem goal {{ {} }}\n", sig.show(&fam.menu[g], 0));
            let Ok(l) = load(&text) else { continue };
            let gid = l.goal_id("goal").unwrap();
            let proc = l.processor(gid, None);
            for v in &variants {
                let c = parse_cert(&json!({"goal": "goal", "p": v}).to_string());
                run.add("forged_certificates", 1);
                match guard(|| l.check_cert(gid, &proc, &c)) {
                    Ok(Err(_)) => {}
                    Ok(Ok(_)) => run.violation(
                        &format!("{}:{:?}=>{} {}", fam.name, f, g, json!(v)),
                        format!("a certificate is accepted although the goal does not follow\n{text}certificate: {c:?}\ncountermodel: {}", fam.space.describe(cm), c = json!({"goal": "goal", "p": v})),
                    ),
                    Err(p) => run.violation(&format!("{}:{:?}=>{} {}", fam.name, f, g, json!(v)), format!("the checker panics: {p}\n{text}{}", json!(v))),
                }
            }
        }
    });
}

fn main() {
    let run = Run::new("P01");
    let fams: Vec<Family> = all_families().into_iter().filter(|f| std::env::var("FAMS").map_or(true, |s| s.contains(f.name))).collect();
    let mut jobs: Vec<(usize, Option<usize>, usize)> = vec![];
    for (i, f) in fams.iter().enumerate() {
        for k in 1..f.menu.len() {
            jobs.push((i, Some(k), 0));
        }
        for k in 1..f.menu.len() {
            jobs.push((i, None, k));
        }
    }
    let wspaces: Vec<Vec<(Ty, Space)>> = fams.iter().map(|f| witness_types(&f.space.sig).into_iter().map(|t| (t.clone(), f.with_witness(t))).collect()).collect();
    // (depth, formulas in the step menu)
    let bounds: &[(usize, usize)] = if run.thorough() { &[(2, 60), (3, 12)] } else { &[(2, 16)] };
    let part: usize = std::env::var("PART").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    if part != 2 {
        for (depth, width) in bounds {
            parallel(jobs.len(), |j| {
                let (i, fact, goal) = jobs[j];
                explore_theory(&run, &fams[i], &wspaces[i], fact, goal, *depth, *width);
            });
        }
        println!("part 1 {:.1}s", run.elapsed());
    }
    if part != 1 {
        transplant(&run, &fams, 1, if run.thorough() { 14 } else { 7 }, run.thorough());
    }
    run.extra("bounds", json!({"prefix_depth_and_menu": bounds, "axioms": 2}));
    run.extra("exhaustive", json!(true));
    run.finish(
        "exploration",
        "certificate prefixes over the step menu (states: accepted prefixes expanded; transitions: steps tried); non-trivial: steps the checker accepted",
        &["finite models up to the stated sizes as countermodels"],
        &["accepted", "rejected", "witness_steps", "forged_certificates"],
    )
}
