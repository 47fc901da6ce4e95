//! P10: a statement means the same as source text, as elaborated value and as clauses.
use mc::{acornx, decls, facts::*, fol::*, formulas::*, lowered, report::*, scen::{self, Sc}};
use serde_json::json;
use std::collections::BTreeSet;

struct World {
    name: &'static str,
    pre: &'static str,
    gen: Gen,
    models: Vec<Model>,
    /// Type parameters and arguments of each statement, as written; what the arguments are called.
    params: &'static str,
    args: Vec<(&'static str, Ty)>,
    /// The signature after instantiation, if that differs.
    sig: Option<Sig>,
    /// What the sorts and constants become.
    insts: Vec<(Vec<Ty>, Vec<usize>)>,
    any: Vec<Ty>,
}

impl World {
    fn full(&self) -> &Sig { self.sig.as_ref().unwrap_or(&self.gen.sig) }
    fn at(&self, k: usize, t: &Ty) -> Ty {
        match t {
            Ty::Bool => Ty::Bool,
            Ty::Sort(i) => self.insts[k].0[*i as usize].clone(),
            Ty::Fun(a, r) => match self.at(k, r) {
                r => fun(&a.iter().map(|t| self.at(k, t)).collect::<Vec<_>>(), r),
            },
        }
    }
}

fn worlds() -> Vec<World> {
    let (c, o, b) = (Ty::Sort(0), Ty::Sort(1), Ty::Bool);
    let mut out = vec![];
    {
        let consts: Vec<(String, Ty)> = [
            ("Color.red", c.clone()), ("Color.green", c.clone()), ("Opt.none", o.clone()), ("Opt.some", fun(&[c.clone()], o.clone())),
            ("cc", c.clone()), ("oo", o.clone()), ("pp", b.clone()), ("hh", fun(&[c.clone()], b.clone())), ("ff", fun(&[c.clone(), c.clone()], c.clone())),
        ].into_iter().map(|(n, t)| (n.to_string(), t)).collect();
        let sig = Sig { sorts: vec!["Color".into(), "Opt".into()], consts };
        let mut models = vec![];
        for i in 0..2 * 3 * 2 * 4 * 16 {
            let mut r = i;
            let mut d = |n: usize| { let v = r % n; r /= n; v };
            let m = Model { sizes: vec![2, 3], vals: vec![0, 1, 0, 1 + 2 * 3, d(2), d(3), d(2), d(4), d(16)] };
            models.push(m);
        }
        let gen = Gen { sig, cons: vec![(0, vec![0, 1]), (1, vec![2, 3])], bind: vec![c.clone(), b.clone()], siblings: 1, special: false };
        out.push(World { name: "match", pre: "inductive Color {\n    red\n    green\n}\ninductive Opt {\n    none\n    some(Color)\n}\nlet cc: Color = axiom\nlet oo: Opt = axiom\nlet pp: Bool = axiom\nlet hh: Color -> Bool = axiom\nlet ff: (Color, Color) -> Color = axiom\n", gen, models, params: "", args: vec![], sig: None, insts: vec![], any: vec![] });
    }
    {
        let t = Ty::Sort(0);
        let pt = fun(&[t.clone()], b.clone());
        let consts: Vec<(String, Ty)> = [("pp", b.clone()), ("hh", pt.clone()), ("rr", fun(&[t.clone(), t.clone()], b.clone())), ("ff", fun(&[t.clone()], t.clone()))]
            .into_iter().map(|(n, t)| (n.to_string(), t)).collect();
        let sig = Sig { sorts: vec!["Thing".into()], consts };
        let mut models = vec![];
        for n in 0..3usize {
            let base = Model { sizes: vec![n], vals: vec![0; 4] };
            let cards: Vec<usize> = sig.consts.iter().map(|c| base.card(&c.1)).collect();
            for i in 0..cards.iter().product() {
                let mut r = i;
                let mut m = base.clone();
                for (v, k) in m.vals.iter_mut().zip(&cards) { *v = r % k; r /= k; }
                models.push(m);
            }
        }
        let gen = Gen { sig, cons: vec![], bind: vec![t.clone(), b.clone(), pt], siblings: 1, special: false };
        out.push(World { name: "empty", pre: "type Thing: axiom\nlet pp: Bool = axiom\nlet hh: Thing -> Bool = axiom\nlet rr: (Thing, Thing) -> Bool = axiom\nlet ff: Thing -> Thing = axiom\n", gen, models, params: "", args: vec![], sig: None, insts: vec![], any: vec![] });
    }
    {
        // Sorts Color, T and Opt[T], for which Color and Bool are put.
        let (c, t, o) = (Ty::Sort(0), Ty::Sort(1), Ty::Sort(2));
        let named = |v: &[(&str, Ty)]| v.iter().map(|(n, t)| (n.to_string(), t.clone())).collect::<Vec<_>>();
        let sig = Sig { sorts: vec!["Color".into(), "T".into(), "Opt[T]".into()], consts: named(&[
            ("Opt.none[T]", o.clone()), ("Opt.some[T]", fun(&[t.clone()], o.clone())), ("gg[T]", fun(&[o.clone()], t.clone())), ("hh[T]", fun(&[t.clone()], b.clone())), ("pp", b.clone()), ("cc", c.clone()),
        ]) };
        let full = Sig { sorts: vec!["Color".into(), "Opt[Color]".into(), "Opt[Bool]".into()], consts: [(c.clone(), "Color", Ty::Sort(1)), (b.clone(), "Bool", Ty::Sort(2))].iter().flat_map(|(t, n, o)| {
            [("Opt.none", o.clone()), ("Opt.some", fun(&[t.clone()], o.clone())), ("gg", fun(&[o.clone()], t.clone())), ("hh", fun(&[t.clone()], b.clone()))].into_iter().map(|(m, t)| (format!("{m}[{n}]"), t)).collect::<Vec<_>>()
        }).chain(named(&[("pp", b.clone()), ("cc", c.clone()), ("Color.red", c.clone()), ("Color.green", c.clone())])).collect() };
        let mut models = vec![];
        for i in 0..8 * 4 * 2 * 2 {
            let (g, h, p, k) = (i % 8, i / 8 % 4, i / 32 % 2, i / 64);
            models.push(Model { sizes: vec![2, 3, 3], vals: vec![0, 1 + 2 * 3, g, h, 0, 1 + 2 * 3, g, h, p, k, 0, 1] });
        }
        let gen = Gen { sig, cons: vec![(2, vec![0, 1])], bind: vec![t.clone(), o.clone(), b.clone()], siblings: 1, special: false };
        out.push(World {
            name: "generic", gen, models, sig: Some(full), any: vec![c.clone(), b.clone()], params: "[T](x0: T, x1: Opt[T])", args: vec![("x0", t), ("x1", o)],
            pre: "inductive Color {\n    red\n    green\n}\ninductive Opt[T] {\n    none\n    some(T)\n}\nlet gg[T]: Opt[T] -> T = axiom\nlet hh[T]: T -> Bool = axiom\nlet pp: Bool = axiom\nlet cc: Color = axiom\n",
            insts: vec![(vec![c.clone(), c.clone(), Ty::Sort(1)], vec![0, 1, 2, 3, 8, 9]), (vec![c.clone(), b.clone(), Ty::Sort(2)], vec![4, 5, 6, 7, 8, 9])],
        });
    }
    for w in &mut out {
        if w.insts.is_empty() { w.insts = vec![((0..w.gen.sig.sorts.len()).map(|i| Ty::Sort(i as u8)).collect(), (0..w.gen.sig.consts.len()).collect())]; }
    }
    out
}

/// Every way to give the arguments values.
fn envs(types: &[Ty], m: &Model) -> Vec<Vec<(Ty, usize)>> {
    let mut out = vec![vec![]];
    for t in types { out = out.iter().flat_map(|e: &Vec<(Ty, usize)>| (0..m.card(t)).map(|v| [e.clone(), vec![(t.clone(), v)]].concat())).collect(); }
    out
}

fn batch(run: &Run, w: &World, es: &[(Ex, Ex)]) {
    let (shown_sig, sig) = (&w.gen.sig, w.full());
    let depth = w.args.len();
    let mut text = w.pre.to_string();
    for (i, (e, _)) in es.iter().enumerate() { text += &format!("axiom za{i}{} {{ {} }}\n", w.params, shown_sig.show(e, depth)); }
    for (i, (e, _)) in es.iter().enumerate() { text += &format!("theorem zt{i}{} {{ {} }}\n", w.params, shown_sig.show(e, depth)); }
    let types = Types { any: w.any.clone(), instances: vec![] };
    let r = guard(|| -> Result<(), String> {
        let l = acornx::load_ide(&text).map_err(|e| format!("is rejected: {e}"))?;
        let values = exported(&l, sig, &types)?;
        let clauses = lowered::fact_clauses(&l, sig, &types)?;
        let goals = lowered::goal_clauses(&l, sig, &types)?;
        let checking = lowered::check_clauses(&text, sig, &types)?;
        if values.len() != clauses.len() || values.len() != checking.len() { return Err(format!("{} facts, {} lowered, {} exported", values.len(), clauses.len(), checking.len())); }
        let skip = values.len() - 2 * es.len();
        let pre = exported(&acornx::load_ide(w.pre).unwrap(), sig, &types)?.len();
        if skip != pre { return Err(format!("{} facts of {} formulas", values.len() - pre, es.len())); }
        for (i, (shown, e)) in es.iter().enumerate() {
            let key = format!("{}:{}", w.name, shown_sig.show(shown, depth));
            let gs: Vec<&lowered::GoalRead> = (0..w.insts.len()).filter_map(|k| goals.iter().find(|g| g.goal == i && g.inst.values().all(|t| *t == w.any[k]))).collect();
            if gs.len() != w.insts.len() { return Err(format!("{} goals for {key}", gs.len())); }
            let tys: Vec<Vec<Ty>> = (0..w.insts.len()).map(|k| w.args.iter().map(|a| w.at(k, &a.1)).collect()).collect();
            let at: Vec<Ex> = (0..w.insts.len()).map(|k| instantiate(e, &|t| w.at(k, t), &|c| w.insts[k].1[c])).collect();
            let goal_sigs: Vec<Sig> = gs.iter().map(|g| { let mut s = sig.clone(); s.consts.extend(g.locals.iter().cloned()); s }).collect();
            'models: for m in &w.models {
                let bad = |what: &str, detail: String| {
                    run.violation(&key, format!("{what}: {detail}; sizes {:?}; {}", m.sizes, sig.consts.iter().zip(&m.vals).map(|((n, _), v)| format!("{n}=#{v}")).collect::<Vec<_>>().join(", ")));
                };
                let truth: Vec<Vec<(Vec<(Ty, usize)>, bool)>> = (0..at.len()).map(|k| envs(&tys[k], m).into_iter().map(|mut v| { let t = eval(&at[k], sig, m, &mut v) == 1; (v, t) }).collect()).collect();
                let want = truth.iter().flatten().all(|x| x.1);
                for at in [skip + i, skip + es.len() + i] {
                    let v = &values[at];
                    if v.iter().all(|r| eval(&r.ex, sig, m, &mut vec![]) == 1) != want { bad("the statement is elaborated to one that differs from it", v[0].text.clone()); break 'models; }
                    if checking[at].0.iter().all(|c| eval(c, sig, m, &mut vec![]) == 1) != want { bad("the statement's clauses for checking differ from it", checking[at].1.clone()); break 'models; }
                    if clauses[at].0.iter().all(|c| eval(c, sig, m, &mut vec![]) == 1) != want { bad("the statement's clauses differ from it", clauses[at].1.clone()); break 'models; }
                }
                for k in 0..at.len() {
                    let g = gs[k];
                    for (env, want) in &truth[k] {
                        // A theorem that is an implication is proved from its hypotheses, which its block holds.
                        let mut under = true;
                        let mut top = &at[k];
                        while let Ex::Imp(a, b) = top { under &= eval(a, sig, m, &mut env.clone()) == 1; top = b; }
                        let mut m = m.clone();
                        for l in &g.locals {
                            let Some(p) = w.args.iter().position(|a| a.0 == l.0 || l.0.starts_with(&format!("{}[", a.0))) else { return Err(format!("the goal of {key} speaks of {}", l.0)) };
                            if tys[k][p] != l.1 { return Err(format!("{} has another type in the goal of {key}", l.0)); }
                            m.vals.push(env[p].1);
                        }
                        let goal = eval(&g.value, &goal_sigs[k], &m, &mut vec![]) == 1;
                        if goal && !want || under && goal != *want { bad("the goal differs from the statement", g.text.clone()); break 'models; }
                        if g.clauses.iter().all(|c| eval(c, &goal_sigs[k], &m, &mut vec![]) == 1) == goal { bad("the goal's clauses are not its negation", g.text.clone()); break 'models; }
                    }
                }
            }
        }
        Ok(())
    });
    let e = match r { Ok(Ok(())) => { run.add("formulas", es.len() as u64); run.add("distinct_nontrivial", es.len() as u64); run.add("evaluations", es.len() as u64 * 3 * w.models.len() as u64); return; } Ok(Err(e)) => e, Err(e) => format!("panic: {e}") };
    if es.len() == 1 { run.violation(&format!("{}:{}", w.name, shown_sig.show(&es[0].0, depth)), e); return; }
    let mid = es.len() / 2;
    batch(run, w, &es[..mid]);
    batch(run, w, &es[mid..]);
}

fn declared(run: &Run, s: &Sc, cap: usize) {
    let r = guard(|| -> Result<(), String> {
        let l = acornx::load_ide(&s.text).map_err(|e| format!("is rejected: {e}"))?;
        let values = exported(&l, &s.sig, &s.types)?;
        let clauses = lowered::fact_clauses(&l, &s.sig, &s.types)?;
        let goals = lowered::goal_clauses(&l, &s.sig, &s.types)?;
        let checking = lowered::check_clauses(&s.text, &s.sig, &s.types)?;
        if values.len() != clauses.len() || values.len() != checking.len() { return Err(format!("{} facts, {} lowered, {} exported", values.len(), clauses.len(), checking.len())); }
        let (mut ms, _) = scen::models(s, cap);
        // An instance's attribute and the class's at that type are one symbol, and so is what
        // it merely names.
        let mut same: Vec<(usize, usize)> = vec![];
        for (i, c) in s.sig.consts.iter().enumerate() {
            let Some(n) = c.0.strip_prefix("impl:") else { continue };
            let named = n.split_once('.').and_then(|x| x.1.split_once('[')).map(|(attr, t)| format!("{}.{attr}", t.trim_end_matches(']')));
            same.extend(s.sig.consts.iter().position(|d| d.0 == n).map(|j| (i, j)));
            same.extend(s.sig.consts.iter().position(|d| Some(&d.0) == named.as_ref()).map(|j| (i, j)));
        }
        for (i, e) in &s.computed {
            match e {
                Ex::Con(j) => same.push((*i, *j)),
                Ex::Lam(_, b) => if let Ex::App(f, a) = &**b { if let (Ex::Con(j), true) = (&**f, a.iter().enumerate().all(|(k, x)| *x == var(k))) { same.push((*i, *j)); } },
                _ => {}
            }
        }
        ms.retain(|m| same.iter().all(|(i, j)| m.vals[*i] == m.vals[*j]));
        run.add("declaration_models", ms.len() as u64);
        for ((v, c), k) in values.iter().zip(&clauses).zip(&checking) {
            run.add("declared_facts", 1);
            for m in &ms {
                let a = v.iter().all(|r| eval(&r.ex, &s.sig, m, &mut vec![]) == 1);
                let b = c.0.iter().all(|c| eval(c, &s.sig, m, &mut vec![]) == 1);
                if k.1 != c.1 && a != k.0.iter().all(|c| eval(c, &s.sig, m, &mut vec![]) == 1) { return Err(format!("the fact and its clauses for checking `{}` differ: {}", k.1, scen::describe(s, m))); }
                if a != b { return Err(format!("the fact `{}` ({a}) and its clauses `{}` ({b}) differ: {}", v.iter().map(|r| r.text.as_str()).collect::<Vec<_>>().join(" / "), c.1, scen::describe(s, m))); }
            }
        }
        for g in &goals {
            run.add("declared_goals", 1);
            let mut sig = s.sig.clone();
            sig.consts.extend(g.locals.iter().cloned());
            for m in &ms {
                let cards: Vec<usize> = g.locals.iter().map(|l| m.card(&l.1)).collect();
                for i in 0..cards.iter().product::<usize>() {
                    let mut m = m.clone();
                    let mut k = i;
                    for c in &cards { m.vals.push(k % c); k /= c; }
                    let a = eval(&g.value, &sig, &m, &mut vec![]) == 1;
                    let b = g.clauses.iter().all(|c| eval(c, &sig, &m, &mut vec![]) == 1);
                    if a == b { return Err(format!("the goal's clauses are not its negation: {}; {}", g.text, scen::describe(s, &m))); }
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => run.violation(&s.key, format!("{e}\n{}", s.text)),
        Err(e) => run.violation(&s.key, format!("panic: {e}\n{}", s.text)),
    }
}

fn main() {
    let run = Run::new("P10");
    let wide = run.thorough();
    for mut w in worlds() {
        let sc: Vec<Ty> = w.args.iter().map(|a| a.1.clone()).collect();
        let mut es: BTreeSet<Ex> = BTreeSet::new();
        for d in 0..=if wide { 3 } else { 2 } { es.extend(w.gen.path(&Ty::Bool, d, &sc)); }
        if wide || w.args.is_empty() {
            w.gen.siblings = 2;
            es.extend(w.gen.path(&Ty::Bool, 2, &sc));
            w.gen.siblings = 1;
        }
        w.gen.special = true;
        if wide || w.args.is_empty() { es.extend(w.gen.path(&Ty::Bool, 3, &sc)); }
        es.extend(w.gen.pairs(&sc));
        let es: Vec<(Ex, Ex)> = es.into_iter().map(|e| { let s = saturate(&e, &w.gen.sig, &mut sc.clone()); (e, s) }).collect();
        run.add(w.name, es.len() as u64);
        eprintln!("{} {} {:.1}", w.name, es.len(), run.elapsed());
        let chunks: Vec<&[(Ex, Ex)]> = es.chunks(40).collect();
        for k in (0..es.len()).step_by(es.len() / 4 + 1) { run.sample(json!({"formula": w.gen.sig.show(&es[k].0, w.args.len())})); }
        parallel(chunks.len(), |i| batch(&run, &w, chunks[i]));
    }
    let cap = if wide { 100_000 } else { 1_000 };
    let mut scs: Vec<Sc> = vec![];
    for v in [decls::inductives(wide), decls::structures(), decls::lets(wide), mc::classes::instances(wide)] { scs.extend(v); }
    run.add("declarations", scs.len() as u64);
    parallel(scs.len(), |i| declared(&run, &scs[i], cap));
    run.extra("exhaustive", json!(true));
    run.finish(
        "exploration",
        "every formula of the enumerated shapes as axiom and as theorem, and every declaration of P09: the written formula, the elaborated value and the lowered clauses (negated for goals) compared in every model of the enumerated sizes",
        &["finite models up to the stated sizes"],
        &["formulas", "declared_facts", "declared_goals", "distinct_nontrivial"],
    )
}
