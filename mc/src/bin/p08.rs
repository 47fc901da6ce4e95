//! P08: in programs with proof blocks, what is proved follows from what is in scope, and what
//! blocks export can be used.
use acorn::prover::{Outcome, ProverMode, ScoringPolicy};
use mc::{acornx, blocks::*, fol::*, report::*};
use serde_json::json;
use std::collections::BTreeMap;

struct Sigma {
    name: &'static str,
    preamble: String,
    space: Space,
    /// The sort quantified over, and its inductive cases if any.
    sort: Ty,
    cases: Vec<(usize, Vec<Ty>)>,
    /// Scrutinees for `match`.
    scruts: Vec<Ex>,
    closed: Vec<Ex>,
    /// Formulas about one thing.
    about: fn(&Ex) -> Vec<Ex>,
    axioms: Vec<Vec<Ex>>,
}

const T: Ty = Ty::Sort(0);
const B: Ty = Ty::Bool;

fn mk(name: &'static str, preamble: &str, consts: &[(&str, Ty)], sizes: &[Vec<usize>], fixed: &[Ex], closed: Vec<Ex>, about: fn(&Ex) -> Vec<Ex>, axioms: Vec<Vec<Ex>>) -> Sigma {
    let sg = Sig { sorts: vec!["Thing".into()], consts: consts.iter().map(|(n, t)| (n.to_string(), t.clone())).collect() };
    let n = sg.consts.len();
    let mut space = Space::new(sg, sizes, n);
    let ok: Vec<bool> = (0..space.models.len()).map(|i| fixed.iter().all(|f| space.truth(f).get(i))).collect();
    let models: Vec<Model> = space.models.iter().zip(ok).filter(|(_, k)| *k).map(|(m, _)| m.clone()).collect();
    space = Space::new(space.sig.clone(), &[], 0);
    space.models = models;
    Sigma { name, preamble: preamble.into(), space, sort: T, cases: vec![], scruts: vec![], closed, about, axioms }
}

fn sigmas() -> Vec<Sigma> {
    let p = |x: Ex| app(con(0), &[x]);
    let q = |x: Ex| app(con(1), &[x]);
    // A thing, two properties, a proposition.
    let (c, a) = (con(2), con(3));
    let v = || var(0);
    let base = mk(
        "A",
        "type Thing: axiom\nlet p: Thing -> Bool = axiom\nlet q: Thing -> Bool = axiom\nlet c: Bool = axiom\nlet a: Thing = axiom",
        &[("p", fun(&[T], B)), ("q", fun(&[T], B)), ("c", B), ("a", T)],
        &[vec![1], vec![2]],
        &[],
        vec![c.clone(), not(c.clone()), p(a.clone()), q(a.clone()), some(&[T], p(v())), all(&[T], p(v())), all(&[T], imp(p(v()), q(v()))), False],
        |t| vec![app(con(0), &[t.clone()]), app(con(1), &[t.clone()]), not(app(con(0), &[t.clone()])), eq(t.clone(), con(3))],
        vec![vec![], vec![some(&[T], p(v()))], vec![imp(c.clone(), p(a.clone()))], vec![all(&[T], or(p(v()), q(v())))], vec![all(&[T], imp(p(v()), q(v())))], vec![all(&[T], some(&[T], imp(p(v()), ne(var(0), var(1)))))]],
    );
    // A type that may be empty.
    let c = con(2);
    let maybe = mk(
        "M",
        "type Thing: axiom\nlet p: Thing -> Bool = axiom\nlet q: Thing -> Bool = axiom\nlet c: Bool = axiom",
        &[("p", fun(&[T], B)), ("q", fun(&[T], B)), ("c", B)],
        &[vec![0], vec![1], vec![2]],
        &[],
        vec![c.clone(), not(c.clone()), some(&[T], True), some(&[T], p(v())), all(&[T], p(v())), all(&[T], False), all(&[T], c.clone()), False],
        |t| vec![app(con(0), &[t.clone()]), not(app(con(0), &[t.clone()])), app(con(1), &[t.clone()]), con(2)],
        vec![vec![], vec![all(&[T], p(v()))], vec![all(&[T], c.clone())], vec![some(&[T], p(v()))], vec![imp(c.clone(), some(&[T], True))]],
    );
    // An inductive type with three values.
    let mut ind = mk(
        "I",
        "inductive Thing {\n    one\n    two(Bool)\n}\nlet p: Thing -> Bool = axiom\nlet q: Bool -> Bool = axiom\nlet s: Thing = axiom",
        &[("p", fun(&[T], B)), ("q", fun(&[B], B)), ("s", T), ("Thing.one", T), ("Thing.two", fun(&[B], T))],
        &[vec![3]],
        &[
            all(&[B], ne(app(con(4), &[v()]), con(3))),
            ne(app(con(4), &[True]), app(con(4), &[False])),
        ],
        vec![p(con(2)), not(p(con(2))), eq(con(2), con(3)), p(con(3)), all(&[B], p(app(con(4), &[v()]))), q(True), some(&[B], eq(con(2), app(con(4), &[v()]))), all(&[T], p(v())), False],
        |t| vec![app(con(0), &[t.clone()]), not(app(con(0), &[t.clone()])), eq(t.clone(), con(3)), eq(t.clone(), con(2))],
        vec![vec![], vec![p(con(3))], vec![all(&[B], p(app(con(4), &[v()])))], vec![all(&[B], iff(p(app(con(4), &[v()])), v()))]],
    );
    ind.cases = vec![(3, vec![]), (4, vec![B])];
    ind.scruts = vec![con(2)];
    vec![base, maybe, ind]
}

/// Formulas over the locals in scope, the most recent first.
fn menu(s: &Sigma, tys: &[Ty], closed: usize, per: usize) -> Vec<Ex> {
    let mut out = vec![];
    for (i, t) in tys.iter().enumerate().rev() {
        match t {
            Ty::Sort(_) => out.extend((s.about)(&var(i)).into_iter().take(per)),
            Ty::Bool => out.extend([var(i), not(var(i))].into_iter().take(per)),
            Ty::Fun(a, _) if a[0] == T => out.extend(some_about(s, i, tys.len(), per)),
            _ => {}
        }
    }
    // Binder levels start at the depth.
    out.extend(s.closed.iter().take(closed).map(|e| at_depth(e, tys.len())));
    out
}

fn some_about(s: &Sigma, i: usize, depth: usize, per: usize) -> Vec<Ex> {
    (s.about)(&app(var(i), &[var(depth)])).into_iter().take(per).map(|e| all(&[T], e)).collect()
}

/// A closed formula rewritten for a scope with `d` locals.
fn at_depth(e: &Ex, d: usize) -> Ex { shift(e, 0, &|i| i + d) }

/// Every program of the menu's shapes.
fn programs(s: &Sigma, wide: bool) -> Vec<Vec<St>> {
    let (nc, per) = if wide { (9, 4) } else { (5, 2) };
    let t = &s.sort;
    let mut out: Vec<Vec<St>> = vec![];
    let m0 = menu(s, &[], nc, per);
    let m0x: Vec<Ex> = s.closed.clone();
    let m1 = menu(s, &[t.clone()], nc, per);
    let m1s = menu(s, &[t.clone()], if wide { 3 } else { 2 }, per);
    let m2s = menu(s, &[t.clone(), t.clone()], 2, 2);
    let x = || t.clone();
    let cl = |e: &Ex| St::Claim(e.clone());
    for g in &m0x {
        for f in &m1 {
            out.push(vec![St::Forall(x(), vec![cl(f)]), cl(g)]);
            out.push(vec![St::Thm(Some(x()), None, f.clone(), None), cl(g)]);
            out.push(vec![St::Sat(x(), f.clone()), cl(&at_depth(g, 1))]);
        }
        for f in &m1s {
            for h in &m1s {
                out.push(vec![St::Forall(x(), vec![St::If(f.clone(), vec![cl(h)], None)]), cl(g)]);
                out.push(vec![St::Forall(x(), vec![cl(f), cl(h)]), cl(g)]);
                out.push(vec![St::Forall(x(), vec![cl(f)]), St::Forall(x(), vec![cl(h)]), cl(g)]);
                out.push(vec![St::Thm(Some(x()), Some(f.clone()), h.clone(), None), cl(g)]);
                out.push(vec![St::Thm(Some(x()), None, h.clone(), Some(vec![cl(f)])), cl(g)]);
                if f != h { out.push(vec![St::Forall(x(), vec![St::If(f.clone(), vec![cl(h)], Some(vec![cl(h)]))]), cl(g)]); }
                out.push(vec![St::Thm(Some(x()), Some(f.clone()), h.clone(), Some(vec![St::If(m1[0].clone(), vec![cl(h)], None)])), cl(g)]);
            }
        }
        for f in &m0 {
            for h in &m0 {
                out.push(vec![St::If(f.clone(), vec![cl(h)], None), cl(g)]);
                out.push(vec![St::If(f.clone(), vec![cl(h), cl(g)], None), cl(h)]);
                out.push(vec![St::If(f.clone(), vec![cl(h)], Some(vec![cl(g)])), cl(h)]);
                out.push(vec![St::If(f.clone(), vec![cl(g)], Some(vec![cl(g)])), cl(h)]);
                out.push(vec![St::Thm(None, Some(f.clone()), h.clone(), Some(vec![cl(g)])), cl(g)]);
                out.push(vec![St::Let(B, f.clone()), St::If(var(0), vec![cl(&at_depth(h, 1))], None), cl(&at_depth(g, 1))]);
            }
            for h in &m1s {
                out.push(vec![St::If(f.clone(), vec![St::Sat(x(), h.clone()), cl(&m1[0])], None), cl(g)]);
                out.push(vec![St::If(f.clone(), vec![St::Forall(x(), vec![cl(h)])], None), cl(g)]);
                out.push(vec![St::If(f.clone(), vec![St::Forall(x(), vec![cl(h)])], Some(vec![cl(g)])), cl(g)]);
            }
        }
        for f in &m2s {
            for h in &m1s {
                out.push(vec![St::Forall(x(), vec![St::Sat(x(), f.clone()), cl(h)]), cl(g)]);
                out.push(vec![St::Forall(x(), vec![St::Sat(x(), f.clone()), cl(&m2s[0])]), cl(g)]);
                out.push(vec![St::Forall(x(), vec![St::Forall(x(), vec![cl(f)]), cl(h)]), cl(g)]);
                out.push(vec![St::Thm(Some(x()), None, h.clone(), Some(vec![St::Sat(x(), f.clone()), cl(f)])), cl(g)]);
                out.push(vec![St::Forall(x(), vec![St::Thm(None, None, h.clone(), None), cl(h)]), cl(g)]);
            }
            out.push(vec![St::Sat(x(), m1[0].clone()), St::Sat(x(), f.clone()), cl(&at_depth(g, 2))]);
            out.push(vec![St::Sat(x(), m1[0].clone()), St::Forall(x(), vec![cl(f)]), cl(&at_depth(g, 1))]);
            out.push(vec![St::FunSat(x(), x(), f.clone()), cl(&at_depth(g, 1))]);
            for h in menu(s, &[fun(&[x()], x())], 2, 4) {
                out.push(vec![St::FunSat(x(), x(), f.clone()), cl(&h)]);
            }
        }
        for h in &m1s {
            for f in menu(s, &[x(), B], 2, 2) {
                out.push(vec![St::FunSat(x(), B, f.clone()), cl(&at_depth(g, 1))]);
                out.push(vec![St::Forall(x(), vec![St::Sat(B, f.clone()), cl(h)]), cl(g)]);
            }
        }
        if !s.cases.is_empty() {
            for sc in &s.scruts {
                for f in &m0 {
                    let mb = menu(s, &[B], 4, 2);
                    for h in &mb {
                        out.push(vec![St::Match(sc.clone(), vec![(3, vec![], vec![cl(f)]), (4, vec![B], vec![cl(h)])]), cl(g)]);
                        out.push(vec![St::Match(sc.clone(), vec![(4, vec![B], vec![cl(h)]), (3, vec![], vec![cl(f)])]), cl(g)]);
                    }
                }
            }
            for f in &m1s {
                for h in menu(s, &[x(), B], 2, 2) {
                    out.push(vec![St::Forall(x(), vec![St::Match(var(0), vec![(3, vec![], vec![cl(f)]), (4, vec![B], vec![cl(&h)])])]), cl(g)]);
                    out.push(vec![St::Thm(Some(x()), None, f.clone(), Some(vec![St::Match(var(0), vec![(3, vec![], vec![cl(f)]), (4, vec![B], vec![cl(&h)])])])), cl(g)]);
                }
            }
        }
    }
    // Claims word for word as exported.
    let mut seen = std::collections::HashSet::new();
    // By design nothing may follow an explicit `false` in its block.
    out.retain(|p| explicit_false_is_last(p) && seen.insert(format!("{p:?}")));
    out
}

fn explicit_false_is_last(p: &[St]) -> bool {
    p.iter().enumerate().all(|(i, s)| match s {
        St::Claim(False) => i + 1 == p.len(),
        St::Forall(_, b) => explicit_false_is_last(b),
        St::If(_, b, e) => explicit_false_is_last(b) && e.iter().all(|e| explicit_false_is_last(e)),
        St::Thm(_, _, _, b) => b.iter().all(|b| explicit_false_is_last(b)),
        St::Match(_, cs) => cs.iter().all(|c| explicit_false_is_last(&c.2)),
        _ => true,
    })
}

fn main() {
    let run = Run::new("P08");
    for s in sigmas() {
        let mut progs = vec![];
        for (ai, ax) in s.axioms.iter().enumerate() {
            let wide = run.thorough();
            for p in programs(&s, wide) {
                let mut q: Vec<St> = ax.iter().cloned().map(St::Axiom).collect();
                q.extend(p);
                progs.push((ai, q));
            }
        }
        run.add("programs", progs.len() as u64);
        if std::env::var("DBG").is_ok() { eprintln!("{} {} programs {:.1}s", s.name, progs.len(), run.elapsed()); }
        parallel(progs.len(), |i| {
            let (_, prog) = &progs[i];
            let mut r = Runner::new(&s.space, &s.preamble);
            let start = r.start();
            let (_, _, _) = r.run(prog, start, vec![], &[]);
            let text = r.text();
            let key = format!("{}:{}", s.name, text[s.preamble.len()..].replace('\n', " ; "));
            let out = guard(|| judge(&text));
            run.add("evaluations", 1);
            let verdicts = match out {
                Err(e) => return run.violation(&key, format!("panic {e}\n{text}")),
                Ok(Err(e)) => { run.add("rejected", 1); run.violation(&key, format!("rejected: {e}\n{text}")); return; }
                Ok(Ok(v)) => v,
            };
            for o in &r.goals {
                let line = text.lines().nth(o.line as usize).unwrap_or("").trim().to_string();
                let at = format!("line {} `{line}`", o.line + 1);
                let Some(v) = verdicts.get(&o.line) else {
                    run.violation(&key, format!("{at} is accepted without a proof obligation\n{text}"));
                    continue;
                };
                for (outcome, cert) in v {
                    run.add("goals", 1);
                    match outcome {
                        Outcome::Success => {
                            run.add("proved", 1);
                            if !o.worlds.is_empty() { run.add("distinct_nontrivial", 1); }
                            if let Some(w) = &o.refuted {
                                run.violation(&key, format!("{at} is proved (certificate: {cert:?}) but fails in {} with locals {:?}\n{text}", s.space.describe(w.model), w.env));
                            }
                        }
                        Outcome::Inconsistent => {
                            run.add("inconsistent", 1);
                            if let Some(w) = o.worlds.first() {
                                run.violation(&key, format!("{at}: what is in scope is called inconsistent, but holds in {} with locals {:?}\n{text}", s.space.describe(w.model), w.env));
                            }
                        }
                        o2 => {
                            run.add("unproved", 1);
                            if o.restated && (s.name != "M" || flat(&o.what)) {
                                run.violation(&key, format!("{at} restates what is in scope but is not proved: {o2}\n{text}"));
                            }
                        }
                    }
                }
                if o.restated { run.add("restated", 1); }
            }
            if i % 9973 == 0 { run.sample(json!({"program": text})); }
        });
    }
    run.extra("exhaustive", json!(true));
    run.finish(
        "exploration",
        "every program of the shapes and menus; each claim's verdict judged in every world (finite model and values of the locals) in which what is visible there holds; non-trivial: a proved claim with such a world",
        &["finite models up to size 2 (3 for the inductive type)", "Handcrafted scoring policy, 15 activations"],
        &["proved", "unproved", "inconsistent", "restated", "distinct_nontrivial"],
    )
}

/// What becomes of every goal, by line.
fn judge(text: &str) -> Result<BTreeMap<u32, Vec<(Outcome, Option<bool>)>>, String> {
    let l = acornx::load(text)?;
    let lowered = l.project.get_lowered_module(l.module_id).ok_or("not lowered")?;
    let mut out: BTreeMap<u32, Vec<(Outcome, Option<bool>)>> = BTreeMap::new();
    let ids: Vec<_> = lowered.goals().map(|(id, e)| (id, e.lowered_goal.goal.proposition.source.range.start.line)).collect();
    for (id, line) in ids {
        let mut p = l.processor(id, Some(ScoringPolicy::Handcrafted));
        let o = l.search(id, &mut p, ProverMode::Interactive { timeout_secs: 20.0, activation_limit: 15 });
        let cert = (o == Outcome::Success).then(|| match l.make_cert(id, &p) {
            Ok(c) => l.check_cert(id, &l.processor(id, None), &c).is_ok(),
            Err(_) => false,
        });
        out.entry(line).or_default().push((o, cert));
    }
    Ok(out)
}
