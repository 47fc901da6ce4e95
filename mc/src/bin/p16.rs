//! P16: types indexed by values. What is proved about them is true of every value at every
//! index, with a certificate; transport needs equal indices and keeps every part; what the
//! definitions say outright is proved.
use acorn::prover::{Outcome, ProverMode, ScoringPolicy};
use mc::{acornx, indexed::*, proofspace::guarded_search, report::*};
use serde_json::json;

fn c(i: usize) -> Tm { Tm::Var(i) }
fn ty(k: K, ix: &[Tm]) -> Ty { Ty(k, ix.to_vec()) }
fn b(t: &Tm) -> Box<Tm> { Box::new(t.clone()) }
fn same(a: &Ty, b: &Ty) -> bool { a.0 == b.0 && show_ty(a) == show_ty(b) }

/// What one step makes of a term.
fn parts(t: &Tm, y: &Ty) -> Vec<(Tm, Ty)> {
    let ix = &y.1;
    let p = |f: &'static str, k: K, ix: &[Tm]| (Tm::Proj(f, b(t)), ty(k, ix));
    match y.0 {
        K::Tag => vec![p("mark", K::Color, &[])],
        K::Own => vec![p("sign", K::Color, &[])],
        K::Red => vec![p("kept", K::Color, &[])],
        K::Duo => vec![p("left", K::Tag, &ix[..1]), p("right", K::Own, &ix[1..])],
        K::Eye => vec![p("hue", K::Color, &[]), p("sees", K::Pred, ix)],
        K::Deep => vec![p("eye", K::Eye, &ix[1..]), p("own", K::Own, &ix[..1])],
        _ => vec![],
    }
}

fn steps(t: &Tm, y: &Ty, all: &[(Tm, Ty)]) -> Vec<(Tm, Ty)> {
    let mut out = parts(t, y);
    match y.0 {
        K::Color => {
            out.push((Tm::Made(b(t)), ty(K::Tag, &[t.clone()])));
            if matches!(t, Tm::Var(_)) {
                out.push((Tm::Flip(b(t)), ty(K::Color, &[])));
                for m in [false, true] {
                    out.push((Tm::New(K::Tag, vec![t.clone()], vec![Tm::Col(m)]), ty(K::Tag, &[t.clone()])));
                }
                for (u, v) in all {
                    if v.0 == K::Color && matches!(u, Tm::Var(_) | Tm::Proj(..)) {
                        out.push((Tm::New(K::Tag, vec![t.clone()], vec![u.clone()]), ty(K::Tag, &[t.clone()])));
                    }
                    if v.0 == K::Tag && show_tm(&v.1[0]) == show_tm(t) {
                        for (w, z) in all.iter().filter(|z| z.1.0 == K::Own) {
                            out.push((Tm::New(K::Duo, vec![t.clone(), z.1[0].clone()], vec![u.clone(), w.clone()]), ty(K::Duo, &[t.clone(), z.1[0].clone()])));
                        }
                    }
                }
            }
        }
        K::Tag => {
            out.push((Tm::Swap(b(t)), y.clone()));
            out.push((Tm::Turn(b(&y.1[0]), b(t)), ty(K::Tag, &[Tm::Flip(b(&y.1[0]))])));
        }
        K::Act => {
            for (u, _) in all.iter().filter(|u| u.1.0 == K::Tag && show_tm(&u.1.1[0]) == show_tm(&y.1[0])) {
                out.push((Tm::Act(b(t), b(u)), ty(K::Tag, &y.1)));
            }
        }
        _ => {}
    }
    out
}

/// Terms: what is given, `n` steps from it, and all the parts of those.
fn terms(start: Vec<(Tm, Ty)>, n: usize) -> Vec<(Tm, Ty)> {
    let mut all = start;
    all.extend([false, true].map(|b| (Tm::Col(b), ty(K::Color, &[]))));
    let mut fresh = all.clone();
    for i in 0..n + 3 {
        let mut next = vec![];
        for (t, y) in &fresh {
            let made = if i < n { steps(t, y, &all) } else { parts(t, y) };
            next.extend(made);
        }
        fresh.clear();
        for (t, y) in next {
            if !all.iter().chain(&fresh).any(|(u, _)| show_tm(u) == show_tm(&t)) {
                fresh.push((t, y));
            }
        }
        all.extend(fresh.iter().cloned());
    }
    all
}

/// All statements of one relation over terms.
fn atoms(ts: &[(Tm, Ty)]) -> Vec<Fm> {
    let mut out = vec![];
    for (i, (t, y)) in ts.iter().enumerate() {
        for (u, z) in &ts[i + 1..] {
            if same(y, z) && !matches!((t, u), (Tm::Col(_), Tm::Col(_))) {
                out.push(Fm::Eq(t.clone(), u.clone()));
                if y.0 == K::Tag && matches!(t, Tm::Var(_)) {
                    out.push(Fm::Like(t.clone(), u.clone()));
                }
            }
        }
        if y.0 == K::Pred {
            for (u, _) in ts.iter().filter(|u| u.1.0 == K::Tag && show_tm(&u.1.1[0]) == show_tm(&y.1[0])) {
                out.push(Fm::App(t.clone(), vec![u.clone()]));
            }
        }
        if y.0 == K::Rel {
            let of = |i: usize| ts.iter().filter(move |u| u.1.0 == K::Tag && show_tm(&u.1.1[0]) == show_tm(&y.1[i]));
            for (u, _) in of(0) {
                for (w, _) in of(1) {
                    out.push(Fm::App(t.clone(), vec![u.clone(), w.clone()]));
                }
            }
        }
        if y.0 == K::Own || y.0 == K::Red {
            for (u, z) in ts {
                if z.0 == K::Color && matches!(u, Tm::Var(_) | Tm::Col(_) | Tm::Proj(..)) {
                    out.push(Fm::NewIs(y.0, y.1[0].clone(), u.clone(), Some(t.clone())));
                    out.push(Fm::NewIs(y.0, y.1[0].clone(), u.clone(), None));
                }
            }
        }
    }
    out
}

fn not(f: &Fm) -> Fm { Fm::Not(Box::new(f.clone())) }
fn both(a: &Fm, b: &Fm) -> Fm { Fm::And(Box::new(a.clone()), Box::new(b.clone())) }
fn imp(a: &Fm, b: &Fm) -> Fm { Fm::Imp(Box::new(a.clone()), Box::new(b.clone())) }

fn contexts() -> Vec<Vec<Ty>> {
    let col = || ty(K::Color, &[]);
    let t = |k, i: &[usize]| ty(k, &i.iter().map(|i| c(*i)).collect::<Vec<_>>());
    vec![
        vec![col()],
        vec![col(), t(K::Tag, &[0])],
        vec![col(), t(K::Tag, &[0]), t(K::Tag, &[0])],
        vec![col(), col(), t(K::Tag, &[0]), t(K::Tag, &[1])],
        vec![col(), col(), t(K::Own, &[0]), t(K::Own, &[1])],
        vec![col(), t(K::Own, &[0]), t(K::Own, &[0])],
        vec![col(), t(K::Red, &[0])],
        vec![col(), col(), t(K::Duo, &[0, 1])],
        vec![col(), t(K::Tag, &[0]), t(K::Pred, &[0])],
        vec![col(), t(K::Act, &[0]), t(K::Tag, &[0])],
        vec![col(), col(), t(K::Tag, &[0]), t(K::Tag, &[1]), t(K::Rel, &[0, 1])],
        vec![col(), col(), t(K::Deep, &[0, 1])],
        vec![ty(K::Tag, &[Tm::Col(false)]), ty(K::Tag, &[Tm::Col(true)])],
        vec![col(), ty(K::Tag, &[Tm::Flip(b(&c(0)))]), t(K::Tag, &[0])],
    ]
}

fn show_args(args: &[Ty]) -> String { args.iter().enumerate().map(|(i, t)| format!("{}: {}", name(i), show_ty(t))).collect::<Vec<_>>().join(", ") }

/// What search says about a theorem, judged by whether it is true.
fn judge(run: &Run, key: &str, args: &[Ty], f: &Fm, must: bool) {
    let truth = valid(args, f, &mut vec![]);
    let text = format!("{WORLD}theorem goal({}) {{\n    {}\n}}\n", show_args(args), show(f, args.len()));
    run.add("states", 1);
    run.add(if truth { "valid" } else { "refuted" }, 1);
    match guarded_search(&text) {
        Err(e) => run.violation(key, format!("{e}\n{}", &text[WORLD.len()..])),
        Ok(s) => {
            let proved = matches!(s.outcome, Outcome::Success);
            // Hypotheses that no value meets may be found to contradict each other.
            let never = matches!(f, Fm::Imp(h, _) if valid(args, &not(h), &mut vec![]));
            if (matches!(s.outcome, Outcome::Inconsistent) && !never) || (proved && !truth) {
                run.violation(key, format!("{}: not true of all values\n{}", s.outcome, &text[WORLD.len()..]));
            }
            if proved {
                run.add("proved", 1);
                match (&s.cert, &s.checked) {
                    (Some(Ok(_)), Some(Ok(_))) if s.json_stable => run.add("certificates", 1),
                    // Recorded defects of certificate writing, by what fails.
                    (Some(Err(e)), _) if e.contains("certificate claim map type mismatch") && constrained(args) => run.violation("unwritten claim map", format!("{key}: {e}")),
                    (Some(Err(e)), _) if e.contains("expected type Color, but this is Tag[") && shape(f) => run.violation("unwritten function type", format!("{key}: {e}")),
                    (c, k) => run.violation(key, format!("certificate: {:?} {k:?}\n{}", c.as_ref().map(|c| c.as_ref().map(|_| ())), &text[WORLD.len()..])),
                }
            } else if must {
                run.violation(key, format!("not proved: {}\n{}", s.outcome, &text[WORLD.len()..]));
            }
        }
    }
}

/// Arguments of a type with a constraint.
fn constrained(args: &[Ty]) -> bool { args.iter().any(|t| matches!(t.0, K::Own | K::Red | K::Duo | K::Deep)) }

/// That some relation between values at two indices exists.
fn shape(f: &Fm) -> bool { matches!(f, Fm::Ex(t, _) if t.0 == K::Rel) }

/// Statements in every context: each literal alone, and under each simple hypothesis.
fn statements(run: &Run) {
    let wide = run.thorough();
    let mut cases: Vec<(String, Vec<Ty>, Fm)> = vec![];
    for (n, args) in contexts().into_iter().enumerate() {
        let vars: Vec<(Tm, Ty)> = args.iter().enumerate().map(|(i, t)| (c(i), t.clone())).collect();
        let hyps: Vec<Fm> = { let a = atoms(&terms(vars.clone(), 0)); a.iter().cloned().chain(a.iter().map(not)).collect() };
        let small = args.len() <= 2;
        let goals = atoms(&terms(vars, if wide || small { 2 } else { 1 }));
        for (i, g) in goals.iter().enumerate() {
            for (pol, g) in [(1, g.clone()), (0, not(g))] {
                // under nothing
                cases.push((format!("statement {n} {i}.{pol}"), args.clone(), g.clone()));
                for (j, h) in hyps.iter().enumerate() {
                    if wide || (i + j) % (1 + goals.len() / 12) == 0 {
                        cases.push((format!("statement {n} {j}=>{i}.{pol}"), args.clone(), imp(h, &g)));
                    }
                }
                // the last argument bound inside
                let last = args.len() - 1;
                if last > 0 {
                    let t = args[last].clone();
                    let front = args[..last].to_vec();
                    if wide || i % 4 == 0 {
                        cases.push((format!("statement {n} all {i}.{pol}"), front.clone(), Fm::All(t.clone(), Box::new(g.clone()))));
                        cases.push((format!("statement {n} some {i}.{pol}"), front, Fm::Ex(t, Box::new(g.clone()))));
                    }
                }
            }
        }
    }
    run.extra("statements", json!(cases.len()));
    parallel(cases.len(), |i| {
        let (key, args, f) = &cases[i];
        judge(run, key, args, f, false);
        if i % 997 == 0 { run.sample(json!({"statement": show(f, args.len()), "for": show_args(args)})); }
    });
}

/// What the definitions say outright.
fn outright(run: &Run) {
    let col = || ty(K::Color, &[]);
    let t = |k, i: &[usize]| ty(k, &i.iter().map(|i| c(*i)).collect::<Vec<_>>());
    let eq = |a: Tm, b: Tm| Fm::Eq(a, b);
    let pr = |p: &'static str, t: Tm| Tm::Proj(p, Box::new(t));
    let tag = |i: Tm, f: Tm| Tm::New(K::Tag, vec![i], vec![f]);
    let two = vec![col(), t(K::Tag, &[0])];
    let duo = vec![col(), col(), t(K::Duo, &[0, 1])];
    let own = vec![col(), t(K::Own, &[0])];
    let red = vec![col(), t(K::Red, &[0])];
    let cases: Vec<(Vec<Ty>, Fm)> = vec![
        (vec![col(), col()], eq(pr("mark", tag(c(0), c(1))), c(1))),
        (two.clone(), eq(tag(c(0), pr("mark", c(1))), c(1))),
        (two.clone(), eq(pr("mark", Tm::Turn(b(&c(0)), b(&c(1)))), pr("mark", c(1)))),
        (two.clone(), eq(pr("mark", Tm::Swap(b(&c(1)))), Tm::Flip(b(&pr("mark", c(1)))))),
        (two.clone(), eq(Tm::Swap(b(&c(1))), tag(c(0), Tm::Flip(b(&pr("mark", c(1))))))),
        (vec![col()], eq(pr("mark", Tm::Made(b(&c(0)))), c(0))),
        (vec![col(), t(K::Tag, &[0]), t(K::Tag, &[0])], imp(&eq(c(1), c(2)), &Fm::Like(c(1), c(2)))),
        (own.clone(), eq(pr("sign", c(1)), c(0))),
        (own.clone(), Fm::NewIs(K::Own, c(0), c(0), Some(c(1)))),
        (own.clone(), Fm::NewIs(K::Own, c(0), pr("sign", c(1)), Some(c(1)))),
        (vec![col(), col(), t(K::Own, &[0]), t(K::Own, &[1])], imp(&eq(c(0), c(1)), &eq(pr("sign", c(2)), pr("sign", c(3))))),
        (red.clone(), Fm::NewIs(K::Red, c(0), pr("kept", c(1)), Some(c(1)))),
        (duo.clone(), eq(pr("sign", pr("right", c(2))), c(1))),
        (duo.clone(), eq(Tm::New(K::Duo, vec![c(0), c(1)], vec![pr("left", c(2)), pr("right", c(2))]), c(2))),
        (vec![col(), col(), t(K::Tag, &[0]), t(K::Own, &[1])], eq(pr("left", Tm::New(K::Duo, vec![c(0), c(1)], vec![c(2), c(3)])), c(2))),
        (vec![col(), col(), t(K::Tag, &[0]), t(K::Own, &[1])], eq(pr("right", Tm::New(K::Duo, vec![c(0), c(1)], vec![c(2), c(3)])), c(3))),
    ];
    parallel(cases.len(), |i| judge(run, &format!("outright {i}"), &cases[i].0, &cases[i].1, true));
}

/// Programs with a transport: what must be proved for it, and what follows.
struct Program { key: String, text: String, /// line of the transport, and whether it is justified
    at: u32, justified: bool, must: bool, /// may be refused with an error
    optional: bool, claim: Option<(u32, bool)> }

fn run_program(run: &Run, p: &Program) {
    run.add("states", 1);
    let r = guard(|| {
        let l = match acornx::load(&p.text) {
            Err(_) if p.optional => {
                run.add("not_supported", 1);
                return Ok(());
            }
            l => l?,
        };
        let lowered = l.project.get_lowered_module(l.module_id).ok_or("not lowered")?;
        let mut seen = 0;
        for (id, e) in lowered.goals() {
            let line = e.lowered_goal.goal.proposition.source.range.start.line;
            if line != p.at && p.claim.map_or(true, |c| c.0 != line) { continue; }
            let mut pr = l.processor(id, Some(ScoringPolicy::Handcrafted));
            let o = l.search(id, &mut pr, ProverMode::Interactive { timeout_secs: 20.0, activation_limit: 60 });
            let proved = matches!(o, Outcome::Success);
            run.add("transitions", 1);
            if proved {
                let cert = l.make_cert(id, &pr).map_err(|e| format!("line {line}: no certificate: {e}"))?;
                l.check_cert(id, &l.processor(id, None), &cert).map_err(|e| format!("line {line}: certificate rejected: {e}"))?;
                run.add("certificates", 1);
            }
            if line == p.at {
                seen += 1;
                if p.justified { run.add("justified", 1) } else { run.add("unjustified", 1) }
                if (proved || matches!(o, Outcome::Inconsistent)) && !p.justified {
                    return Err(format!("transport without equal indices: {o}"));
                }
                if p.must && !proved {
                    return Err(format!("transport between equal indices is not accepted: {o}"));
                }
            }
            if let Some((at, truth)) = p.claim {
                if line == at {
                    run.add(if truth { "valid" } else { "refuted" }, 1);
                    if proved { run.add("proved", 1); }
                    if (proved || matches!(o, Outcome::Inconsistent) && p.justified) && !truth {
                        return Err(format!("claim: {o}, though it is not true of all values"));
                    }
                }
            }
        }
        if seen == 0 { return Err("nothing is to be proved for the transport".to_string()); }
        Ok(())
    });
    let shown = &p.text[WORLD.len()..];
    match r {
        Err(e) if ["shape across ", "shape into ", "shape over ", "shape toboth "].iter().any(|k| p.key.starts_with(k)) && p.key.ends_with("definition") && e.starts_with("invalid definition for constant moved: variable 4 has type Function") => run.violation("function transport in a definition", e),
        Err(e) => run.violation(&p.key, format!("panic: {e}\n{shown}")),
        Ok(Err(e)) => run.violation(&p.key, format!("{e}\n{shown}")),
        Ok(Ok(())) => {}
    }
}

const KINDS: &[K] = &[K::Tag, K::Own, K::Red, K::Duo, K::Pred, K::Act, K::Rel, K::Eye, K::Deep];

fn transports(run: &Run) {
    let wide = run.thorough();
    let mut programs = vec![];
    let line = |text: &str, w: &str| text[..text.find(w).unwrap()].matches('\n').count() as u32;
    for &k in KINDS {
        let col = || ty(K::Color, &[]);
        let n = if matches!(k, K::Duo | K::Rel | K::Deep) { 2 } else { 1 };
        // v0, v1: where from; v2, v3: where to; v4: what
        let from: Vec<Tm> = (0..n).map(c).collect();
        // Transport is written for structures without constraint and functions.
        let optional = !matches!(k, K::Tag | K::Pred | K::Eye);
        for to in targets(n) {
            let x = ty(k, &from);
            let args = vec![col(), col(), col(), col(), x.clone()];
            let y = ty(k, &to);
            let need: Vec<Fm> = from.iter().zip(&to).filter(|(a, b)| show_tm(a) != show_tm(b)).map(|(a, b)| Fm::Eq(a.clone(), b.clone())).collect();
            if need.is_empty() { continue; }
            let need_all = need.iter().skip(1).fold(need[0].clone(), |a, f| both(&a, f));
            let mut hyps: Vec<(Fm, bool)> = vec![(Fm::True, false), (need_all.clone(), true), (not(&need_all), false), (Fm::Eq(c(0), c(2)), false), (Fm::Eq(c(1), c(3)), false), (Fm::Eq(c(0), c(1)), false), (both(&Fm::Eq(c(0), c(1)), &Fm::Eq(c(1), c(2))), false), (Fm::Eq(c(2), c(0)), false)];
            hyps.extend(need.iter().map(|f| (f.clone(), need.len() == 1)));
            for (h, (hyp, must)) in hyps.iter().enumerate() {
                let justified = valid(&args, &imp(hyp, &need_all), &mut vec![]);
                let key = format!("transport {k:?} {} {h}", show_ty(&y));
                // in a proof
                let head = format!("{WORLD}theorem moved({}) {{\n    true\n}} by {{\n", show_args(&args));
                let body = |claim: &str| if matches!(hyp, Fm::True) {
                    format!("{head}    let v5: {} = transport v4\n{claim}    true\n}}\n", show_ty(&y))
                } else {
                    format!("{head}    if {} {{\n        let v5: {} = transport v4\n{claim}        true\n    }}\n}}\n", show(hyp, 5), show_ty(&y))
                };
                let text = body("");
                programs.push(Program { key: key.clone(), at: line(&text, "transport"), text, justified, must: *must && !optional, optional, claim: None });
                // in a definition
                let text = format!("{WORLD}define moved({}, v5: {}) -> {} {{\n    if {} {{\n        let v6: {} = transport v4\n        v6\n    }} else {{\n        v5\n    }}\n}}\n", show_args(&args), show_ty(&y), show_ty(&y), show(hyp, 5), show_ty(&y));
                programs.push(Program { key: format!("{key} in a definition"), at: line(&text, "transport"), text, justified, must: false, optional, claim: None });
                // what is said of it afterwards
                if h != 1 && !(wide && h == 0) { continue; }
                let mut start: Vec<(Tm, Ty)> = args.iter().enumerate().map(|(i, t)| (c(i), t.clone())).collect();
                start.push((c(5), y.clone()));
                let mut tags = vec![];
                if matches!(k, K::Pred | K::Act | K::Rel | K::Eye | K::Deep) {
                    for (j, i) in from.iter().chain(&to).enumerate() {
                        if !from.iter().chain(&to).take(j).any(|k| show_tm(k) == show_tm(i)) {
                            let made = [false, true].map(|m| (Tm::New(K::Tag, vec![i.clone()], vec![Tm::Col(m)]), ty(K::Tag, &[i.clone()])));
                            tags.extend(made);
                        }
                    }
                }
                start.extend(tags);
                let ts: Vec<(Tm, Ty)> = terms(start, 0).into_iter().chain(Vec::new()).collect();
                let mut ts = ts;
                for f in [4, 5] {
                    if k == K::Act {
                        let of: Vec<(Tm, Ty)> = ts.clone();
                        for (u, z) in of.iter().filter(|u| u.1.0 == K::Tag && matches!(u.0, Tm::New(..))) {
                            let i = if f == 4 { &from[0] } else { &to[0] };
                            if show_tm(&z.1[0]) == show_tm(i) {
                                ts.push((Tm::Proj("mark", Box::new(Tm::Act(Box::new(c(f)), b(u)))), ty(K::Color, &[])));
                            }
                        }
                    }
                }
                let facts = atoms(&ts);
                // each alone, and that two say the same
                let mut claims: Vec<Fm> = facts.iter().filter(|f| show(f, 0).contains("v5")).flat_map(|f| [f.clone(), not(f)]).collect();
                let apps: Vec<&Fm> = facts.iter().filter(|f| matches!(f, Fm::App(..))).collect();
                for f in apps.iter().filter(|f| show(f, 0).starts_with("v5")) {
                    for g in apps.iter().filter(|g| !show(g, 0).starts_with("v5")) {
                        claims.push(imp(f, g));
                        claims.push(imp(g, f));
                    }
                }
                for (i, claim) in claims.iter().enumerate() {
                    if !wide && claims.len() > 60 && i % (claims.len() / 60 + 1) != h % 2 { continue; }
                    let truth = claim_truth(&args, hyp, &need_all, &to, claim);
                    let mark = "        // here\n";
                    let text = body(&format!("{mark}        {}\n", show(claim, 6)));
                    programs.push(Program { key: format!("{key} claim {i}"), at: line(&text, "transport"), claim: Some((line(&text, "// here") + 1, truth)), text, justified, must: *must && !optional, optional });
                }
            }
        }
    }
    programs.extend(shapes());
    run.extra("programs", json!(programs.len()));
    parallel(programs.len(), |i| {
        run_program(run, &programs[i]);
        if i % 397 == 0 { run.sample(json!({"program": &programs[i].text[WORLD.len()..]})); }
    });
}

/// More forms of type: declarations, the type at indices, and which of the two indices it has.
const SHAPES: &[(&str, &str, &str, [bool; 2])] = &[
    ("both", "structure Both[c: Color, d: Color] {\n    left: Tag[c]\n    right: Tag[d]\n}\n", "Both[@0, @1]", [true, true]),
    ("wide", "structure Wide[c: Color, d: Color] {\n    hue: Color\n}\n", "Wide[@0, @1]", [true, true]),
    ("hold", "structure Hold[T, c: Color] {\n    item: T\n    tag: Tag[c]\n}\n", "Hold[Color, @1]", [false, true]),
    ("into", "", "Color -> Tag[@1]", [false, true]),
    ("across", "", "Tag[@0] -> Tag[@1]", [true, true]),
    ("mixed", "", "(Color, Tag[@0]) -> Tag[@1]", [true, true]),
    ("first", "", "(Tag[@0], Color) -> Color", [true, false]),
    ("curried", "", "Color -> (Tag[@0] -> Tag[@1])", [true, true]),
    ("over", "", "(Tag[@0] -> Color) -> Tag[@1]", [true, true]),
    ("onboth", "structure Both[c: Color, d: Color] {\n    left: Tag[c]\n    right: Tag[d]\n}\n", "Both[@0, @1] -> Color", [true, true]),
    ("toboth", "structure Both[c: Color, d: Color] {\n    left: Tag[c]\n    right: Tag[d]\n}\n", "Color -> Both[@0, @1]", [true, true]),
];

/// Transports of these forms: justified exactly where both changed indices are known to be equal.
fn shapes() -> Vec<Program> {
    let mut out = vec![];
    let at = |form: &str, i: &str, j: &str| form.replace("@0", i).replace("@1", j);
    for (name, decl, form, has) in SHAPES {
        let names = ["v0", "v1", "v2", "v3", "v0.flip", "Color.red"];
        for (to, (x, y)) in [(2, 3), (0, 3), (2, 1), (1, 0), (4, 3), (2, 5), (3, 3)].into_iter().enumerate() {
            let changed: Vec<(usize, usize)> = [(0, x), (1, y)].into_iter().enumerate().filter(|(i, (a, b))| has[*i] && a != b).map(|p| p.1).collect();
            if changed.is_empty() { continue; }
            let eqs: Vec<String> = vec![(0, x), (1, y)].into_iter().map(|(a, b)| format!("{} = {}", names[a], names[b])).collect();
            for h in 0..5 {
                // nothing, either equality, both, or that they are different
                let hyp: String = match h { 0 => "true".to_string(), 1 => eqs[0].clone(), 2 => eqs[1].clone(), 3 => format!("{} and {}", eqs[0], eqs[1]), _ => format!("v0 != v1 and {}", eqs[0]) };
                let justified = (0..64u32).all(|w| {
                    let v: Vec<bool> = vec![w & 1 > 0, w & 2 > 0, w & 4 > 0, w & 8 > 0, w & 1 == 0, false];
                    let e = [v[0] == v[x], v[1] == v[y]];
                    let hyp = match h { 0 => true, 1 => e[0], 2 => e[1], 3 => e[0] && e[1], _ => v[0] != v[1] && e[0] };
                    !hyp || changed.iter().all(|(a, b)| v[*a] == v[*b])
                });
                let key = format!("shape {name} {to} {h}");
                let world = WORLD;
                let (from, target) = (at(form, "v0", "v1"), at(form, names[x], names[y]));
                let args = format!("v0: Color, v1: Color, v2: Color, v3: Color, v4: {from}");
                let text = format!("{world}{decl}theorem moved({args}) {{\n    true\n}} by {{\n    if {hyp} {{\n        let v5: {target} = transport v4\n        true\n    }}\n}}\n");
                let line = |text: &str| text[..text.find("transport").unwrap()].matches('\n').count() as u32;
                out.push(Program { key: key.clone(), at: line(&text), text, justified, must: false, optional: false, claim: None });
                let text = format!("{world}{decl}define moved({args}, v5: {target}) -> {target} {{\n    if {hyp} {{\n        let v6: {target} = transport v4\n        v6\n    }} else {{\n        v5\n    }}\n}}\n");
                out.push(Program { key: format!("{key} in a definition"), at: line(&text), text, justified, must: false, optional: true, claim: None });
            }
        }
    }
    out
}

fn targets(n: usize) -> Vec<Vec<Tm>> {
    if n == 1 {
        vec![vec![c(2)], vec![Tm::Flip(b(&c(0)))], vec![Tm::Col(false)], vec![Tm::Flip(Box::new(Tm::Flip(b(&c(0)))))]]
    } else {
        vec![vec![c(2), c(3)], vec![c(0), c(3)], vec![c(2), c(1)], vec![c(1), c(0)]]
    }
}

/// Whether a claim holds wherever the hypothesis does and the indices are the same.
fn claim_truth(args: &[Ty], hyp: &Fm, need: &Fm, to: &[Tm], claim: &Fm) -> bool {
    fn go(args: &[Ty], hyp: &Fm, need: &Fm, to: &[Tm], claim: &Fm, env: &mut Vec<V>) -> bool {
        if let Some(t) = args.get(env.len()) {
            let ix: Vec<bool> = t.1.iter().map(|i| col(&tm(i, env))).collect();
            return values(t.0, &ix).into_iter().all(|v| { env.push(v); let r = go(args, hyp, need, to, claim, env); env.pop(); r });
        }
        if !fm(hyp, env) || !fm(need, env) { return true; }
        let ix: Vec<bool> = to.iter().map(|i| col(&tm(i, env))).collect();
        let y = moved(&env[args.len() - 1], &ix);
        env.push(y);
        let r = fm(claim, env);
        env.pop();
        r
    }
    go(args, hyp, need, to, claim, &mut vec![])
}

fn main() {
    let run = Run::new("P16");
    let part = std::env::args().nth(2).unwrap_or_default();
    if part.is_empty() || part == "outright" { outright(&run); }
    if part.is_empty() || part == "statements" { statements(&run); }
    if part.is_empty() || part == "transports" { transports(&run); }
    run.extra("exhaustive", json!(true));
    run.finish(
        "exploration",
        "every statement up to the depth in every context, judged by the finite standard model of the shared declarations; every transport program from the menu of types, targets and hypotheses; non-trivial: both true and false statements occur and some of the true ones are proved",
        &["the model of the shared declarations in mc/src/indexed.rs"],
        &["states", "valid", "refuted", "proved", "certificates", "justified", "unjustified"],
    )
}
