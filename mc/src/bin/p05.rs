//! P05: kernel normalization, lowering to clauses and clause inference preserve meaning, on every
//! well-typed term and clause up to a size, in every finite model of the enumerated sizes.
use acorn::kernel::atom::Atom;
use acorn::kernel::clause::Clause;
use acorn::kernel::inference::{find_equality_factorings, find_equality_resolutions};
use acorn::kernel::literal::Literal;
use acorn::kernel::local_context::LocalContext;
use acorn::kernel::symbol::Symbol;
use acorn::kernel::term::{Decomposition, Term};
use acorn::kernel::term_normalization::{beta_reduce_clause_subterms, beta_reduce_subterms, normalize_clause_subterms, normalize_term};
use mc::kernelx::Sig;
use mc::keval::{models, Ex, Gen, Model, Sem, Ty};
use mc::report::{guard, parallel, Run};
use serde_json::json;
use std::collections::HashSet;

struct Fam {
    name: &'static str,
    sig: Sig,
    bases: Vec<&'static str>,
    sizes: Vec<Vec<u64>>,
    free: Vec<&'static str>,
    lam: Vec<(&'static str, &'static str)>,
    quant: Vec<&'static str>,
    eq: Vec<&'static str>,
    ite: Vec<&'static str>,
    bool_consts: bool,
    redex: bool,
    /// types of the terms normalized, with size bound (quick, thorough)
    norm: Vec<(&'static str, usize, usize)>,
    /// size bound of closed formulas lowered to clauses
    lower: (usize, usize),
    /// types of the sides of literals, and the atoms of a clause of 1, 2 and 3 literals (quick, thorough)
    lit_types: Vec<&'static str>,
    lits: ((usize, usize), (usize, usize), (usize, usize)),
}

fn fam(name: &'static str, types: &[&'static str], consts: &[(&str, &str)], sizes: &[&[u64]]) -> Fam {
    let mut sig = Sig::new(&types.iter().map(|t| (*t, 0)).collect::<Vec<_>>());
    for (n, t) in consts {
        sig.add(n, t);
    }
    Fam { name, sig, bases: types.to_vec(), sizes: sizes.iter().map(|s| s.to_vec()).collect(), free: vec![], lam: vec![], quant: vec![], eq: vec![], ite: vec![], bool_consts: false, redex: false, norm: vec![], lower: (0, 0), lit_types: vec![], lits: ((0, 0), (0, 0), (0, 0)) }
}

fn families() -> Vec<Fam> {
    let mut v = vec![];
    let mut f = fam("prop", &[], &[("c", "Bool"), ("d", "Bool"), ("n", "Bool -> Bool")], &[&[]]);
    f.free = vec!["Bool"];
    f.eq = vec!["Bool"];
    f.ite = vec!["Bool"];
    f.quant = vec!["Bool"];
    f.bool_consts = true;
    f.norm = vec![("Bool", 4, 5)];
    f.lower = (5, 6);
    f.lit_types = vec!["Bool"];
    f.lits = ((4, 5), (5, 6), (6, 6));
    v.push(f);
    let mut f = fam("fol", &["E"], &[("a", "E"), ("b", "E"), ("f", "E -> E"), ("p", "E -> Bool")], &[&[1], &[2], &[3]]);
    f.free = vec!["E", "E"];
    f.eq = vec!["E", "Bool"];
    f.ite = vec!["E"];
    f.quant = vec!["E"];
    f.norm = vec![("Bool", 4, 5), ("E", 6, 7)];
    f.lower = (6, 7);
    f.lit_types = vec!["E", "Bool"];
    f.lits = ((7, 7), (7, 7), (7, 7));
    v.push(f);
    let mut f = fam("empty", &["D", "E"], &[("r", "D -> Bool"), ("c", "Bool"), ("a", "E"), ("s", "D -> E")], &[&[0, 1], &[0, 2], &[1, 1], &[1, 2], &[2, 1], &[2, 2]]);
    f.free = vec!["D", "D", "E"];
    f.eq = vec!["D", "E"];
    f.ite = vec!["D"];
    f.quant = vec!["D", "E", "D -> Bool"];
    f.norm = vec![("Bool", 4, 5)];
    f.lower = (5, 6);
    f.lit_types = vec!["D", "E", "Bool"];
    f.lits = ((4, 5), (5, 6), (6, 6));
    v.push(f);
    let mut f = fam("ho", &["E"], &[("a", "E"), ("f", "E -> E"), ("g", "E -> E"), ("P", "(E -> E) -> Bool")], &[&[1], &[2]]);
    f.free = vec!["E", "E -> E"];
    f.eq = vec!["E", "E -> E"];
    f.quant = vec!["E", "E -> E"];
    f.lam = vec![("E", "E"), ("E", "Bool")];
    f.redex = true;
    f.ite = vec!["E -> E"];
    f.norm = vec![("Bool", 5, 6), ("E -> E", 5, 6)];
    f.lower = (5, 6);
    f.lit_types = vec!["E", "E -> E", "Bool"];
    f.lits = ((6, 7), (6, 6), (6, 7));
    v.push(f);
    let mut f = fam("rel", &["E"], &[("a", "E"), ("h", "E -> E -> E"), ("q", "E -> E -> Bool")], &[&[1], &[2]]);
    f.free = vec!["E", "E"];
    f.eq = vec!["E", "E -> E", "E -> Bool"];
    f.quant = vec!["E"];
    f.lam = vec![("E", "E"), ("E", "Bool")];
    f.norm = vec![("Bool", 4, 5), ("E -> E", 5, 6), ("E -> Bool", 5, 6)];
    f.lower = (6, 6);
    f.lit_types = vec!["E", "E -> E", "Bool"];
    f.lits = ((7, 7), (7, 8), (7, 9));
    v.push(f);
    // Functions of three arguments, compared with each other.
    let mut f = fam("tern", &["E"], &[("a", "E"), ("b", "E"), ("k", "E -> E -> E -> E")], &[&[1], &[2]]);
    f.free = vec!["E"];
    f.norm = vec![("E", 7, 7)];
    f.lit_types = vec!["E"];
    f.lits = ((8, 8), (8, 10), (6, 6));
    v.push(f);
    v
}

fn gen<'a>(sem: &'a Sem<'a>, f: &Fam, free: &[&str]) -> Gen<'a> {
    let ty = |s: &str| sem.ty(&f.sig.ty_str(s)).unwrap();
    Gen {
        sem,
        free: LocalContext::from_types(free.iter().map(|s| f.sig.ty_str(s)).collect()),
        lam: f.lam.iter().map(|(a, b)| (ty(a), ty(b))).collect(),
        quant: f.quant.iter().map(|q| ty(q)).collect(),
        eq: f.eq.iter().map(|q| ty(q)).collect(),
        ite: f.ite.iter().map(|q| ty(q)).collect(),
        connectives: true,
        bool_consts: f.bool_consts,
        redex: f.redex,
    }
}

/// Some model and environment where the two differ.
fn differ(ms: &[Model], ctx: &[Option<Ty>], a: &Ex, b: &Ex) -> bool {
    ms.iter().any(|m| !m.envs(ctx, |env| m.eval(a, env, &mut vec![]) == m.eval(b, env, &mut vec![])))
}

fn inhabited(m: &Model, ctx: &[Option<Ty>]) -> bool { ctx.iter().flatten().all(|t| m.size(t) > 0) }

/// The subterms in value positions.
fn subterms(t: &Term, out: &mut Vec<Term>) {
    out.push(t.clone());
    match t.as_ref().decompose() {
        Decomposition::Application(f, x) => {
            let (f, x) = (f.to_owned(), x.to_owned());
            subterms(&f, out);
            subterms(&x, out);
        }
        Decomposition::Lambda(_, b) | Decomposition::ForAll(_, b) | Decomposition::Exists(_, b) => subterms(&b.to_owned(), out),
        _ => {}
    }
}

/// Every term obtained by exchanging the sides of one fully applied `=`.
fn commuted(t: &Term) -> Vec<Term> {
    let mut out = vec![];
    if let Some((head, args)) = t.as_ref().split_application_multi() {
        if head.is_atomic() {
            let n = match head.get_head_atom() {
                Atom::Symbol(Symbol::Eq) if args.len() == 3 => Some(1),
                _ => None,
            };
            if let Some(n) = n {
                let mut a = args.clone();
                a.swap(n, n + 1);
                out.push(head.apply(&a));
            }
        }
        for (i, x) in args.iter().enumerate() {
            for y in commuted(x) {
                let mut a = args.clone();
                a[i] = y;
                out.push(head.apply(&a));
            }
        }
        if !head.is_atomic() {
            for h in commuted(&head) {
                out.push(h.apply(&args));
            }
        }
        return out;
    }
    match t.as_ref().decompose() {
        Decomposition::Lambda(a, b) => commuted(&b.to_owned()).into_iter().map(|x| Term::lambda(a.to_owned(), x)).collect(),
        Decomposition::ForAll(a, b) => commuted(&b.to_owned()).into_iter().map(|x| Term::forall(a.to_owned(), x)).collect(),
        Decomposition::Exists(a, b) => commuted(&b.to_owned()).into_iter().map(|x| Term::exists(a.to_owned(), x)).collect(),
        _ => out,
    }
}

fn check_term(f: &Fam, sem: &Sem, ms: &[Model], free: &LocalContext, t: &Term, run: &Run) {
    let show = sem.sig.show(t);
    let key = |w: &str| format!("{}:{}:{}", f.name, w, show);
    let ctx = sem.context(free).unwrap();
    let (e, ty) = sem.term(t, free).expect("generated terms are well typed");
    let n = normalize_term(t);
    run.add("evaluations", 1);
    if n != *t {
        run.add("distinct_nontrivial", 1);
    }
    if normalize_term(&n) != n {
        run.violation(&key("idempotent"), format!("normalizing {show} twice gives {} then {}", sem.sig.show(&n), sem.sig.show(&normalize_term(&n))));
    }
    let b = beta_reduce_subterms(t);
    for (what, r) in [("normalize", &n), ("beta", &b)] {
        if r == t {
            continue;
        }
        match sem.term(r, free) {
            Err(m) => run.violation(&key(what), format!("{what} of {show} is ill typed: {m}")),
            Ok((re, rty)) => {
                if rty != ty {
                    run.violation(&key(what), format!("{what} of {show} changes its type"));
                } else if differ(ms, &ctx, &e, &re) {
                    run.violation(&key(what), format!("{what} changes the meaning of {show} to {}", sem.sig.show(r)));
                }
            }
        }
    }
    let mut subs = vec![];
    subterms(&n, &mut subs);
    for s in subs {
        if normalize_term(&s) != s {
            run.violation(&key("subterm"), format!("subterm {} of the normalized {} is not normalized", sem.sig.show(&s), sem.sig.show(&n)));
        }
    }
    for c in commuted(t) {
        run.add("commuted", 1);
        if normalize_term(&c) != n {
            run.violation(&key("commute"), format!("{show} and {} differ only by commutativity but normalize to {} and {}", sem.sig.show(&c), sem.sig.show(&n), sem.sig.show(&normalize_term(&c))));
        }
    }
}

/// Atoms, counting `true` and `false` too.
fn atoms(t: &Term) -> u32 { t.iter_atoms().count() as u32 }

fn show_clause(sem: &Sem, ls: &[Literal]) -> String {
    if ls.is_empty() {
        return "false".into();
    }
    ls.iter().map(|l| format!("{} {} {}", sem.sig.show(&l.left), if l.positive { "=" } else { "!=" }, sem.sig.show(&l.right))).collect::<Vec<_>>().join(" or ")
}

fn check_lower(f: &Fam, sem: &Sem, ms: &[Model], t: &Term, run: &Run) {
    let none = LocalContext::empty_ref();
    let n = normalize_term(t);
    let show = sem.sig.show(&n);
    let key = |w: &str| format!("{}:{}:{}", f.name, w, show);
    let (e, _) = sem.term(&n, none).unwrap();
    let mut kc = sem.sig.kc.clone();
    run.add("lowered", 1);
    let mut all: Vec<(&str, Vec<Clause>)> = vec![];
    match kc.lower_normalized_term_to_clauses(&n, None) {
        Ok(cs) => all.push(("lower", cs)),
        Err(m) => run.violation(&key("lower"), format!("lowering {show} fails: {m}")),
    }
    match kc.lower_normalized_term_to_clause_preserving_leading_foralls(&n, None) {
        Ok(c) => all.push(("lower-exact", vec![c])),
        Err(_) => run.add("not_clause_shaped", 1),
    }
    for (what, cs) in all {
        let mut comp = vec![];
        for c in &cs {
            match sem.clause(c) {
                Ok(x) => comp.push(x),
                Err(m) => {
                    run.violation(&key(what), format!("lowering {show} gives an ill-typed clause: {m}"));
                    return;
                }
            }
            if !c.is_normalized() {
                run.violation(&key("lower-normalized"), format!("lowering {show} gives the non-normalized clause {}", show_clause(sem, &c.literals)));
            }
        }
        for m in ms {
            let want = m.eval(&e, &[], &mut vec![]) == 1;
            let got = comp.iter().all(|(e, ctx)| m.holds(e, ctx));
            if want != got {
                let cl: Vec<String> = cs.iter().map(|c| show_clause(sem, &c.literals)).collect();
                run.violation(&key(what), format!("{show} is {want} but its clauses [{}] are {got} with sizes {:?}", cl.join("; "), m.sizes));
                break;
            }
        }
    }
}

fn check_clause(f: &Fam, sem: &Sem, ms: &[Model], free: &LocalContext, lits: Vec<Literal>, run: &Run) {
    let show = show_clause(sem, &lits);
    let key = |w: &str| format!("{}:{}:{}", f.name, w, show);
    let ctx = sem.context(free).unwrap();
    let used: Vec<Option<Ty>> = ctx.iter().enumerate().map(|(i, t)| lits.iter().any(|l| l.left.has_variable(i as u16) || l.right.has_variable(i as u16)).then(|| t.clone()).flatten()).collect();
    let src = match sem.literals(&lits, free) {
        Ok(s) => s,
        Err(_) => return,
    };
    let c = Clause::new(lits, free);
    run.add("clauses", 1);
    let mods: Vec<&Model> = ms.iter().filter(|m| inhabited(m, &used)).collect();
    let truth: Vec<bool> = mods.iter().map(|m| m.holds(&src, &used)).collect();
    if truth.iter().any(|t| *t) && truth.iter().any(|t| !*t) {
        run.add("distinct_nontrivial", 1);
    }
    // Equivalent: same truth value in every model; implied: true wherever the source is.
    // `elim`: types of variables the step eliminates; it is only claimed where those are inhabited.
    let judge_elim = |what: &str, lits: &[Literal], context: &LocalContext, exact: bool, elim: &[Option<Ty>]| {
        let text = show_clause(sem, lits);
        let (e, cx) = match sem.literals(lits, context).and_then(|e| Ok((e, sem.context(context)?))) {
            Ok(x) => x,
            Err(m) => {
                run.violation(&key(what), format!("{what} of {show} is ill typed: {m}"));
                return;
            }
        };
        run.add(what, 1);
        for (m, t) in mods.iter().zip(&truth) {
            if !exact && !*t || !inhabited(m, elim) {
                continue;
            }
            let h = m.holds(&e, &cx);
            if *t && !h || exact && h != *t {
                run.violation(&key(what), format!("{what}: {show} is {t} but {text} is {h} with sizes {:?}", m.sizes));
                return;
            }
        }
    };
    let judge = |what: &str, lits: &[Literal], context: &LocalContext, exact: bool| judge_elim(what, lits, context, exact, &[]);
    judge("normalized", &c.literals, c.get_local_context(), true);
    let c2 = normalize_clause_subterms(&c);
    judge("subterm-normalized", &c2.literals, c2.get_local_context(), true);
    let c3 = beta_reduce_clause_subterms(&c);
    judge("beta-reduced", &c3.literals, c3.get_local_context(), true);
    if !c.is_normalized() {
        let d = c.normalized();
        run.violation(&key("clause-idempotent"), format!("normalizing {show} twice gives {} then {}", show_clause(sem, &c.literals), show_clause(sem, &d.literals)));
    }
    if c.is_tautology() {
        run.add("tautologies", 1);
        if truth.iter().any(|t| !*t) {
            run.violation(&key("tautology"), format!("{show} is called a tautology"));
        }
    }
    if c.is_impossible() && truth.iter().any(|t| *t) {
        run.violation(&key("impossible"), format!("{show} is called impossible"));
    }
    let d = c.normalized_preserving_locals();
    judge("normalized-in-place", &d.literals, d.get_local_context(), true);
    let kc = &sem.sig.kc;
    // Inference works on clauses whose terms are normalized.
    let c = c2.normalized();
    judge("normalized-again", &c.literals, c.get_local_context(), true);
    for (ls, cx, _) in find_equality_resolutions(&c, kc) {
        judge("equality-resolution", &ls, &cx, false);
    }
    for (ls, cx, _) in find_equality_factorings(&c, kc) {
        judge("equality-factoring", &ls, &cx, false);
    }
    for ls in c.find_injectivities() {
        judge("injectivity", &ls, c.get_local_context(), false);
    }
    if let Some(ls) = c.find_extensionality(kc) {
        judge("extensionality", &ls, c.get_local_context(), false);
    }
    for (k, _, tr) in c.find_boolean_reduction_kinds_with_locations_with_options(kc, true) {
        let Ok(pre) = sem.context(&tr.pre_norm_context) else { continue };
        let elim: Vec<Option<Ty>> = pre.into_iter().enumerate().map(|(i, t)| if tr.var_ids.contains(&(i as u16)) { None } else { t }).collect();
        judge_elim(&format!("reduction-{}", k.as_str()), &tr.clause.literals, tr.clause.get_local_context(), false, &elim);
    }
}

fn main() {
    let run = Run::new("P05");
    let t = run.thorough();
    let only = std::env::var("FAMS").ok();
    for f in families() {
        if only.as_ref().is_some_and(|o| !o.split(',').any(|x| x == f.name)) {
            continue;
        }
        let sem = Sem::new(&f.sig, &f.bases);
        // every model with these numbers of elements; three elements only in the thorough tier
        let sizes: Vec<&[u64]> = f.sizes.iter().map(|s| s.as_slice()).filter(|s| t || s.iter().all(|n| *n <= 2)).collect();
        let ms = models(&sem, &sizes);
        run.add("models", ms.len() as u64);
        let g = gen(&sem, &f, &f.free);
        let ty = |s: &str| sem.ty(&f.sig.ty_str(s)).unwrap();
        // 1. terms
        let mut terms = vec![];
        for (s, q, th) in &f.norm {
            terms.extend(g.up_to(&ty(s), if t { *th } else { *q }));
        }
        let one = |what: &str, show: &dyn Fn() -> String, go: &dyn Fn()| {
            if let Err(m) = guard(go) {
                run.violation(&format!("{}:panic:{}", f.name, show()), format!("{what} panics on {}: {m}", show()));
            }
        };
        parallel(terms.len(), |i| one("normalization", &|| sem.sig.show(&terms[i]), &|| check_term(&f, &sem, &ms, &g.free, &terms[i], &run)));
        eprintln!("{} terms {} models {} {:.1}s", f.name, terms.len(), ms.len(), run.elapsed());
        // 2. lowering
        let g0 = gen(&sem, &f, &[]);
        let forms: HashSet<Term> = g0.up_to(&Ty::Bool, if t { f.lower.1 } else { f.lower.0 }).iter().map(normalize_term).collect();
        let forms: Vec<Term> = forms.into_iter().collect();
        parallel(forms.len(), |i| one("lowering", &|| sem.sig.show(&forms[i]), &|| check_lower(&f, &sem, &ms, &forms[i], &run)));
        eprintln!("{} formulas {} {:.1}s", f.name, forms.len(), run.elapsed());
        // 3. clauses
        let pick = |b: &(usize, usize)| (if t { b.1 } else { b.0 }) as u32;
        let (b1, b2, b3) = (pick(&f.lits.0), pick(&f.lits.1), pick(&f.lits.2));
        // Every literal over the listed types with at most b1 atoms, by increasing size.
        let mut l1: Vec<(u32, Literal)> = vec![];
        for s in &f.lit_types {
            let mut ts = g.up_to(&ty(s), b1 as usize);
            ts.sort_by_key(|x| atoms(x));
            for (i, a) in ts.iter().enumerate() {
                if *s == "Bool" && atoms(a) <= b1 {
                    l1.push((atoms(a), Literal::positive(a.clone())));
                    l1.push((atoms(a), Literal::negative(a.clone())));
                }
                for b in &ts[i..] {
                    let n = atoms(a) + atoms(b);
                    if n > b1 {
                        break;
                    }
                    l1.push((n, Literal::equals(a.clone(), b.clone())));
                    l1.push((n, Literal::not_equals(a.clone(), b.clone())));
                }
            }
        }
        l1.sort_by_key(|x| x.0);
        eprintln!("{} {} literals", f.name, l1.len());
        let go = |ls: Vec<Literal>| {
            let ls2 = ls.clone();
            one("clause inference", &|| show_clause(&sem, &ls2), &|| check_clause(&f, &sem, &ms, &g.free, ls.clone(), &run))
        };
        parallel(l1.len(), |i| go(vec![l1[i].1.clone()]));
        parallel(l1.len(), |i| {
            for j in i..l1.len() {
                if l1[i].0 + l1[j].0 > b2 {
                    break;
                }
                run.add("two_literal_clauses", 1);
                go(vec![l1[i].1.clone(), l1[j].1.clone()]);
            }
        });
        eprintln!("{} {:.1}s", f.name, run.elapsed());
        parallel(l1.len(), |i| {
            for j in i + 1..l1.len() {
                if l1[i].0 + 2 * l1[j].0 > b3 {
                    break;
                }
                for k in j + 1..l1.len() {
                    if l1[i].0 + l1[j].0 + l1[k].0 > b3 {
                        break;
                    }
                    run.add("three_literal_clauses", 1);
                    go(vec![l1[i].1.clone(), l1[j].1.clone(), l1[k].1.clone()]);
                }
            }
        });
        run.sample(json!({"family": f.name, "terms": terms.len(), "formulas": forms.len(), "literals": l1.len(), "example": sem.sig.show(&terms[terms.len() / 2])}));
        eprintln!("{} literals {} {:.1}s", f.name, l1.len(), run.elapsed());
    }
    run.finish(
        "exploration",
        "evaluations: terms normalized; clauses: clauses normalized and inferred from; distinct_nontrivial: terms changed by normalization plus clauses that are true in some models and false in others",
        &["the finite-model evaluator in mc/src/keval.rs", "terms and clauses up to the stated sizes over the stated signatures; types of at most three elements"],
        if only.is_some() { &[] } else { &["evaluations", "clauses", "lowered", "equality-resolution", "equality-factoring", "injectivity", "extensionality", "tautologies", "commuted"] },
    )
}
