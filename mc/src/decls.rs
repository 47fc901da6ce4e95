//! Declarations with their meaning: inductive types, structures, let and define.
use crate::{blocks::*, fol::*, scen::*};

const B: Ty = Ty::Bool;
fn so(i: u8) -> Ty { Ty::Sort(i) }

/// Quantifiers over no variables are left out.
pub fn allq(t: &[Ty], e: Ex) -> Ex { if t.is_empty() { e } else { all(t, e) } }
fn someq(t: &[Ty], e: Ex) -> Ex { if t.is_empty() { e } else { some(t, e) } }
pub fn appq(f: Ex, a: &[Ex]) -> Ex { if a.is_empty() { f } else { app(f, a) } }
pub fn funq(a: &[Ty], r: Ty) -> Ty { if a.is_empty() { r } else { fun(a, r) } }
pub fn ands(v: Vec<Ex>) -> Ex { v.into_iter().reduce(and).unwrap_or(True) }
pub fn ors(v: Vec<Ex>) -> Ex { v.into_iter().reduce(or).unwrap_or(False) }
pub fn vars(from: usize, n: usize) -> Vec<Ex> { (from..from + n).map(var).collect() }

/// What an inductive type with these constructors means; `cs`: constant and argument types.
pub fn inductive(t: &Ty, cs: &[(Ex, Vec<Ty>)]) -> (Vec<Ex>, Vec<Ex>) {
    let mut out = vec![];
    for (i, (c, a)) in cs.iter().enumerate() {
        for (d, b) in &cs[i + 1..] {
            out.push(allq(&[a.clone(), b.clone()].concat(), ne(appq(c.clone(), &vars(0, a.len())), appq(d.clone(), &vars(a.len(), b.len())))));
        }
        if !a.is_empty() {
            let n = a.len();
            out.push(all(&[a.clone(), a.clone()].concat(), imp(eq(app(c.clone(), &vars(0, n)), app(c.clone(), &vars(n, n))), ands((0..n).map(|k| eq(var(k), var(n + k))).collect()))));
        }
    }
    out.push(all(&[t.clone()], ors(cs.iter().map(|(c, a)| someq(a, eq(var(0), appq(c.clone(), &vars(1, a.len()))))).collect())));
    let p = fun(&[t.clone()], B);
    let ind = |deep: bool| {
        let cases = cs.iter().map(|(c, a)| {
            let n = a.len();
            let ihs: Vec<Ex> = a.iter().enumerate().filter_map(|(k, x)| match x {
                x if x == t => Some(app(var(0), &[var(1 + k)])),
                Ty::Fun(args, r) if **r == *t && deep => Some(all(args, app(var(0), &[app(var(1 + k), &vars(1 + n, args.len()))]))),
                _ => None,
            }).collect();
            let step = app(var(0), &[appq(c.clone(), &vars(1, n))]);
            allq(a, if ihs.is_empty() { step } else { imp(ands(ihs), step) })
        }).collect();
        all(&[p.clone()], imp(ands(cases), all(&[t.clone()], app(var(0), &[var(1)]))))
    };
    let shallow = ind(false);
    out.push(shallow);
    (out, vec![ind(true)])
}

pub fn inductives(wide: bool) -> Vec<Sc> {
    let (t, s) = (so(0), so(1));
    let bt = fun(&[B], t.clone());
    let shapes: Vec<Vec<Ty>> = vec![vec![], vec![B], vec![s.clone()], vec![t.clone()], vec![t.clone(), B], vec![B, t.clone()], vec![t.clone(), t.clone()], vec![bt.clone()], vec![t.clone(), bt.clone()], vec![bt.clone(), t.clone()], vec![B, s.clone()], vec![B, B], vec![fun(&[s.clone()], B)], vec![t.clone(), B, t.clone()], vec![fun(&[s.clone(), B], t.clone())]];
    let base = |a: &Vec<Ty>| !a.iter().any(|x| *x == t || matches!(x, Ty::Fun(_, r) if **r == t));
    let mut lists: Vec<Vec<Vec<Ty>>> = vec![];
    for a in &shapes {
        lists.push(vec![a.clone()]);
        for b in &shapes {
            lists.push(vec![a.clone(), b.clone()]);
            if wide || (a.len() < 2 && b.len() < 3) {
                for c in &shapes { lists.push(vec![a.clone(), b.clone(), c.clone()]); }
            }
        }
    }
    lists.push(vec![vec![]; 4]);
    lists.push(vec![vec![], vec![B], vec![], vec![t.clone()]]);
    lists.retain(|l| l.iter().any(base));
    lists.into_iter().map(|l| {
        let names = ["a", "b", "c", "d"];
        let sig0 = Sig { sorts: vec!["Ty".into(), "Thing".into()], consts: vec![] };
        let body: String = l.iter().zip(names).map(|(a, n)| if a.is_empty() { format!("    {n}\n") } else { format!("    {n}({})\n", a.iter().map(|x| sig0.ty_str(x)).collect::<Vec<_>>().join(", ")) }).collect();
        let key = format!("inductive:{}", body.split_whitespace().collect::<Vec<_>>().join(" "));
        let text = format!("type Thing: axiom\ninductive Ty {{\n{body}}}\n");
        let consts: Vec<(String, Ty)> = l.iter().zip(names).map(|(a, n)| (format!("Ty.{n}"), funq(a, t.clone()))).collect();
        let consts: Vec<(&str, Ty)> = consts.iter().map(|c| (c.0.as_str(), c.1.clone())).collect();
        let n = l.len();
        let mut s = Sc::new(&key, &text, &["Ty", "Thing"], &consts, &[vec![1, 1], vec![2, 1], vec![2, 2], vec![3, 1], vec![4, 1], vec![1, 2], vec![0, 0], vec![1, 0], vec![2, 0]]);
        let cs: Vec<(Ex, Vec<Ty>)> = l.into_iter().enumerate().map(|(i, a)| (con(i), a)).collect();
        assert_eq!(n, cs.len());
        (s.defs, s.weak) = inductive(&t, &cs);
        s
    }).collect()
}

pub fn structures() -> Vec<Sc> {
    let (st, th) = (so(0), so(1));
    let kinds = [B, th.clone(), fun(&[th.clone()], B)];
    let mut lists: Vec<Vec<Ty>> = vec![];
    for a in &kinds {
        lists.push(vec![a.clone()]);
        for b in &kinds {
            lists.push(vec![a.clone(), b.clone()]);
            lists.push(vec![a.clone(), b.clone(), B]);
        }
    }
    let mut out = vec![];
    for l in lists {
        let n = l.len();
        let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
        // Constraints over the fields.
        let mut cons: Vec<Option<Ex>> = vec![None, Some(True), Some(False)];
        let f = vars(0, n);
        for i in 0..n {
            match &l[i] {
                Ty::Bool => cons.extend([Some(f[i].clone()), Some(not(f[i].clone()))]),
                Ty::Sort(_) => cons.push(Some(all(&[th.clone()], eq(f[i].clone(), var(n))))),
                _ => cons.extend([Some(all(&[th.clone()], app(f[i].clone(), &[var(n)]))), Some(some(&[th.clone()], app(f[i].clone(), &[var(n)])))]),
            }
            for j in 0..n {
                if i < j && l[i] == l[j] { cons.push(Some(ne(f[i].clone(), f[j].clone()))); }
                if l[i] == th && matches!(l[j], Ty::Fun(..)) { cons.push(Some(app(f[j].clone(), &[f[i].clone()]))); }
                if i != j && l[i] == B && l[j] == B { cons.push(Some(imp(f[i].clone(), f[j].clone()))); }
            }
        }
        for c in cons {
            for option in [false, true] {
                if option && c.is_none() { continue; }
                let sig0 = Sig { sorts: vec!["St".into(), "Thing".into()], consts: vec![] };
                let fields: String = names.iter().zip(&l).map(|(n, t)| format!("    {n}: {}\n", sig0.ty_str(t))).collect();
                // Field names stand where the formula says x0, x1..
                let mut consts: Vec<(String, Ty)> = names.iter().zip(&l).map(|(n, t)| (format!("St.{n}"), match t {
                    Ty::Fun(a, r) => Ty::Fun([vec![st.clone()], a.clone()].concat(), r.clone()),
                    t => fun(&[st.clone()], t.clone()),
                })).collect();
                let mut text = String::from("type Thing: axiom\n");
                if option { text += "inductive Option[T] {\n    none\n    some(T)\n}\n"; }
                text += &format!("structure St {{\n{fields}}}");
                if let Some(c) = &c { text += &format!(" constraint {{ {} }}", sig0.show(c, n)); }
                text += "\n";
                for i in 0..n { text = text.replace(&format!("f{i}: "), &format!("x{i}: ")); }
                for i in 0..n { consts[i].0 = format!("St.x{i}"); }
                let opt = so(2);
                if c.is_some() { consts.push(("St.constraint".into(), fun(&l, B))); }
                if c.is_none() { consts.push(("St.new".into(), fun(&l, st.clone()))); }
                if option {
                    consts.push(("St.new".into(), fun(&l, opt.clone())));
                    consts.push(("Option.none[St]".into(), opt.clone()));
                    consts.push(("Option.some[St]".into(), fun(&[st.clone()], opt.clone())));
                }
                let consts: Vec<(&str, Ty)> = consts.iter().map(|c| (c.0.as_str(), c.1.clone())).collect();
                let mut sizes = vec![];
                for k in 0..5 { for t in [1, 2, 0] { sizes.push(if option { vec![k, t, k + 1] } else { vec![k, t] }); } }
                let key = format!("structure:{}", text.replace("type Thing: axiom\n", "").split_whitespace().collect::<Vec<_>>().join(" "));
                let sorts: &[&str] = if option { &["St", "Thing", "Option[St]"] } else { &["St", "Thing"] };
                let mut s = Sc::new(&key, &text, sorts, &consts, &sizes);
                // A field that is a function takes its object first.
                let field = |i: usize, o: Ex, d: usize| match &l[i] {
                    Ty::Fun(a, _) => lam(a, app(con(i), &[vec![o], vars(d, a.len())].concat())),
                    _ => app(con(i), &[o]),
                };
                let at = |c: &Ex| all(&[st.clone()], {
                    // Fields of the object at level 0; inner levels of the constraint move from n to 1.
                    subst_fields(c, n, &l)
                });
                match &c {
                    None => {
                        let new = s.c("St.new");
                        s.defs.push(all(&[st.clone()], eq(app(new.clone(), &(0..n).map(|i| field(i, var(0), 1)).collect::<Vec<_>>()), var(0))));
                        for i in 0..n { s.defs.push(all(&l, eq(field(i, app(new.clone(), &f), n), f[i].clone()))); }
                    }
                    Some(c) => {
                        let k = s.c("St.constraint");
                        s.defs.push(all(&l, eq(app(k, &f), c.clone())));
                        s.defs.push(at(c));
                        if option {
                            let (new, none, some_) = (s.c("St.new"), s.c("Option.none[St]"), s.c("Option.some[St]"));
                            let (o, w) = inductive(&opt, &[(none.clone(), vec![]), (some_.clone(), vec![st.clone()])]);
                            s.types.any = vec![st.clone()];
                            s.given.extend(o.clone());
                            s.defs.extend(o);
                            s.weak.extend(w);
                            let made = app(new.clone(), &f);
                            let k = app(s.c("St.constraint"), &f);
                            // new gives the object with these fields where the constraint holds, else none.
                            s.defs.push(all(&l, imp(k.clone(), some(&[st.clone()], eq(made.clone(), app(some_.clone(), &[var(n)]))))));
                            for i in 0..n {
                                s.defs.push(all(&[l.clone(), vec![st.clone()]].concat(), imp(eq(made.clone(), app(some_.clone(), &[var(n)])), eq(field(i, var(n), n + 1), f[i].clone()))));
                            }
                            s.defs.push(all(&l, imp(not(k), eq(made.clone(), none.clone()))));
                            s.defs.push(all(&[st.clone()], eq(app(new, &(0..n).map(|i| field(i, var(0), 1)).collect::<Vec<_>>()), app(some_, &[var(0)]))));
                        }
                    }
                }
                out.push(s);
            }
        }
    }
    out
}

/// The constraint about the fields of the object at level 0: level i < n is field i; bound
/// variables start at level 1.
fn subst_fields(c: &Ex, n: usize, l: &[Ty]) -> Ex {
    fn go(e: &Ex, n: usize, l: &[Ty]) -> Ex {
        // A field applied to something is one application.
        if let Ex::App(f, a) = e {
            if let Ex::Var(i) = **f {
                if i < n { return app(con(i), &[vec![var(0)], a.iter().map(|x| go(x, n, l)).collect()].concat()); }
            }
        }
        match e {
            Ex::Var(i) if *i < n => match &l[*i] {
                Ty::Fun(a, _) => lam(a, app(con(*i), &[vec![var(0)], vars(1, a.len())].concat())),
                _ => app(con(*i), &[var(0)]),
            },
            Ex::Var(i) => var(*i - n + 1),
            Ex::App(f, a) => app(go(f, n, l), &a.iter().map(|x| go(x, n, l)).collect::<Vec<_>>()),
            Ex::Not(a) => not(go(a, n, l)),
            Ex::Imp(a, b) => imp(go(a, n, l), go(b, n, l)),
            Ex::Eq(a, b) => eq(go(a, n, l), go(b, n, l)),
            Ex::Ne(a, b) => ne(go(a, n, l), go(b, n, l)),
            Ex::All(t, b) => all(t, go(b, n, l)),
            Ex::Some(t, b) => some(t, go(b, n, l)),
            e => e.clone(),
        }
    }
    go(c, n, l)
}

const PRE: &str = "type Thing: axiom\nlet a: Thing = axiom\nlet b: Bool = axiom\nlet p: Thing -> Bool = axiom\nlet f: Thing -> Thing = axiom\n";

fn pre_consts() -> Vec<(&'static str, Ty)> {
    let t = so(0);
    vec![("a", t.clone()), ("b", B), ("p", fun(&[t.clone()], B)), ("f", fun(&[t.clone()], t))]
}

/// Terms of a type over the preamble's constants and these variables.
fn values(ty: &Ty, scope: &[Ty], depth: usize) -> Vec<Ex> {
    let t = so(0);
    let d = scope.len();
    let mut out: Vec<Ex> = scope.iter().enumerate().filter(|(_, x)| *x == ty).map(|(i, _)| var(i)).collect();
    match ty {
        Ty::Sort(_) => {
            out.push(con(0));
            if depth > 0 {
                for x in values(&t, scope, depth - 1) { out.push(app(con(3), &[x])); }
                let xs = values(&t, scope, 0);
                for x in &xs { for y in &xs { if x != y { out.push(ite(con(1), x.clone(), y.clone())); } } }
                for c in values(&B, scope, 0) { if xs.len() > 1 { out.push(ite(c, xs[0].clone(), xs[1].clone())); } }
            }
        }
        Ty::Bool => {
            out.push(con(1));
            if depth > 0 {
                out.extend([True, False]);
                let xs = values(&t, scope, depth - 1);
                for x in &xs { out.push(app(con(2), &[x.clone()])); }
                for x in &xs { for y in &xs { if x < y { out.push(eq(x.clone(), y.clone())); out.push(ne(y.clone(), x.clone())); } } }
                for c in values(&B, scope, 0) { out.push(not(c)); }
                out.push(all(&[t.clone()], app(con(2), &[var(d)])));
                out.push(some(&[t.clone()], and(app(con(2), &[var(d)]), con(1))));
                for x in values(&t, scope, 0) {
                    out.push(some(&[t.clone()], eq(app(con(3), &[var(d)]), x.clone())));
                    out.push(all(&[t.clone()], imp(app(con(2), &[var(d)]), eq(var(d), x.clone()))));
                    out.push(ite(app(con(2), &[x.clone()]), con(1), app(con(2), &[app(con(3), &[x])])));
                }
            }
        }
        Ty::Fun(a, r) => {
            if a.len() == 1 && a[0] == t { out.push(if **r == B { con(2) } else { con(3) }); }
            let mut s = scope.to_vec();
            s.extend(a.iter().cloned());
            for v in values(r, &s, depth) { out.push(lam(a, v)); }
        }
    }
    out
}

pub fn lets(wide: bool) -> Vec<Sc> {
    let t = so(0);
    let depth = if wide { 2 } else { 1 };
    let sizes = [vec![1], vec![2]];
    let mut out = vec![];
    let names: Vec<(&str, Ty)> = pre_consts();
    let sig0 = Sig { sorts: vec!["Thing".into()], consts: names.iter().map(|c| (c.0.to_string(), c.1.clone())).collect() };
    let with = |n: &'static str, ty: Ty| { let mut v = pre_consts(); v.push((n, ty)); v };
    for ty in [B, t.clone(), fun(&[t.clone()], B), fun(&[t.clone()], t.clone()), fun(&[t.clone(), t.clone()], B), fun(&[B], t.clone())] {
        for v in values(&ty, &[], depth) {
            if let Ex::Con(_) = v {
                // Another name for the same thing: no fact, but what speaks of it speaks of that.
                let mut said = vec![eq(v.clone(), v.clone())];
                if ty == t { said = vec![app(con(2), &[v.clone()])]; }
                if ty == B { said = vec![v.clone()]; }
                if let Ty::Fun(a, r) = &ty {
                    let e = app(v.clone(), &vars(0, a.len()));
                    said = vec![all(a, if **r == B { e } else { app(con(2), &[e]) })];
                }
                for e in said {
                    let line = format!("let k: {} = {}", sig0.ty_str(&ty), sig0.show(&v, 0));
                    let mut named = sig0.clone();
                    if let Ex::Con(i) = v { named.consts[i].0 = "k".into(); }
                    let shown = named.show(&e, 0);
                    let line = format!("{line}\naxiom said {{ {shown} }}");
                    let mut s = Sc::new(&line, &format!("{PRE}{line}\n"), &["Thing"], &pre_consts(), &sizes);
                    s.defs.push(e);
                    out.push(s);
                }
                continue;
            }
            let line = format!("let k: {} = {}", sig0.ty_str(&ty), sig0.show(&v, 0));
            let mut s = Sc::new(&line, &format!("{PRE}{line}\n"), &["Thing"], &with("k", ty.clone()), &sizes);
            s.defs.push(eq(con(4), v));
            out.push(s);
        }
    }
    for args in [vec![t.clone()], vec![B], vec![t.clone(), t.clone()], vec![t.clone(), B], vec![B, t.clone()], vec![t.clone(), t.clone(), t.clone()]] {
        for r in [B, t.clone()] {
            for v in values(&r, &args, depth) {
                let decl = args.iter().enumerate().map(|(i, a)| format!("x{i}: {}", sig0.ty_str(a))).collect::<Vec<_>>().join(", ");
                let line = format!("define k({decl}) -> {} {{ {} }}", sig0.ty_str(&r), sig0.show(&v, args.len()));
                let mut s = Sc::new(&line, &format!("{PRE}{line}\n"), &["Thing"], &with("k", fun(&args, r.clone())), &sizes);
                s.defs.push(all(&args, eq(app(con(4), &vars(0, args.len())), v.clone())));
                out.push(s);
            }
        }
    }
    // Named by what they satisfy.
    for ty in [B, t.clone(), fun(&[t.clone()], B)] {
        for v in satisfied(&ty, depth) {
            let body = sig0.show(&v, 1);
            let line = format!("let x0: {} satisfy {{ {body} }}", sig0.ty_str(&ty));
            let mut s = Sc::new(&line, &format!("{PRE}{line}\n"), &["Thing"], &with("x0", ty.clone()), &sizes);
            s.earned.push(map_vars(&shift_down(&v), &|i| if i == usize::MAX { con(4) } else { var(i) }));
            s.oblig.push(some(&[ty.clone()], v));
            out.push(s);
        }
    }
    for (x, y) in [(t.clone(), B), (B, t.clone()), (t.clone(), t.clone())] {
        for v in values(&B, &[x.clone(), y.clone()], 1) {
            let line = format!("let (x0: {}, x1: {}) satisfy {{ {} }}", sig0.ty_str(&x), sig0.ty_str(&y), sig0.show(&v, 2));
            let mut c = with("x0", x.clone());
            c.push(("x1", y.clone()));
            let mut s = Sc::new(&line, &format!("{PRE}{line}\n"), &["Thing"], &c, &sizes);
            s.earned.push(map_vars(&v, &|i| match i { 0 => con(4), 1 => con(5), i => var(i - 2) }));
            s.oblig.push(some(&[x.clone(), y.clone()], v));
            out.push(s);
        }
    }
    for args in [vec![t.clone()], vec![B], vec![t.clone(), t.clone()], vec![t.clone(), B]] {
        for r in [B, t.clone()] {
            let n = args.len();
            let scope = [args.clone(), vec![r.clone()]].concat();
            for v in values(&B, &scope, 1) {
                let decl = args.iter().enumerate().map(|(i, a)| format!("x{i}: {}", sig0.ty_str(a))).collect::<Vec<_>>().join(", ");
                let line = format!("let k({decl}) -> x{n}: {} satisfy {{ {} }}", sig0.ty_str(&r), sig0.show(&v, n + 1));
                let mut s = Sc::new(&line, &format!("{PRE}{line}\n"), &["Thing"], &with("k", fun(&args, r.clone())), &sizes);
                s.earned.push(all(&args, map_vars(&v, &|i| if i < n { var(i) } else if i == n { app(con(4), &vars(0, n)) } else { var(i - 1) })));
                s.oblig.push(all(&args, some(&[r.clone()], v)));
                out.push(s);
            }
        }
    }
    out
}

/// Conditions on one value of this type, at level 0.
fn satisfied(ty: &Ty, depth: usize) -> Vec<Ex> {
    let t = so(0);
    match ty {
        Ty::Fun(..) => vec![
            app(var(0), &[con(0)]),
            not(app(var(0), &[con(0)])),
            all(&[t.clone()], iff(app(var(0), &[var(1)]), not(app(con(2), &[var(1)])))),
            all(&[t.clone()], ne(app(var(0), &[var(1)]), app(var(0), &[app(con(3), &[var(1)])]))),
            eq(var(0), con(2)),
            and(app(var(0), &[con(0)]), con(1)),
        ],
        _ => values(&B, &[ty.clone()], depth),
    }
}

/// Level 0 becomes usize::MAX, the others move down by one.
fn shift_down(e: &Ex) -> Ex { map_vars(e, &|i| if i == 0 { var(usize::MAX) } else { var(i - 1) }) }

