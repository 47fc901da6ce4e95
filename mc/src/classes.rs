//! Typeclasses and instances: what an instance demands, and what may then be used.
use crate::{blocks::*, facts::Types, fol::*, scen::Sc};

const B: Ty = Ty::Bool;
fn c() -> Ty { Ty::Sort(0) }
fn vars(from: usize, n: usize) -> Vec<Ex> { (from..from + n).map(var).collect() }
fn allq(t: &[Ty], e: Ex) -> Ex { if t.is_empty() { e } else { all(t, e) } }

/// The attributes a class may have; the type of the class is sort 0.
pub fn attrs() -> Vec<(&'static str, Vec<Ty>, Ty)> {
    vec![("unit", vec![], c()), ("op", vec![c()], c()), ("flag", vec![c()], B), ("rel", vec![c(), c()], B)]
}
fn aty(i: usize) -> Ty { let (_, a, r) = attrs()[i].clone(); if a.is_empty() { r } else { Ty::Fun(a, Box::new(r)) } }
fn unit() -> Ex { con(0) }
fn op(x: Ex) -> Ex { app(con(1), &[x]) }
fn flag(x: Ex) -> Ex { app(con(2), &[x]) }
fn rel(x: Ex, y: Ex) -> Ex { app(con(3), &[x, y]) }

/// Conditions: argument types and what is said of them.
pub fn conditions() -> Vec<(Vec<Ty>, Ex)> {
    let (x, y, z) = (var(0), var(1), var(2));
    let one = vec![c()];
    let two = vec![c(), c()];
    vec![
        (vec![], flag(unit())),
        (vec![], eq(op(unit()), unit())),
        (vec![], not(all(&one, flag(x.clone())))),
        (one.clone(), flag(x.clone())),
        (one.clone(), eq(op(op(x.clone())), x.clone())),
        (one.clone(), iff(flag(op(x.clone())), flag(x.clone()))),
        (one.clone(), imp(flag(x.clone()), eq(op(x.clone()), unit()))),
        (one.clone(), some(&one, eq(op(y.clone()), x.clone()))),
        (one.clone(), or(not(flag(x.clone())), some(&one, rel(x.clone(), y.clone())))),
        (one.clone(), imp(all(&one, rel(x.clone(), y.clone())), flag(x.clone()))),
        (one.clone(), ite(flag(x.clone()), eq(op(x.clone()), x.clone()), eq(op(x.clone()), unit()))),
        (one.clone(), imp(flag(x.clone()), all(&one, imp(flag(y.clone()), eq(x.clone(), y.clone()))))),
        (two.clone(), imp(flag(x.clone()), flag(y.clone()))),
        (two.clone(), imp(rel(x.clone(), y.clone()), rel(y.clone(), x.clone()))),
        (two.clone(), imp(eq(op(x.clone()), op(y.clone())), eq(x.clone(), y.clone()))),
        (two.clone(), imp(rel(x.clone(), op(y.clone())), flag(x.clone()))),
        (two.clone(), or(rel(x.clone(), y.clone()), some(&one, and(rel(x.clone(), z.clone()), rel(y.clone(), z.clone()))))),
        (vec![c(), B], imp(iff(flag(x.clone()), y.clone()), eq(op(x.clone()), x.clone()))),
        (vec![B, c()], or(x.clone(), ne(op(y.clone()), y.clone()))),
        (vec![c(), c(), c()], imp(and(rel(x.clone(), y.clone()), rel(y.clone(), z.clone())), rel(x.clone(), z.clone()))),
        (vec![fun(&one, B)], imp(app(x.clone(), &[unit()]), some(&one, app(x.clone(), &[op(y.clone())])))),
        (vec![], some(&[fun(&one, c())], all(&one, eq(app(x.clone(), &[op(y.clone())]), y.clone())))),
        (vec![], eq(con(2), lam(&one, rel(x.clone(), x.clone())))),
        (one.clone(), eq(lam(&one, rel(x.clone(), y.clone())), con(2))),
    ]
}

const PRE: &str = "type Thing: axiom\nlet aa: Thing = axiom\nlet pp: Thing -> Bool = axiom\nlet ff: Thing -> Thing = axiom\n";
fn pre() -> Vec<(String, Ty)> { vec![("aa".into(), c()), ("pp".into(), fun(&[c()], B)), ("ff".into(), fun(&[c()], c()))] }

/// Definitions of attribute `i` over the preamble; applied to its arguments.
fn definitions(i: usize) -> Vec<Ex> {
    let (a, p, f) = (con(0), |x: Ex| app(con(1), &[x]), |x: Ex| app(con(2), &[x]));
    let (x, y, z) = (var(0), var(1), var(2));
    let one = [c()];
    match i {
        0 => vec![a.clone(), f(a)],
        1 => vec![x.clone(), f(x.clone()), a.clone(), f(f(x.clone())), ite(p(x.clone()), a, x)],
        2 => vec![p(x.clone()), eq(x.clone(), a.clone()), not(p(f(x.clone()))), some(&one, eq(f(y.clone()), x.clone())), all(&one, imp(p(y.clone()), eq(y.clone(), x.clone()))), True],
        _ => vec![
            eq(x.clone(), y.clone()),
            and(p(x.clone()), p(y.clone())),
            p(y.clone()),
            eq(f(x.clone()), y.clone()),
            some(&one, and(eq(f(z.clone()), x.clone()), eq(z.clone(), y.clone()))),
            all(&one, or(p(z.clone()), ne(x, y))),
        ],
    }
}

fn used(e: &Ex) -> [bool; 4] {
    let u = std::cell::Cell::new([false; 4]);
    map_cons(e, &|i| { let mut v = u.get(); v[i] = true; u.set(v); con(i) });
    u.get()
}

/// How an attribute gets its definition.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Style { Let, Define, DefaultLet, DefaultDefine }

fn text_of(i: usize, style: Style, d: &Ex, sig: &Sig) -> String {
    let (name, args, ret) = attrs()[i].clone();
    let body = sig.show(d, args.len());
    if matches!(style, Style::Let | Style::DefaultLet) || args.is_empty() {
        let ty = Sig { sorts: vec!["Thing".into()], consts: vec![] }.ty_str(&aty(i));
        let v = if args.is_empty() { body } else if let Some(f) = eta(d, args.len()) { sig.show(&f, 0) } else { sig.show(&lam(&args, d.clone()), 0) };
        return format!("    let {name}: {ty} = {v}\n");
    }
    let decl: Vec<String> = (0..args.len()).map(|k| if k == 0 { "self".into() } else { format!("x{k}: Thing") }).collect();
    let body = body.replace("x0", "self");
    format!("    define {name}({}) -> {} {{ {body} }}\n", decl.join(", "), if ret == B { "Bool" } else { "Thing" })
}

/// The constant a body applies to exactly its arguments.
fn eta(d: &Ex, n: usize) -> Option<Ex> {
    match d {
        Ex::App(f, a) if n > 0 && *a == vars(0, n) => if let Ex::Con(_) = **f { Some((**f).clone()) } else { None },
        _ => None,
    }
}

fn scenario(conds: &[(Vec<Ty>, Ex)], defs: &[(usize, Style, Ex)], kind: usize) -> Sc {
    let generic = Sig { sorts: vec!["C".into()], consts: attrs().iter().enumerate().map(|(i, a)| (format!("C.{}", a.0), aty(i))).collect() };
    let concrete = Sig { sorts: vec!["Thing".into()], consts: pre() };
    let class_attr = |i: usize| format!("    {}: {}\n", attrs()[i].0, generic.ty_str(&aty(i)));
    let cond_text = |k: usize, (t, e): &(Vec<Ty>, Ex), sig: &Sig| {
        let args = t.iter().enumerate().map(|(i, t)| format!("x{i}: {}", sig.ty_str(t))).collect::<Vec<_>>().join(", ");
        let args = if t.is_empty() { String::new() } else { format!("({args})") };
        format!("    cond{k}{args} {{\n        {}\n    }}\n", sig.show(e, t.len()))
    };
    let mut text = String::from(PRE);
    let mut consts = pre();
    // In kind 1 the conditions are those of a class that extends the one with the attributes.
    text += "typeclass C: Cc {\n";
    for (i, _, _) in defs { text += &class_attr(*i); }
    if kind == 0 { for (k, x) in conds.iter().enumerate() { text += &cond_text(k, x, &generic); } }
    if kind == 0 && defs.is_empty() { unreachable!() }
    text += "}\n";
    if kind == 1 {
        text += "typeclass C: Dd extends Cc {\n";
        for (k, x) in conds.iter().enumerate() { text += &cond_text(k, x, &generic); }
        text += "}\n";
    }
    if kind == 2 {
        // As a theorem about every instance, which here need not hold.
        for (k, (t, e)) in conds.iter().enumerate() {
            let args = t.iter().enumerate().map(|(i, t)| format!("x{i}: {}", generic.ty_str(t))).collect::<Vec<_>>().join(", ");
            let args = if t.is_empty() { String::new() } else { format!("({args})") };
            text += &format!("theorem cond{k}[C: Cc]{args} {{\n    {}\n}}\n", generic.show(e, t.len()));
        }
    }
    let defaults: String = defs.iter().filter(|d| matches!(d.1, Style::DefaultLet | Style::DefaultDefine)).map(|(i, s, d)| text_of(*i, *s, d, &concrete)).collect();
    if !defaults.is_empty() { text += &format!("attributes Thing {{\n{defaults}}}\n"); }
    let own: String = defs.iter().filter(|d| matches!(d.1, Style::Let | Style::Define)).map(|(i, s, d)| text_of(*i, *s, d, &concrete)).collect();
    text += &if own.is_empty() { "instance Thing: Cc\n".into() } else { format!("instance Thing: Cc {{\n{own}}}\n") };
    if kind == 1 { text += "instance Thing: Dd\n"; }
    let mut public = [usize::MAX; 4];
    let mut computed = vec![];
    let mut refs = vec![];
    for (i, style, d) in defs {
        let (name, args, _) = attrs()[*i].clone();
        let value = if args.is_empty() { d.clone() } else { lam(&args, d.clone()) };
        let mut is = value;
        let mut put = |n: String, is: Ex| {
            consts.push((n, aty(*i)));
            let k = consts.len() - 1;
            refs.push(eq(con(k), is.clone()));
            computed.push((k, is));
            con(k)
        };
        let default = matches!(style, Style::DefaultLet | Style::DefaultDefine);
        // A let that is one constant is another name for it.
        let alias = if args.is_empty() { default && matches!(d, Ex::Con(_)) } else { *style == Style::DefaultLet && eta(d, args.len()).is_some() };
        if default && !alias { is = put(format!("Thing.{name}"), is); }
        let inner = put(format!("impl:Cc.{name}[Thing]"), is);
        put(format!("Cc.{name}[Thing]"), inner);
        public[*i] = consts.len() - 1;
    }
    let key = text[PRE.len()..].split_whitespace().collect::<Vec<_>>().join(" ");
    let consts: Vec<(&str, Ty)> = consts.iter().map(|c| (c.0.as_str(), c.1.clone())).collect();
    let mut s = Sc::new(&key, &text, &["Thing"], &consts, &[vec![1], vec![2]]);
    s.types = Types { any: vec![], instances: vec![("Cc".into(), c()), ("Dd".into(), c())] };
    s.defs = refs;
    s.demands = kind != 2;
    s.computed = computed;
    for (t, e) in conds {
        let e = allq(t, map_cons(e, &|i| con(public[i])));
        s.earned.push(e.clone());
        s.oblig.push(e);
    }
    s
}

pub fn instances(wide: bool) -> Vec<Sc> {
    let mut out = vec![];
    let cs = conditions();
    let mut seen = std::collections::BTreeSet::new();
    let mut add = |s: Sc| if seen.insert(s.key.clone()) { out.push(s) };
    let styles = [Style::Let, Style::Define, Style::DefaultLet, Style::DefaultDefine];
    for (n, (t, e)) in cs.iter().enumerate() {
        let u = used(e);
        let which: Vec<usize> = (0..4).filter(|i| u[*i]).collect();
        let menus: Vec<Vec<Ex>> = which.iter().map(|i| definitions(*i)).collect();
        let total: usize = menus.iter().map(|m| m.len()).product();
        for k in 0..total {
            let mut r = k;
            let pick: Vec<Ex> = menus.iter().map(|m| { let e = m[r % m.len()].clone(); r /= m.len(); e }).collect();
            // Each style for all of them, and mixtures.
            for s in 0..4 {
                let defs: Vec<(usize, Style, Ex)> = which.iter().zip(&pick).enumerate().map(|(j, (i, d))| (*i, styles[if (k + n) % 3 == 2 { (s + j) % 4 } else { s }], d.clone())).collect();
                for kind in 0..3 {
                    if wide || kind == 0 && (which.len() == 1 || (k + s + n) % 3 == 0 || s == 1) || kind > 0 && (k + s + n) % 5 == kind { add(scenario(&[(t.clone(), e.clone())], &defs, kind)); }
                }
            }
        }
    }
    // Two conditions at once.
    for i in 0..cs.len() {
        for j in 0..cs.len() {
            if i == j { continue; }
            let (u, v) = (used(&cs[i].1), used(&cs[j].1));
            let which: Vec<usize> = (0..4).filter(|k| u[*k] || v[*k]).collect();
            for s in 0..if wide { 6 } else { 1 } {
                let defs: Vec<(usize, Style, Ex)> = which.iter().map(|k| { let m = definitions(*k); (*k, styles[(i + j + s) % 4], m[(i * 7 + j * 3 + s * 5 + k) % m.len()].clone()) }).collect();
                add(scenario(&[cs[i].clone(), cs[j].clone()], &defs, (i + s) % 3));
            }
        }
    }
    out
}
