//! P11: definitions that are accepted add no contradiction.
use mc::{acornx, fol::*, report::*};
use serde_json::json;
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::Arc;

// ---- Recursive functions: every body of a shape, run on small arguments.

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
enum V { B(bool), D(usize, Vec<V>), Opaque, F(Rc<Fun>) }
#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Fun { Lam(Vec<V>, usize, Arc<Ex>), Part(Vec<V>), Con(usize) }

/// What the function under definition and its surroundings look like.
struct World {
    name: &'static str,
    sig: Sig,
    /// Constructors by sort.
    cons: Vec<(u8, Vec<usize>)>,
    /// Value parameters of the enclosing type come first, then the arguments.
    scope: Vec<Ty>,
    ambient: usize,
    ret: Ty,
    pre: &'static str,
    head: &'static str,
    foot: &'static str,
    names: Vec<&'static str>,
}

const FF: usize = 0;
const GG: usize = 1;
const AP: usize = 2;
const ADD: usize = 3;

const NAT: &str = "inductive Nat {\n    zero\n    suc(Nat)\n}\n";

fn worlds() -> Vec<World> {
    let nat = Ty::Sort(0);
    let nn = fun(&[nat.clone()], nat.clone());
    let base = |ff: &str, ffty: Ty, more: &[(&str, Ty)], sorts: &[&str]| Sig {
        sorts: [&["Nat"], sorts].concat().into_iter().map(String::from).collect(),
        consts: [(ff, ffty), ("gg", nn.clone()), ("ap", fun(&[nn.clone(), nat.clone()], nat.clone())), ("add", fun(&[nat.clone(), nat.clone()], nat.clone())), ("Nat.zero", nat.clone()), ("Nat.suc", nn.clone())]
            .iter().chain(more).map(|(n, t)| (n.to_string(), t.clone())).collect(),
    };
    let axioms = "let gg: Nat -> Nat = axiom\nlet ap: (Nat -> Nat, Nat) -> Nat = axiom\nlet add: (Nat, Nat) -> Nat = axiom\n";
    let pre = |s: &str| -> &'static str { Box::leak(format!("{NAT}{axioms}{s}").into_boxed_str()) };
    let two = fun(&[nat.clone(), nat.clone()], nat.clone());
    let o = Ty::Sort(1);
    let mixed = fun(&[o.clone(), nat.clone()], nat.clone());
    let ncons = (0u8, vec![4, 5]);
    vec![
        World { name: "plain", sig: base("ff", two.clone(), &[], &[]), cons: vec![ncons.clone()], scope: vec![nat.clone(), nat.clone()], ambient: 0, ret: nat.clone(), pre: pre(""), head: "define ff(x0: Nat, x1: Nat) -> Nat {\n", foot: "}\n", names: vec!["x0", "x1"] },
        World { name: "attribute", sig: base("Nat.ff", two.clone(), &[], &[]), cons: vec![ncons.clone()], scope: vec![nat.clone(), nat.clone()], ambient: 0, ret: nat.clone(), pre: pre(""), head: "attributes Nat {\ndefine ff(self, x1: Nat) -> Nat {\n", foot: "}\n}\n", names: vec!["self", "x1"] },
        World { name: "curried", sig: base("ff", two.clone(), &[], &[]), cons: vec![ncons.clone()], scope: vec![nat.clone(), nat.clone()], ambient: 0, ret: nat.clone(), pre: pre(""), head: "define ff(x0: Nat) -> Nat -> Nat { function(x1: Nat) {\n", foot: "} }\n", names: vec!["x0", "x1"] },
        World { name: "mixed", sig: base("ff", mixed.clone(), &[("Two.one", fun(&[nat.clone()], o.clone())), ("Two.two", fun(&[o.clone(), nat.clone()], o.clone()))], &["Two"]), cons: vec![ncons.clone(), (1, vec![6, 7])], scope: vec![o.clone(), nat.clone()], ambient: 0, ret: nat.clone(),
            pre: pre("inductive Two {\n    one(Nat)\n    two(Two, Nat)\n}\n"), head: "define ff(x0: Two, x1: Nat) -> Nat {\n", foot: "}\n", names: vec!["x0", "x1"] },
        World { name: "generic", sig: base("ff", mixed.clone(), &[("List.nil[T]", o.clone()), ("List.cons[T]", fun(&[Ty::Sort(2), o.clone()], o.clone()))], &["List[T]", "T"]), cons: vec![ncons.clone(), (1, vec![6, 7])], scope: vec![o.clone(), nat.clone()], ambient: 0, ret: nat.clone(),
            pre: pre("inductive List[T] {\n    nil\n    cons(T, List[T])\n}\n"), head: "define ff[T](x0: List[T], x1: Nat) -> Nat {\n", foot: "}\n", names: vec!["x0", "x1"] },
        World { name: "dependent", sig: base("Vec[n].ff", fun(&[o.clone(), nat.clone(), nat.clone()], nat.clone()), &[], &["Vec[n]"]), cons: vec![ncons.clone()], scope: vec![nat.clone(), o.clone(), nat.clone(), nat.clone()], ambient: 1, ret: nat.clone(),
            pre: pre("structure Vec[n: Nat] {\n    part: Bool\n}\n"), head: "attributes Vec[n: Nat] {\ndefine ff(self, x2: Nat, x3: Nat) -> Nat {\n", foot: "}\n}\n", names: vec!["n", "self", "x2", "x3"] },
    ]
}

impl World {
    fn arity(&self) -> usize { self.scope.len() - self.ambient }
    fn zero(&self) -> Ex { con(4) }

    /// Arguments for a call: every variable, and the last one wrapped.
    fn terms(&self, ty: &Ty, sc: &[Ty]) -> Vec<Ex> {
        let mut out: Vec<Ex> = (0..sc.len()).filter(|i| sc[*i] == *ty).map(var).collect();
        if *ty == Ty::Sort(0) {
            if let Some(v) = out.last().cloned() { out.extend([app(con(5), &[v.clone()]), app(con(GG), &[v])]); }
            out.push(self.zero());
        }
        out
    }

    fn calls(&self, sc: &[Ty], full: bool) -> Vec<Ex> {
        let Ty::Fun(args, _) = &self.sig.consts[FF].1 else { panic!() };
        let mut rows: Vec<Vec<Ex>> = vec![vec![]];
        for t in args {
            let mut ts = self.terms(t, sc);
            if !full { ts.retain(|e| matches!(e, Ex::Var(_))); }
            rows = rows.iter().flat_map(|r| ts.iter().map(|x| [r.clone(), vec![x.clone()]].concat())).collect();
        }
        let mut out: Vec<Ex> = rows.iter().map(|r| app(con(FF), r)).collect();
        if full && self.ambient == 0 {
            // Too few arguments, and the function itself.
            for a in self.terms(&args[0], sc) { out.push(app(con(AP), &[app(con(FF), &[a]), var(sc.iter().rposition(|t| *t == Ty::Sort(0)).unwrap())])); }
        }
        out
    }

    /// Bodies with a call below `d` constructs.
    fn bodies(&self, d: usize, sc: &[Ty], full: bool) -> Vec<Ex> {
        if d == 0 { return self.calls(sc, full); }
        let nat = Ty::Sort(0);
        let mut out = vec![];
        let last = var(sc.iter().rposition(|t| *t == nat).unwrap());
        for s in self.bodies(d - 1, sc, full) {
            out.push(app(con(5), &[s.clone()]));
            out.push(ite(eq(s.clone(), last.clone()), last.clone(), self.zero()));
            out.push(ite(eq(last.clone(), self.zero()), last.clone(), s.clone()));
            let Ty::Fun(args, _) = &self.sig.consts[FF].1 else { panic!() };
            for k in 0..args.len() {
                if args[k] != nat { continue; }
                let row: Vec<Ex> = (0..args.len()).map(|j| if j == k { s.clone() } else { var(sc.iter().rposition(|t| *t == args[j]).unwrap()) }).collect();
                out.push(app(con(FF), &row));
            }
            if d == 1 { for c in self.calls(sc, false) { out.push(app(con(ADD), &[s.clone(), c])); } }
        }
        let inner = [sc.to_vec(), vec![nat.clone()]].concat();
        for s in self.bodies(d - 1, &inner, full) {
            for t in self.terms(&nat, sc).into_iter().rev().take(3) { out.push(app(lam(&[nat.clone()], s.clone()), &[t])); }
            out.push(app(con(AP), &[lam(&[nat.clone()], s.clone()), last.clone()]));
            out.push(ite(some(&[nat.clone()], eq(s, self.zero())), last.clone(), self.zero()));
        }
        for (sort, cons) in &self.cons {
            let ty = Ty::Sort(*sort);
            let mut on: Vec<Ex> = (0..sc.len()).filter(|i| sc[*i] == ty).map(var).collect();
            if ty == nat { on.push(app(con(GG), &[last.clone()])); }
            for v in on {
                for at in 0..cons.len() {
                    let argtys = |k: usize| match &self.sig.consts[cons[k]].1 { Ty::Fun(a, _) => a.clone(), _ => vec![] };
                    for s in self.bodies(d - 1, &[sc.to_vec(), argtys(at)].concat(), full) {
                        let cs = cons.iter().enumerate().map(|(k, c)| {
                            let a = argtys(k);
                            let vs: Vec<Ex> = (0..a.len()).map(|i| var(sc.len() + i)).collect();
                            (a.clone(), if a.is_empty() { con(*c) } else { app(con(*c), &vs) }, if k == at { s.clone() } else { self.zero() })
                        }).collect();
                        out.push(Ex::Case(Arc::new(v.clone()), cs));
                    }
                }
            }
        }
        out
    }

    fn text(&self, body: &Ex) -> String {
        let mut shown = self.sig.show(&self.spelled(body), self.scope.len());
        for (i, n) in self.names.iter().enumerate() { shown = rename(&shown, &format!("x{i}"), n); }
        if self.ambient > 0 { shown = methods(&shown); }
        shown
    }

    /// Calls one argument at a time where that is how the function is defined.
    fn spelled(&self, e: &Ex) -> Ex {
        if self.name != "curried" { return e.clone(); }
        map(e, &|e| match e {
            Ex::App(f, a) if **f == con(FF) && a.len() == 2 => Some(app(app(con(FF), &a[..1]), &a[1..])),
            _ => None,
        })
    }

    /// Every function called only with all arguments, one of them always a part, bound by a
    /// match on it, of the argument in the same place.
    fn structural(&self, body: &Ex) -> bool {
        fn go(w: &World, e: &Ex, sc: usize, parts: &mut Vec<Option<usize>>, ok: &mut Vec<bool>) {
            match e {
                Ex::Con(i) if *i == FF => ok.fill(false),
                Ex::App(f, a) if **f == con(FF) => {
                    for i in 0..ok.len() { ok[i] &= matches!(a.get(i), Some(Ex::Var(j)) if parts[*j] == Some(w.ambient + i)); }
                    for x in a { go(w, x, sc, parts, ok); }
                }
                Ex::Case(s, cs) => {
                    go(w, s, sc, parts, ok);
                    for (t, _, r) in cs {
                        let n = parts.len();
                        let of = if let Ex::Var(i) = &**s { Some(*i) } else { None };
                        parts.extend(t.iter().map(|_| of));
                        go(w, r, sc + t.len(), parts, ok);
                        parts.truncate(n);
                    }
                }
                Ex::Lam(t, b) | Ex::All(t, b) | Ex::Some(t, b) => {
                    let n = parts.len();
                    parts.extend(t.iter().map(|_| None));
                    go(w, b, sc + t.len(), parts, ok);
                    parts.truncate(n);
                }
                e => for x in children(e) { go(w, x, sc, parts, ok) },
            }
        }
        let mut ok = vec![true; self.arity()];
        go(self, body, self.scope.len(), &mut vec![None; self.scope.len()], &mut ok);
        ok.contains(&true)
    }
}

fn children(e: &Ex) -> Vec<&Ex> {
    match e {
        True | False | Ex::Con(_) | Ex::Var(_) => vec![],
        Ex::App(f, a) => std::iter::once(&**f).chain(a).collect(),
        Ex::Not(a) => vec![&**a],
        Ex::And(a, b) | Ex::Or(a, b) | Ex::Imp(a, b) | Ex::Iff(a, b) | Ex::Eq(a, b) | Ex::Ne(a, b) => vec![&**a, &**b],
        Ex::If(a, b, c) => vec![&**a, &**b, &**c],
        Ex::Lam(_, b) | Ex::All(_, b) | Ex::Some(_, b) => vec![&**b],
        Ex::Case(s, cs) => std::iter::once(&**s).chain(cs.iter().map(|c| &c.2)).collect(),
    }
}

fn map(e: &Ex, f: &dyn Fn(&Ex) -> Option<Ex>) -> Ex {
    if let Some(x) = f(e) { return x; }
    let go = |e: &Ex| map(e, f);
    match e {
        True | False | Ex::Con(_) | Ex::Var(_) => e.clone(),
        Ex::App(g, a) => app(go(g), &a.iter().map(go).collect::<Vec<_>>()),
        Ex::Not(a) => not(go(a)),
        Ex::And(a, b) => and(go(a), go(b)),
        Ex::Or(a, b) => or(go(a), go(b)),
        Ex::Imp(a, b) => imp(go(a), go(b)),
        Ex::Iff(a, b) => iff(go(a), go(b)),
        Ex::Eq(a, b) => eq(go(a), go(b)),
        Ex::Ne(a, b) => ne(go(a), go(b)),
        Ex::If(a, b, c) => ite(go(a), go(b), go(c)),
        Ex::Lam(t, b) => lam(t, go(b)),
        Ex::All(t, b) => all(t, go(b)),
        Ex::Some(t, b) => some(t, go(b)),
        Ex::Case(s, cs) => Ex::Case(Arc::new(go(s)), cs.iter().map(|(t, p, r)| (t.clone(), p.clone(), go(r))).collect()),
    }
}

fn rename(s: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for c in s.chars().chain([' ']) {
        if c.is_alphanumeric() || c == '_' { word.push(c); continue; }
        out.push_str(if word == from { to } else { &word });
        word.clear();
        out.push(c);
    }
    out.pop();
    out
}

/// `Vec[n].ff(self, a, b)` is written `self.ff(a, b)`.
fn methods(s: &str) -> String { s.replace("Vec[n].ff(self, ", "self.ff(") }

struct Loops;
struct Eval<'a> { w: &'a World, suc: bool, stack: Vec<Vec<V>>, steps: usize }

impl Eval<'_> {
    fn call(&mut self, args: Vec<V>, body: &Ex) -> Result<V, Loops> {
        fn depth(v: &V) -> usize { match v { V::D(_, a) => 1 + a.iter().map(depth).max().unwrap_or(0), _ => 0 } }
        self.steps += 1;
        if self.stack.len() > 40 || self.steps > 20_000 || self.stack.contains(&args) || args.iter().any(|v| depth(v) > 12) { return Err(Loops); }
        self.stack.push(args.clone());
        let r = self.eval(body, &mut args.clone(), body);
        self.stack.pop();
        r
    }

    fn nats(&self) -> Vec<V> {
        let mut v = vec![V::D(4, vec![])];
        for i in 0..3 { let n = V::D(5, vec![v[i].clone()]); v.push(n); }
        v
    }

    fn apply(&mut self, f: &V, mut args: Vec<V>, env: &[V], body: &Ex) -> Result<V, Loops> {
        let V::F(f) = f else { panic!() };
        match &**f {
            Fun::Lam(e, _, b) => { let mut e = e.clone(); e.extend(args); self.eval(b, &mut e, body) }
            Fun::Part(done) => {
                let mut a = done.clone();
                a.append(&mut args);
                if a.len() < self.w.arity() { return Ok(V::F(Rc::new(Fun::Part(a)))); }
                let full = [env[..self.w.ambient].to_vec(), a].concat();
                self.call(full, body)
            }
            Fun::Con(i) => match *i {
                GG => Ok(if self.suc { V::D(5, args) } else { args.remove(0) }),
                // What an unknown function does with its argument: anything.
                AP => {
                    let mut last = None;
                    for x in self.nats().into_iter().chain([args[1].clone()]) { last = Some(self.apply(&args[0], vec![x], env, body)?); }
                    Ok(last.unwrap())
                }
                ADD => Ok(args.remove(0)),
                i => Ok(V::D(i, args)),
            },
        }
    }

    fn eval(&mut self, e: &Ex, env: &mut Vec<V>, body: &Ex) -> Result<V, Loops> {
        Ok(match e {
            True => V::B(true),
            False => V::B(false),
            Ex::Var(i) => env[*i].clone(),
            Ex::Con(i) => match &self.w.sig.consts[*i].1 {
                Ty::Fun(..) if *i == FF => V::F(Rc::new(Fun::Part(vec![]))),
                Ty::Fun(..) => V::F(Rc::new(Fun::Con(*i))),
                _ => V::D(*i, vec![]),
            },
            Ex::App(f, a) => {
                let f = self.eval(f, env, body)?;
                let a = a.iter().map(|x| self.eval(x, env, body)).collect::<Result<Vec<_>, _>>()?;
                self.apply(&f, a, &env.clone(), body)?
            }
            Ex::Lam(t, b) => V::F(Rc::new(Fun::Lam(env.clone(), t.len(), b.clone()))),
            Ex::Eq(a, b) => V::B(self.eval(a, env, body)? == self.eval(b, env, body)?),
            Ex::If(c, a, b) => if self.eval(c, env, body)? == V::B(true) { self.eval(a, env, body)? } else { self.eval(b, env, body)? },
            Ex::Some(_, b) => {
                let mut found = false;
                for x in self.nats() {
                    env.push(x);
                    let r = self.eval(b, env, body);
                    env.pop();
                    found |= r? == V::B(true);
                }
                V::B(found)
            }
            Ex::Case(s, cs) => {
                let V::D(c, parts) = self.eval(s, env, body)? else { panic!() };
                let case = cs.iter().find(|k| match &k.1 { Ex::App(f, _) => **f == con(c), p => *p == con(c) }).unwrap();
                let n = env.len();
                env.extend(parts);
                let r = self.eval(&case.2, env, body);
                env.truncate(n);
                r?
            }
            _ => panic!(),
        })
    }
}

fn values(w: &World, t: &Ty, depth: usize) -> Vec<V> {
    let Ty::Sort(s) = t else { panic!() };
    let Some((_, cons)) = w.cons.iter().find(|c| c.0 == *s) else { return vec![V::Opaque] };
    let mut out = vec![];
    for c in cons {
        let args = match &w.sig.consts[*c].1 { Ty::Fun(a, _) => a.clone(), _ => vec![] };
        if depth == 0 && !args.is_empty() && *s == 0 { continue; }
        if depth == 0 && args.contains(t) { continue; }
        let mut rows: Vec<Vec<V>> = vec![vec![]];
        for a in &args {
            let vs = values(w, a, depth.saturating_sub(1));
            rows = rows.iter().flat_map(|r| vs.iter().map(|x| [r.clone(), vec![x.clone()]].concat())).collect();
        }
        out.extend(rows.into_iter().map(|a| V::D(*c, a)));
    }
    out
}

fn terminates(w: &World, body: &Ex) -> Result<(), String> {
    let mut rows: Vec<Vec<V>> = vec![vec![]];
    for t in &w.scope {
        let vs = values(w, t, if *t == Ty::Sort(0) { 3 } else { 2 });
        rows = rows.iter().flat_map(|r| vs.iter().map(|x| [r.clone(), vec![x.clone()]].concat())).collect();
    }
    for r in rows {
        for suc in [false, true] {
            let mut ev = Eval { w, suc, stack: vec![], steps: 0 };
            if ev.call(r.clone(), body).is_err() { return Err(r.iter().map(|v| show(w, v)).collect::<Vec<_>>().join(", ")); }
        }
    }
    Ok(())
}

fn show(w: &World, v: &V) -> String {
    match v {
        V::B(b) => b.to_string(),
        V::Opaque => "_".into(),
        V::F(_) => "function".into(),
        V::D(c, a) if a.is_empty() => w.sig.consts[*c].0.clone(),
        V::D(c, a) => format!("{}({})", w.sig.consts[*c].0, a.iter().map(|x| show(w, x)).collect::<Vec<_>>().join(", ")),
    }
}

fn recursion(run: &Run, wide: bool) {
    for w in worlds() {
        let mut es: BTreeSet<Ex> = BTreeSet::new();
        let big = w.name == "plain" || w.name == "dependent";
        es.extend(w.bodies(0, &w.scope, true));
        es.extend(w.bodies(1, &w.scope, true));
        es.extend(w.bodies(2, &w.scope, big || wide));
        if wide || w.cons.len() > 1 { es.extend(w.bodies(3, &w.scope, false)); }
        let es: Vec<Ex> = es.into_iter().collect();
        eprintln!("{} {} {:.1}", w.name, es.len(), run.elapsed());
        run.add("recursive_bodies", es.len() as u64);
        parallel(es.len(), |i| {
            let e = &es[i];
            let shown = w.text(e);
            let key = format!("{}:{shown}", w.name);
            let text = format!("{}{}    {shown}\n{}", w.pre, w.head, w.foot);
            match guard(|| acornx::load_ide(&text).err()) {
                Err(p) => run.violation(&key, format!("panic: {p}")),
                Ok(None) => {
                    run.add("recursive_accepted", 1);
                    if let Err(args) = terminates(&w, e) { run.violation(&key, format!("accepted, but does not end on ({args})")); }
                }
                Ok(Some(err)) => {
                    if !err.contains("infinite loop") { run.violation(&key, format!("rejected for another reason: {err}")); }
                    else if w.name != "curried" && w.structural(e) { run.violation(&key, "rejected, although every call is on a part of its argument".to_string()); }
                }
            }
        });
        for k in (0..es.len()).step_by(es.len() / 3 + 1) { run.sample(json!({"definition": format!("{}: {}", w.name, w.text(&es[k]))})); }
    }
}

// ---- Inductive types: every argument type, with the places where the type itself stands.

/// How often a position is on the left of an arrow; `Bad`: as an argument of a type that may use
/// it in any way.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Use { Absent, Strict, Bad }
use Use::*;

fn join(a: Use, b: Use) -> Use { match (a, b) { (Bad, _) | (_, Bad) => Bad, (Absent, x) | (x, Absent) => x, _ => Strict } }
/// A position used like `outer` in a type that stands where `inner` says.
fn at(outer: Use, inner: Use) -> Use { match (outer, inner) { (Absent, _) | (_, Absent) => Absent, (Strict, x) => x, _ => Bad } }

/// Type constructors with what they are written like and how they use each argument.
fn holders() -> Vec<(&'static str, &'static str, Vec<Use>)> {
    vec![
        ("Wrap", "structure Wrap[T] {\n    inside: T\n}\n", vec![Strict]),
        ("Pred", "structure Pred[T] {\n    inside: T -> Bool\n}\n", vec![Bad]),
        ("Twice", "structure Twice[T] {\n    inside: (T -> Bool) -> Bool\n}\n", vec![Bad]),
        ("From", "structure From[T] {\n    inside: Nat -> T\n}\n", vec![Strict]),
        ("Arrow", "structure Arrow[S, T] {\n    inside: S -> T\n}\n", vec![Bad, Strict]),
        ("Worra", "structure Worra[S, T] {\n    inside: T -> S\n}\n", vec![Strict, Bad]),
        ("Phantom", "structure Phantom[T] {\n    inside: Bool\n}\n", vec![Absent]),
        ("List", "inductive List[T] {\n    nil\n    cons(T, List[T])\n}\n", vec![Strict]),
        ("Tree", "inductive Tree[T] {\n    leaf(T)\n    node(Nat -> Tree[T])\n}\n", vec![Strict]),
        ("Flip", "inductive Flip[S, T] {\n    stop\n    use(S -> Bool, T)\n    turn(Flip[T, S])\n}\n", vec![Bad, Bad]),
        ("Shift", "inductive Shift[S, T] {\n    stop(S)\n    turn(Shift[T, S])\n}\n", vec![Strict, Strict]),
        ("Deep", "structure Deep[T] {\n    inside: Pred[T] -> Bool\n}\n", vec![Bad]),
        ("Under", "structure Under[T] {\n    inside: Wrap[T -> Bool]\n}\n", vec![Bad]),
        ("Over", "structure Over[T] {\n    inside: List[Wrap[T]]\n}\n", vec![Strict]),
        ("Opaque", "type Opaque[T]: axiom\n", vec![Bad]),
        ("Family", "structure Family[T, b: Bool] {\n    inside: T\n}\n", vec![Strict]),
        ("Mily", "structure Mily[T, b: Bool] {\n    inside: T -> Bool\n}\n", vec![Bad]),
    ]
}

/// Types in which the one being defined may stand, with how it is used.
fn arg_types(depth: usize, me: &str) -> Vec<(String, Use)> {
    let mut out: Vec<(String, Use)> = vec![(me.into(), Strict), ("Bool".into(), Absent), ("Nat".into(), Absent)];
    for _ in 0..depth {
        let mut next: Vec<(String, Use)> = out.clone();
        let paren = |s: &String| if s.contains("->") && !s.ends_with(']') { format!("({s})") } else { s.clone() };
        for (t, u) in &out {
            if *u == Absent { continue; }
            let p = if t.contains("->") { format!("({t})") } else { t.clone() };
            next.push((format!("{p} -> Bool"), at(Bad, *u)));
            next.push((format!("Bool -> {p}"), *u));
            next.push((format!("(Nat, {t}) -> Bool"), at(Bad, *u)));
            next.push((format!("(Nat, Bool) -> {p}"), *u));
            if t.len() < 12 { next.push((format!("{p} -> {}", paren(&me.to_string())), Bad)); }
            for (h, _, uses) in holders() {
                let fam = h == "Family" || h == "Mily";
                for k in 0..uses.len() {
                    let args: Vec<String> = (0..uses.len()).map(|j| if j == k { t.clone() } else { "Nat".into() }).collect();
                    let more = if fam { ", true" } else { "" };
                    next.push((format!("{h}[{}{more}]", args.join(", ")), at(uses[k], *u)));
                }
                if uses.len() == 2 { next.push((format!("{h}[{t}, {t}]"), at(join(uses[0], uses[1]), *u))); }
            }
        }
        next.sort_by(|a, b| a.0.cmp(&b.0));
        next.dedup_by(|a, b| a.0 == b.0);
        out = next;
    }
    out
}

/// The holders whose names stand in these, with what they need, in order.
fn needed(types: &[&str]) -> Vec<&'static str> {
    let hs = holders();
    let mut want: BTreeSet<usize> = BTreeSet::new();
    let mut texts: Vec<String> = types.iter().map(|s| s.to_string()).collect();
    while let Some(t) = texts.pop() {
        for (i, h) in hs.iter().enumerate() { if t.contains(&format!("{}[", h.0)) && want.insert(i) { texts.push(h.1.split_once('{').map(|x| x.1).unwrap_or("").to_string()); } }
    }
    want.into_iter().map(|i| hs[i].1).collect()
}

fn inductives(run: &Run, wide: bool) {
    let mut cases: Vec<(String, Vec<(String, Use)>, bool, bool)> = vec![];
    let flat = arg_types(2, "Foo");
    let gen = arg_types(if wide { 2 } else { 1 }, "Foo[T]");
    for (t, u) in &flat {
        for imported in [false, true] { cases.push((format!("    base\n    step({t})\n"), vec![(t.clone(), *u)], false, imported)); }
        cases.push((format!("    base\n    step(Nat, {t}, Foo)\n"), vec![(t.clone(), *u)], false, false));
    }
    for (t, u) in &gen { cases.push((format!("    base(T)\n    step({t})\n"), vec![(t.clone(), *u)], true, false)); }
    // The type at other parameters than its own; such a type may be refused for that alone.
    for me in ["Foo[Bool]", "Foo[Wrap[T]]", "Foo[List[Nat]]", "Foo[Foo[T]]", "Foo[T -> Bool]"] {
        for (t, u) in arg_types(1, me) { cases.push((format!("    base(T)\n    step({t})\n"), vec![(t, u)], true, false)); }
    }
    let one = arg_types(1, "Foo");
    for a in &one { for b in &one { cases.push((format!("    base\n    left({})\n    right({}, Bool)\n", a.0, b.0), vec![a.clone(), b.clone()], false, false)); } }
    if wide { for (t, u) in arg_types(3, "Foo") { cases.push((format!("    base\n    step({t})\n"), vec![(t, u)], false, false)); } }
    run.add("inductive_types", cases.len() as u64);
    parallel(cases.len(), |i| {
        let (body, types, generic, imported) = &cases[i];
        let names: Vec<&str> = types.iter().map(|t| t.0.as_str()).collect();
        let helpers = format!("{NAT}{}", needed(&names).join(""));
        let decl = format!("inductive Foo{} {{\n{body}}}\n", if *generic { "[T]" } else { "" });
        let key = format!("inductive:{}{}", if *imported { "imported " } else { "" }, body.split_whitespace().collect::<Vec<_>>().join(" "));
        let use_ = types.iter().fold(Absent, |a, b| join(a, b.1));
        let r = guard(|| {
            if *imported {
                let hs: Vec<&str> = std::iter::once("Nat").chain(holders().iter().map(|h| h.0).filter(|h| helpers.contains(&format!(" {h}[")))).collect();
                let main = format!("from shelf import {}\n{decl}", hs.join(", "));
                acornx::load_in(acornx::ide_project(), &[("shelf", &helpers), ("main", &main)]).err()
            } else {
                acornx::load_ide(&format!("{helpers}{decl}")).err()
            }
        });
        match r {
            Err(p) => run.violation(&key, format!("panic: {p}")),
            Ok(None) => {
                run.add("inductive_accepted", 1);
                if use_ == Bad { run.violation(&key, "accepted, although the type stands where it must not (left of an arrow, or hidden in another type)".into()); }
            }
            Ok(Some(e)) => {
                let other = *generic && body.replace("Foo[T]", "").contains("Foo[");
                if other { return; }
                // A type that ignores its argument may be looked through or not.
                if use_ != Bad { if !body.contains("Phantom[") || types.iter().all(|t| t.1 == Strict) && !e.contains("position") { run.violation(&key, format!("rejected: {e}")); } }
                else if !e.contains("position") { run.violation(&key, format!("rejected for another reason: {e}")); }
            }
        }
    });
}

// ---- The same thing defined twice.

struct Form { text: String, keys: Vec<String> }

/// Everything that gives something a name; `n` keeps other names apart.
fn forms(n: usize) -> Vec<Form> {
    let mut out = vec![];
    let mut f = |text: String, keys: &[&str]| out.push(Form { text, keys: keys.iter().map(|k| k.to_string()).collect() });
    let b = ["true", "false"][n % 2];
    let c = ["Color.red", "Color.green"][n % 2];
    f(format!("let foo: Bool = {b}\n"), &["foo"]);
    f("let foo: Bool = axiom\n".into(), &["foo"]);
    f(format!("let foo: Bool satisfy {{ foo = {b} }}\n"), &["foo"]);
    f(format!("let (foo: Bool, more{n}: Bool) satisfy {{ foo = {b} }}\n"), &["foo"]);
    f(format!("let foo(a: Bool) -> b: Bool satisfy {{ b = {b} }}\n"), &["foo"]);
    f(format!("define foo(a: Bool) -> Bool {{ {b} }}\n"), &["foo"]);
    f("theorem foo { true }\n".into(), &["foo"]);
    f(format!("axiom foo {{ {b} = {b} }}\n"), &["foo"]);
    f("theorem foo(a: Bool) { a = a }\n".into(), &["foo"]);
    f(format!("let foo = {c}\n"), &["foo"]);
    f(format!("let foo[T]: Bool = {b}\n"), &["foo"]);
    f(format!("define foo[T](a: T) -> Bool {{ {b} }}\n"), &["foo"]);
    f(format!("let Pair.new(foo, more{n}) = mate\n"), &["foo"]);
    f(format!("structure Foo {{\n    some{n}: Bool\n}}\n"), &["Foo"]);
    f(format!("inductive Foo {{\n    some{n}\n}}\n"), &["Foo"]);
    f("type Foo: Bool\n".into(), &["Foo"]);
    f("type Foo: axiom\n".into(), &["Foo"]);
    f(format!("typeclass F: Foo {{\n    some{n}: F\n}}\n"), &["Foo"]);
    f(format!("structure Foo[T] {{\n    some{n}: T\n}}\n"), &["Foo"]);
    for (t, arg) in [("Color", "Color"), ("List[T]", "List"), ("A: Cls", "Cls"), ("Thing", "Thing")] {
        f(format!("attributes {t} {{\n    let foo: Bool = {b}\n}}\n"), &[&format!("{arg}.foo")]);
        f(format!("attributes {t} {{\n    define foo(self) -> Bool {{ {b} }}\n}}\n"), &[&format!("{arg}.foo")]);
        f(format!("attributes {t} {{\n    let foo: Bool satisfy {{ foo = {b} }}\n}}\n"), &[&format!("{arg}.foo")]);
    }
    f(format!("attributes Color {{\n    let red: Bool = {b}\n}}\n"), &["Color.red"]);
    f(format!("attributes Pair {{\n    let new: Bool = {b}\n}}\n"), &["Pair.new"]);
    f(format!("attributes Pair {{\n    define left(self) -> Bool {{ {b} }}\n}}\n"), &["Pair.left"]);
    f(format!("attributes A: Cls {{\n    define zz(self) -> Bool {{ {b} }}\n}}\n"), &["Cls.zz"]);
    f(format!("instance Color: Cls {{\n    let zz: Color = {c}\n}}\n"), &["Color:Cls"]);
    f("instance Pair: Cls {\n    let zz: Pair = mate\n}\n".into(), &["Pair:Cls"]);
    f(format!("instance Color: Other {{\n    let yy: Color = {c}\n}}\n"), &["Color:Other"]);
    out
}

const GROUND: &str = "inductive Color {\n    red\n    green\n}\ntype Thing: axiom\ninductive List[T] {\n    nil\n    cons(T, List[T])\n}\nstructure Pair {\n    left: Bool\n    right: Bool\n}\ntypeclass A: Cls {\n    zz: A\n}\ntypeclass B: Other {\n    yy: B\n}\nlet mate: Pair = axiom\n";
const FROM: &str = "from ground import Color, Thing, List, Pair, Cls, Other, mate\n";

fn twice(run: &Run) {
    let (first, second) = (forms(0), forms(1));
    let taken = ["Color.red", "Pair.new", "Pair.left", "Cls.zz"];
    let mut cases = vec![];
    for i in 0..first.len() { for j in 0..second.len() { for place in 0..5 { cases.push((i, j, place)); } } }
    run.add("double_definitions", cases.len() as u64);
    parallel(cases.len(), |k| {
        let (i, j, place) = cases[k];
        let (a, b) = (&first[i], &second[j]);
        let key = format!("twice:{place}:{}|{}", a.text.replace('\n', " "), b.text.replace('\n', " "));
        let one = format!("{FROM}{}let amark: Bool = true\n", a.text);
        let two = format!("{FROM}{}let bmark: Bool = true\n", b.text);
        let mida = "from one import amark\nlet amid: Bool = amark\n".to_string();
        let midb = "from two import bmark\nlet bmid: Bool = bmark\n".to_string();
        let (mods, global): (Vec<(&str, String)>, bool) = match place {
            0 => (vec![("main", format!("{FROM}{}{}", a.text, b.text))], true),
            1 => (vec![("one", one), ("main", format!("from one import amark\n{FROM}{}", b.text))], false),
            2 => (vec![("one", one), ("mida", mida), ("main", format!("from mida import amid\n{FROM}{}", b.text))], false),
            3 => (vec![("one", one), ("two", two), ("main", "from one import amark\nfrom two import bmark\n".into())], false),
            _ => (vec![("one", one), ("two", two), ("mida", mida), ("midb", midb), ("main", "from mida import amid\nfrom midb import bmid\n".into())], false),
        };
        let fits = |f: &Form| !f.keys.iter().any(|k| taken.contains(&k.as_str()));
        // Names at the top level belong to their module; attributes and instances to what has them.
        let clash = a.keys.iter().any(|k| b.keys.contains(k) && (global || k.contains('.') || k.contains(':')));
        let good = fits(a) && fits(b) && !clash;
        let files: Vec<(&str, &str)> = std::iter::once(("ground", GROUND)).chain(mods.iter().map(|(n, t)| (*n, t.as_str()))).collect();
        match guard(|| acornx::load_in(acornx::ide_project(), &files).err()) {
            Err(p) => run.violation(&key, format!("panic: {p}")),
            Ok(None) => {
                run.add("double_accepted", 1);
                if !good { run.violation(&key, "accepted, although something is defined twice".into()); }
            }
            Ok(Some(e)) => if good { run.violation(&key, format!("rejected: {e}")); },
        }
    });
}

fn main() {
    let run = Run::new("P11");
    twice(&run);
    eprintln!("twice {:.1}", run.elapsed());
    let wide = run.thorough();
    inductives(&run, wide);
    eprintln!("inductives {:.1}", run.elapsed());
    recursion(&run, wide);
    run.extra("exhaustive", json!(true));
    run.finish(
        "exploration",
        "every recursive body and every constructor argument type of the enumerated shapes given to the real front end; what it accepts is run on every small argument, or judged by the places where the type stands",
        &["recursion judged on arguments up to three constructors deep"],
        &["recursive_bodies", "recursive_accepted", "inductive_types", "inductive_accepted", "double_definitions", "double_accepted"],
    )
}
