//! Finite-model semantics of kernel terms. Types are sets of size >= 0; a function value is the
//! index of its table in base |codomain|. Written against `Term::decompose` only.
use crate::kernelx::Sig;
use acorn::kernel::atom::Atom;
use acorn::kernel::clause::Clause;
use acorn::kernel::literal::Literal;
use acorn::kernel::local_context::LocalContext;
use acorn::kernel::symbol::Symbol;
use acorn::kernel::term::{Decomposition, Term};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    Bool,
    Base(usize),
    Fn(Box<Ty>, Box<Ty>),
}

impl Ty {
    pub fn f(a: Ty, b: Ty) -> Ty { Ty::Fn(Box::new(a), Box::new(b)) }
}

/// The base types of a signature, in order.
pub struct Sem<'a> {
    pub sig: &'a Sig,
    pub bases: Vec<Term>,
}

#[derive(Clone, Debug)]
pub enum Ex {
    Const(usize),
    Bool(bool),
    /// Bound variable, counted from the outermost enclosing binder.
    Bound(usize),
    Free(usize),
    App(Box<Ex>, Box<Ex>, Ty, Ty),
    Not(Box<Ex>),
    And(Box<Ex>, Box<Ex>),
    Or(Box<Ex>, Box<Ex>),
    Eq(Box<Ex>, Box<Ex>),
    Ite(Box<Ex>, Box<Ex>, Box<Ex>),
    Lam(Ty, Ty, Box<Ex>),
    All(Ty, Box<Ex>),
    Some(Ty, Box<Ex>),
}

impl<'a> Sem<'a> {
    pub fn new(sig: &'a Sig, bases: &[&str]) -> Sem<'a> { Sem { sig, bases: bases.iter().map(|b| sig.ty(b)).collect() } }

    pub fn ty(&self, t: &Term) -> Option<Ty> {
        if t.as_ref().is_bool_type() {
            return Some(Ty::Bool);
        }
        if let Some(i) = self.bases.iter().position(|b| b == t) {
            return Some(Ty::Base(i));
        }
        let (a, b) = t.as_ref().split_pi()?;
        Some(Ty::f(self.ty(&a.to_owned())?, self.ty(&b.to_owned())?))
    }

    pub fn to_term(&self, t: &Ty) -> Term {
        match t {
            Ty::Bool => Term::bool_type(),
            Ty::Base(i) => self.bases[*i].clone(),
            Ty::Fn(a, b) => Term::pi(self.to_term(a), self.to_term(b)),
        }
    }

    /// Compiles a term; `free` gives the types of free variables, `bound` those of the binders
    /// entered so far (outermost first). Err: the term is not well typed (or outside the fragment).
    pub fn compile(&self, t: &Term, free: &LocalContext, bound: &mut Vec<Ty>) -> Result<(Ex, Ty), String> {
        let err = |m: &str| Err(format!("{m} in {}", self.sig.show(t)));
        match t.as_ref().decompose() {
            Decomposition::Atom(Atom::FreeVariable(i)) => {
                let Some(ty) = free.get_var_type(*i as usize) else { return err("unknown free variable") };
                let Some(ty) = self.ty(ty) else { return err("untranslated type") };
                Ok((Ex::Free(*i as usize), ty))
            }
            Decomposition::Atom(Atom::BoundVariable(i)) => {
                let i = *i as usize;
                if i >= bound.len() {
                    return err("escaping bound variable");
                }
                let k = bound.len() - 1 - i;
                Ok((Ex::Bound(k), bound[k].clone()))
            }
            Decomposition::Atom(Atom::Symbol(s)) => match s {
                Symbol::True => Ok((Ex::Bool(true), Ty::Bool)),
                Symbol::False => Ok((Ex::Bool(false), Ty::Bool)),
                Symbol::Not | Symbol::And | Symbol::Or => self.builtin(*s, None, &[], free, bound, t),
                _ => {
                    let Some(i) = self.sig.consts.iter().position(|c| c.1 == *s) else { return err("unknown constant") };
                    let Some(ty) = self.ty(&self.sig.consts[i].2) else { return err("untranslated constant type") };
                    Ok((Ex::Const(i), ty))
                }
            },
            Decomposition::Lambda(a, b) => {
                let Some(ty) = self.ty(&a.to_owned()) else { return err("lambda binder") };
                bound.push(ty.clone());
                let r = self.compile(&b.to_owned(), free, bound);
                bound.pop();
                let (e, out) = r?;
                Ok((Ex::Lam(ty.clone(), out.clone(), Box::new(e)), Ty::f(ty, out)))
            }
            Decomposition::ForAll(a, b) | Decomposition::Exists(a, b) => {
                let Some(ty) = self.ty(&a.to_owned()) else { return err("quantifier binder") };
                bound.push(ty.clone());
                let r = self.compile(&b.to_owned(), free, bound);
                bound.pop();
                let (e, out) = r?;
                if out != Ty::Bool {
                    return err("quantified body is not Bool");
                }
                let e = Box::new(e);
                Ok((if t.as_ref().is_forall() { Ex::All(ty, e) } else { Ex::Some(ty, e) }, Ty::Bool))
            }
            Decomposition::Application(f, x) => {
                if let Some((head, args)) = t.as_ref().split_application_multi() {
                    if let Atom::Symbol(s) = head.get_head_atom() {
                        if head.is_atomic() {
                            match s {
                                Symbol::Not | Symbol::And | Symbol::Or => return self.builtin(*s, None, &args, free, bound, t),
                                Symbol::Eq | Symbol::Ite => {
                                    let Some(ty) = self.ty(&args[0]) else { return err("type argument") };
                                    return self.builtin(*s, Some(ty), &args[1..], free, bound, t);
                                }
                                _ => {}
                            }
                        }
                    }
                }
                let (f, ft) = self.compile(&f.to_owned(), free, bound)?;
                let (x, xt) = self.compile(&x.to_owned(), free, bound)?;
                match ft {
                    Ty::Fn(a, b) if *a == xt => Ok((Ex::App(Box::new(f), Box::new(x), xt, (*b).clone()), *b)),
                    _ => err("ill-typed application"),
                }
            }
            Decomposition::Pi(..) => err("a type"),
        }
    }

    fn builtin(&self, s: Symbol, ty: Option<Ty>, args: &[Term], free: &LocalContext, bound: &mut Vec<Ty>, t: &Term) -> Result<(Ex, Ty), String> {
        let params = match s {
            Symbol::Not => vec![Ty::Bool],
            Symbol::And | Symbol::Or => vec![Ty::Bool, Ty::Bool],
            Symbol::Eq => vec![ty.clone().unwrap(), ty.clone().unwrap()],
            _ => vec![Ty::Bool, ty.clone().unwrap(), ty.clone().unwrap()],
        };
        let out = if s == Symbol::Ite { ty.unwrap() } else { Ty::Bool };
        // Missing arguments: eta-expand.
        let missing = params.len().saturating_sub(args.len());
        let mut es = vec![];
        for p in &params[params.len() - missing..] {
            bound.push(p.clone());
        }
        let base = bound.len() - missing;
        for (i, p) in params.iter().enumerate() {
            if i < args.len() {
                // Arguments do not see the eta binders.
                let saved = bound.split_off(base);
                let r = self.compile(&args[i], free, bound);
                bound.extend(saved);
                let (e, ty) = r?;
                if ty != *p {
                    bound.truncate(base);
                    return Err(format!("ill-typed argument in {}", self.sig.show(t)));
                }
                es.push(if missing > 0 { shift(e, base, missing) } else { e });
            } else {
                es.push(Ex::Bound(base + i - args.len()));
            }
        }
        bound.truncate(base);
        let mut it = es.into_iter().map(Box::new);
        let mut n = || it.next().unwrap();
        let mut e = match s {
            Symbol::Not => Ex::Not(n()),
            Symbol::And => Ex::And(n(), n()),
            Symbol::Or => Ex::Or(n(), n()),
            Symbol::Eq => Ex::Eq(n(), n()),
            _ => Ex::Ite(n(), n(), n()),
        };
        let mut ty = out;
        for p in params[params.len() - missing..].iter().rev() {
            e = Ex::Lam(p.clone(), ty.clone(), Box::new(e));
            ty = Ty::f(p.clone(), ty);
        }
        for x in args.iter().skip(params.len()) {
            let (x, xt) = self.compile(x, free, bound)?;
            match ty {
                Ty::Fn(a, b) if *a == xt => {
                    e = Ex::App(Box::new(e), Box::new(x), xt, (*b).clone());
                    ty = *b;
                }
                _ => return Err(format!("ill-typed application in {}", self.sig.show(t))),
            }
        }
        Ok((e, ty))
    }

    pub fn term(&self, t: &Term, free: &LocalContext) -> Result<(Ex, Ty), String> { self.compile(t, free, &mut vec![]) }

    pub fn literal(&self, l: &Literal, free: &LocalContext) -> Result<Ex, String> {
        let (a, t) = self.term(&l.left, free)?;
        let (b, u) = self.term(&l.right, free)?;
        if t != u {
            return Err(format!("literal compares two types: {} and {}", self.sig.show(&l.left), self.sig.show(&l.right)));
        }
        let e = Ex::Eq(Box::new(a), Box::new(b));
        Ok(if l.positive { e } else { Ex::Not(Box::new(e)) })
    }

    pub fn literals(&self, ls: &[Literal], free: &LocalContext) -> Result<Ex, String> {
        let mut e = Ex::Bool(false);
        for l in ls {
            e = Ex::Or(Box::new(e), Box::new(self.literal(l, free)?));
        }
        Ok(e)
    }

    pub fn context(&self, c: &LocalContext) -> Result<Vec<Option<Ty>>, String> {
        c.get_var_types().iter().map(|t| match t {
            None => Ok(None),
            Some(t) => self.ty(t).map(Some).ok_or_else(|| "untranslated variable type".to_string()),
        }).collect()
    }

    pub fn clause(&self, c: &Clause) -> Result<(Ex, Vec<Option<Ty>>), String> {
        Ok((self.literals(&c.literals, c.get_local_context())?, self.context(c.get_local_context())?))
    }
}

/// Renumbers the binders inside `e` (those at level >= base) past `by` inserted binders.
fn shift(e: Ex, base: usize, by: usize) -> Ex {
    let s = |e: Box<Ex>| Box::new(shift(*e, base, by));
    match e {
        Ex::Bound(i) => Ex::Bound(if i >= base { i + by } else { i }),
        Ex::App(a, b, t, u) => Ex::App(s(a), s(b), t, u),
        Ex::Not(a) => Ex::Not(s(a)),
        Ex::And(a, b) => Ex::And(s(a), s(b)),
        Ex::Or(a, b) => Ex::Or(s(a), s(b)),
        Ex::Eq(a, b) => Ex::Eq(s(a), s(b)),
        Ex::Ite(a, b, c) => Ex::Ite(s(a), s(b), s(c)),
        Ex::Lam(t, u, a) => Ex::Lam(t, u, s(a)),
        Ex::All(t, a) => Ex::All(t, s(a)),
        Ex::Some(t, a) => Ex::Some(t, s(a)),
        e => e,
    }
}

pub struct Model {
    pub sizes: Vec<u64>,
    pub consts: Vec<u64>,
}

impl Model {
    pub fn size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Bool => 2,
            Ty::Base(i) => self.sizes[*i],
            Ty::Fn(a, b) => self.size(b).pow(self.size(a) as u32),
        }
    }

    pub fn eval(&self, e: &Ex, free: &[u64], bound: &mut Vec<u64>) -> u64 {
        match e {
            Ex::Const(i) => self.consts[*i],
            Ex::Bool(b) => *b as u64,
            Ex::Bound(i) => bound[*i],
            Ex::Free(i) => free[*i],
            Ex::App(f, x, _, out) => {
                let (f, x) = (self.eval(f, free, bound), self.eval(x, free, bound));
                let n = self.size(out);
                let mut v = f;
                for _ in 0..x {
                    v /= n;
                }
                v % n
            }
            Ex::Not(a) => 1 - self.eval(a, free, bound),
            Ex::And(a, b) => self.eval(a, free, bound) & self.eval(b, free, bound),
            Ex::Or(a, b) => self.eval(a, free, bound) | self.eval(b, free, bound),
            Ex::Eq(a, b) => (self.eval(a, free, bound) == self.eval(b, free, bound)) as u64,
            Ex::Ite(c, a, b) => if self.eval(c, free, bound) == 1 { self.eval(a, free, bound) } else { self.eval(b, free, bound) },
            Ex::Lam(t, u, b) => {
                let (n, m) = (self.size(t), self.size(u));
                let mut v = 0;
                for i in (0..n).rev() {
                    bound.push(i);
                    v = v * m + self.eval(b, free, bound);
                    bound.pop();
                }
                v
            }
            Ex::All(t, b) => (0..self.size(t)).all(|i| {
                bound.push(i);
                let v = self.eval(b, free, bound);
                bound.pop();
                v == 1
            }) as u64,
            Ex::Some(t, b) => (0..self.size(t)).any(|i| {
                bound.push(i);
                let v = self.eval(b, free, bound);
                bound.pop();
                v == 1
            }) as u64,
        }
    }

    /// Calls f for every environment of the context, until it returns false.
    pub fn envs(&self, ctx: &[Option<Ty>], mut f: impl FnMut(&[u64]) -> bool) -> bool {
        let n: Vec<u64> = ctx.iter().map(|t| t.as_ref().map(|t| self.size(t)).unwrap_or(1)).collect();
        if n.iter().any(|x| *x == 0) {
            return true;
        }
        let mut env = vec![0; n.len()];
        loop {
            if !f(&env) {
                return false;
            }
            let mut i = 0;
            loop {
                if i == n.len() {
                    return true;
                }
                env[i] += 1;
                if env[i] < n[i] {
                    break;
                }
                env[i] = 0;
                i += 1;
            }
        }
    }

    /// Universal closure.
    pub fn holds(&self, e: &Ex, ctx: &[Option<Ty>]) -> bool { self.envs(ctx, |env| self.eval(e, env, &mut vec![]) == 1) }
}

/// All models whose base types have the given size vectors.
pub fn models(sem: &Sem, sizes: &[&[u64]]) -> Vec<Model> {
    let mut out = vec![];
    for s in sizes {
        let m = Model { sizes: s.to_vec(), consts: vec![] };
        let n: Vec<u64> = sem.sig.consts.iter().map(|c| m.size(&sem.ty(&c.2).unwrap())).collect();
        if n.iter().any(|x| *x == 0) {
            continue;
        }
        let mut v = vec![0; n.len()];
        'all: loop {
            out.push(Model { sizes: s.to_vec(), consts: v.clone() });
            let mut i = 0;
            loop {
                if i == n.len() {
                    break 'all;
                }
                v[i] += 1;
                if v[i] < n[i] {
                    break;
                }
                v[i] = 0;
                i += 1;
            }
        }
    }
    out
}

/// What terms to enumerate.
pub struct Gen<'a> {
    pub sem: &'a Sem<'a>,
    pub free: LocalContext,
    /// Types over which lambda, forall, exists, eq and ite range.
    pub lam: Vec<(Ty, Ty)>,
    pub quant: Vec<Ty>,
    pub eq: Vec<Ty>,
    pub ite: Vec<Ty>,
    /// Heads of applications: (function type instances) allowed argument types come from heads.
    pub connectives: bool,
    pub bool_consts: bool,
    /// Redexes: applications of lambda terms.
    pub redex: bool,
}

impl<'a> Gen<'a> {
    fn atoms(&self, bound: &[Ty]) -> Vec<(Term, Ty)> {
        let mut v: Vec<(Term, Ty)> = self.sem.sig.consts.iter().map(|c| (Term::atom(Atom::Symbol(c.1)), self.sem.ty(&c.2).unwrap())).collect();
        for (i, t) in self.free.get_var_types().iter().enumerate() {
            if let Some(t) = t {
                v.push((Term::new_variable(i as u16), self.sem.ty(t).unwrap()));
            }
        }
        for (k, t) in bound.iter().enumerate() {
            v.push((Term::atom(Atom::BoundVariable((bound.len() - 1 - k) as u16)), t.clone()));
        }
        if self.bool_consts {
            v.push((Term::new_true(), Ty::Bool));
            v.push((Term::new_false(), Ty::Bool));
        }
        v
    }

    /// All terms of type `ty` with exactly `size` nodes under the binders.
    pub fn terms(&self, ty: &Ty, size: usize, bound: &mut Vec<Ty>) -> Vec<Term> {
        let mut out = vec![];
        if size == 0 {
            return out;
        }
        for (a, t) in self.atoms(bound) {
            if size == 1 && t == *ty {
                out.push(a.clone());
            }
            // application of an atom to arguments
            let mut args = vec![];
            let mut r = &t;
            while let Ty::Fn(x, y) = r {
                args.push((**x).clone());
                r = y;
                if *r == *ty && size > args.len() {
                    for tuple in self.tuples(&args, size - 1, bound) {
                        out.push(a.apply(&tuple));
                    }
                }
            }
        }
        if *ty == Ty::Bool && self.connectives {
            for x in self.terms(&Ty::Bool, size - 1, bound) {
                out.push(Term::not(x));
            }
            for t in self.tuples(&[Ty::Bool, Ty::Bool], size - 1, bound) {
                out.push(Term::and(t[0].clone(), t[1].clone()));
                out.push(Term::or(t[0].clone(), t[1].clone()));
            }
        }
        if *ty == Ty::Bool {
            for e in &self.eq {
                for t in self.tuples(&[e.clone(), e.clone()], size - 1, bound) {
                    out.push(Term::eq(self.sem.to_term(e), t[0].clone(), t[1].clone()));
                }
            }
            for q in &self.quant {
                bound.push(q.clone());
                let bodies = self.terms(&Ty::Bool, size - 1, bound);
                bound.pop();
                for b in bodies {
                    out.push(Term::forall(self.sem.to_term(q), b.clone()));
                    out.push(Term::exists(self.sem.to_term(q), b));
                }
            }
        }
        if self.ite.contains(ty) {
            for t in self.tuples(&[Ty::Bool, ty.clone(), ty.clone()], size - 1, bound) {
                let head = Term::atom(Atom::Symbol(Symbol::Ite));
                out.push(head.apply(&[self.sem.to_term(ty), t[0].clone(), t[1].clone(), t[2].clone()]));
            }
        }
        for (a, b) in &self.lam {
            if *ty == Ty::f(a.clone(), b.clone()) {
                bound.push(a.clone());
                let bodies = self.terms(b, size - 1, bound);
                bound.pop();
                for x in bodies {
                    out.push(Term::lambda(self.sem.to_term(a), x));
                }
            }
            if self.redex && *b == *ty && size >= 3 {
                for k in 1..size - 1 {
                    bound.push(a.clone());
                    let bodies = self.terms(b, k, bound);
                    bound.pop();
                    for x in self.terms(a, size - 1 - k, bound) {
                        for body in &bodies {
                            out.push(Term::lambda(self.sem.to_term(a), body.clone()).apply(&[x.clone()]));
                        }
                    }
                }
            }
        }
        out
    }

    fn tuples(&self, tys: &[Ty], size: usize, bound: &mut Vec<Ty>) -> Vec<Vec<Term>> {
        if tys.len() == 1 {
            return self.terms(&tys[0], size, bound).into_iter().map(|t| vec![t]).collect();
        }
        let mut out = vec![];
        for k in 1..size {
            let first = self.terms(&tys[0], k, bound);
            if first.is_empty() {
                continue;
            }
            let rest = self.tuples(&tys[1..], size - k, bound);
            for f in &first {
                for r in &rest {
                    let mut v = vec![f.clone()];
                    v.extend(r.iter().cloned());
                    out.push(v);
                }
            }
        }
        out
    }

    pub fn up_to(&self, ty: &Ty, size: usize) -> Vec<Term> { (1..=size).flat_map(|s| self.terms(ty, s, &mut vec![])).collect() }
}
