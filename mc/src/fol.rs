//! An independent higher-order logic over finite domains: syntax, Acorn printing, and the
//! truth value of a closed formula in every model of a stated family. Nothing here uses the
//! code under test.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ty {
    Bool,
    Sort(u8),
    Fun(Vec<Ty>, Box<Ty>),
}

pub fn fun(args: &[Ty], ret: Ty) -> Ty {
    Ty::Fun(args.to_vec(), Box::new(ret))
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ex {
    True,
    False,
    /// An index into the signature.
    Con(usize),
    /// A bound variable, by level (outermost binder is 0).
    Var(usize),
    App(Arc<Ex>, Vec<Ex>),
    Lam(Vec<Ty>, Arc<Ex>),
    Not(Arc<Ex>),
    And(Arc<Ex>, Arc<Ex>),
    Or(Arc<Ex>, Arc<Ex>),
    Imp(Arc<Ex>, Arc<Ex>),
    Iff(Arc<Ex>, Arc<Ex>),
    Eq(Arc<Ex>, Arc<Ex>),
    Ne(Arc<Ex>, Arc<Ex>),
    All(Vec<Ty>, Arc<Ex>),
    Some(Vec<Ty>, Arc<Ex>),
    If(Arc<Ex>, Arc<Ex>, Arc<Ex>),
    /// The first case whose pattern equals the scrutinee for some values of its variables.
    Case(Arc<Ex>, Vec<(Vec<Ty>, Ex, Ex)>),
}

pub use Ex::{False, True};
pub fn con(i: usize) -> Ex { Ex::Con(i) }
pub fn var(i: usize) -> Ex { Ex::Var(i) }
pub fn app(f: Ex, args: &[Ex]) -> Ex { Ex::App(Arc::new(f), args.to_vec()) }
pub fn lam(t: &[Ty], b: Ex) -> Ex { Ex::Lam(t.to_vec(), Arc::new(b)) }
pub fn not(a: Ex) -> Ex { Ex::Not(Arc::new(a)) }
pub fn and(a: Ex, b: Ex) -> Ex { Ex::And(Arc::new(a), Arc::new(b)) }
pub fn or(a: Ex, b: Ex) -> Ex { Ex::Or(Arc::new(a), Arc::new(b)) }
pub fn imp(a: Ex, b: Ex) -> Ex { Ex::Imp(Arc::new(a), Arc::new(b)) }
pub fn iff(a: Ex, b: Ex) -> Ex { Ex::Iff(Arc::new(a), Arc::new(b)) }
pub fn eq(a: Ex, b: Ex) -> Ex { Ex::Eq(Arc::new(a), Arc::new(b)) }
pub fn ne(a: Ex, b: Ex) -> Ex { Ex::Ne(Arc::new(a), Arc::new(b)) }
pub fn all(t: &[Ty], b: Ex) -> Ex { Ex::All(t.to_vec(), Arc::new(b)) }
pub fn some(t: &[Ty], b: Ex) -> Ex { Ex::Some(t.to_vec(), Arc::new(b)) }
pub fn ite(c: Ex, a: Ex, b: Ex) -> Ex { Ex::If(Arc::new(c), Arc::new(a), Arc::new(b)) }

#[derive(Clone, Debug)]
pub struct Sig {
    pub sorts: Vec<String>,
    pub consts: Vec<(String, Ty)>,
}

impl Sig {
    pub fn ty_str(&self, t: &Ty) -> String {
        match t {
            Ty::Bool => "Bool".into(),
            Ty::Sort(i) => self.sorts[*i as usize].clone(),
            Ty::Fun(a, r) => {
                let one = |t: &Ty| if let Ty::Fun(..) = t { format!("({})", self.ty_str(t)) } else { self.ty_str(t) };
                if a.len() == 1 {
                    format!("{} -> {}", one(&a[0]), self.ty_str(r))
                } else {
                    format!("({}) -> {}", a.iter().map(|t| self.ty_str(t)).collect::<Vec<_>>().join(", "), self.ty_str(r))
                }
            }
        }
    }

    /// A constructor is written without its type arguments, and binds its variables.
    fn pattern(&self, p: &Ex, depth: usize) -> String {
        let name = |e: &Ex| { let Ex::Con(i) = e else { panic!() }; self.consts[*i].0.split('[').next().unwrap().to_string() };
        match p {
            Ex::App(f, a) => format!("{}({})", name(f), (0..a.len()).map(|i| format!("x{}", depth + i)).collect::<Vec<_>>().join(", ")),
            p => name(p),
        }
    }

    /// Fully parenthesised Acorn source.
    pub fn show(&self, e: &Ex, depth: usize) -> String {
        let s = |e: &Ex| self.show(e, depth);
        let p = |e: &Ex| {
            let t = self.show(e, depth);
            match e {
                True | False | Ex::Con(_) | Ex::Var(_) | Ex::App(..) => t,
                _ => format!("({t})"),
            }
        };
        let binder = |kw: &str, ts: &Vec<Ty>, b: &Ex| {
            let args = ts.iter().enumerate().map(|(i, t)| format!("x{}: {}", depth + i, self.ty_str(t))).collect::<Vec<_>>().join(", ");
            format!("{kw}({args}) {{ {} }}", self.show(b, depth + ts.len()))
        };
        match e {
            True => "true".into(),
            False => "false".into(),
            Ex::Con(i) => self.consts[*i].0.clone(),
            Ex::Var(i) => format!("x{i}"),
            Ex::App(f, a) => format!("{}({})", p(f), a.iter().map(|x| s(x)).collect::<Vec<_>>().join(", ")),
            Ex::Lam(t, b) => binder("function", t, b),
            Ex::Not(a) => format!("not {}", p(a)),
            Ex::And(a, b) => format!("{} and {}", p(a), p(b)),
            Ex::Or(a, b) => format!("{} or {}", p(a), p(b)),
            Ex::Imp(a, b) => format!("{} implies {}", p(a), p(b)),
            Ex::Iff(a, b) => format!("{} iff {}", p(a), p(b)),
            Ex::Eq(a, b) => format!("{} = {}", p(a), p(b)),
            Ex::Ne(a, b) => format!("{} != {}", p(a), p(b)),
            Ex::All(t, b) => binder("forall", t, b),
            Ex::Some(t, b) => binder("exists", t, b),
            Ex::If(c, a, b) => format!("if {} {{ {} }} else {{ {} }}", p(c), s(a), s(b)),
            Ex::Case(c, cs) => format!(
                "match {} {{ {} }}",
                p(c),
                cs.iter().map(|(t, l, r)| format!("{} {{ {} }}", self.pattern(l, depth), self.show(r, depth + t.len()))).collect::<Vec<_>>().join(" ")
            ),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Model {
    pub sizes: Vec<usize>,
    pub vals: Vec<usize>,
}

impl Model {
    /// Number of values of a type.
    pub fn card(&self, t: &Ty) -> usize {
        match t {
            Ty::Bool => 2,
            Ty::Sort(i) => self.sizes[*i as usize],
            Ty::Fun(a, r) => {
                let m = self.card(r);
                let n: usize = a.iter().map(|t| self.card(t)).product();
                m.checked_pow(n as u32).unwrap()
            }
        }
    }
}

/// The type of an expression.
pub fn type_of(e: &Ex, sig: &Sig, env: &mut Vec<Ty>) -> Ty {
    match e {
        Ex::Con(i) => sig.consts[*i].1.clone(),
        Ex::Var(i) => env[*i].clone(),
        Ex::App(f, a) => match type_of(f, sig, env) {
            Ty::Fun(args, r) => {
                assert_eq!(args.len(), a.len());
                *r
            }
            _ => panic!("not a function"),
        },
        Ex::Lam(t, b) => {
            let n = env.len();
            env.extend(t.iter().cloned());
            let r = type_of(b, sig, env);
            env.truncate(n);
            Ty::Fun(t.clone(), Box::new(r))
        }
        Ex::If(_, a, _) => type_of(a, sig, env),
        Ex::Case(_, cs) => {
            let (t, _, r) = &cs[0];
            let n = env.len();
            env.extend(t.iter().cloned());
            let r = type_of(r, sig, env);
            env.truncate(n);
            r
        }
        _ => Ty::Bool,
    }
}

pub fn eval(e: &Ex, sig: &Sig, m: &Model, env: &mut Vec<(Ty, usize)>) -> usize {
    match e {
        True => 1,
        False => 0,
        Ex::Con(i) => m.vals[*i],
        Ex::Var(i) => env[*i].1,
        Ex::App(f, a) => {
            let fv = eval(f, sig, m, env);
            let owned;
            let fty = match &**f {
                Ex::Con(i) => &sig.consts[*i].1,
                Ex::Var(i) => { owned = env[*i].0.clone(); &owned }
                f => {
                    let mut tys: Vec<Ty> = env.iter().map(|x| x.0.clone()).collect();
                    owned = type_of(f, sig, &mut tys);
                    &owned
                }
            };
            let Ty::Fun(args, r) = fty else { panic!() };
            assert_eq!(args.len(), a.len());
            let mut idx = 0;
            for (t, x) in args.iter().zip(a) {
                idx = idx * m.card(t) + eval(x, sig, m, env);
            }
            let base = m.card(r);
            (fv / base.pow(idx as u32)) % base
        }
        Ex::Lam(t, b) => {
            let n = env.len();
            let cards: Vec<usize> = t.iter().map(|t| m.card(t)).collect();
            let total: usize = cards.iter().product();
            let mut tys: Vec<Ty> = env.iter().map(|x| x.0.clone()).collect();
            tys.extend(t.iter().cloned());
            let rt = type_of(b, sig, &mut tys);
            let base = m.card(&rt);
            let mut out = 0usize;
            for idx in (0..total).rev() {
                let mut rem = idx;
                let mut vs = vec![0; t.len()];
                for k in (0..t.len()).rev() {
                    vs[k] = rem % cards[k];
                    rem /= cards[k];
                }
                for k in 0..t.len() {
                    env.push((t[k].clone(), vs[k]));
                }
                let v = eval(b, sig, m, env);
                env.truncate(n);
                out = out * base + v;
            }
            out
        }
        Ex::Not(a) => 1 - eval(a, sig, m, env),
        Ex::And(a, b) => eval(a, sig, m, env) & eval(b, sig, m, env),
        Ex::Or(a, b) => eval(a, sig, m, env) | eval(b, sig, m, env),
        Ex::Imp(a, b) => (1 - eval(a, sig, m, env)) | eval(b, sig, m, env),
        Ex::Iff(a, b) | Ex::Eq(a, b) => (eval(a, sig, m, env) == eval(b, sig, m, env)) as usize,
        Ex::Ne(a, b) => (eval(a, sig, m, env) != eval(b, sig, m, env)) as usize,
        Ex::All(t, b) | Ex::Some(t, b) => {
            let want = matches!(e, Ex::Some(..)) as usize;
            fn go(t: &[Ty], b: &Ex, sig: &Sig, m: &Model, env: &mut Vec<(Ty, usize)>, want: usize) -> usize {
                if t.is_empty() {
                    return eval(b, sig, m, env);
                }
                for v in 0..m.card(&t[0]) {
                    env.push((t[0].clone(), v));
                    let r = go(&t[1..], b, sig, m, env, want);
                    env.pop();
                    if r == want {
                        return want;
                    }
                }
                1 - want
            }
            go(t, b, sig, m, env, want)
        }
        Ex::If(c, a, b) => {
            if eval(c, sig, m, env) == 1 { eval(a, sig, m, env) } else { eval(b, sig, m, env) }
        }
        Ex::Case(c, cs) => {
            fn go(t: &[Ty], want: usize, case: &(Vec<Ty>, Ex, Ex), sig: &Sig, m: &Model, env: &mut Vec<(Ty, usize)>) -> Option<usize> {
                if t.is_empty() {
                    return (eval(&case.1, sig, m, env) == want).then(|| eval(&case.2, sig, m, env));
                }
                for v in 0..m.card(&t[0]) {
                    env.push((t[0].clone(), v));
                    let r = go(&t[1..], want, case, sig, m, env);
                    env.pop();
                    if r.is_some() { return r; }
                }
                None
            }
            let want = eval(c, sig, m, env);
            cs.iter().find_map(|case| go(&case.0, want, case, sig, m, env)).unwrap_or(0)
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Bits(pub Vec<u64>);

impl Bits {
    pub fn full(n: usize) -> Bits {
        let mut b = vec![!0u64; n.div_ceil(64)];
        if n % 64 != 0 {
            *b.last_mut().unwrap() = (1u64 << (n % 64)) - 1;
        }
        Bits(b)
    }
    pub fn empty(n: usize) -> Bits { Bits(vec![0; n.div_ceil(64)]) }
    pub fn get(&self, i: usize) -> bool { self.0[i / 64] >> (i % 64) & 1 == 1 }
    pub fn set(&mut self, i: usize) { self.0[i / 64] |= 1 << (i % 64) }
    pub fn and(&self, o: &Bits) -> Bits { Bits(self.0.iter().zip(&o.0).map(|(a, b)| a & b).collect()) }
    pub fn minus(&self, o: &Bits) -> Bits { Bits(self.0.iter().zip(&o.0).map(|(a, b)| a & !b).collect()) }
    pub fn is_empty(&self) -> bool { self.0.iter().all(|x| *x == 0) }
    pub fn first(&self) -> Option<usize> { (0..self.0.len() * 64).find(|i| self.get(*i)) }
    pub fn count(&self) -> usize { self.0.iter().map(|x| x.count_ones() as usize).sum() }
}

/// Every model of the signature whose sort sizes are among `sizes`; the interpretation of
/// constants from `base` on is the fastest varying part ("extension" constants).
pub struct Space {
    pub sig: Sig,
    pub models: Vec<Model>,
    pub base: usize,
    /// models[i] belongs to base model group[i]
    pub group: Vec<usize>,
    pub ngroups: usize,
    cache: std::sync::Mutex<HashMap<Ex, Arc<Bits>>>,
}

impl Space {
    pub fn new(sig: Sig, sizes: &[Vec<usize>], base: usize) -> Space {
        let mut models = vec![];
        let mut group = vec![];
        let mut ngroups = 0;
        for s in sizes {
            let mut m = Model { sizes: s.clone(), vals: vec![] };
            let cards: Vec<usize> = sig.consts.iter().map(|c| m.card(&c.1)).collect();
            let nb: usize = cards[..base].iter().product();
            let ne: usize = cards[base..].iter().product();
            for b in 0..nb {
                let mut used = false;
                for e in 0..ne {
                    m.vals.clear();
                    let mut r = b;
                    for c in &cards[..base] {
                        m.vals.push(r % c);
                        r /= c;
                    }
                    let mut r = e;
                    for c in &cards[base..] {
                        m.vals.push(r % c);
                        r /= c;
                    }
                    models.push(m.clone());
                    group.push(ngroups);
                    used = true;
                }
                if used {
                    ngroups += 1;
                }
            }
        }
        Space { sig, models, base, group, ngroups, cache: Default::default() }
    }

    pub fn truth(&self, e: &Ex) -> Arc<Bits> {
        if let Some(b) = self.cache.lock().unwrap().get(e) {
            return b.clone();
        }
        let mut b = Bits::empty(self.models.len());
        for (i, m) in self.models.iter().enumerate() {
            if eval(e, &self.sig, m, &mut vec![]) == 1 {
                b.set(i);
            }
        }
        let b = Arc::new(b);
        self.cache.lock().unwrap().insert(e.clone(), b.clone());
        b
    }

    /// A countermodel of facts |= goal.
    pub fn countermodel(&self, facts: &[Ex], goal: &Ex) -> Option<usize> {
        let mut b = Bits::full(self.models.len());
        for f in facts {
            b = b.and(&self.truth(f));
        }
        b.minus(&self.truth(goal)).first()
    }

    pub fn project(&self, b: &Bits) -> Bits {
        let mut out = Bits::empty(self.ngroups);
        for i in 0..self.models.len() {
            if b.get(i) {
                out.set(self.group[i]);
            }
        }
        out
    }

    pub fn describe(&self, i: usize) -> String {
        let m = &self.models[i];
        format!(
            "sizes {:?}; {}",
            m.sizes,
            self.sig.consts.iter().zip(&m.vals).map(|((n, t), v)| format!("{n}:{}=#{v}", self.sig.ty_str(t))).collect::<Vec<_>>().join(", ")
        )
    }
}
