//! Reading the facts and goals the real elaborator produced as formulas of our own logic.
use crate::{acornx::Loaded, blocks::shift, fol::*};
use acorn::elaborator::acorn_type::{AcornType, TypeParam};
use acorn::elaborator::acorn_value::{AcornValue, BinaryOp, ConstantInstance};
use acorn::elaborator::environment::Environment;
use acorn::elaborator::fact::Fact;
use acorn::elaborator::names::ConstantName;
use acorn::elaborator::potential_value::PotentialValue;
use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;

pub struct Reader<'a> {
    pub sig: &'a Sig,
    /// What the type parameters stand for.
    pub inst: BTreeMap<String, Ty>,
    /// Constants not in the signature: the names local to a block.
    pub locals: Vec<(String, Ty)>,
}

impl<'a> Reader<'a> {
    pub fn new(sig: &'a Sig) -> Reader<'a> { Reader { sig, inst: BTreeMap::new(), locals: vec![] } }

    pub fn ty(&self, t: &AcornType) -> R<Ty> {
        Ok(match t {
            AcornType::Bool => Ty::Bool,
            AcornType::Data(d, params) => {
                let mut name = d.name.clone();
                if !params.is_empty() {
                    let ps: R<Vec<String>> = params.iter().map(|p| Ok(self.sig.ty_str(&self.ty(p)?))).collect();
                    name += &format!("[{}]", ps?.join(", "));
                }
                Ty::Sort(self.sig.sorts.iter().position(|s| *s == name).ok_or(format!("type {name}"))? as u8)
            }
            AcornType::Function(f) => {
                let mut args = vec![];
                for a in &f.arg_types { args.push(self.ty(a)?); }
                match self.ty(&f.return_type)? {
                    Ty::Fun(a, r) => { args.extend(a); Ty::Fun(args, r) }
                    r => fun(&args, r),
                }
            }
            AcornType::Variable(p) | AcornType::Arbitrary(p) => self.inst.get(&p.name).cloned().ok_or(format!("type variable {}", p.name))?,
            t => return Err(format!("type {t}")),
        })
    }

    pub fn name(&self, name: &ConstantName, params: &[AcornType]) -> R<String> {
        let mut s = match name {
            ConstantName::InstanceAttribute(_, i) => format!("impl:{i}"),
            n => n.to_string(),
        };
        if !params.is_empty() {
            let ps: R<Vec<String>> = params.iter().map(|p| Ok(self.sig.ty_str(&self.ty(p)?))).collect();
            s += &format!("[{}]", ps?.join(", "));
        }
        Ok(s)
    }

    pub fn constant(&mut self, name: String, t: Ty) -> R<Ex> {
        if let Some(i) = self.sig.consts.iter().position(|c| c.0 == name) {
            if self.sig.consts[i].1 != t {
                return Err(format!("{name} has type {}, not {}", self.sig.ty_str(&t), self.sig.ty_str(&self.sig.consts[i].1)));
            }
            return Ok(con(i));
        }
        let n = self.sig.consts.len();
        if let Some(i) = self.locals.iter().position(|c| c.0 == name) {
            return Ok(con(n + i));
        }
        self.locals.push((name, t));
        Ok(con(n + self.locals.len() - 1))
    }

    fn instance(&mut self, c: &ConstantInstance) -> R<Ex> {
        let (n, t) = (self.name(&c.name, &c.params)?, self.ty(&c.instance_type)?);
        self.constant(n, t)
    }

    /// The locals become further constants of this signature.
    pub fn full_sig(&self) -> Sig {
        let mut s = self.sig.clone();
        s.consts.extend(self.locals.iter().cloned());
        s
    }

    pub fn ex(&mut self, v: &AcornValue, stack: &mut Vec<Ty>) -> R<Ex> {
        use std::sync::Arc;
        Ok(match v {
            AcornValue::Variable(i, t) => {
                let t = self.ty(t)?;
                let i = *i as usize;
                if i >= stack.len() { return Err(format!("variable x{i} is not bound")); }
                if stack[i] != t { return Err(format!("variable x{i} has two types")); }
                var(i)
            }
            AcornValue::Constant(c) => self.instance(c)?,
            AcornValue::Application(a) => {
                let f = self.ex(&a.function, stack)?;
                let mut args = vec![];
                for x in &a.args { args.push(self.ex(x, stack)?); }
                self.apply(f, args, stack)?
            }
            AcornValue::Lambda(t, b) => {
                let (t, b) = self.binder(t, b, stack)?;
                self.abstracted(t, b, stack)
            }
            AcornValue::ForAll(t, b) => { let (t, b) = self.binder(t, b, stack)?; all(&t, b) }
            AcornValue::Exists(t, b) => { let (t, b) = self.binder(t, b, stack)?; some(&t, b) }
            AcornValue::Binary(op, a, b) => {
                let (a, b) = (self.ex(a, stack)?, self.ex(b, stack)?);
                match op {
                    BinaryOp::Implies => imp(a, b),
                    BinaryOp::Equals => eq(a, b),
                    BinaryOp::NotEquals => ne(a, b),
                    BinaryOp::And => and(a, b),
                    BinaryOp::Or => or(a, b),
                }
            }
            AcornValue::Not(a) => not(self.ex(a, stack)?),
            AcornValue::Grouping(a) => self.ex(a, stack)?,
            AcornValue::Bool(b) => if *b { True } else { False },
            AcornValue::IfThenElse(a, b, c) => ite(self.ex(a, stack)?, self.ex(b, stack)?, self.ex(c, stack)?),
            AcornValue::Match(s, cases) => {
                let s = self.ex(s, stack)?;
                let mut out = vec![];
                for c in cases {
                    let mut t = vec![];
                    for x in &c.new_vars { t.push(self.ty(x)?); }
                    stack.extend(t.iter().cloned());
                    let p = self.ex(&c.pattern, stack);
                    let r = self.ex(&c.result, stack);
                    stack.truncate(stack.len() - t.len());
                    out.push((t, p?, r?));
                }
                Ex::Case(Arc::new(s), out)
            }
            AcornValue::Try(..) | AcornValue::TypeApplication(..) => return Err(format!("unsupported: {v}")),
        })
    }

    /// `f` of these arguments, a function of the remaining ones if there are too few.
    pub fn apply(&self, f: Ex, args: Vec<Ex>, stack: &mut Vec<Ty>) -> R<Ex> {
        if args.is_empty() { return Ok(f); }
        let sig = self.full_sig();
        let Ty::Fun(want, _) = type_of(&f, &sig, stack) else { return Err("not a function".into()) };
        if args.len() > want.len() { return Err("too many arguments".into()); }
        for (x, t) in args.iter().zip(&want) {
            if type_of(x, &sig, stack) != *t { return Err(format!("argument {x:?} of {f:?} has the wrong type")); }
        }
        if args.len() == want.len() { return Ok(app(f, &args)); }
        let rest = want[args.len()..].to_vec();
        let (d, k) = (stack.len(), rest.len());
        let up = |e: &Ex| shift(e, d, &|i| i + k);
        let mut all: Vec<Ex> = args.iter().map(up).collect();
        all.extend((0..k).map(|i| var(d + i)));
        Ok(lam(&rest, app(up(&f), &all)))
    }

    /// A function of these variables; one returning a function is one of more arguments.
    pub fn abstracted(&self, t: Vec<Ty>, b: Ex, stack: &mut Vec<Ty>) -> Ex {
        match b {
            Ex::Lam(u, b) => Ex::Lam([t, u].concat(), b),
            b => {
                stack.extend(t.iter().cloned());
                let r = type_of(&b, &self.full_sig(), stack);
                stack.truncate(stack.len() - t.len());
                match r {
                    Ty::Fun(u, _) => {
                        let d = stack.len() + t.len();
                        let k = u.len();
                        let vars: Vec<Ex> = (0..k).map(|i| var(d + i)).collect();
                        lam(&[t, u].concat(), app(shift(&b, d, &|i| i + k), &vars))
                    }
                    _ => lam(&t, b),
                }
            }
        }
    }

    fn binder(&mut self, t: &[AcornType], b: &AcornValue, stack: &mut Vec<Ty>) -> R<(Vec<Ty>, Ex)> {
        let t: R<Vec<Ty>> = t.iter().map(|t| self.ty(t)).collect();
        let t = t?;
        stack.extend(t.iter().cloned());
        let b = self.ex(b, stack);
        stack.truncate(stack.len() - t.len());
        Ok((t, b?))
    }

    fn definition(&mut self, c: &PotentialValue, d: &AcornValue) -> R<Ex> {
        let lhs = match c {
            PotentialValue::Resolved(v) => self.ex(v, &mut vec![])?,
            PotentialValue::Unresolved(u) => {
                let params: Vec<AcornType> = u.params.iter().cloned().map(AcornType::Variable).collect();
                let (n, t) = (self.name(&u.name, &params)?, self.ty(&u.generic_type)?);
                self.constant(n, t)?
            }
        };
        let rhs = self.ex(d, &mut vec![])?;
        Ok(eq(lhs, rhs))
    }
}

/// The type parameters that occur in a value.
pub fn params_of(v: &AcornValue, out: &mut Vec<TypeParam>) {
    v.for_each_type(&mut |t| collect(t, out));
}

pub fn collect(t: &AcornType, out: &mut Vec<TypeParam>) {
    match t {
        AcornType::Variable(p) | AcornType::Arbitrary(p) => if !out.iter().any(|q| q.name == p.name) { out.push(p.clone()) },
        AcornType::Function(f) => { f.arg_types.iter().for_each(|t| collect(t, out)); collect(&f.return_type, out) }
        AcornType::Data(_, ps) => ps.iter().for_each(|t| collect(t, out)),
        _ => {}
    }
}

/// What type parameters may stand for: any of these types; with a typeclass, only its instances.
pub struct Types {
    pub any: Vec<Ty>,
    pub instances: Vec<(String, Ty)>,
}

pub fn assignments(params: &[TypeParam], types: &Types) -> Vec<BTreeMap<String, Ty>> {
    let mut out = vec![BTreeMap::new()];
    for p in params {
        let choices: Vec<Ty> = match &p.typeclass {
            None => types.any.clone(),
            Some(tc) => types.instances.iter().filter(|i| i.0 == tc.name).map(|i| i.1.clone()).collect(),
        };
        out = out.iter().flat_map(|m| choices.iter().map(|t| { let mut m = m.clone(); m.insert(p.name.clone(), t.clone()); m })).collect();
    }
    out
}

/// A formula and its local constants, which come after the signature's.
pub struct Read {
    pub ex: Ex,
    pub locals: Vec<(String, Ty)>,
    pub text: String,
}

fn read_fact(f: &Fact, sig: &Sig, types: &Types, out: &mut Vec<Read>) -> R<()> {
    let mut params = vec![];
    match f {
        Fact::Proposition(p) => params_of(&p.value, &mut params),
        Fact::SyntheticWitness(w) => params_of(&w.proposition.value, &mut params),
        Fact::Definition(c, d, _) => { collect(&c.get_type(), &mut params); params_of(d, &mut params) }
        _ => return Ok(()),
    }
    for inst in assignments(&params, types) {
        let mut r = Reader { sig, inst, locals: vec![] };
        let (ex, text) = match f {
            Fact::Proposition(p) => (r.ex(&p.value, &mut vec![]), p.value.to_string()),
            Fact::SyntheticWitness(w) => (r.ex(&w.proposition.value, &mut vec![]), w.proposition.value.to_string()),
            Fact::Definition(c, d, _) => (r.definition(c, d), format!("{} := {d}", match c { PotentialValue::Resolved(v) => v.to_string(), PotentialValue::Unresolved(u) => u.name.to_string() })),
            _ => unreachable!(),
        };
        let ex = ex.map_err(|e| format!("fact `{text}`: {e}"))?;
        if !r.locals.is_empty() { return Err(format!("fact `{text}` speaks of unknown constants {:?}", r.locals.iter().map(|l| &l.0).collect::<Vec<_>>())); }
        out.push(Read { ex, locals: r.locals, text });
    }
    Ok(())
}

/// Every top-level fact of the module, at every assignment of its type parameters.
pub fn facts(l: &Loaded, sig: &Sig, types: &Types) -> R<Vec<Read>> {
    let env: &Environment = l.project.get_env_by_id(l.module_id).ok_or("no environment")?;
    let mut out = vec![];
    for n in &env.nodes {
        if let Some(f) = n.get_fact() { read_fact(&f, sig, types, &mut out)?; }
    }
    Ok(out)
}

/// The facts other modules see, each with its readings, in order.
pub fn exported(l: &Loaded, sig: &Sig, types: &Types) -> R<Vec<Vec<Read>>> {
    let env: &Environment = l.project.get_env_by_id(l.module_id).ok_or("no environment")?;
    let mut out = vec![];
    for n in &env.nodes {
        if let Some(f) = n.get_fact() {
            if !f.source().importable { continue; }
            let mut v = vec![];
            read_fact(&f, sig, types, &mut v)?;
            out.push(v);
        }
    }
    Ok(out)
}

/// Every goal of the module, at every assignment of the types it holds fixed.
pub fn goals(l: &Loaded, sig: &Sig, types: &Types) -> R<Vec<Read>> {
    let lowered = l.project.get_lowered_module(l.module_id).ok_or("not lowered")?;
    let mut out = vec![];
    for (_, e) in lowered.goals() {
        let v = &e.lowered_goal.goal.proposition.value;
        let mut params = vec![];
        params_of(v, &mut params);
        for inst in assignments(&params, types) {
            let mut r = Reader { sig, inst, locals: vec![] };
            let ex = r.ex(v, &mut vec![]).map_err(|e| format!("goal `{v}`: {e}"))?;
            out.push(Read { ex, locals: r.locals, text: v.to_string() });
        }
    }
    Ok(out)
}

/// Whether it holds for all values of the locals.
pub fn holds(r: &Read, sig: &Sig, m: &Model) -> bool {
    if r.locals.is_empty() {
        return eval(&r.ex, sig, m, &mut vec![]) == 1;
    }
    let mut sig = sig.clone();
    sig.consts.extend(r.locals.iter().cloned());
    let cards: Vec<usize> = r.locals.iter().map(|l| m.card(&l.1)).collect();
    let n: usize = cards.iter().product();
    (0..n).all(|i| {
        let mut m = m.clone();
        let mut k = i;
        for c in &cards { m.vals.push(k % c); k /= c; }
        eval(&r.ex, &sig, &m, &mut vec![]) == 1
    })
}
