//! Reading the clauses facts and goals are lowered to as formulas of our own logic.
use crate::{acornx::Loaded, facts::*, fol::*};
use acorn::kernel::{atom::Atom, clause::Clause, kernel_context::KernelContext, symbol::Symbol, term::{Decomposition, Term}};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

struct K<'a, 'b> {
    r: &'b mut Reader<'a>,
    kc: &'b KernelContext,
    types: HashMap<usize, Ty>,
    levels: HashMap<usize, usize>,
}

fn is_kind(kc: &KernelContext, t: &Term) -> bool {
    match t.as_ref().decompose() {
        Decomposition::Atom(Atom::Symbol(Symbol::Type0)) | Decomposition::Atom(Atom::Symbol(Symbol::Typeclass(_))) => true,
        Decomposition::Pi(a, b) => is_kind(kc, &a.to_owned()) && is_kind(kc, &b.to_owned()),
        _ => false,
    }
}

impl<'a, 'b> K<'a, 'b> {
    fn show(&self, t: &Term) -> String { format!("{t}") }

    fn ty(&mut self, t: &Term) -> R<Ty> {
        if t.as_ref().is_bool_type() { return Ok(Ty::Bool); }
        match t.as_ref().decompose() {
            Decomposition::Atom(Atom::FreeVariable(i)) => self.types.get(&(*i as usize)).cloned().ok_or(format!("type variable x{i}")),
            Decomposition::Pi(a, b) => {
                let (a, b) = (self.ty(&a.to_owned())?, self.ty(&b.to_owned())?);
                Ok(match b { Ty::Fun(x, r) => Ty::Fun([vec![a], x].concat(), r), b => fun(&[a], b) })
            }
            Decomposition::Atom(Atom::Symbol(Symbol::Type(_))) => {
                let a = self.kc.type_store.type_term_to_acorn_type(t);
                self.r.ty(&a)
            }
            Decomposition::Application(..) => {
                let (mut args, mut head) = (vec![], t.clone());
                while let Decomposition::Application(f, x) = head.clone().as_ref().decompose() {
                    args.insert(0, x.to_owned());
                    head = f.to_owned();
                }
                let Decomposition::Atom(Atom::Symbol(Symbol::Type(g))) = head.as_ref().decompose() else { return Err(format!("type {}", self.show(t))) };
                let mut names = vec![];
                for a in &args { let a = self.ty(a)?; names.push(self.r.sig.ty_str(&a)); }
                let tail = format!("[{}]", names.join(", "));
                for (i, s) in self.r.sig.sorts.iter().enumerate() {
                    if let Some(n) = s.strip_suffix(&tail) {
                        if self.ground(n, *g) { return Ok(Ty::Sort(i as u8)); }
                    }
                }
                Err(format!("type {}", self.show(t)))
            }
            _ => Err(format!("type {}", self.show(t))),
        }
    }

    fn ground(&self, name: &str, g: acorn::kernel::types::GroundTypeId) -> bool {
        (0..16).any(|m| self.kc.type_store.get_datatype_id(&acorn::elaborator::acorn_type::Datatype { module_id: acorn::module::ModuleId(m), name: name.into() }) == Some(g))
    }

    /// How many leading arguments of a symbol are types.
    fn type_args(&self, s: Symbol) -> usize {
        let mut t = self.kc.symbol_table.get_symbol_type(s, &self.kc.type_store);
        let mut n = 0;
        while let Decomposition::Pi(a, b) = t.clone().as_ref().decompose() {
            if !is_kind(self.kc, &a.to_owned()) { break; }
            n += 1;
            t = b.to_owned();
        }
        n
    }

    fn ex(&mut self, t: &Term, bound: &mut Vec<usize>, stack: &mut Vec<Ty>) -> R<Ex> {
        match t.as_ref().decompose() {
            Decomposition::Lambda(a, b) | Decomposition::ForAll(a, b) | Decomposition::Exists(a, b) => {
                let ty = self.ty(&a.to_owned())?;
                bound.push(stack.len());
                stack.push(ty.clone());
                let r = self.ex(&b.to_owned(), bound, stack);
                bound.pop();
                stack.pop();
                let r = r?;
                if matches!(t.as_ref().decompose(), Decomposition::Lambda(..)) { return Ok(self.r.abstracted(vec![ty], r, stack)); }
                stack.push(ty.clone());
                let is = type_of(&r, &self.r.full_sig(), stack);
                stack.pop();
                if is != Ty::Bool { return Err(format!("quantified body is not Bool: {}", self.show(t))); }
                return Ok(if t.as_ref().is_forall() { all(&[ty], r) } else { some(&[ty], r) });
            }
            Decomposition::Pi(..) => return Err(format!("a type: {}", self.show(t))),
            _ => {}
        }
        let (mut args, mut head) = (vec![], t.clone());
        while let Decomposition::Application(f, x) = head.clone().as_ref().decompose() {
            args.insert(0, x.to_owned());
            head = f.to_owned();
        }
        let (f, used) = match head.as_ref().decompose() {
            Decomposition::Atom(Atom::FreeVariable(i)) => (var(*self.levels.get(&(*i as usize)).ok_or(format!("variable x{i}"))?), 0),
            Decomposition::Atom(Atom::BoundVariable(i)) => {
                let i = *i as usize;
                if i >= bound.len() { return Err(format!("escaping bound variable in {}", self.show(t))); }
                (var(bound[bound.len() - 1 - i]), 0)
            }
            Decomposition::Atom(Atom::Symbol(s)) => {
                let s = *s;
                match s {
                    Symbol::True => (True, 0),
                    Symbol::False => (False, 0),
                    Symbol::Not | Symbol::And | Symbol::Or | Symbol::Eq | Symbol::Ite => return self.builtin(s, &args, bound, stack),
                    _ => {
                        let n = self.type_args(s);
                        if args.len() < n { return Err(format!("missing type arguments: {}", self.show(t))); }
                        let mut types = vec![];
                        for a in &args[..n] { types.push(self.ty(a)?); }
                        if let Some(info) = self.kc.symbol_table.get_match_eliminator_info(s) {
                            let cons = info.constructor_symbols.clone();
                            return self.eliminator(&cons, &types, &args[n..], bound, stack);
                        }
                        (self.symbol(s, &types)?, n)
                    }
                }
            }
            _ => (self.ex(&head, bound, stack)?, 0),
        };
        let mut out = vec![];
        for a in &args[used..] { out.push(self.ex(a, bound, stack)?); }
        if let (Ex::Lam(..), false) = (&f, out.is_empty()) { return Err(format!("beta redex in {}", self.show(t))); }
        self.r.apply(f, out, stack)
    }

    fn symbol(&mut self, s: Symbol, types: &[Ty]) -> R<Ex> {
        let name = self.kc.symbol_table.try_name_for_symbol(s).ok_or(format!("symbol {s} has no name"))?.clone();
        let mut t = self.kc.symbol_table.get_symbol_type(s, &self.kc.type_store);
        // The type at these type arguments.
        let mut depth = vec![];
        for ty in types {
            let whole = t.clone();
            let Decomposition::Pi(_, b) = whole.as_ref().decompose() else { unreachable!() };
            t = b.to_owned();
            depth.push(ty.clone());
        }
        let ty = self.poly(&t, &depth)?;
        let mut n = self.r.name(&name, &[])?;
        if !types.is_empty() {
            // Attributes of a class carry it in their name only.
            n += &format!("[{}]", types.iter().map(|t| self.r.sig.ty_str(t)).collect::<Vec<_>>().join(", "));
        }
        self.r.constant(n, ty)
    }

    /// A type under these bound type variables.
    fn poly(&mut self, t: &Term, bound: &[Ty]) -> R<Ty> {
        match t.as_ref().decompose() {
            Decomposition::Atom(Atom::BoundVariable(i)) => bound.len().checked_sub(1 + *i as usize).map(|k| bound[k].clone()).ok_or("unbound type".into()),
            Decomposition::Pi(a, b) => {
                let a = self.poly(&a.to_owned(), bound)?;
                // The arrow binds nothing that is used.
                let mut inner = bound.to_vec();
                inner.push(Ty::Sort(255));
                let b = self.poly(&b.to_owned(), &inner)?;
                Ok(match b { Ty::Fun(x, r) => Ty::Fun([vec![a], x].concat(), r), b => fun(&[a], b) })
            }
            Decomposition::Application(..) => {
                let (mut args, mut head) = (vec![], t.clone());
                while let Decomposition::Application(f, x) = head.clone().as_ref().decompose() {
                    args.insert(0, x.to_owned());
                    head = f.to_owned();
                }
                let Decomposition::Atom(Atom::Symbol(Symbol::Type(g))) = head.as_ref().decompose() else { return Err("type".into()) };
                let mut names = vec![];
                for a in &args { let a = self.poly(a, bound)?; names.push(self.r.sig.ty_str(&a)); }
                let tail = format!("[{}]", names.join(", "));
                for (i, s) in self.r.sig.sorts.iter().enumerate() {
                    if let Some(n) = s.strip_suffix(&tail) {
                        if self.ground(n, *g) { return Ok(Ty::Sort(i as u8)); }
                    }
                }
                Err(format!("type {}", self.show(t)))
            }
            _ => self.ty(t),
        }
    }

    fn builtin(&mut self, s: Symbol, args: &[Term], bound: &mut Vec<usize>, stack: &mut Vec<Ty>) -> R<Ex> {
        let (types, args) = if matches!(s, Symbol::Eq | Symbol::Ite) { args.split_at(1) } else { args.split_at(0) };
        let ty = match types.first() { Some(t) => Some(self.ty(t)?), None => None };
        let want: Vec<Ty> = match s {
            Symbol::Not => vec![Ty::Bool],
            Symbol::And | Symbol::Or => vec![Ty::Bool, Ty::Bool],
            Symbol::Eq => vec![ty.clone().unwrap(), ty.clone().unwrap()],
            _ => vec![Ty::Bool, ty.clone().unwrap(), ty.clone().unwrap()],
        };
        let mut es = vec![];
        for a in args { es.push(self.ex(a, bound, stack)?); }
        let d = stack.len();
        let missing: Vec<Ty> = want.iter().skip(es.len()).cloned().collect();
        let k = missing.len();
        let mut es: Vec<Ex> = es.iter().map(|e| if k > 0 { crate::blocks::shift(e, d, &|i| i + k) } else { e.clone() }).collect();
        es.extend((0..k).map(|i| var(d + i)));
        stack.extend(missing.iter().cloned());
        for (e, t) in es.iter().zip(&want) {
            if type_of(e, &self.r.full_sig(), stack) != *t { stack.truncate(d); return Err(format!("ill-typed argument of {s}")); }
        }
        stack.truncate(d);
        let e = match s {
            Symbol::Not => not(es[0].clone()),
            Symbol::And => and(es[0].clone(), es[1].clone()),
            Symbol::Or => or(es[0].clone(), es[1].clone()),
            Symbol::Eq => eq(es[0].clone(), es[1].clone()),
            _ => ite(es[0].clone(), es[1].clone(), es[2].clone()),
        };
        if k > 0 { return Ok(self.r.abstracted(missing, e, stack)); }
        let more = es[want.len()..].to_vec();
        if more.is_empty() { Ok(e) } else { self.r.apply(e, more, stack) }
    }

    /// `types` ends with the type of the result.
    fn eliminator(&mut self, cons: &[Symbol], types: &[Ty], args: &[Term], bound: &mut Vec<usize>, stack: &mut Vec<Ty>) -> R<Ex> {
        if args.len() < cons.len() + 1 { return Err("partially applied match".into()); }
        let mut es = vec![];
        for a in args { es.push(self.ex(a, bound, stack)?); }
        let d = stack.len();
        let mut cases = vec![];
        for (c, b) in cons.iter().zip(&es[1..]) {
            let n = self.type_args(*c);
            let c = self.symbol(*c, &types[..n])?;
            let ty = type_of(&c, &self.r.full_sig(), stack);
            let (t, pattern, result) = match ty {
                Ty::Fun(a, _) => {
                    let k = a.len();
                    let vs: Vec<Ex> = (0..k).map(|i| var(d + i)).collect();
                    let up = crate::blocks::shift(b, d, &|i| i + k);
                    // The branch is a function of what the constructor was given.
                    let body = match up {
                        Ex::Lam(t, body) if t.len() == k && t == a => crate::blocks::map_vars(&body, &|i| if i >= d + k { var(i - k) } else { var(i) }),
                        f => { stack.extend(a.iter().cloned()); let r = self.r.apply(f, vs.clone(), stack); stack.truncate(d); r? }
                    };
                    (a, app(c, &vs), body)
                }
                _ => (vec![], c, b.clone()),
            };
            cases.push((t, pattern, result));
        }
        let e = Ex::Case(Arc::new(es[0].clone()), cases);
        let more = es[cons.len() + 1..].to_vec();
        if more.is_empty() { Ok(e) } else { self.r.apply(e, more, stack) }
    }
}

/// What a clause says, at every assignment of its type variables.
pub fn clause(c: &Clause, kc: &KernelContext, sig: &Sig, inst: &BTreeMap<String, Ty>, locals: &mut Vec<(String, Ty)>, types: &Types) -> R<Ex> {
    let ctx = c.get_local_context();
    let mut choices: Vec<(usize, Vec<Ty>)> = vec![];
    for (i, t) in ctx.get_var_types().iter().enumerate() {
        let Some(t) = t else { continue };
        if !is_kind(kc, t) { continue; }
        let menu = match t.as_ref().decompose() {
            Decomposition::Atom(Atom::Symbol(Symbol::Typeclass(id))) => {
                let n = kc.type_store.get_typeclass(*id).name.clone();
                types.instances.iter().filter(|x| x.0 == n).map(|x| x.1.clone()).collect()
            }
            _ => types.any.clone(),
        };
        choices.push((i, menu));
    }
    let mut assigns: Vec<HashMap<usize, Ty>> = vec![HashMap::new()];
    for (i, menu) in &choices {
        assigns = assigns.iter().flat_map(|a| menu.iter().map(|t| { let mut a = a.clone(); a.insert(*i, t.clone()); a })).collect();
    }
    let mut out = True;
    for a in assigns {
        let mut r = Reader { sig, inst: inst.clone(), locals: locals.clone() };
        let mut k = K { r: &mut r, kc, types: a, levels: HashMap::new() };
        let mut stack = vec![];
        for (i, t) in ctx.get_var_types().iter().enumerate() {
            let Some(t) = t else { continue };
            if k.types.contains_key(&i) || is_kind(kc, t) { continue; }
            k.levels.insert(i, stack.len());
            let ty = k.ty(t)?;
            stack.push(ty);
        }
        let n = stack.clone();
        let mut lits = vec![];
        for l in &c.literals {
            let (x, y) = (k.ex(&l.left, &mut vec![], &mut stack)?, k.ex(&l.right, &mut vec![], &mut stack)?);
            let sig = k.r.full_sig();
            if type_of(&x, &sig, &mut stack) != type_of(&y, &sig, &mut stack) { return Err(format!("literal of two types in clause {c}")); }
            lits.push(if l.positive { eq(x, y) } else { ne(x, y) });
        }
        let body = lits.into_iter().reduce(or).unwrap_or(False);
        let body = if n.is_empty() { body } else { all(&n, body) };
        *locals = r.locals;
        out = if out == True { body } else { and(out, body) };
    }
    Ok(out)
}

/// The clauses of each top-level fact, in order.
pub fn fact_clauses(l: &Loaded, sig: &Sig, types: &Types) -> R<Vec<(Vec<Ex>, String)>> {
    let lowered = l.project.get_lowered_module(l.module_id).ok_or("not lowered")?;
    let mut out = vec![];
    for f in lowered.module_facts() {
        let mut es = vec![];
        let mut locals = vec![];
        for s in &f.steps { es.push(clause(&s.clause, &f.kernel_context, sig, &BTreeMap::new(), &mut locals, types).map_err(|e| format!("clause {}: {e}", s.clause))?); }
        if !locals.is_empty() { return Err(format!("clauses speak of unknown constants {:?}", locals)); }
        out.push((es, f.steps.iter().map(|s| s.clause.to_string()).collect::<Vec<_>>().join("; ")));
    }
    Ok(out)
}

/// What the negated goals say: name, clauses, and how many of them speak of the theorem's own name.
pub struct GoalRead {
    pub goal: usize,
    pub inst: BTreeMap<String, Ty>,
    pub value: Ex,
    pub clauses: Vec<Ex>,
    pub locals: Vec<(String, Ty)>,
    pub text: String,
}

pub fn goal_clauses(l: &Loaded, sig: &Sig, types: &Types) -> R<Vec<GoalRead>> {
    let lowered = l.project.get_lowered_module(l.module_id).ok_or("not lowered")?;
    let mut out = vec![];
    for (i, (_, e)) in lowered.goals().enumerate() {
        let g = &e.lowered_goal;
        let v = &g.goal.proposition.value;
        let mut params = vec![];
        params_of(v, &mut params);
        let alias = g.goal.theorem_alias.is_some();
        for inst in assignments(&params, types) {
            let mut r = Reader { sig, inst: inst.clone(), locals: vec![] };
            let value = r.ex(v, &mut vec![]).map_err(|e| format!("goal `{v}`: {e}"))?;
            let mut locals = r.locals;
            let mut clauses = vec![];
            // The last one says that the theorem, by its name, does not hold.
            let n = g.steps.len() - alias as usize;
            for s in &g.steps[..n] { clauses.push(clause(&s.clause, &g.kernel_context, sig, &inst, &mut locals, types).map_err(|e| format!("clause {}: {e}", s.clause))?); }
            let text = format!("{v} ~> {}", g.steps.iter().map(|s| s.clause.to_string()).collect::<Vec<_>>().join("; "));
            out.push(GoalRead { goal: i, inst, value, clauses, locals, text });
        }
    }
    Ok(out)
}

/// The clauses of each fact a module that only checks hands to modules importing it.
pub fn check_clauses(text: &str, sig: &Sig, types: &Types) -> R<Vec<(Vec<Ex>, String)>> {
    use acorn::elaborator::lowered_module::ExportedFact;
    use acorn::project::{Project, ProjectConfig, UsageMode};
    let config = ProjectConfig { usage_mode: UsageMode::Check, use_filesystem: false, read_cache: false, write_cache: false, update_version: false };
    let p = Project::new("/mock".into(), "/mock/build".into(), config).unwrap();
    let l = crate::acornx::load_in(p, &[("main", text)])?;
    let export = l.project.get_module_export(l.module_id).ok_or("no export")?;
    let mut out = vec![];
    for f in export.facts() {
        let ExportedFact::Check(f) = f else { return Err("not a checking export".into()) };
        let (mut es, mut locals) = (vec![], vec![]);
        for a in &f.assumptions { es.push(clause(&a.clause, &f.kernel_context, sig, &BTreeMap::new(), &mut locals, types).map_err(|e| format!("clause {}: {e}", a.clause))?); }
        if !locals.is_empty() { return Err(format!("clauses speak of unknown constants {:?}", locals)); }
        out.push((es, f.assumptions.iter().map(|a| a.clause.to_string()).collect::<Vec<_>>().join("; ")));
    }
    Ok(out)
}
