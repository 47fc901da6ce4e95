//! Formulas of every shape the language has, by the path from the top to a leaf.
use crate::fol::*;

pub struct Gen {
    pub sig: Sig,
    /// Constants that are constructors, by sort: patterns of a match.
    pub cons: Vec<(u8, Vec<usize>)>,
    /// Types bound variables may have.
    pub bind: Vec<Ty>,
    pub siblings: usize,
    /// Only the constructs that have their own treatment when a formula is lowered.
    pub special: bool,
}

impl Gen {
    /// The simplest expressions of a type; those with the latest variable come first.
    pub fn leaves(&self, ty: &Ty, sc: &[Ty]) -> Vec<Ex> {
        let mut out: Vec<Ex> = (0..sc.len()).rev().filter(|i| sc[*i] == *ty).map(var).collect();
        out.truncate(2);
        if *ty == Ty::Bool {
            // Predicates of the latest variables.
            for (i, c) in self.sig.consts.iter().enumerate() {
                if let Ty::Fun(a, r) = &c.1 {
                    if **r == Ty::Bool && a.len() == 1 {
                        if let Some(v) = (0..sc.len()).rev().find(|k| sc[*k] == a[0]) { out.insert(0, app(con(i), &[var(v)])); }
                    }
                }
            }
            for v in (0..sc.len()).rev() {
                if let Ty::Fun(a, r) = &sc[v] {
                    if **r == Ty::Bool && a.len() == 1 {
                        if let Some(x) = self.leaf(&a[0], &sc[..v]) { out.insert(0, app(var(v), &[x])); }
                        break;
                    }
                }
            }
        }
        out.extend((0..self.sig.consts.len()).filter(|i| self.sig.consts[*i].1 == *ty && !self.cons.iter().any(|c| c.1.contains(i))).map(con));
        if let Some(c) = self.cons.iter().find(|c| Ty::Sort(c.0) == *ty) { if self.sig.consts[c.1[0]].1 == *ty { out.push(con(c.1[0])); } }
        if *ty == Ty::Bool { out.push(False); }
        out
    }

    fn leaf(&self, ty: &Ty, sc: &[Ty]) -> Option<Ex> { self.leaves(ty, sc).into_iter().next() }

    fn sibs(&self, ty: &Ty, sc: &[Ty]) -> Vec<Ex> {
        let mut v = self.leaves(ty, sc);
        if v.len() > self.siblings {
            // One with a variable, one without.
            if self.siblings > 1 { let last = v.len() - 1; v.swap(1, last); }
            v.truncate(self.siblings);
        }
        v
    }

    /// Every expression of this type whose deepest path has `d` constructs.
    pub fn path(&self, ty: &Ty, d: usize, sc: &[Ty]) -> Vec<Ex> {
        if d == 0 {
            let mut v = self.leaves(ty, sc);
            v.truncate(if self.special { 2 } else { 4 });
            return v;
        }
        let mut out = vec![];
        let boolean = *ty == Ty::Bool;
        let (a, sib) = (|t: &Ty| self.path(t, d - 1, sc), |t: &Ty| self.sibs(t, sc));
        if boolean {
            for h in a(&Ty::Bool) {
                out.push(not(h.clone()));
                for l in sib(&Ty::Bool) {
                    if !self.special { out.extend([and(h.clone(), l.clone()), or(l.clone(), h.clone()), imp(l.clone(), h.clone())]); }
                    out.extend([and(l.clone(), h.clone()), or(h.clone(), l.clone()), imp(h.clone(), l.clone()), eq(h.clone(), l.clone()), ne(l.clone(), h.clone())]);
                }
            }
            let mut inner = sc.to_vec();
            for t in &self.bind {
                inner.push(t.clone());
                for h in self.path(&Ty::Bool, d - 1, &inner) { out.extend([all(&[t.clone()], h.clone()), some(&[t.clone()], h)]); }
                inner.pop();
            }
            // Equations, of functions too.
            for t in self.types() {
                if t == Ty::Bool { continue; }
                for h in a(&t) { for l in sib(&t) { out.extend([eq(h.clone(), l.clone()), ne(l.clone(), h.clone())]); } }
            }
        }
        // Applications: the path goes on in one argument.
        for (i, c) in self.sig.consts.iter().enumerate() {
            let Ty::Fun(args, r) = &c.1 else { continue };
            if **r != *ty { continue; }
            for k in 0..args.len() {
                for h in a(&args[k]) {
                    let mut rows: Vec<Vec<Ex>> = vec![vec![]];
                    for (j, t) in args.iter().enumerate() {
                        let menu = if j == k { vec![h.clone()] } else { sib(t) };
                        rows = rows.iter().flat_map(|r| menu.iter().map(|x| [r.clone(), vec![x.clone()]].concat())).collect();
                    }
                    out.extend(rows.into_iter().map(|r| app(con(i), &r)));
                }
            }
        }
        // A function applied on the spot.
        if !matches!(ty, Ty::Fun(..)) {
            for t in &self.bind {
                let mut inner = sc.to_vec();
                inner.push(t.clone());
                for h in self.path(ty, d - 1, &inner) { for l in sib(t) { out.push(app(lam(&[t.clone()], h.clone()), &[l])); } }
                if self.special { continue; }
                for l in a(t) { for b in self.sibs(ty, &inner) { out.push(app(lam(&[t.clone()], b), &[l.clone()])); } }
            }
        }
        // If.
        for h in a(&Ty::Bool) {
            for x in sib(ty) { for y in self.leaves(ty, sc).into_iter().rev().take(1) { out.push(ite(h.clone(), x.clone(), y)); } }
        }
        for h in a(ty) {
            for c in sib(&Ty::Bool) { for y in sib(ty) { out.extend([ite(c.clone(), h.clone(), y.clone()), ite(c.clone(), y, h.clone())]); } }
        }
        // Match: on a path, or with the path in one branch.
        for (s, cons) in &self.cons {
            let branches: Vec<(Vec<Ty>, Ex, Vec<Ty>)> = cons.iter().map(|c| {
                let t = match &self.sig.consts[*c].1 { Ty::Fun(a, _) => a.clone(), _ => vec![] };
                let inner = [sc.to_vec(), t.clone()].concat();
                let vs: Vec<Ex> = (0..t.len()).map(|i| var(sc.len() + i)).collect();
                let p = if t.is_empty() { con(*c) } else { app(con(*c), &vs) };
                (t, p, inner)
            }).collect();
            let flat = |k: usize| self.leaves(ty, &branches[k].2);
            let pick = |k: usize, w: usize| { let v = flat(k); if v.is_empty() { None } else { Some(v[w % v.len()].clone()) } };
            for h in a(&Ty::Sort(*s)) {
                let cs: Option<Vec<_>> = branches.iter().enumerate().map(|(k, b)| Some((b.0.clone(), b.1.clone(), pick(k, k)?))).collect();
                if let Some(mut cs) = cs {
                    out.push(Ex::Case(std::sync::Arc::new(h.clone()), cs.clone()));
                    // Cases may be written in any order.
                    cs.reverse();
                    out.push(Ex::Case(std::sync::Arc::new(h), cs));
                }
            }
            for s in sib(&Ty::Sort(*s)) {
                for at in 0..branches.len() {
                    for h in self.path(ty, d - 1, &branches[at].2) {
                        let cs: Option<Vec<_>> = branches.iter().enumerate().map(|(k, b)| Some((b.0.clone(), b.1.clone(), if k == at { h.clone() } else { pick(k, k)? }))).collect();
                        if let Some(mut cs) = cs {
                            if at == 0 { cs.rotate_left(1); }
                            out.push(Ex::Case(std::sync::Arc::new(s.clone()), cs));
                        }
                    }
                }
            }
        }
        // Functions written out.
        if let Ty::Fun(args, r) = ty {
            let inner = [sc.to_vec(), args.clone()].concat();
            out.extend(self.path(r, d - 1, &inner).into_iter().map(|b| lam(args, b)));
            // Too few arguments.
            for (i, c) in self.sig.consts.iter().enumerate() {
                let Ty::Fun(cargs, cr) = &c.1 else { continue };
                if cargs.len() > args.len() && cargs[cargs.len() - args.len()..] == args[..] && cr == r && cargs.len() - args.len() == 1 {
                    for h in a(&cargs[0]) {
                        // Printed as a partial application.
                        out.push(app(con(i), &[h]));
                    }
                }
            }
        }
        out
    }

    fn types(&self) -> Vec<Ty> {
        let mut v: Vec<Ty> = (0..self.sig.sorts.len()).map(|i| Ty::Sort(i as u8)).collect();
        for c in &self.sig.consts { if let Ty::Fun(a, r) = &c.1 { if a.len() == 1 && !v.contains(&c.1) && !self.cons.iter().any(|k| Ty::Sort(k.0) == **r) { v.push(c.1.clone()); } } }
        v
    }
}

/// Partial applications become functions written out.
pub fn saturate(e: &Ex, sig: &Sig, sc: &mut Vec<Ty>) -> Ex {
    use std::sync::Arc;
    let mut go = |e: &Ex| saturate(e, sig, sc);
    match e {
        Ex::App(f, a) => {
            let (f, a): (Ex, Vec<Ex>) = (go(f), a.iter().map(|x| saturate(x, sig, sc)).collect());
            let Ty::Fun(want, _) = type_of(&f, sig, sc) else { panic!() };
            if want.len() == a.len() { return app(f, &a); }
            let rest = want[a.len()..].to_vec();
            let (d, k) = (sc.len(), rest.len());
            let up = |e: &Ex| crate::blocks::shift(e, d, &|i| i + k);
            let mut all: Vec<Ex> = a.iter().map(up).collect();
            all.extend((0..k).map(|i| var(d + i)));
            lam(&rest, app(up(&f), &all))
        }
        True | False | Ex::Con(_) | Ex::Var(_) => e.clone(),
        Ex::Not(a) => not(go(a)),
        Ex::And(a, b) => and(go(a), go(b)),
        Ex::Or(a, b) => or(go(a), go(b)),
        Ex::Imp(a, b) => imp(go(a), go(b)),
        Ex::Iff(a, b) => iff(go(a), go(b)),
        Ex::Eq(a, b) => eq(go(a), go(b)),
        Ex::Ne(a, b) => ne(go(a), go(b)),
        Ex::If(a, b, c) => ite(go(a), go(b), go(c)),
        Ex::Lam(t, b) | Ex::All(t, b) | Ex::Some(t, b) => {
            let n = sc.len();
            sc.extend(t.iter().cloned());
            let b = saturate(b, sig, sc);
            sc.truncate(n);
            match e { Ex::Lam(..) => lam(t, b), Ex::All(..) => all(t, b), _ => some(t, b) }
        }
        Ex::Case(s, cs) => {
            let s = go(s);
            let n = sc.len();
            let cs = cs.iter().map(|(t, p, r)| {
                sc.extend(t.iter().cloned());
                let r = (t.clone(), saturate(p, sig, sc), saturate(r, sig, sc));
                sc.truncate(n);
                r
            }).collect();
            Ex::Case(Arc::new(s), cs)
        }
    }
}

impl Gen {
    /// Formulas with two parts that are not leaves.
    pub fn pairs(&self, sc: &[Ty]) -> Vec<Ex> {
        let mut out = vec![];
        let of = |t: &Ty, sc: &[Ty]| self.path(t, 1, sc);
        let b = of(&Ty::Bool, sc);
        for x in &b {
            for y in &b {
                out.extend([and(x.clone(), y.clone()), or(x.clone(), y.clone()), imp(x.clone(), y.clone()), eq(x.clone(), y.clone()), ne(x.clone(), y.clone())]);
                if let Some(l) = self.leaf(&Ty::Bool, sc) { out.extend([ite(x.clone(), y.clone(), l.clone()), ite(x.clone(), l.clone(), y.clone()), ite(l, x.clone(), y.clone())]); }
            }
        }
        for t in self.types() {
            if t == Ty::Bool { continue; }
            let v = of(&t, sc);
            for x in &v {
                for y in &v { out.extend([eq(x.clone(), y.clone()), ne(x.clone(), y.clone())]); }
                if let Some(l) = self.leaf(&t, sc) { for c in &b { out.extend([eq(ite(c.clone(), x.clone(), l.clone()), l.clone()), ne(l.clone(), ite(c.clone(), l.clone(), x.clone()))]); } }
            }
            for (s, cons) in &self.cons {
                for on in of(&Ty::Sort(*s), sc) {
                    let Some(l) = self.leaf(&t, sc) else { continue };
                    let mut rows: Vec<Vec<(Vec<Ty>, Ex, Ex)>> = vec![vec![]];
                    for c in cons {
                        let a = match &self.sig.consts[*c].1 { Ty::Fun(a, _) => a.clone(), _ => vec![] };
                        let vs: Vec<Ex> = (0..a.len()).map(|i| var(sc.len() + i)).collect();
                        let p = if a.is_empty() { con(*c) } else { app(con(*c), &vs) };
                        let mut menu = of(&t, &[sc.to_vec(), a.clone()].concat());
                        menu.truncate(6);
                        rows = rows.iter().flat_map(|r| menu.iter().map(|x| { let mut r = r.clone(); r.push((a.clone(), p.clone(), x.clone())); r })).collect();
                    }
                    out.extend(rows.into_iter().map(|cs| eq(Ex::Case(std::sync::Arc::new(on.clone()), cs), l.clone())));
                }
            }
        }
        // Two arguments.
        for (i, c) in self.sig.consts.iter().enumerate() {
            let Ty::Fun(a, r) = &c.1 else { continue };
            if a.len() != 2 { continue; }
            for x in of(&a[0], sc) {
                for y in of(&a[1], sc) {
                    let e = app(con(i), &[x.clone(), y]);
                    if **r == Ty::Bool { out.push(e); } else if let Some(l) = self.leaf(r, sc) { out.push(eq(l, e)); }
                }
            }
        }
        out
    }
}

/// Types and constants replaced throughout.
pub fn instantiate(e: &Ex, ty: &dyn Fn(&Ty) -> Ty, c: &dyn Fn(usize) -> usize) -> Ex {
    use std::sync::Arc;
    let go = |e: &Ex| instantiate(e, ty, c);
    let tys = |t: &Vec<Ty>| t.iter().map(ty).collect::<Vec<Ty>>();
    match e {
        True | False | Ex::Var(_) => e.clone(),
        Ex::Con(i) => con(c(*i)),
        Ex::App(f, a) => app(go(f), &a.iter().map(go).collect::<Vec<_>>()),
        Ex::Not(a) => not(go(a)),
        Ex::And(a, b) => and(go(a), go(b)),
        Ex::Or(a, b) => or(go(a), go(b)),
        Ex::Imp(a, b) => imp(go(a), go(b)),
        Ex::Iff(a, b) => iff(go(a), go(b)),
        Ex::Eq(a, b) => eq(go(a), go(b)),
        Ex::Ne(a, b) => ne(go(a), go(b)),
        Ex::If(a, b, d) => ite(go(a), go(b), go(d)),
        Ex::Lam(t, b) => Ex::Lam(tys(t), Arc::new(go(b))),
        Ex::All(t, b) => Ex::All(tys(t), Arc::new(go(b))),
        Ex::Some(t, b) => Ex::Some(tys(t), Arc::new(go(b))),
        Ex::Case(s, cs) => Ex::Case(Arc::new(go(s)), cs.iter().map(|(t, p, r)| (tys(t), go(p), go(r))).collect()),
    }
}
