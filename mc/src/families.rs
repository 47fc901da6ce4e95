//! Small signatures with a stated model space and a systematic formula menu.
use crate::fol::*;

pub struct Family {
    pub name: &'static str,
    pub preamble: String,
    pub space: Space,
    pub sizes: Vec<Vec<usize>>,
    /// Simplest first.
    pub menu: Vec<Ex>,
}

fn preamble(sig: &Sig, base: usize) -> String {
    let mut s = String::new();
    for x in &sig.sorts {
        s += &format!("type {x}: axiom\n");
    }
    for (n, t) in &sig.consts[..base] {
        s += &format!("let {n}: {} = axiom\n", sig.ty_str(t));
    }
    s
}

fn sig(sorts: &[&str], consts: &[(&str, Ty)]) -> Sig {
    Sig { sorts: sorts.iter().map(|s| s.to_string()).collect(), consts: consts.iter().map(|(n, t)| (n.to_string(), t.clone())).collect() }
}

const T: Ty = Ty::Sort(0);
const B: Ty = Ty::Bool;

fn mk(name: &'static str, sg: Sig, sizes: &[Vec<usize>], mut menu: Vec<Ex>) -> Family {
    let base = sg.consts.len();
    menu.dedup();
    let mut seen = std::collections::HashSet::new();
    menu.retain(|e| seen.insert(e.clone()));
    Family { name, preamble: preamble(&sg, base), space: Space::new(sg, sizes, base), sizes: sizes.to_vec(), menu }
}

/// a, b: T; p: T -> Bool; f: T -> T. Nonempty domain.
pub fn fam_a() -> Family {
    let sg = sig(&["Thing"], &[("a", T), ("b", T), ("p", fun(&[T], B)), ("f", fun(&[T], T))]);
    let (a, b, p, f) = (con(0), con(1), con(2), con(3));
    let p1 = |x: Ex| app(p.clone(), &[x]);
    let f1 = |x: Ex| app(f.clone(), &[x]);
    let x = || var(0);
    let y = || var(1);
    let all1 = |e| all(&[T], e);
    let ex1 = |e| some(&[T], e);
    let m = vec![
        False,
        p1(a.clone()), not(p1(a.clone())), p1(b.clone()), not(p1(b.clone())),
        eq(a.clone(), b.clone()), ne(a.clone(), b.clone()),
        eq(f1(a.clone()), b.clone()), ne(f1(a.clone()), b.clone()), eq(f1(a.clone()), a.clone()), ne(f1(b.clone()), a.clone()),
        p1(f1(a.clone())), not(p1(f1(a.clone()))), p1(f1(f1(a.clone()))),
        all1(p1(x())), all1(not(p1(x()))), ex1(p1(x())), ex1(not(p1(x()))),
        all1(eq(f1(x()), x())), all1(ne(f1(x()), x())), all1(eq(f1(x()), a.clone())), all1(ne(f1(x()), b.clone())),
        ex1(eq(f1(x()), x())), ex1(ne(f1(x()), x())), ex1(eq(f1(x()), b.clone())),
        all1(imp(p1(x()), p1(f1(x())))), all1(imp(p1(f1(x())), p1(x()))), all1(iff(p1(x()), p1(f1(x())))), all1(iff(p1(x()), not(p1(f1(x()))))),
        all1(or(p1(x()), p1(f1(x())))), all1(or(eq(x(), a.clone()), eq(x(), b.clone()))), all1(imp(p1(x()), eq(x(), a.clone()))),
        all1(or(eq(f1(x()), a.clone()), p1(x()))), all1(imp(eq(f1(x()), a.clone()), not(p1(x())))),
        all(&[T, T], imp(eq(f1(x()), f1(y())), eq(x(), y()))), all(&[T, T], eq(x(), y())), all(&[T, T], eq(f1(x()), f1(y()))),
        all(&[T, T], imp(and(p1(x()), p1(y())), eq(x(), y()))), all(&[T, T], or(eq(x(), y()), p1(x()))),
        all1(some(&[T], eq(f1(y()), x()))), ex1(all(&[T], eq(f1(y()), x()))), all1(some(&[T], and(ne(x(), y()), p1(y())))),
        or(p1(a.clone()), p1(b.clone())), or(not(p1(a.clone())), eq(a.clone(), b.clone())), imp(p1(a.clone()), p1(b.clone())), iff(p1(a.clone()), p1(b.clone())), iff(p1(a.clone()), not(p1(b.clone()))),
        and(p1(a.clone()), not(p1(b.clone()))), or(eq(f1(a.clone()), a.clone()), eq(f1(a.clone()), b.clone())),
        imp(all1(p1(x())), p1(f1(b.clone()))), or(all1(p1(x())), all1(not(p1(x())))), imp(ex1(p1(x())), all1(p1(x()))),
        not(all1(imp(p1(x()), p1(f1(x()))))), not(ex1(and(p1(x()), not(p1(f1(x())))))),
        p1(ite(p1(a.clone()), a.clone(), b.clone())), eq(ite(p1(a.clone()), a.clone(), b.clone()), b.clone()),
        all1(eq(f1(x()), ite(p1(x()), a.clone(), b.clone()))),
        all1(eq(f1(f1(x())), x())), all1(eq(f1(f1(x())), f1(x()))), all1(or(eq(f1(x()), x()), eq(x(), a.clone()))),
    ];
    mk("A", sg, &[vec![1], vec![2], vec![3]], m)
}

/// a: T; r: (T, T) -> Bool.
pub fn fam_b() -> Family {
    let sg = sig(&["Thing"], &[("a", T), ("b", T), ("r", fun(&[T, T], B))]);
    let (a, b) = (con(0), con(1));
    let r = |x: Ex, y: Ex| app(con(2), &[x, y]);
    let (x, y, z) = (var(0), var(1), var(2));
    let m = vec![
        False,
        r(a.clone(), a.clone()), r(a.clone(), b.clone()), not(r(b.clone(), a.clone())), not(r(a.clone(), a.clone())), eq(a.clone(), b.clone()), ne(a.clone(), b.clone()),
        all(&[T], r(x.clone(), x.clone())), all(&[T], not(r(x.clone(), x.clone()))), all(&[T], r(a.clone(), x.clone())), all(&[T], not(r(x.clone(), a.clone()))),
        all(&[T, T], imp(r(x.clone(), y.clone()), r(y.clone(), x.clone()))),
        all(&[T, T, T], imp(and(r(x.clone(), y.clone()), r(y.clone(), z.clone())), r(x.clone(), z.clone()))),
        all(&[T, T], imp(and(r(x.clone(), y.clone()), r(y.clone(), x.clone())), eq(x.clone(), y.clone()))),
        all(&[T, T], or(r(x.clone(), y.clone()), r(y.clone(), x.clone()))),
        all(&[T, T], imp(r(x.clone(), y.clone()), ne(x.clone(), y.clone()))),
        all(&[T], some(&[T], r(x.clone(), y.clone()))), some(&[T], all(&[T], r(x.clone(), y.clone()))), all(&[T], some(&[T], r(y.clone(), x.clone()))), some(&[T], all(&[T], r(y.clone(), x.clone()))),
        all(&[T], some(&[T], not(r(x.clone(), y.clone())))), some(&[T], r(x.clone(), x.clone())), some(&[T, T], r(x.clone(), y.clone())), not(some(&[T, T], r(x.clone(), y.clone()))),
        some(&[T], all(&[T], iff(r(x.clone(), y.clone()), r(y.clone(), y.clone())))), not(some(&[T], all(&[T], iff(r(x.clone(), y.clone()), not(r(y.clone(), y.clone())))))),
        all(&[T, T], iff(r(x.clone(), y.clone()), eq(x.clone(), y.clone()))), all(&[T, T], imp(r(x.clone(), y.clone()), r(x.clone(), x.clone()))),
        all(&[T, T], or(not(r(x.clone(), y.clone())), eq(y.clone(), a.clone()))),
        all(&[T], imp(r(x.clone(), a.clone()), r(x.clone(), b.clone()))),
        all(&[T], or(r(x.clone(), a.clone()), r(b.clone(), x.clone()))),
        all(&[T, T], imp(r(x.clone(), y.clone()), some(&[T], and(r(x.clone(), z.clone()), r(z.clone(), y.clone()))))),
        all(&[T], eq(lam(&[T], r(var(0), var(1))), lam(&[T], r(var(1), var(0))))),
        imp(all(&[T], some(&[T], r(x.clone(), y.clone()))), some(&[T], all(&[T], r(y.clone(), x.clone())))),
    ];
    mk("B", sg, &[vec![1], vec![2], vec![3]], m)
}

/// A type that may be empty: p, q: E -> Bool; c: Bool.
pub fn fam_c() -> Family {
    let sg = sig(&["Maybe"], &[("p", fun(&[T], B)), ("q", fun(&[T], B)), ("c", B), ("f", fun(&[T], T))]);
    let p = |x: Ex| app(con(0), &[x]);
    let q = |x: Ex| app(con(1), &[x]);
    let c = con(2);
    let f = |x: Ex| app(con(3), &[x]);
    let x = || var(0);
    let y = || var(1);
    let al = |e| all(&[T], e);
    let ex = |e| some(&[T], e);
    let m = vec![
        False, c.clone(), not(c.clone()),
        ex(True), not(ex(True)), al(False), not(al(False)),
        al(p(x())), al(not(p(x()))), ex(p(x())), ex(not(p(x()))), not(ex(p(x()))), not(al(p(x()))),
        al(imp(p(x()), c.clone())), al(imp(not(p(x())), c.clone())), al(or(p(x()), q(x()))), al(imp(p(x()), q(x()))), al(c.clone()), ex(c.clone()), ex(not(c.clone())), al(not(c.clone())),
        imp(al(p(x())), ex(p(x()))), imp(ex(p(x())), al(p(x()))), ex(or(p(x()), not(p(x())))), al(and(p(x()), not(p(x())))),
        al(or(ne(x(), x()), c.clone())), ex(eq(x(), x())), all(&[T, T], eq(x(), y())), all(&[T, T], imp(p(x()), q(y()))), imp(ex(p(x())), al(q(x()))),
        or(al(p(x())), al(not(p(x())))), al(some(&[T], ne(x(), y()))), ex(all(&[T], eq(x(), y()))), imp(c.clone(), ex(p(x()))), imp(c.clone(), al(p(x()))), iff(c.clone(), al(p(x()))), iff(c.clone(), ex(p(x()))),
        al(eq(f(x()), x())), al(ne(f(x()), x())), al(p(f(x()))), ex(p(f(x()))), ex(not(p(f(x())))), al(iff(p(x()), not(p(f(x()))))),
        some(&[fun(&[T], T)], True), some(&[fun(&[T], B)], al(app(var(0), &[var(1)]))), all(&[fun(&[T], B)], ex(app(var(0), &[var(1)]))), all(&[fun(&[T], B)], or(al(app(var(0), &[var(1)])), ex(not(app(var(0), &[var(1)]))))),
        eq(con(0), con(1)), ne(con(0), con(1)), eq(con(0), lam(&[T], False)), ne(con(0), lam(&[T], True)),
        imp(not(c.clone()), ex(True)), or(c.clone(), al(False)),
    ];
    mk("C", sg, &[vec![0], vec![1], vec![2]], m)
}

/// Higher order: p: T -> Bool; h: (T -> Bool) -> Bool; a: T.
pub fn fam_d() -> Family {
    let pb = fun(&[T], B);
    let sg = sig(&["Thing"], &[("a", T), ("p", pb.clone()), ("h", fun(&[pb.clone()], B)), ("f", fun(&[T], T))]);
    let (a, p, h) = (con(0), con(1), con(2));
    let ap = |f: Ex, x: Ex| app(f, &[x]);
    let hh = |x: Ex| app(con(2), &[x]);
    let ff = |x: Ex| app(con(3), &[x]);
    let _ = &h;
    let x = || var(0);
    let y = || var(1);
    let m = vec![
        False, ap(p.clone(), a.clone()), not(ap(p.clone(), a.clone())), hh(p.clone()), not(hh(p.clone())),
        all(&[pb.clone()], hh(x())), all(&[pb.clone()], not(hh(x()))), some(&[pb.clone()], hh(x())), some(&[pb.clone()], not(hh(x()))),
        all(&[pb.clone()], ap(x(), a.clone())), all(&[pb.clone()], imp(hh(x()), ap(x(), a.clone()))), all(&[pb.clone()], imp(ap(x(), a.clone()), hh(x()))), all(&[pb.clone()], iff(hh(x()), ap(x(), a.clone()))),
        hh(lam(&[T], True)), hh(lam(&[T], False)), not(hh(lam(&[T], True))), hh(lam(&[T], not(ap(p.clone(), x())))), not(hh(lam(&[T], not(ap(p.clone(), x()))))), hh(lam(&[T], eq(x(), a.clone()))),
        hh(lam(&[T], ap(p.clone(), ff(x())))), hh(lam(&[T], or(ap(p.clone(), x()), eq(x(), a.clone())))),
        all(&[T], ap(p.clone(), x())), all(&[T], not(ap(p.clone(), x()))), some(&[T], ap(p.clone(), x())), all(&[T], eq(x(), a.clone())),
        eq(p.clone(), lam(&[T], True)), ne(p.clone(), lam(&[T], False)), eq(p.clone(), lam(&[T], eq(x(), a.clone()))), eq(p.clone(), lam(&[T], not(ap(p.clone(), x())))),
        all(&[pb.clone()], imp(all(&[T], iff(ap(x(), y()), ap(p.clone(), y()))), eq(x(), p.clone()))),
        all(&[pb.clone(), pb.clone()], imp(and(hh(x()), hh(y())), eq(x(), y()))), all(&[pb.clone()], or(hh(x()), hh(lam(&[T], not(ap(x(), y())))))), all(&[pb.clone()], imp(hh(x()), some(&[T], ap(x(), y())))), all(&[pb.clone()], imp(all(&[T], ap(x(), y())), hh(x()))),
        some(&[pb.clone()], and(hh(x()), ap(x(), a.clone()))), all(&[pb.clone()], imp(hh(x()), not(ap(x(), a.clone())))), some(&[pb.clone()], all(&[T], iff(ap(x(), y()), not(ap(p.clone(), y()))))),
        all(&[pb.clone()], imp(ap(x(), a.clone()), ap(x(), ff(a.clone())))), eq(ff(a.clone()), a.clone()), ne(ff(a.clone()), a.clone()), all(&[pb.clone(), T], imp(ap(x(), y()), ap(x(), a.clone()))),
        all(&[fun(&[T], T)], eq(ap(x(), a.clone()), a.clone())), all(&[fun(&[T], T)], imp(all(&[T], eq(ap(x(), y()), y())), eq(x(), con(3)))), eq(con(3), lam(&[T], x())), ne(con(3), lam(&[T], a.clone())),
        all(&[B], imp(x(), hh(lam(&[T], var(0))))), all(&[B], or(x(), not(x()))), some(&[B], hh(lam(&[T], var(0)))),
    ];
    mk("D", sg, &[vec![1], vec![2]], m)
}

/// Propositional functions: c, d: Bool; k: Bool -> Bool; g: (Bool, Bool) -> Bool.
pub fn fam_e() -> Family {
    let sg = sig(&[], &[("c", B), ("d", B), ("k", fun(&[B], B)), ("g", fun(&[B, B], B))]);
    let (c, d) = (con(0), con(1));
    let k = |x: Ex| app(con(2), &[x]);
    let g = |x: Ex, y: Ex| app(con(3), &[x, y]);
    let x = || var(0);
    let y = || var(1);
    let m = vec![
        False, c.clone(), not(c.clone()), d.clone(), not(d.clone()), or(c.clone(), d.clone()), and(c.clone(), d.clone()), imp(c.clone(), d.clone()), iff(c.clone(), d.clone()), iff(c.clone(), not(d.clone())), eq(c.clone(), d.clone()), ne(c.clone(), d.clone()),
        not(and(c.clone(), d.clone())), not(iff(c.clone(), d.clone())), not(imp(c.clone(), d.clone())), imp(imp(c.clone(), d.clone()), c.clone()),
        k(c.clone()), not(k(c.clone())), k(not(c.clone())), k(True), not(k(False)), k(k(c.clone())), k(and(c.clone(), d.clone())), k(iff(c.clone(), d.clone())), not(k(or(c.clone(), not(d.clone())))),
        all(&[B], k(x())), all(&[B], not(k(x()))), some(&[B], k(x())), all(&[B], iff(k(x()), x())), all(&[B], iff(k(x()), not(x()))), all(&[B], eq(k(k(x())), x())), all(&[B], imp(k(x()), x())), some(&[B], eq(k(x()), not(x()))),
        g(c.clone(), d.clone()), not(g(d.clone(), c.clone())), all(&[B, B], iff(g(x(), y()), g(y(), x()))), all(&[B, B], iff(g(x(), y()), and(x(), y()))), all(&[B, B], imp(g(x(), y()), x())), all(&[B], g(x(), x())), all(&[B], not(g(x(), not(x())))), all(&[B], some(&[B], g(x(), y()))), some(&[B], all(&[B], g(x(), y()))),
        ite(c.clone(), d.clone(), not(d.clone())), ite(k(c.clone()), c.clone(), d.clone()), k(ite(c.clone(), d.clone(), True)), all(&[B], ite(x(), k(x()), d.clone())), not(ite(c.clone(), d.clone(), k(d.clone()))), eq(ite(c.clone(), d.clone(), k(c.clone())), c.clone()),
        all(&[fun(&[B], B)], app(x(), &[c.clone()])), all(&[fun(&[B], B)], imp(app(x(), &[c.clone()]), app(x(), &[d.clone()]))), eq(con(2), lam(&[B], not(x()))), ne(con(2), lam(&[B], x())), eq(con(2), lam(&[B], g(x(), x()))),
        iff(iff(c.clone(), d.clone()), k(c.clone())), not(iff(iff(c.clone(), d.clone()), d.clone())),
    ];
    mk("E", sg, &[vec![]], m)
}

/// Two sorts, the first possibly empty: u: S -> T, v: T -> Bool, w: S -> Bool, t: T.
pub fn fam_f() -> Family {
    let s: Ty = Ty::Sort(0);
    let t: Ty = Ty::Sort(1);
    let sg = sig(&["Src", "Dst"], &[("u", fun(&[s.clone()], t.clone())), ("v", fun(&[t.clone()], B)), ("w", fun(&[s.clone()], B)), ("t", t.clone())]);
    let u = |x: Ex| app(con(0), &[x]);
    let v = |x: Ex| app(con(1), &[x]);
    let w = |x: Ex| app(con(2), &[x]);
    let c = con(3);
    let x = || var(0);
    let y = || var(1);
    let als = |e| all(&[Ty::Sort(0)], e);
    let exs = |e| some(&[Ty::Sort(0)], e);
    let alt = |e| all(&[Ty::Sort(1)], e);
    let ext = |e| some(&[Ty::Sort(1)], e);
    let m = vec![
        False, v(c.clone()), not(v(c.clone())), als(w(x())), als(not(w(x()))), exs(w(x())), exs(True), als(False), alt(v(x())), alt(not(v(x()))), ext(v(x())), ext(not(v(x()))),
        als(v(u(x()))), als(not(v(u(x())))), exs(v(u(x()))), als(iff(w(x()), v(u(x())))), als(imp(w(x()), v(u(x())))), alt(some(&[s.clone()], eq(u(y()), x()))), als(eq(u(x()), c.clone())), als(ne(u(x()), c.clone())), exs(eq(u(x()), c.clone())),
        all(&[s.clone(), s.clone()], imp(eq(u(x()), u(y())), eq(x(), y()))), all(&[t.clone(), t.clone()], eq(x(), y())), all(&[s.clone(), s.clone()], eq(x(), y())), alt(eq(x(), c.clone())), alt(or(v(x()), eq(x(), c.clone()))),
        all(&[s.clone(), t.clone()], imp(w(x()), v(y()))), all(&[s.clone(), t.clone()], or(w(x()), v(y()))), imp(exs(w(x())), v(c.clone())), all(&[s.clone()], imp(w(x()), v(c.clone()))), als(v(c.clone())), exs(v(c.clone())),
        some(&[fun(&[t.clone()], s.clone())], True), some(&[fun(&[s.clone()], t.clone())], als(eq(app(var(0), &[var(1)]), c.clone()))), all(&[fun(&[t.clone()], s.clone())], v(c.clone())), some(&[fun(&[t.clone()], s.clone())], alt(eq(u(app(var(0), &[var(1)])), var(1)))),
        eq(con(0), lam(&[s.clone()], c.clone())), ne(con(0), lam(&[s.clone()], c.clone())), eq(con(2), lam(&[s.clone()], v(u(x())))),
    ];
    mk("F", sg, &[vec![0, 1], vec![0, 2], vec![1, 1], vec![1, 2], vec![2, 1], vec![2, 2]], m)
}

impl Family {
    /// The same models with one more constant, named `w0`, varying fastest.
    pub fn with_witness(&self, ty: Ty) -> Space {
        let mut sg = self.space.sig.clone();
        let base = sg.consts.len();
        sg.consts.push(("w0".into(), ty));
        Space::new(sg, &self.sizes, base)
    }
}

pub fn all_families() -> Vec<Family> {
    vec![fam_a(), fam_b(), fam_c(), fam_d(), fam_e(), fam_f()]
}
