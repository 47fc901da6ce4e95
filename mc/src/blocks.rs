//! Programs with proof blocks: syntax, Acorn text, and an independent meaning. A program is run
//! over worlds (a model and values for the names in scope); every claim becomes an obligation
//! at its line, in the worlds in which everything visible there holds.
use crate::fol::*;

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Axiom(Ex),
    Claim(Ex),
    Forall(Ty, Vec<St>),
    If(Ex, Vec<St>, Option<Vec<St>>),
    /// `let x: T satisfy { .. }`
    Sat(Ty, Ex),
    /// `let g(x: A) -> y: B satisfy { .. }`; the condition speaks of x, y at the next two levels.
    FunSat(Ty, Ty, Ex),
    /// `let x: T = ..`
    Let(Ty, Ex),
    /// Argument, premise, conclusion, proof.
    Thm(Option<Ty>, Option<Ex>, Ex, Option<Vec<St>>),
    /// Scrutinee; per case the constructor, the types of its arguments, and the body.
    Match(Ex, Vec<(usize, Vec<Ty>, Vec<St>)>),
}

#[derive(Clone)]
pub struct World {
    pub model: usize,
    pub env: Vec<(Ty, usize)>,
}

pub struct Obligation {
    pub line: u32,
    pub what: Ex,
    /// Where everything visible and the hypotheses of the claim itself can hold.
    pub worlds: Vec<World>,
    /// A world in which everything visible holds but not this.
    pub refuted: Option<World>,
    /// What must hold is stated word for word by something visible.
    pub restated: bool,
}

pub struct Runner<'a> {
    pub space: &'a Space,
    lines: Vec<String>,
    pub goals: Vec<Obligation>,
    indent: usize,
    nthm: usize,
}

/// Renames the variables from level `from` on.
pub fn shift(e: &Ex, from: usize, f: &dyn Fn(usize) -> usize) -> Ex { map_vars(e, &|i| var(if i >= from { f(i) } else { i })) }

/// Replaces every variable; what replaces them must not bind anything.
pub fn map_vars(e: &Ex, f: &dyn Fn(usize) -> Ex) -> Ex { map_both(e, f, &con) }

/// Replaces every constant.
pub fn map_cons(e: &Ex, f: &dyn Fn(usize) -> Ex) -> Ex { map_both(e, &var, f) }

fn map_both(e: &Ex, f: &dyn Fn(usize) -> Ex, c: &dyn Fn(usize) -> Ex) -> Ex {
    let map_vars = |e: &Ex, _: &dyn Fn(usize) -> Ex| map_both(e, f, c);
    let s = |e: &Ex| std::sync::Arc::new(map_vars(e, f));
    match e {
        True | False => e.clone(),
        Ex::Con(i) => c(*i),
        Ex::Var(i) => f(*i),
        Ex::App(g, a) => Ex::App(s(g), a.iter().map(|x| map_vars(x, f)).collect()),
        Ex::Lam(t, b) => Ex::Lam(t.clone(), s(b)),
        Ex::Not(a) => Ex::Not(s(a)),
        Ex::And(a, b) => Ex::And(s(a), s(b)),
        Ex::Or(a, b) => Ex::Or(s(a), s(b)),
        Ex::Imp(a, b) => Ex::Imp(s(a), s(b)),
        Ex::Iff(a, b) => Ex::Iff(s(a), s(b)),
        Ex::Eq(a, b) => Ex::Eq(s(a), s(b)),
        Ex::Ne(a, b) => Ex::Ne(s(a), s(b)),
        Ex::All(t, b) => Ex::All(t.clone(), s(b)),
        Ex::Some(t, b) => Ex::Some(t.clone(), s(b)),
        Ex::If(k, a, b) => Ex::If(s(k), s(a), s(b)),
        Ex::Case(k, cs) => Ex::Case(s(k), cs.iter().map(|(t, l, r)| (t.clone(), map_vars(l, f), map_vars(r, f))).collect()),
    }
}

/// Levels inside binders depend on the depth at which a formula is written.
pub fn flat(e: &Ex) -> bool {
    match e {
        True | False | Ex::Con(_) | Ex::Var(_) => true,
        Ex::App(g, a) => flat(g) && a.iter().all(flat),
        Ex::Not(a) => flat(a),
        Ex::And(a, b) | Ex::Or(a, b) | Ex::Imp(a, b) | Ex::Iff(a, b) | Ex::Eq(a, b) | Ex::Ne(a, b) => flat(a) && flat(b),
        Ex::If(a, b, c) => flat(a) && flat(b) && flat(c),
        Ex::Lam(..) | Ex::All(..) | Ex::Some(..) | Ex::Case(..) => false,
    }
}

fn deeper(known: &[Ex]) -> Vec<Ex> { known.iter().filter(|e| flat(e)).cloned().collect() }

fn uses(e: &Ex, v: usize) -> bool {
    let hit = std::cell::Cell::new(false);
    shift(e, v, &|i| { if i == v { hit.set(true) } i });
    hit.get()
}

/// Closes what a block with locals at levels `outer + nargs ..` and these types exports.
/// The arguments become universal, the other locals it mentions existential.
fn export(e: &Ex, outer: usize, nargs: usize, tys: &[Ty]) -> Ex {
    let base = outer + nargs;
    let used: Vec<usize> = (base..tys.len()).filter(|v| uses(e, *v)).collect();
    let total = tys.len();
    let e = shift(e, base, &|i| if i >= total { i - total + base + used.len() } else { base + used.iter().position(|u| *u == i).unwrap() });
    let ets: Vec<Ty> = used.iter().map(|u| tys[*u].clone()).collect();
    let e = if ets.is_empty() { e } else { some(&ets, e) };
    if nargs == 0 { e } else { all(&tys[outer..base], e) }
}

impl<'a> Runner<'a> {
    pub fn new(space: &'a Space, preamble: &str) -> Runner<'a> {
        Runner { space, lines: preamble.lines().map(|s| s.to_string()).collect(), goals: vec![], indent: 0, nthm: 0 }
    }

    pub fn text(&self) -> String { self.lines.join("\n") + "\n" }

    fn line(&mut self, s: String) -> u32 {
        self.lines.push(format!("{}{s}", "    ".repeat(self.indent)));
        self.lines.len() as u32 - 1
    }

    fn holds(&self, w: &World, e: &Ex, depth: usize) -> bool {
        let mut env = w.env[..depth].to_vec();
        eval(e, &self.space.sig, &self.space.models[w.model], &mut env) == 1
    }

    fn keep(&self, ws: &mut Vec<World>, e: &Ex, depth: usize) { ws.retain(|w| self.holds(w, e, depth)) }

    /// Can everything a proof of `e` would assume hold here?
    fn assumable(&self, w: &World, e: &Ex, depth: usize) -> bool {
        match e {
            Ex::Imp(a, b) => self.holds(w, a, depth) && self.assumable(w, b, depth),
            Ex::All(ts, b) => {
                let start = vec![World { model: w.model, env: w.env[..depth].to_vec() }];
                let ws = ts.iter().fold(start, |ws, t| self.extend(&ws, t));
                ws.iter().any(|w| self.assumable(w, b, depth + ts.len()))
            }
            _ => true,
        }
    }

    fn oblige(&mut self, line: u32, e: &Ex, depth: usize, ws: &[World]) {
        let refuted = ws.iter().find(|w| !self.holds(w, e, depth)).cloned();
        let ws: Vec<World> = ws.iter().filter(|w| self.assumable(w, e, depth)).cloned().collect();
        let ws = &ws[..];
        self.goals.push(Obligation { line, what: e.clone(), worlds: ws.to_vec(), refuted, restated: false });
    }

    fn extend(&self, ws: &[World], t: &Ty) -> Vec<World> {
        let mut out = vec![];
        for w in ws {
            for v in 0..self.space.models[w.model].card(t) {
                let mut w = w.clone();
                w.env.push((t.clone(), v));
                out.push(w);
            }
        }
        out
    }

    fn body(&mut self, b: &[St], ws: Vec<World>, tys: Vec<Ty>, known: &[Ex]) -> (Vec<World>, Vec<Ty>, Option<Ex>) {
        self.indent += 1;
        let r = self.run(b, ws, tys, known);
        self.indent -= 1;
        self.line("}".into());
        r
    }

    /// Returns the worlds and scope at the end and what the last statement establishes.
    /// `known`: formulas a claim here may repeat word for word.
    pub fn run(&mut self, sts: &[St], mut ws: Vec<World>, mut tys: Vec<Ty>, known: &[Ex]) -> (Vec<World>, Vec<Ty>, Option<Ex>) {
        let mut last = None;
        let mut known = known.to_vec();
        let space = self.space;
        let sig = &space.sig;
        for st in sts {
            let d = tys.len();
            let learn: Ex;
            match st {
                St::Axiom(e) => {
                    self.nthm += 1;
                    self.line(format!("axiom t{} {{ {} }}", self.nthm, sig.show(e, d)));
                    learn = e.clone();
                }
                St::Claim(e) => {
                    // At the top level every claim is a theorem.
                    let text = if self.indent > 0 { sig.show(e, d) } else { self.nthm += 1; format!("theorem t{} {{ {} }}", self.nthm, sig.show(e, d)) };
                    let l = self.line(text);
                    self.oblige(l, e, d, &ws);
                    self.goals.last_mut().unwrap().restated = known.contains(e);
                    learn = e.clone();
                }
                St::Forall(t, b) => {
                    self.line(format!("forall(x{d}: {}) {{", sig.ty_str(t)));
                    let mut tys2 = tys.clone();
                    tys2.push(t.clone());
                    let (_, tys3, e) = self.body(b, self.extend(&ws, t), tys2, &deeper(&known));
                    learn = export(&e.expect("block without a claim"), d, 1, &tys3);
                }
                St::If(c, b, alt) => {
                    self.line(format!("if {} {{", sig.show(c, d)));
                    let mut inner = ws.clone();
                    self.keep(&mut inner, c, d);
                    let mut k = known.clone();
                    k.push(c.clone());
                    let (_, tys2, e) = self.body(b, inner, tys.clone(), &k);
                    let e1 = export(&e.expect("block without a claim"), d, 0, &tys2);
                    let first = imp(c.clone(), e1.clone());
                    let Some(alt) = alt else {
                        learn = first;
                        self.keep(&mut ws, &learn, d);
                        known.push(learn.clone());
                        last = Some(learn);
                        continue;
                    };
                    self.keep(&mut ws, &first, d);
                    known.push(first);
                    self.lines.pop();
                    self.line("} else {".into());
                    let neg = not(c.clone());
                    let mut inner = ws.clone();
                    self.keep(&mut inner, &neg, d);
                    let mut k = known.clone();
                    k.push(neg.clone());
                    let (_, tys2, e) = self.body(alt, inner, tys.clone(), &k);
                    let e2 = export(&e.expect("block without a claim"), d, 0, &tys2);
                    learn = if e1 == e2 { e1 } else { imp(neg, e2) };
                }
                St::Sat(t, e) => {
                    let l = self.line(format!("let x{d}: {} satisfy {{ {} }}", sig.ty_str(t), sig.show(e, d + 1)));
                    let ex = some(&[t.clone()], e.clone());
                    self.oblige(l, &ex, d, &ws);
                    self.goals.last_mut().unwrap().restated = known.contains(&ex);
                    ws = self.extend(&ws, t);
                    tys.push(t.clone());
                    known = deeper(&known);
                    self.keep(&mut ws, e, d + 1);
                    known.push(e.clone());
                    last = None;
                    continue;
                }
                St::FunSat(a, r, e) => {
                    // The function takes level d in what follows, its argument and value are
                    // written one level up.
                    let up = shift(e, d, &|i| i + 1);
                    let l = self.line(format!("let x{d}(x{}: {}) -> x{}: {} satisfy {{ {} }}", d + 1, sig.ty_str(a), d + 2, sig.ty_str(r), sig.show(&up, d + 3)));
                    self.oblige(l, &all(&[a.clone()], some(&[r.clone()], e.clone())), d, &ws);
                    let ft = fun(&[a.clone()], r.clone());
                    let ew = self.extend(&ws, &ft);
                    tys.push(ft);
                    // The condition for the function itself.
                    // levels: d = x, d+1 = y, later = bound; result: d = g, d+1 = x, later = bound
                    let cond = all(&[a.clone()], map_vars(e, &|i| if i == d { var(d + 1) } else if i == d + 1 { app(var(d), &[var(d + 1)]) } else { var(i) }));
                    known = deeper(&known);
                    ws = ew;
                    self.keep(&mut ws, &cond, d + 1);
                    known.push(cond);
                    last = None;
                    continue;
                }
                St::Let(t, e) => {
                    self.line(format!("let x{d}: {} = {}", sig.ty_str(t), sig.show(e, d)));
                    for w in ws.iter_mut() {
                        let v = eval(e, sig, &space.models[w.model], &mut w.env);
                        w.env.push((t.clone(), v));
                    }
                    tys.push(t.clone());
                    known = deeper(&known);
                    last = None;
                    continue;
                }
                St::Thm(arg, prem, concl, b) => {
                    self.nthm += 1;
                    let args = arg.as_ref().map(|t| format!("(x{d}: {})", sig.ty_str(t))).unwrap_or_default();
                    let mut tys2 = tys.clone();
                    let mut inner = ws.clone();
                    if let Some(t) = arg {
                        inner = self.extend(&inner, t);
                        tys2.push(t.clone());
                    }
                    let d2 = tys2.len();
                    let stated = match prem { Some(p) => imp(p.clone(), concl.clone()), None => concl.clone() };
                    let n = self.nthm;
                    let l = self.line(format!("theorem t{n}{args} {{ {} }}{}", sig.show(&stated, d2), if b.is_some() { " by {" } else { "" }));
                    let mut k = if arg.is_some() { deeper(&known) } else { known.clone() };
                    if let Some(p) = prem {
                        self.keep(&mut inner, p, d2);
                        k.push(p.clone());
                    }
                    if let Some(b) = b { inner = self.body(b, inner, tys2.clone(), &k).0; }
                    self.oblige(l, concl, d2, &inner);
                    learn = match arg { Some(t) => all(&[t.clone()], stated), None => stated };
                }
                St::Match(s, cases) => {
                    self.line(format!("match {} {{", sig.show(s, d)));
                    self.indent += 1;
                    let mut out: Option<Ex> = None;
                    for (c, args, b) in cases {
                        let pat = if args.is_empty() { con(*c) } else { app(con(*c), &(0..args.len()).map(|i| var(d + i)).collect::<Vec<_>>()) };
                        self.line(format!("{} {{", sig.show(&pat, d + args.len())));
                        let mut inner = ws.clone();
                        let mut tys2 = tys.clone();
                        for t in args { inner = self.extend(&inner, t); tys2.push(t.clone()); }
                        let is = eq(s.clone(), pat);
                        self.keep(&mut inner, &is, d + args.len());
                        let (_, tys3, e) = self.body(b, inner, tys2, &if args.is_empty() { known.clone() } else { deeper(&known) });
                        let e = export(&e.expect("block without a claim"), d, 0, &tys3);
                        out = Some(match out { None => e, Some(o) => or(o, e) });
                    }
                    self.indent -= 1;
                    self.line("}".into());
                    learn = out.unwrap();
                }
            }
            self.keep(&mut ws, &learn, d);
            known.push(learn.clone());
            last = Some(learn);
        }
        (ws, tys, last)
    }

    pub fn start(&self) -> Vec<World> { (0..self.space.models.len()).map(|model| World { model, env: vec![] }).collect() }
}
