//! P04: ground reasoning (kernel/equality_graph.rs) over every history of assertions.
//!
//! A history is a sequence of asserted ground clauses. At every history all literals of the
//! universe are asked. Reference: congruence closure by naive fixpoint. An answer must be entailed
//! (decided by case split over the asserted clauses), and everything that unit propagation over
//! congruence closure derives must be answered. Histories of units only also have their
//! contradiction explanation replayed.
use acorn::kernel::checker::{Checker, StepReason};
use acorn::kernel::clause::Clause;
use acorn::kernel::literal::Literal;
use acorn::kernel::local_context::LocalContext;
use acorn::kernel::term::Term;
use acorn::kernel::{EqualityGraph, StepId};
use mc::kernelx::Sig;
use mc::report::{guard, parallel, Run};
use serde_json::json;
use std::collections::HashMap;

/// Terms of a universe: atoms and applications, closed under subterms.
struct Universe {
    name: &'static str,
    sig: Sig,
    terms: Vec<Term>,
    app: Vec<Option<(usize, usize)>>,
    lits: Vec<(usize, usize, bool)>,
    clauses: Vec<Vec<usize>>,
    pre: Vec<usize>,
    bools: Vec<usize>,
}

type Lit = (usize, usize, bool);

fn find(p: &[u8], mut x: usize) -> usize {
    while p[x] as usize != x {
        x = p[x] as usize;
    }
    x
}

impl Universe {
    fn index(&self, t: &Term) -> Option<usize> { self.terms.iter().position(|u| u == t) }

    /// Naive congruence closure of the equalities; None if an inequality is violated.
    fn close(&self, lits: &[Lit]) -> (Vec<u8>, bool) {
        let mut p: Vec<u8> = (0..self.terms.len() as u8).collect();
        let mut ch = true;
        while ch {
            ch = false;
            for &(a, b, pos) in lits {
                if pos {
                    let (x, y) = (find(&p, a), find(&p, b));
                    if x != y {
                        p[x] = y as u8;
                        ch = true;
                    }
                }
            }
            for i in 0..self.terms.len() {
                for j in i + 1..self.terms.len() {
                    if let (Some((f, x)), Some((g, y))) = (self.app[i], self.app[j]) {
                        if find(&p, f) == find(&p, g) && find(&p, x) == find(&p, y) && find(&p, i) != find(&p, j) {
                            let (x, y) = (find(&p, i), find(&p, j));
                            p[x] = y as u8;
                            ch = true;
                        }
                    }
                }
            }
        }
        let bad = lits.iter().any(|&(a, b, pos)| !pos && find(&p, a) == find(&p, b));
        let p2 = (0..p.len()).map(|i| find(&p, i) as u8).collect();
        (p2, bad)
    }

    /// All truth values entailed by the clauses: (unsatisfiable, entailed value of each literal).
    fn entailed(&self, clauses: &[usize]) -> (bool, Vec<(bool, bool)>) {
        let mut can: Vec<(bool, bool)> = vec![(false, false); self.lits.len()];
        let mut sat = false;
        let mut pick = vec![0; clauses.len()];
        'all: loop {
            let lits: Vec<Lit> = clauses.iter().zip(&pick).map(|(&c, &i)| self.lits[self.clauses[c][i]]).collect();
            let (p, bad) = self.close(&lits);
            if !bad {
                sat = true;
                for (i, &(a, b, pos)) in self.lits.iter().enumerate() {
                    // a = b possible / a != b possible under this choice
                    let eq = p[a] == p[b];
                    let eq_possible = eq || {
                        let mut l = lits.clone();
                        l.push((a, b, true));
                        !self.close(&l).1
                    };
                    let (t, f) = if pos { (eq_possible, !eq) } else { (!eq, eq_possible) };
                    can[i].0 |= t;
                    can[i].1 |= f;
                }
            }
            let mut k = 0;
            loop {
                if k == clauses.len() {
                    break 'all;
                }
                pick[k] += 1;
                if pick[k] < self.clauses[clauses[k]].len() {
                    break;
                }
                pick[k] = 0;
                k += 1;
            }
        }
        (!sat, can)
    }

    /// Satisfiability of the clauses and unit literals when Bool has exactly two elements.
    fn bool_sat(&self, clauses: &[usize], units: &[usize]) -> bool {
        let bools = self.bools.len();
        let mut pick = vec![0; clauses.len()];
        loop {
            let base: Vec<Lit> = clauses.iter().zip(&pick).map(|(&c, &i)| self.lits[self.clauses[c][i]]).chain(units.iter().map(|&l| self.lits[l])).collect();
            if !self.close(&base).1 {
                for m in 0..1usize << bools {
                    // true terms equal true; false terms equal each other and differ from true
                    let mut l = base.clone();
                    let mut first_false = None;
                    for (k, &b) in self.bools.iter().enumerate() {
                        if m >> k & 1 == 1 {
                            l.push((b, 0, true));
                        } else {
                            l.push((b, 0, false));
                            match first_false {
                                None => first_false = Some(b),
                                Some(x) => l.push((b, x, true)),
                            }
                        }
                    }
                    if !self.close(&l).1 {
                        return true;
                    }
                }
            }
            let mut k = 0;
            loop {
                if k == clauses.len() {
                    return false;
                }
                pick[k] += 1;
                if pick[k] < self.clauses[clauses[k]].len() {
                    break;
                }
                pick[k] = 0;
                k += 1;
            }
        }
    }

    /// Unit propagation over congruence closure: what must be found.
    fn propagate(&self, clauses: &[usize]) -> (bool, Vec<Option<bool>>) {
        let mut units: Vec<Lit> = vec![];
        loop {
            let (p, bad) = self.close(&units);
            if bad {
                return (true, vec![]);
            }
            let value = |l: &Lit| -> Option<bool> {
                if p[l.0] == p[l.1] {
                    return Some(l.2);
                }
                let ne = units.iter().any(|u| !u.2 && ((p[u.0] == p[l.0] && p[u.1] == p[l.1]) || (p[u.0] == p[l.1] && p[u.1] == p[l.0])));
                ne.then_some(!l.2)
            };
            let mut new = None;
            for &c in clauses {
                let mut open = vec![];
                let mut sat = false;
                for &l in &self.clauses[c] {
                    match value(&self.lits[l]) {
                        Some(true) => sat = true,
                        Some(false) => {}
                        None => open.push(self.lits[l]),
                    }
                }
                if sat {
                    continue;
                }
                if open.is_empty() {
                    return (true, vec![]);
                }
                if open.len() == 1 {
                    new = Some(open[0]);
                    break;
                }
            }
            match new {
                Some(l) => units.push(l),
                None => return (false, self.lits.iter().map(value).collect()),
            }
        }
    }

    fn literal(&self, i: usize) -> Literal {
        let (a, b, pos) = self.lits[i];
        Literal::new(pos, self.terms[a].clone(), self.terms[b].clone())
    }

    fn clause(&self, c: usize) -> Clause {
        Clause::from_literals_unnormalized(self.clauses[c].iter().map(|&l| self.literal(l)).collect(), LocalContext::empty_ref())
    }

    fn show_lit(&self, i: usize) -> String {
        let (a, b, pos) = self.lits[i];
        format!("{} {} {}", self.sig.show(&self.terms[a]), if pos { "=" } else { "!=" }, self.sig.show(&self.terms[b]))
    }

    fn show(&self, h: &[usize]) -> String {
        h.iter().map(|&c| self.clauses[c].iter().map(|&l| self.show_lit(l)).collect::<Vec<_>>().join(" or ")).collect::<Vec<_>>().join("; ")
    }
}

/// Builds a universe: constants with types, applications written "f(a)", the equalities to use,
/// and which pairs of literals form two-literal clauses.
fn universe(name: &'static str, consts: &[(&str, &str)], apps: &[(&str, &str, &str)], eqs: &[(&str, &str)], long: usize, pre: &[&str]) -> Universe {
    let mut sig = Sig::new(&[("E", 0)]);
    let mut terms = vec![];
    let mut app = vec![];
    let mut names: HashMap<String, usize> = HashMap::new();
    names.insert("true".into(), 0);
    terms.push(Term::new_true());
    app.push(None);
    for (n, t) in consts {
        sig.add(n, t);
        names.insert(n.to_string(), terms.len());
        terms.push(sig.c(n));
        app.push(None);
    }
    for (n, f, x) in apps {
        let (f, x) = (names[*f], names[*x]);
        names.insert(n.to_string(), terms.len());
        terms.push(terms[f].apply(&[terms[x].clone()]));
        app.push(Some((f, x)));
    }
    let mut lits = vec![];
    for (a, b) in eqs {
        lits.push((names[*a], names[*b], true));
        lits.push((names[*a], names[*b], false));
    }
    let mut clauses: Vec<Vec<usize>> = (0..lits.len()).map(|i| vec![i]).collect();
    if long >= 2 {
        for i in 0..lits.len() {
            for j in i + 1..lits.len() {
                if i / 2 != j / 2 {
                    clauses.push(vec![i, j]);
                    if long >= 3 {
                        for k in j + 1..lits.len() {
                            if k / 2 != j / 2 {
                                clauses.push(vec![i, j, k]);
                            }
                        }
                    }
                }
            }
        }
    }
    let pre = pre.iter().map(|n| names[*n]).collect();
    let bools = (1..terms.len()).filter(|&i| app[i].is_some_and(|(f, _)| consts.iter().any(|(n, t)| names[*n] == f && *t == "E -> Bool"))).collect();
    Universe { name, sig, terms, app, lits, clauses, pre, bools }
}

fn check_state(u: &Universe, g: &EqualityGraph, h: &[usize], run: &Run) {
    let key = |what: &str| format!("{}:{}:{}", u.name, what, u.show(h));
    let (unsat, can) = u.entailed(h);
    let (upbad, up) = u.propagate(h);
    run.add("states", 1);
    if g.has_contradiction() {
        run.add("contradictions", 1);
        if !unsat {
            run.violation(&key("contradiction"), "a contradiction is reported for satisfiable facts".into());
        }
        // Explanations: only claimed for histories of unit clauses.
        if h.iter().all(|&c| u.clauses[c].len() == 1) {
            match g.get_contradiction_trace() {
                None => run.violation(&key("notrace"), "no explanation for a contradiction of units".into()),
                Some(tr) => {
                    run.add("traces_validated_against_impl", 1);
                    let ineq = h.get(tr.inequality_id).map(|&c| u.lits[u.clauses[c][0]]);
                    let Some((a, b, false)) = ineq else {
                        run.violation(&key("trace"), format!("explanation names step {} which is not an inequality", tr.inequality_id));
                        return;
                    };
                    let mut eqs: Vec<Lit> = vec![];
                    for s in &tr.rewrite_chain {
                        let (l, r) = (u.index(s.left_term()), u.index(s.right_term()));
                        let asserted = h.get(s.source.pattern_id.get()).map(|&c| u.lits[u.clauses[c][0]]);
                        match (l, r, asserted) {
                            (Some(l), Some(r), Some((x, y, true))) if (x, y) == (l, r) || (x, y) == (r, l) => eqs.push((l, r, true)),
                            _ => run.violation(&key("trace"), format!("rewrite of the explanation is not the equation of step {}", s.source.pattern_id)),
                        }
                    }
                    let (p, _) = u.close(&eqs);
                    if p[a] != p[b] {
                        run.violation(&key("trace"), "the rewrites of the explanation do not connect the two sides of the inequality".into());
                    }
                }
            }
        }
    } else if upbad {
        run.violation(&key("missed"), "the contradiction found by unit propagation is not reported".into());
    }
    if upbad || unsat {
        return;
    }
    for rev in [false, true] {
        let mut q = g.clone();
        for k in 0..u.lits.len() {
            let i = if rev { u.lits.len() - 1 - k } else { k };
            let lit = u.literal(i);
            let got = q.evaluate_literal(&lit, &u.sig.kc);
            run.add("evaluations", 1);
            match got {
                Some(v) => {
                    run.add("answered", 1);
                    if (v && can[i].1) || (!v && can[i].0) {
                        run.violation(&key(&u.show_lit(i)), format!("literal {} is answered {v} but the facts do not entail that", u.show_lit(i)));
                    }
                }
                None => {
                    if let Some(v) = up[i] {
                        run.violation(&key(&u.show_lit(i)), format!("literal {} is {v} by unit propagation and congruence but not answered", u.show_lit(i)));
                    }
                }
            }
            let dep = q.evaluate_literal_with_dependencies(&lit, &u.sig.kc);
            if dep.as_ref().is_some_and(|d| Some(d.0) != got) {
                run.violation(&key(&u.show_lit(i)), format!("literal {}: two queries give different answers", u.show_lit(i)));
            }
        }
        // Clauses: everything asserted must hold; a clause is only accepted if entailed.
        if !rev {
            for &c in h {
                if u.clauses[c].len() == 1 && !q.check_clause(&u.clause(c), &u.sig.kc) {
                    run.violation(&key("asserted"), format!("asserted clause {} is not accepted", u.show(&[c])));
                }
            }
            for c in 0..u.clauses.len() {
                if u.clauses[c].len() >= 2 && q.check_clause(&u.clause(c), &u.sig.kc) {
                    run.add("clauses_accepted", 1);
                    // entailed iff facts + negation of each literal is unsatisfiable
                    let neg: Vec<usize> = u.clauses[c].iter().map(|&l| l ^ 1).collect();
                    let mut hh = h.to_vec();
                    hh.extend(neg); // units come first in the clause list: clause index == literal index
                    if !u.entailed(&hh).0 {
                        run.violation(&key("clause"), format!("clause {} is accepted but not entailed", u.show(&[c])));
                    }
                }
            }
        }
    }
}

/// The checker built on the graph: accepts what was asserted and what propagation derives, and
/// nothing that is not entailed (Bool having exactly two elements).
fn check_checker(u: &Universe, ck: &Checker, h: &[usize], run: &Run) {
    let key = |what: &str| format!("{}:checker:{}:{}", u.name, what, u.show(h));
    let (unsat, can) = u.entailed(h);
    let (upbad, up) = u.propagate(h);
    run.add("checker_states", 1);
    if ck.has_contradiction() {
        if !unsat && u.bool_sat(h, &[]) {
            run.violation(&key("contradiction"), "the checker reports a contradiction for satisfiable facts".into());
        }
        return;
    }
    if upbad {
        run.violation(&key("missed"), "the contradiction found by unit propagation is not reported by the checker".into());
        return;
    }
    if unsat {
        return;
    }
    for &c in h {
        if ck.clone().check_clause(&u.clause(c), &u.sig.kc).is_none() {
            run.violation(&key("asserted"), format!("asserted clause {} is not accepted by the checker", u.show(&[c])));
        }
    }
    let mut q = ck.clone();
    for c in 0..u.clauses.len() {
        let ok = q.check_clause(&u.clause(c), &u.sig.kc).is_some();
        if ok {
            run.add("checker_accepted", 1);
            let ent = if u.clauses[c].len() == 1 { !can[c].1 } else { false };
            if !ent {
                let neg: Vec<usize> = u.clauses[c].iter().map(|&l| l ^ 1).collect();
                if u.bool_sat(h, &neg) {
                    run.violation(&key("clause"), format!("{} is accepted by the checker but not entailed", u.show(&[c])));
                }
            }
        } else if u.clauses[c].len() == 1 && up[c] == Some(true) {
            run.violation(&key("derived"), format!("{} follows by unit propagation but the checker does not accept it", u.show(&[c])));
        }
    }
}

fn dfs_checker(u: &Universe, ck: &Checker, h: &mut Vec<usize>, depth: usize, run: &Run) {
    check_checker(u, ck, h, run);
    if h.len() == depth || ck.has_contradiction() {
        return;
    }
    for c in 0..u.clauses.len() {
        let mut c2 = ck.clone();
        c2.insert_clause(&u.clause(c), StepReason::PreviousClaim, &u.sig.kc);
        h.push(c);
        dfs_checker(u, &c2, h, depth, run);
        h.pop();
    }
}

fn dfs(u: &Universe, g: &EqualityGraph, h: &mut Vec<usize>, depth: usize, run: &Run) {
    check_state(u, g, h, run);
    if h.len() == depth || g.has_contradiction() {
        return;
    }
    for c in 0..u.clauses.len() {
        let mut g2 = g.clone();
        g2.insert_clause(&u.clause(c), StepId(h.len()), &u.sig.kc);
        h.push(c);
        run.add("transitions", 1);
        dfs(u, &g2, h, depth, run);
        h.pop();
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for k in 0..n {
        out = out.into_iter().flat_map(|p: Vec<usize>| (0..=k).map(move |i| { let mut q = p.clone(); q.insert(i, k); q })).collect();
    }
    out
}

/// Longer histories: some units and two disjunctions, each of a literal over `eqs` with a tag of
/// its own that shows whether the literal was refuted, in every order. The verdict for a set of
/// facts does not depend on the order, so the reference is computed once per set.
fn tagged(u: &mut Universe, core: usize, units: usize, run: &Run) {
    let lits = 2 * core; // the tags are the last two equalities
    let tags = [lits, lits + 2];
    let base = u.clauses.len();
    for t in tags {
        for l in 0..lits {
            u.clauses.push(vec![l, t]);
        }
    }
    let u = &*u;
    let mut sets: Vec<Vec<usize>> = vec![];
    fn choose(from: usize, lits: usize, left: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left == 0 { out.push(cur.clone()); return; }
        for l in from..lits {
            if cur.last().is_some_and(|&m| m / 2 == l / 2) { continue; }
            cur.push(l);
            choose(l + 1, lits, left - 1, cur, out);
            cur.pop();
        }
    }
    choose(0, lits, units, &mut vec![], &mut sets);
    let orders = permutations(units + 2);
    parallel(sets.len(), |si| {
        let set = &sets[si];
        if u.propagate(set).0 { return; }
        for l1 in 0..lits {
            for l2 in l1..lits {
                if set.contains(&l1) || set.contains(&l2) { continue; }
                let mut facts = set.clone();
                facts.push(base + l1);
                facts.push(base + lits + l2);
                let (upbad, up) = u.propagate(&facts);
                // A disjunction that stays as it is adds nothing to what shorter histories show.
                if !upbad && tags.iter().filter(|&&t| up[t] == Some(true)).count() < 2 { continue; }
                let (unsat, can) = u.entailed(&facts);
                run.add("tagged_sets", 1);
                for order in &orders {
                    let h: Vec<usize> = order.iter().map(|&i| facts[i]).collect();
                    let r = guard(|| {
                        let mut g = EqualityGraph::new();
                        for (i, &c) in h.iter().enumerate() {
                            g.insert_clause(&u.clause(c), StepId(i), &u.sig.kc);
                        }
                        run.add("states", 1);
                        run.add("transitions", h.len() as u64);
                        if g.has_contradiction() {
                            if !unsat { run.violation(&format!("{}:contradiction:{}", u.name, u.show(&h)), "a contradiction is reported for satisfiable facts".into()); }
                            return;
                        }
                        if upbad {
                            run.violation(&format!("{}:missed:{}", u.name, u.show(&h)), "the contradiction found by unit propagation is not reported".into());
                            return;
                        }
                        if unsat { return; }
                        for i in 0..u.lits.len() {
                            let got = g.evaluate_literal(&u.literal(i), &u.sig.kc);
                            run.add("evaluations", 1);
                            if let Some(v) = got {
                                run.add("answered", 1);
                                if (v && can[i].1) || (!v && can[i].0) {
                                    run.violation(&format!("{}:{}:{}", u.name, u.show_lit(i), u.show(&h)), format!("literal {} is answered {v} but the facts do not entail that", u.show_lit(i)));
                                }
                            } else if let Some(v) = up[i] {
                                run.violation(&format!("{}:{}:{}", u.name, u.show_lit(i), u.show(&h)), format!("literal {} is {v} by unit propagation and congruence but not answered", u.show_lit(i)));
                            }
                        }
                    });
                    if let Err(e) = r {
                        run.violation(&format!("{}:panic:{}", u.name, u.show(&h)), format!("panic: {e}"));
                    }
                }
            }
        }
    });
}

fn main() {
    let run = Run::new("P04");
    let e = "E";
    let consts = [("a", e), ("b", e), ("c", e), ("f", "E -> E"), ("p", "E -> Bool")];
    let apps = [("fa", "f", "a"), ("fb", "f", "b"), ("fc", "f", "c"), ("ffa", "f", "fa"), ("pa", "p", "a"), ("pb", "p", "b"), ("pfa", "p", "fa")];
    let units = [("a", "b"), ("b", "c"), ("a", "fa"), ("fa", "fb"), ("ffa", "a"), ("ffa", "fb"), ("fb", "c"), ("pa", "true"), ("pb", "true"), ("pfa", "pb")];
    let t = run.thorough();
    let curried = [("a", e), ("b", e), ("h", "E -> E"), ("k", "E -> E"), ("g", "E -> E -> E")];
    let capps = [("ga", "g", "a"), ("gb", "g", "b"), ("gaa", "ga", "a"), ("gab", "ga", "b"), ("gba", "gb", "a"), ("ha", "h", "a"), ("ka", "k", "a"), ("hb", "h", "b")];
    let ceqs = [("a", "b"), ("h", "k"), ("ga", "h"), ("gb", "k"), ("ga", "gb"), ("gab", "gba"), ("ha", "ka"), ("gaa", "a"), ("hb", "b"), ("ka", "b")];
    let sat = [("a", "b"), ("b", "c"), ("a", "c"), ("fa", "fb"), ("pa", "true"), ("pb", "true")];
    let prop = [("a", "b"), ("fa", "c"), ("fb", "c"), ("pa", "true")];
    let mut all: Vec<(Universe, usize)> = vec![
        (universe("units", &consts, &apps, &units, 1, &[]), if t { 5 } else { 4 }),
        (universe("units-preloaded", &consts, &apps, &units, 1, &["pfa", "pb", "ffa", "fb", "fc", "pa"]), if t { 4 } else { 3 }),
        (universe("curried", &curried, &capps, &ceqs, 1, &[]), if t { 5 } else { 4 }),
        (universe("curried-preloaded", &curried, &capps, &ceqs, 1, &["gab", "gba", "gaa", "hb", "ka", "ha"]), if t { 4 } else { 3 }),
        (universe("clauses", &consts, &apps, &sat, 2, &[]), 3),
        (universe("clauses-preloaded", &consts, &apps, &sat, 2, &["fc", "fb", "pb", "pa", "ffa"]), if t { 3 } else { 2 }),
        (universe("ternary", &consts, &apps, &prop, 3, &[]), 3),
    ];
    if t {
        all.push((universe("clauses-deep", &consts, &apps, &prop, 2, &[]), 4));
        all.push((universe("curried-clauses", &curried, &capps, &ceqs[..6], 2, &[]), 3));
    }
    for (u, depth) in &all {
        let depth = *depth;
        let n = u.clauses.len();
        let mut g0 = EqualityGraph::new();
        for &p in &u.pre {
            g0.insert_term(&u.terms[p], &u.sig.kc);
        }
        let before = run.get("states");
        check_state(u, &g0, &[], &run);
        parallel(n * n, |ij| {
            let (i, j) = (ij / n, ij % n);
            let r = guard(|| {
                let mut g = g0.clone();
                g.insert_clause(&u.clause(i), StepId(0), &u.sig.kc);
                if j == 0 {
                    check_state(u, &g, &[i], &run);
                }
                if g.has_contradiction() {
                    return;
                }
                g.insert_clause(&u.clause(j), StepId(1), &u.sig.kc);
                run.add("transitions", 1);
                dfs(u, &g, &mut vec![i, j], depth, &run);
            });
            if let Err(e) = r {
                run.violation(&format!("{}:panic:{}", u.name, u.show(&[i, j])), format!("panic in a history starting with these facts: {e}"));
            }
        });
        let cdepth = if u.pre.is_empty() { if t { depth - 1 } else { depth.min(if n > 20 { 2 } else { 3 }) } } else { 0 };
        if cdepth > 0 {
            parallel(n, |i| {
                let r = guard(|| {
                    let mut ck = Checker::new();
                    ck.insert_clause(&u.clause(i), StepReason::PreviousClaim, &u.sig.kc);
                    dfs_checker(u, &ck, &mut vec![i], cdepth, &run);
                });
                if let Err(e) = r {
                    run.violation(&format!("{}:checker-panic:{}", u.name, u.show(&[i])), format!("panic in a history starting with this fact: {e}"));
                }
            });
        }
        run.sample(json!({"universe": u.name, "facts": n, "terms": u.terms.len(), "depth": depth, "histories": run.get("states") - before, "last_fact": u.show(&[n - 1])}));
        eprintln!("{} {:.1}s {}", u.name, run.elapsed(), run.get("states") - before);
    }
    let tag = [("q1", "true"), ("q2", "true")];
    let flat_consts = [("a", e), ("b", e), ("c", e), ("d", e), ("q1", "Bool"), ("q2", "Bool")];
    let flat_eqs = [("a", "b"), ("a", "c"), ("a", "d"), ("b", "c"), ("b", "d"), ("c", "d"), tag[0], tag[1]];
    let fun_consts = [("a", e), ("b", e), ("f", "E -> E"), ("q1", "Bool"), ("q2", "Bool")];
    let fun_apps = [("fa", "f", "a"), ("fb", "f", "b")];
    let fun_eqs = [("a", "b"), ("a", "fa"), ("a", "fb"), ("b", "fa"), ("b", "fb"), ("fa", "fb"), tag[0], tag[1]];
    for (mut u, core) in [
        (universe("tagged-flat", &flat_consts, &[], &flat_eqs, 1, &[]), 6),
        (universe("tagged-function", &fun_consts, &fun_apps, &fun_eqs, 1, &[]), 6),
    ] {
        let before = run.get("states");
        tagged(&mut u, core, 3, &run);
        if t { u.clauses.truncate(u.lits.len()); tagged(&mut u, core, 4, &run); }
        run.sample(json!({"universe": u.name, "terms": u.terms.len(), "histories": run.get("states") - before}));
        eprintln!("{} {:.1}s {}", u.name, run.elapsed(), run.get("states") - before);
    }
    let a = run.get("answered");
    run.add("distinct_nontrivial", a);
    run.finish(
        "exploration",
        "states: distinct assertion histories; evaluations: literals asked; distinct_nontrivial: literals that were answered and compared with the reference",
        &["the reference congruence closure and case split in mc/src/bin/p04.rs", "histories up to the stated depth over the stated universes of ground clauses"],
        &["states", "answered", "contradictions", "traces_validated_against_impl", "clauses_accepted", "checker_accepted"],
    )
}
