//! Definitions with their intended meaning: the facts a definition may add and what must be
//! proved for it, each compared with what the real elaborator adds and demands in every model.
use crate::{acornx, facts::*, fol::*, report::Run};
use serde_json::json;

pub struct Sc {
    pub key: String,
    pub text: String,
    pub sig: Sig,
    pub sizes: Vec<Vec<usize>>,
    /// What the definitions say.
    pub defs: Vec<Ex>,
    /// Implied by the above, but not a required fact; also what the elaborator may say instead.
    pub weak: Vec<Ex>,
    /// What may be used because the obligations were proved.
    pub earned: Vec<Ex>,
    pub oblig: Vec<Ex>,
    /// Not set where goals are stated under hypotheses of their own block.
    pub demands: bool,
    pub types: Types,
    /// Only models of this are looked at (facts of the preamble).
    pub given: Vec<Ex>,
    /// Constants whose value is that of a formula over the earlier ones, but for one at a time.
    pub computed: Vec<(usize, Ex)>,
}

impl Sc {
    pub fn new(key: &str, text: &str, sorts: &[&str], consts: &[(&str, Ty)], sizes: &[Vec<usize>]) -> Sc {
        Sc {
            key: key.into(),
            text: text.into(),
            sig: Sig { sorts: sorts.iter().map(|s| s.to_string()).collect(), consts: consts.iter().map(|c| (c.0.to_string(), c.1.clone())).collect() },
            sizes: sizes.to_vec(),
            defs: vec![],
            weak: vec![],
            earned: vec![],
            oblig: vec![],
            demands: true,
            types: Types { any: vec![], instances: vec![] },
            given: vec![],
            computed: vec![],
        }
    }
    pub fn c(&self, name: &str) -> Ex { con(self.sig.consts.iter().position(|c| c.0 == name).unwrap_or_else(|| panic!("{name}"))) }
}

/// Model::card, or None if it is too large.
fn card(m: &Model, t: &Ty) -> Option<usize> {
    match t {
        Ty::Fun(a, r) => {
            let b = card(m, r)?;
            let n = a.iter().try_fold(1usize, |n, t| n.checked_mul(card(m, t)?))?;
            b.checked_pow(u32::try_from(n).ok()?)
        }
        t => Some(m.card(t)),
    }
}

/// The models of the signature in which `given` holds, at most `cap` per size.
pub fn models(s: &Sc, cap: usize) -> (Vec<Model>, bool) {
    let mut out = vec![];
    let mut full = true;
    let free: Vec<Option<usize>> = std::iter::once(None).chain(s.computed.iter().map(|c| Some(c.0))).collect();
    for z in &s.sizes {
        let base = Model { sizes: z.clone(), vals: vec![0; s.sig.consts.len()] };
        for at in &free {
            let vary: Vec<usize> = (0..s.sig.consts.len()).filter(|i| Some(*i) == *at || s.computed.iter().all(|c| c.0 != *i)).collect();
            let sizes: Option<Vec<usize>> = vary.iter().map(|i| card(&base, &s.sig.consts[*i].1)).collect();
            let n = sizes.as_ref().and_then(|v| v.iter().try_fold(1usize, |a, b| a.checked_mul(*b)));
            let (Some(cards), Some(n)) = (sizes, n.filter(|n| *n <= cap)) else { full = false; continue };
            for i in 0..n {
                let mut r = i;
                let mut m = base.clone();
                for (v, c) in vary.iter().zip(&cards) { m.vals[*v] = r % c; r /= c; }
                for (k, e) in &s.computed { if Some(*k) != *at { m.vals[*k] = eval(e, &s.sig, &m, &mut vec![]); } }
                if s.given.iter().all(|g| eval(g, &s.sig, &m, &mut vec![]) == 1) { out.push(m); }
            }
        }
    }
    (out, full)
}

pub fn bits(ms: &[Model], f: impl Fn(&Model) -> bool) -> Bits {
    let mut b = Bits::empty(ms.len());
    for (i, m) in ms.iter().enumerate() { if f(m) { b.set(i); } }
    b
}

pub fn describe(s: &Sc, m: &Model) -> String {
    format!("sizes {:?}; {}", m.sizes, s.sig.consts.iter().zip(&m.vals).map(|((n, _), v)| format!("{n}=#{v}")).collect::<Vec<_>>().join(", "))
}

/// Judges one scenario; the text must be accepted.
pub fn judge(run: &Run, s: &Sc, cap: usize) {
    let out = crate::report::guard(|| -> Result<(), String> {
        let l = acornx::load_ide(&s.text).map_err(|e| format!("is rejected: {e}"))?;
        judge_loaded(run, s, cap, &l)
    });
    match out {
        Ok(Ok(())) => {}
        Ok(Err(e)) => run.violation(&s.key, format!("{e}\n{}", s.text)),
        Err(e) => run.violation(&s.key, format!("panic: {e}\n{}", s.text)),
    }
}

pub fn judge_loaded(run: &Run, s: &Sc, cap: usize, l: &acornx::Loaded) -> Result<(), String> {
    run.add("evaluations", 1);
    let facts = facts(l, &s.sig, &s.types)?;
    let goals = goals(l, &s.sig, &s.types)?;
    let (ms, full) = models(s, cap);
    if ms.is_empty() { return Err("MACHINERY: no models".into()); }
    if !full { run.add("larger_models_skipped", 1); }
    run.add("models", ms.len() as u64);
    run.add("facts", facts.len() as u64);
    run.add("goals", goals.len() as u64);
    let n = ms.len();
    let truth = |e: &Ex| bits(&ms, |m| eval(e, &s.sig, m, &mut vec![]) == 1);
    let conj = |bs: &mut dyn Iterator<Item = &Bits>| bs.fold(Bits::full(n), |a, b| a.and(b));
    let fb: Vec<Bits> = facts.iter().map(|f| truth(&f.ex)).collect();
    let defs: Vec<Bits> = s.defs.iter().map(&truth).collect();
    let earned: Vec<Bits> = s.earned.iter().map(&truth).collect();
    let weak: Vec<Bits> = s.weak.iter().map(&truth).collect();
    let refs: Vec<&Bits> = defs.iter().chain(&earned).chain(&weak).collect();
    let implied = |f: &Bits, by: &[&Bits]| -> Option<usize> {
        // The formulas it implies say the same, or some satisfiable set of them implies it.
        let same: Vec<&Bits> = by.iter().copied().filter(|r| f.minus(r).is_empty()).collect();
        let c = conj(&mut same.into_iter()).minus(f);
        if c.is_empty() { return None; }
        let all = conj(&mut by.iter().copied());
        if !all.is_empty() && all.minus(f).is_empty() { return None; }
        Some(if all.is_empty() { c.first().unwrap() } else { all.minus(f).first().unwrap() })
    };
    for (f, b) in facts.iter().zip(&fb) {
        if let Some(i) = implied(b, &refs) {
            return Err(format!("the fact `{}` does not follow from the definitions: {}", f.text, describe(s, &ms[i])));
        }
    }
    let fbr: Vec<&Bits> = fb.iter().collect();
    for (e, b) in s.defs.iter().chain(&s.earned).zip(defs.iter().chain(&earned)) {
        let single = fb.iter().any(|f| f.minus(b).is_empty() && (!f.is_empty() || b.is_empty()));
        if !single && implied(b, &fbr).is_some() {
            return Err(format!("the definitions mean {}, which no fact says", s.sig.show(e, 0)));
        }
    }
    if !s.demands { return Ok(()); }
    // The obligations, where the definitions hold.
    let ob: Vec<Bits> = s.oblig.iter().map(&truth).collect();
    let gb: Vec<Bits> = goals.iter().map(|g| bits(&ms, |m| holds(g, &s.sig, m))).collect();
    let d = conj(&mut defs.iter());
    let (o, g) = (conj(&mut ob.iter()).and(&d), conj(&mut gb.iter()).and(&d));
    if let Some(i) = g.minus(&o).first() {
        return Err(format!("everything demanded can be proved where the definition is not justified: {}", describe(s, &ms[i])));
    }
    if let Some(i) = o.minus(&g).first() {
        return Err(format!("the definition is justified, but what is demanded fails: {}", describe(s, &ms[i])));
    }
    if !d.is_empty() && !o.is_empty() { run.add("distinct_nontrivial", 1); }
    if !d.is_empty() && !d.minus(&o).is_empty() { run.add("unjustified_somewhere", 1); }
    let _ = json!(0);
    Ok(())
}
