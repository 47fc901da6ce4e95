//! P02: a verdict of proof search is a logical consequence of the facts it was given.
use acorn::prover::Outcome;
use mc::{proofspace::*, report::*};
use serde_json::json;

fn main() {
    let run = Run::new("P02");
    let (full, head) = if run.thorough() { (2, 9) } else { (1, 14) };
    explore(&run, full, head, |c, r| match r {
        Err(e) => run.violation(&c.key, format!("{e}\n{}", c.text)),
        Ok(s) => {
            run.add(&format!("outcome_{}", s.outcome), 1);
            let proved = s.outcome == Outcome::Success && matches!(s.checked, Some(Ok(_)));
            if s.outcome == Outcome::Success || s.outcome == Outcome::Inconsistent {
                run.add("distinct_nontrivial", 1);
                if let Some(m) = c.countermodel() {
                    let how = if proved { "proved, with an accepted certificate," } else { "found a proof of" };
                    run.violation(&c.key, format!("{how} what does not follow ({}); countermodel {}\n{}", s.outcome, c.fam.space.describe(m), c.text));
                } else if proved && c.facts.len() < 2 {
                    run.sample(json!({"theory": c.text, "certificate": serde_json::to_value(s.cert.unwrap().unwrap()).unwrap()}));
                }
            }
        }
    });
    run.extra("bounds", json!({"facts": full + 1, "facts_from_whole_menu": full, "last_fact_from_first": head, "activations": 15}));
    run.extra("exhaustive", json!(true));
    run.finish(
        "exploration",
        "every theory (set of facts from a family's formula menu) times every menu formula as goal, searched by the real prover; non-trivial: the search ended with a proof. Oracle: truth in every finite model of the family's bounded domains, computed independently",
        &["finite models up to the stated domain sizes stand for all models (a countermodel found is always a real one)", "Handcrafted scoring policy, 15 activations"],
        &["outcome_Success", "outcome_Inconsistent", "outcome_Exhausted"],
    )
}
