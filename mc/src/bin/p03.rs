//! P03: every proof the search finds can be written as a certificate that an independent
//! check-only session accepts after a JSON round trip.
use mc::{proofspace::*, report::*};
use serde_json::json;

fn judge(run: &Run, c: &Case, r: Result<Searched, String>) -> bool {
    let before = run.nviolations();
    match r {
        Err(e) => run.violation(&c.key, format!("{e}\n{}", c.text)),
        Ok(s) => match s.cert {
            None => return false,
            Some(Err(e)) => {
                run.add("proofs", 1);
                run.violation(&c.key, format!("no certificate for a proof that was found: {e}\n{}", c.text));
                return true;
            }
            Some(Ok(cert)) => {
                run.add("proofs", 1);
                let json = serde_json::to_value(&cert).unwrap();
                let steps = json["p"].as_array().map_or(0, |p| p.len()) as u64;
                run.add("distinct_nontrivial", (steps > 0) as u64);
                run.max("longest_certificate", steps);
                if !s.json_stable {
                    run.violation(&c.key, format!("the certificate changes when written and read back: {json}\n{}", c.text));
                }
                match s.checked.unwrap() {
                    Ok(_) => {
                        run.add("accepted", 1);
                        if steps > 3 {
                            run.sample(json!({"theory": c.text, "certificate": json}));
                        }
                    }
                    Err(e) => run.violation(&c.key, format!("certificate does not replay: {e}\n{json}\n{}", c.text)),
                }
            }
        },
    }
    run.nviolations() > before
}

fn main() {
    let run = Run::new("P03");
    // The listed findings: search picks among equal candidates by hash order, so a finding can
    // need a few attempts to show.
    let keys = run.known_keys();
    parallel(keys.len(), |i| {
        for _ in 0..8 {
            if with_case(&keys[i], |c| judge(&run, c, guarded_search(&c.text))) {
                break;
            }
        }
    });
    let (full, head) = if run.thorough() { (2, 9) } else { (1, 18) };
    explore(&run, full, head, |c, r| {
        judge(&run, c, r);
    });
    run.extra("bounds", json!({"facts": full + 1, "facts_from_whole_menu": full, "last_fact_from_first": head, "activations": 15}));
    run.extra("exhaustive", json!(true));
    run.finish(
        "exploration",
        "every theory from the formula menus times every menu formula as goal; non-trivial: a proof was found and its certificate has at least one step",
        &["Handcrafted scoring policy, 15 activations"],
        &["proofs", "accepted", "distinct_nontrivial"],
    )
}
