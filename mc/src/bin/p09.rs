//! P09: definitions mean what they say and demand what justifies them.
use mc::{acornx, decls::*, report::*, scen::*};
use serde_json::json;

fn main() {
    let run = Run::new("P09");
    let wide = run.thorough();
    let cap = if wide { 300_000 } else { 5_000 };
    let mut scs: Vec<Sc> = vec![];
    for (n, v) in [("inductive", inductives(wide)), ("structure", structures()), ("let", lets(wide)), ("instance", mc::classes::instances(wide))] {
        run.add(n, v.len() as u64);
        scs.extend(v);
    }
    parallel(scs.len(), |i| {
        judge(&run, &scs[i], cap);
        if i % 397 == 0 { run.sample(json!({"text": scs[i].text})); }
    });
    let _ = acornx::load;
    run.extra("exhaustive", json!(true));
    run.finish(
        "exploration",
        "every definition of the enumerated shapes; the facts it adds and the goals it demands compared with its meaning in every finite model up to the bounds; non-trivial: the meaning holds in some model",
        &["finite models up to the stated sizes"],
        &["facts", "goals", "distinct_nontrivial", "unjustified_somewhere"],
    )
}
