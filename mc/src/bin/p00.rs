use mc::acornx;
use acorn::prover::{ProverMode, ScoringPolicy};
fn main() {
    for f in std::env::args().skip(1) {
        let text = std::fs::read_to_string(&f).unwrap();
        let l = acornx::load(&text).unwrap();
        let lowered = l.project.get_lowered_module(l.module_id).unwrap();
        for (id, e) in lowered.goals() {
            let g = &e.lowered_goal; let mut p = l.processor(id, Some(ScoringPolicy::Handcrafted));
            let o = l.search(id, &mut p, ProverMode::Interactive { timeout_secs: 20.0, activation_limit: 15 });
            println!("{} line {:?}: {o}", g.goal.name, g.goal.proposition.source.range.start.line);
            if std::env::var("CERT").is_ok() { let c = l.make_cert(id, &p).unwrap(); println!("{}", serde_json::to_string_pretty(&c).unwrap()); println!("{:?}", l.check_cert(id, &l.processor(id, None), &c)); }
            println!("   {:?}", g.steps.iter().map(|s| s.clause.to_string()).collect::<Vec<_>>());
        }
    }
}
