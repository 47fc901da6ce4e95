use acorn::elaborator::fact::Fact;
fn main() {
    let t = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let l = match mc::acornx::load_ide(&t) { Ok(l) => l, Err(e) => { println!("ERR {e}"); return; } };
    let env = l.project.get_env_by_id(l.module_id).unwrap();
    for n in &env.nodes {
        println!("[{}]", n);
        match n.get_fact() {
            Some(Fact::Proposition(p)) => println!("   P {}", p),
            Some(Fact::Definition(c, d, _)) => println!("   D {:?} := {}", c.get_type().to_string(), d),
            Some(f) => println!("   F {}", f),
            None => println!("   none"),
        }
        if let Some(b) = n.get_block() { for m in &b.env.nodes { println!("      sub [{}]", m); } }
    }
    if let Some(lm) = l.project.get_lowered_module(l.module_id) {
        for (_, e) in lm.goals() { println!("GOAL {}", e.lowered_goal.goal.proposition); }
    }
}
