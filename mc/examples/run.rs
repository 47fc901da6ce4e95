//! run DIR verify|ignorehash|force|check|strict [TARGET] [JOBS]: one build, as the checks run it.
use mc::buildx::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mode = match a[2].as_str() { "verify" => Mode::Verify, "ignorehash" => Mode::IgnoreHash, "force" => Mode::Force, "check" => Mode::Check, _ => Mode::Strict };
    let t = a.get(3).filter(|s| s.as_str() != "all").map(|s| s.as_str());
    let jobs = a.get(4).map_or(1, |s| s.parse().unwrap());
    println!("{:?}", run(std::path::Path::new(&a[1]), &action(mode, t, jobs)));
}
