//! Monitors of the crate-private measurement module. Usage: `bigo-mon-hooks <C25|C26> <seed> <quick|thorough> <out-dir> [case]`
#[path = "../../harness/src/infra.rs"]
#[allow(dead_code)]
mod infra;
#[path = "../../harness/src/vclock.rs"]
#[allow(dead_code)]
mod vclock;
mod c_units;
mod c_measurers;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { eprintln!("usage: bigo-mon-hooks <check> <seed> <quick|thorough> <out-dir> [case]"); std::process::exit(2); }
    let mut ctx = infra::Ctx::new(&a[1], a[2].parse().unwrap(), a[3] == "thorough", &a[4], a.get(5).map(|s| s.parse().unwrap()));
    match a[1].as_str() {
        "C25" => c_units::c25(&mut ctx),
        "C26" => c_measurers::c26(&mut ctx),
        other => { eprintln!("unknown check {other}"); std::process::exit(2); }
    }
    ctx.finish();
}
