//! Monitors of the big-o-test crate. Usage: `bigo-mon <check> <seed> <quick|thorough> <out-dir> [case]`
mod infra;
mod vclock;
mod model;
mod c_analysis;
mod c_text;
mod c_ring;
mod c_alloc;
mod c_regular;
mod c_crud;
#[cfg(any(feature = "cfg_default", feature = "v_async"))]
mod c_async;
mod c_panic;
mod c_feat;
mod c_opt;
#[cfg(any(feature = "cfg_default", feature = "v_async"))]
mod c_hist;
#[cfg(any(feature = "cfg_default", feature = "v_async"))]
mod c_leak;

use infra::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    #[cfg(any(feature = "cfg_default", feature = "v_async"))]
    if a.len() == 4 && a[1] == "--probe" { return c_hist::child(a[2].parse().unwrap(), a[3].parse().unwrap()); }
    if a.len() < 5 { eprintln!("usage: bigo-mon <check> <seed> <quick|thorough> <out-dir> [case]"); std::process::exit(2); }
    let check = a[1].clone();
    let mut ctx = Ctx::new(&check, a[2].parse().unwrap(), a[3] == "thorough", &a[4], a.get(5).map(|s| s.parse().unwrap()));
    match check.as_str() {
        "C01" => c_analysis::c01(&mut ctx),
        "C02" => c_analysis::c02(&mut ctx),
        "C03" => c_analysis::c03(&mut ctx),
        "C04" => c_analysis::c04(&mut ctx),
        "C05" => c_regular::c05(&mut ctx),
        "C06" => c_crud::c06(&mut ctx),
        "C08r" => c_regular::c08(&mut ctx),
        "C08c" => c_crud::c08(&mut ctx),
        "C09r" => c_regular::c09(&mut ctx),
        "C09c" => c_crud::c09(&mut ctx),
        "C10" => c_crud::c10(&mut ctx),
        "C11" => c_crud::c11(&mut ctx),
        #[cfg(any(feature = "cfg_default", feature = "v_async"))]
        "C07" => c_async::c07(&mut ctx),
        #[cfg(any(feature = "cfg_default", feature = "v_async"))]
        "C08a" => c_async::c08(&mut ctx),
        #[cfg(any(feature = "cfg_default", feature = "v_async"))]
        "C09a" => c_async::c09(&mut ctx),
        #[cfg(any(feature = "cfg_default", feature = "v_async"))]
        "C12" => c_async::c12(&mut ctx),
        "C13" => c_panic::c13(&mut ctx),
        "C14" => c_alloc::c14(&mut ctx),
        "C15" => c_alloc::c15(&mut ctx),
        "C16" => c_alloc::c16(&mut ctx),
        "C17" => c_alloc::c17(&mut ctx),
        "C17r" => c_alloc::c17_runner(&mut ctx),
        "C18" => c_alloc::c18(&mut ctx),
        "C19" => c_ring::c19(&mut ctx),
        "C19L" => c_ring::long_lived(&mut ctx, false),
        "C21L" => c_ring::long_lived(&mut ctx, true),
        "C20" => c_ring::c20(&mut ctx),
        "C21" => c_ring::c21(&mut ctx),
        "C23" => c_text::c23(&mut ctx),
        "C24" => c_text::c24(&mut ctx),
        "C24c" => c_crud::c24(&mut ctx),
        "C30" => c_opt::c30(&mut ctx),
        "C27" => c_feat::c27(&mut ctx),
        #[cfg(any(feature = "cfg_default", feature = "v_async"))]
        "C29" => c_async::c29(&mut ctx),
        #[cfg(any(feature = "cfg_default", feature = "v_async"))]
        "C28" => c_hist::c28(&mut ctx),
        #[cfg(any(feature = "cfg_default", feature = "v_async"))]
        "C31" => c_leak::c31(&mut ctx),
        other => { eprintln!("unknown check {other}"); std::process::exit(2); }
    }
    ctx.finish();
}
