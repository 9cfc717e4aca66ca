//! Deterministic simulation of systems built on cesride. `check` searches seeds, `replay` repeats one
//! recorded run exactly.
#![allow(dead_code)]
mod gen;
mod kinds;
mod props;
mod refc;
mod refj;
mod run;
mod stream;
mod tape;
mod world;

#[global_allocator]
static ALLOC: seam::SimAlloc = seam::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    world::install_panic_hook();
    // a machine far from Greenwich
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    std::env::set_var("TZ", "<+0845>-08:45");
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = arg("--property").expect("--property");
            let thorough = arg("--tier").map(|t| t == "thorough").unwrap_or(false);
            run::check(&id, thorough, arg("--runs").map(|n| n.parse().unwrap()))
        }
        Some("replay") => run::replay(args.get(2).expect("replay file")),
        Some("trace") => {
            let id = arg("--property").expect("--property");
            run::trace(&id, arg("--idx").map(|n| n.parse().unwrap()).unwrap_or(0))
        }
        Some("hashes") => {
            let id = arg("--property").expect("--property");
            run::hashes(&id, arg("--runs").map(|n| n.parse().unwrap()).unwrap_or(10))
        }
        _ => {
            eprintln!("usage: sim check --property ID [--tier quick|thorough] [--runs N] | replay FILE | trace --property ID --idx N | hashes --property ID --runs N");
            2
        }
    };
    std::process::exit(code);
}
