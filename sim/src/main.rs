mod core;
mod env;
mod heap;
mod model;
mod props;
mod runner;

use runner::{Env, QUICK, THOROUGH};
use std::path::PathBuf;

#[global_allocator]
static HEAP: heap::Heap = heap::Heap;

fn environment() -> Env {
    let root = std::env::var("SIM_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("."));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => THOROUGH,
        _ => QUICK,
    };
    let workers = std::env::var("SIM_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    Env { root, seed, tier, workers }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let args: Vec<&str> = args.iter().map(|v| v.as_str()).collect();
    let env = environment();
    let find = |id: &str| match props::find(id) {
        Some(v) => v,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(runner::EXIT_ERROR);
        }
    };
    let code = match &args[1..] {
        ["check", id] => runner::supervise(&env, find(id)),
        ["campaign", id] => runner::campaign(&env, find(id)),
        ["digest", id, unit] => runner::digest(find(id), env.seed, unit.parse().unwrap()),
        ["one", id, unit, k, spill] => runner::one(
            find(id),
            env.seed,
            unit.parse().unwrap(),
            k.parse().ok(),
            spill.as_ref(),
        ),
        ["replay", path, rest @ ..] => match runner::read_replay(path.as_ref()) {
            Some((id, tape)) => runner::replay(find(&id), tape, rest == ["--quiet"]),
            None => {
                eprintln!("cannot read {path}");
                runner::EXIT_ERROR
            }
        },
        ["list"] => {
            for p in props::ALL {
                println!("{} {}", p.id, p.units);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|campaign ID | replay FILE | digest ID UNIT | list");
            runner::EXIT_ERROR
        }
    };
    std::process::exit(code);
}
