//! Deterministic simulation of librezip and the rezippers tool. See ../../DESIGN.md.

mod driver;
mod gen;
mod mem;
mod props;
mod refdef;
mod rng;
mod tape;
mod world;

use std::path::PathBuf;
use std::time::Duration;

use driver::*;

fn main() {
    // errors carry backtraces if these are set, which costs time and would put line numbers into the event logs
    unsafe {
        std::env::set_var("RUST_BACKTRACE", "0");
        std::env::set_var("RUST_LIB_BACKTRACE", "0");
    }
    let args: Vec<String> = std::env::args().collect();
    world::install_panic_hook();
    let env = |k: &str| std::env::var(k).ok().filter(|s| !s.is_empty());
    let verif = PathBuf::from(env("REZIP_VERIF").unwrap_or("/verif".into()));
    let target = verif.join("target");
    let scratch = std::env::temp_dir().join(format!("rezip-sim.{}", std::process::id()));
    let d = Dirs {
        tool: env("REZIP_TOOL").map_or(target.join("cli/release/rezippers"), PathBuf::from),
        shim: env("REZIP_SHIM").map_or(target.join("shim.so"), PathBuf::from),
        verif,
        scratch,
    };
    std::fs::create_dir_all(&d.scratch).expect("scratch");
    let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = env("VERIF_TIER").filter(|t| t == "thorough").unwrap_or("quick".into());
    let workers = env("REZIP_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(8);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = props::find(&args[2]).expect("no such property");
            let thorough = tier == "thorough";
            let runs = if thorough { p.thorough } else { p.quick };
            let runs = env("REZIP_RUNS").and_then(|s| s.parse().ok()).unwrap_or(runs);
            let wall = env("REZIP_WALL").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 240 });
            check(p, &d, &Params { tier, seed, runs, workers, wall: Duration::from_secs(wall), samples: 3, evidence: true }).code
        }
        Some("replay") => replay(&PathBuf::from(&args[2]), &d),
        // the same runs at several worker counts, twice each: all event logs have to agree
        Some("determinism") => {
            let runs: u64 = args[2].parse().expect("number of runs");
            let mut bad = 0;
            for p in props::PROPS {
                let n = if p.needs_cli || p.id == "C09" { runs / 4 } else { runs };
                for s in [seed, seed + 1000] {
                    let digests: Vec<u64> = [8usize, 1, 3, 13, 8]
                        .iter()
                        .map(|workers| {
                            let wall = Duration::from_secs(3000);
                            let q = Params { tier: tier.clone(), seed: s, runs: n, workers: *workers, wall, samples: 0, evidence: false };
                            check(p, &d, &q).digest
                        })
                        .collect();
                    let same = digests.iter().all(|x| *x == digests[0]);
                    println!("{} seed {s}: {n} runs, digests {digests:x?}: {}", p.id, if same { "identical" } else { "DIFFERENT" });
                    bad += !same as i32;
                }
            }
            bad
        }
        Some("list") => {
            for p in props::PROPS {
                println!("{} {} {} {}", p.id, p.quick, p.thorough, p.needs_cli);
            }
            0
        }
        _ => {
            eprintln!("usage: rezip-sim check PROPERTY | replay FILE | list");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&d.scratch);
    std::process::exit(code);
}
