use vmon::ctx::{Dict, Tier};
use vmon::{registry, sup, worker};

#[global_allocator]
static A: vmon::alloc::Counting = vmon::alloc::Counting;

fn env(k: &str, d: &str) -> String {
    std::env::var(k).ok().filter(|x| !x.is_empty()).unwrap_or(d.to_string())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let all: &'static Vec<registry::Prop> = Box::leak(Box::new(registry::all()));
    if args.len() < 3 {
        eprintln!("usage: vmon check|worker ID [--case N]");
        std::process::exit(2);
    }
    let Some(p) = all.iter().find(|p| p.id == args[2]) else {
        eprintln!("no property {}", args[2]);
        std::process::exit(2);
    };
    let repo = env("VMON_REPO", "/repo");
    match args[1].as_str() {
        "worker" => {
            let tier = if env("VMON_TIER", "quick") == "quick" { Tier::Quick } else { Tier::Thorough };
            let seed = env("VMON_SEED", "1").parse().unwrap_or(1);
            let cli = if p.cli { Some(vmon::cli::Env::from_env()) } else { None };
            worker::main(p, seed, tier, Dict::scan(&repo), cli);
        }
        "check" => {
            let tier = if env("VERIF_TIER", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick };
            let only = args.iter().position(|a| a == "--case").and_then(|i| args.get(i + 1)).and_then(|x| x.parse().ok());
            let scratch = vmon::cli::make_scratch();
            if p.cli && p.id != "C13" {
                if let Err(e) = vmon::cli::install(&scratch, "build") {
                    println!("INCONCLUSIVE: {e}");
                    std::process::exit(2);
                }
            }
            let o = sup::Opts {
                seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
                tier,
                evidence: format!("evidence/{}.json", p.id),
                replays: "evidence/replays".into(),
                scratch: scratch.clone(),
                known: "known_findings.txt".into(),
                wall: env("VMON_WALL", if tier == Tier::Quick { "240" } else { "600" }).parse().unwrap_or(240),
                workers: env("VMON_WORKERS", "8").parse().unwrap_or(8),
                env: vec![],
                only,
            };
            let code = sup::check(p, &o);
            let _ = std::fs::remove_dir_all(&scratch);
            std::process::exit(code);
        }
        _ => std::process::exit(2),
    }
}
