mod alloc;
mod engine;
mod gens;
mod kinds;
mod props;

use std::time::Duration;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    engine::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("cold") {
        // Before anything else has used BAE.
        std::process::exit(props::objects::cold(args[1].parse().unwrap_or(1)));
    }
    let props = props::all();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let code = match args.first().map(|s| s.as_str()) {
        Some("replay") => engine::replay(&props, &args[1]),
        Some("read-hex") => props::wav::read_hex(&args[1]),
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some(id) => {
            let cfg = engine::Cfg {
                seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
                tier: args.get(1).cloned().unwrap_or_else(|| env("VERIF_TIER", "quick")),
                scale: env("VERIF_SCALE", "1").parse().unwrap_or(1.0),
                out: env("VERIF_OUT", "/verif"),
                known: env("VERIF_KNOWN", "/verif/known_findings.txt"),
                only: std::env::var("VERIF_SUB").ok(),
            };
            match props.iter().find(|p| p.id == id) {
                Some(p) => {
                    // Running out of time is an error of the check, not a violation; a
                    // single case that never ends is one.
                    let thorough = cfg.tier == "thorough";
                    let stuck = Duration::from_secs(if thorough { 600 } else { 150 });
                    if std::env::var("VERIF_TRACE").is_err() {
                        engine::supervise(p, &cfg, stuck)
                    } else {
                        engine::watchdog(stuck);
                        let limit = if thorough { 6 * 3600 } else { 840 };
                        std::thread::spawn(move || {
                            std::thread::sleep(Duration::from_secs(limit));
                            eprintln!("ERROR out of time");
                            std::process::exit(2);
                        });
                        engine::run_property(p, &cfg)
                    }
                }
                None => {
                    eprintln!("no property {id}");
                    2
                }
            }
        }
        None => {
            eprintln!("usage: bae-check <property> [quick|thorough] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
