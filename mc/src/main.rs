mod checks;
mod engine;
mod line;
mod model;
mod sess;

use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match get(1) {
        "check" => {
            let (prop, tier) = (get(2), get(3));
            let only = a.get(4).map(|s| s.as_str()).filter(|s| !s.is_empty());
            let c = checks::build(prop, tier == "thorough");
            let secs = std::env::var("LISOMC_SECS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(if tier == "thorough" { 3000 } else { 400 });
            let n = std::env::var("LISOMC_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            engine::parent(prop, tier, c, n, secs, only)
        }
        "worker" => {
            let (prop, tier) = (get(2), get(3));
            let c = checks::build(prop, tier == "thorough");
            engine::worker(
                prop,
                c,
                get(4).parse().unwrap(),
                get(5).parse().unwrap(),
                get(6).parse().unwrap(),
                &PathBuf::from(get(7)),
                a.get(8).map(|s| s.as_str()),
            )
        }
        "replay" => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(get(2)).expect("replay file")).expect("replay file");
            let c = checks::build(v["property"].as_str().unwrap(), v["tier"].as_str() == Some("thorough"));
            let code = engine::replay(c, &engine::load_case(&v)).0;
            engine::drop_scratch();
            code
        }
        "sizes" => {
            for p in checks::IDS {
                let c = checks::build(p, get(2) == "thorough");
                for f in &c.families {
                    let n = match &f.kind {
                        engine::Kind::Seq(s) => s.total,
                        engine::Kind::Sched(v) => v.len() as u64,
                    };
                    println!("{p} {} {n}", f.name);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: lisomc check ID quick|thorough [family] | replay FILE | sizes [tier]");
            2
        }
    };
    std::process::exit(code);
}
