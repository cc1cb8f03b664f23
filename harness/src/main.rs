//! Property checks of the `iri-string` crate.
//!
//! `iri-verif check <ID> [--tier quick|thorough]`, `iri-verif replay <FILE>`,
//! `iri-verif list`, `iri-verif transcript <SEED> <N>`.

mod abnf;
mod cputime;
mod dict;
#[macro_use]
mod engine;
mod gen;
mod model;
mod peer;
mod props;
mod rfc;
mod tplmodel;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(String::as_str) {
        Some("check") => {
            let id = args.get(1).expect("property id");
            let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            if let Some(p) = args.iter().position(|a| a == "--tier") {
                tier = args[p + 1].clone();
            }
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let prop = props::find(id);
            engine::check(prop, seed, tier == "thorough").exit
        }
        Some("attempt") => engine::attempt(props::find(&args[1])),
        Some("replay") => {
            let s = std::fs::read_to_string(&args[1]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("replay file must be JSON");
            engine::replay(props::find(v["property"].as_str().unwrap()), &v)
        }
        Some("dict") => {
            dict::print();
            0
        }
        Some("list") => {
            for p in props::ALL {
                println!("{} {}", p.id, p.rule);
            }
            0
        }
        _ => {
            eprintln!("usage: iri-verif check <ID> [--tier quick|thorough] | replay <FILE> | list");
            2
        }
    };
    std::process::exit(code);
}
