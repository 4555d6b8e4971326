#![allow(clippy::all)]
mod gen;
#[macro_use]
mod mon;
mod props;
mod rng;

fn main() {
    mon::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" => {
            let id = a.get(2).cloned().unwrap_or_default();
            let thorough = a.get(3).map(|s| s == "thorough").unwrap_or(false);
            match props::spec(&id) {
                Some(s) => mon::run_check(s, thorough, seed),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        "replay" => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("json");
            let s = props::spec(v["property"].as_str().unwrap()).unwrap();
            mon::replay(s, v["seed"].as_u64().unwrap(), v["thorough"].as_bool().unwrap_or(false), v["case"].as_u64().unwrap() as usize)
        }
        "digest" => props::digest_cmd(&a[2..], false),
        "together" => props::digest_cmd(&a[2..], true),
        "list" => {
            for s in props::all() {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vmon check ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
