mod engine;
mod clock;
mod entropy;
mod gen;
mod layouts;
mod lib_io;
mod model;
mod props;
mod refcodec;
mod refxml;

use engine::{Engine, Tier};

#[global_allocator]
static ALLOC: engine::Alloc = engine::Alloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let v: serde_json::Value = std::fs::read(&args[2])
                .ok()
                .and_then(|b| serde_json::from_slice(&b).ok())
                .expect("readable replay file");
            let id = v["property"].as_str().expect("property").to_string();
            let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let only = Some((v["phase"].as_str().expect("phase").to_string(), v["index"].as_u64().expect("index")));
            run(&id, tier, &verif, only)
        }
        Some(id) => {
            let tier = match args.get(2).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            run(id, tier, &verif, None)
        }
        None => {
            eprintln!("usage: mc <property> [quick|thorough] | mc replay <file>");
            2
        }
    };
    std::process::exit(code)
}

fn run(id: &str, tier: Tier, verif: &std::path::Path, only: Option<(String, u64)>) -> i32 {
    let Some(check) = props::find(id) else {
        eprintln!("no check for {id}");
        return 2;
    };
    let mut e = Engine::new(id, tier, verif, only);
    check(&mut e);
    e.finish()
}
