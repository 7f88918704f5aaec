//! Runtime monitors for cesride: the framework, the reference models and one module per group of properties.
pub mod cesr;
pub mod fw;
pub mod jsn;
pub mod p_codec;
pub mod p_conc;
pub mod p_digest;
pub mod p_said;
pub mod p_prefix;
pub mod p_sign;
pub mod p_tholder;
pub mod p_wipe;
pub mod p_text;
pub mod p_data;
pub mod p_pather;
pub mod p_serder;
pub mod p_total;
pub mod p_version;
pub mod p_salt;
pub mod suites;
pub mod types;
pub mod vectors;


use std::time::Duration;

pub fn all() -> Vec<fw::Property> {
    let mut v = vec![];
    v.extend(p_codec::properties());
    v.extend(p_conc::properties());
    v.extend(p_tholder::properties());
    v.extend(p_wipe::properties());
    v.extend(p_text::properties());
    v.extend(p_data::properties());
    v.extend(p_pather::properties());
    v.extend(p_serder::properties());
    v.extend(p_total::properties());
    v.extend(p_version::properties());
    v.extend(p_salt::properties());
    v.extend(p_prefix::properties());
    v.extend(p_said::properties());
    v.extend(p_digest::properties());
    v.extend(p_sign::properties());
    v
}

fn env(n: &str) -> Option<String> {
    std::env::var(n).ok().filter(|s| !s.is_empty())
}

/// the command line of a monitor program over the given properties
pub fn run(all: fn() -> Vec<fw::Property>) {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    fw::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = env("CESR_VERIF").unwrap_or_else(|| "/verif".into());
    let mut seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let mut thorough = env("VERIF_TIER").as_deref() == Some("thorough");
    let mut id = args.first().cloned().unwrap_or_default();
    let mut replay = None;
    if id == "list" {
        for p in all() {
            println!("{}", p.id);
        }
        return;
    }
    if id == "fresh" {
        return p_salt::fresh_child();
    }
    if id == "replay" {
        let text = std::fs::read_to_string(&args[1]).expect("replay file");
        let j: serde_json::Value = serde_json::from_str(&text).expect("replay json");
        id = j["property"].as_str().unwrap_or("").to_string();
        seed = j["seed"].as_u64().unwrap_or(1);
        thorough = j["tier"].as_str() == Some("thorough");
        replay = Some((j["section"].as_str().unwrap_or("").to_string(), j["index"].as_u64().unwrap_or(0)));
    }
    if let Some(r) = env("CESR_REPLAY") {
        let (s, i) = r.rsplit_once('#').expect("section#index");
        replay = Some((s.to_string(), i.parse().expect("index")));
    }
    let props = all();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        println!("no monitor for {id}");
        std::process::exit(2);
    };
    let threads = env("CESR_THREADS").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
    });
    let limit = Duration::from_secs(env("CESR_BUDGET").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 240 }));
    if env("CESR_WORKER").is_none() && replay.is_none() && env("CESR_SECTION").is_none() {
        std::process::exit(fw::supervise(p, &verif, seed, thorough, limit + Duration::from_secs(120)));
    }
    let slots = env("CESR_SLOTS").and_then(|s| std::fs::OpenOptions::new().write(true).open(s).ok());
    let opts = fw::Opts {
        verif,
        seed,
        thorough,
        replay,
        slots,
        threads,
        budget: limit,
        section: env("CESR_SECTION"),
    };
    std::process::exit(fw::worker(p, &opts));
}
