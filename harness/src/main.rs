#![allow(dead_code, unused_imports)]
pub mod blob;
pub mod clock;
pub mod count;
pub mod engine;
pub mod fuzz;
pub mod peer;
mod props;
pub mod sut;
pub mod wire;

#[global_allocator]
static ALLOCATOR: count::Counting = count::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => engine::Tier::Thorough,
        _ => engine::Tier::Quick,
    };
    let code = match (args.get(1).map(|s| s.as_str()), args.get(2)) {
        (Some("check"), Some(id)) => engine::supervise(id, tier, seed),
        (Some("check-here"), Some(id)) => {
            engine::limit_memory();
            props::dispatch(id, props::Do::Check(tier, seed))
        }
        (Some("one"), Some(id)) => {
            engine::limit_memory();
            props::dispatch(id, props::Do::One(tier, seed, args[3].parse().expect("index"), args[4].clone()))
        }
        (Some("replay"), Some(file)) => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("json");
            props::dispatch(&v["property"].as_str().expect("property").to_string(), props::Do::Replay(v["case"].clone()))
        }
        (Some("serve"), Some(addr)) => {
            // A server process for C16.
            props::serve(addr.parse().expect("address"), args[3].parse().expect("number"));
            0
        }
        _ => {
            eprintln!("usage: tcv check <property> | tcv replay <file>");
            2
        }
    };
    std::process::exit(code);
}
