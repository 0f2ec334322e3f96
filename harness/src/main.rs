//! vx: bounded exhaustive exploration of PoloDB.
mod rec;
mod model;
mod util;
mod gen;
mod seq;
mod c_query;
mod c_seq;
mod c_ops;
mod c_val;
mod c_life;
mod sched;
mod lin;
mod c_conc;
mod c_crash;
mod c_fault;
mod srv;
mod c_srv;
mod c_srvwide;
mod c_py;
mod c_diff;
mod c_scale;

use rec::*;

fn registry() -> Vec<CheckDef> {
    let mut v = vec![];
    c_query::register(&mut v);
    c_seq::register(&mut v);
    c_ops::register(&mut v);
    c_val::register(&mut v);
    c_life::register(&mut v);
    c_conc::register(&mut v);
    c_crash::register(&mut v);
    c_fault::register(&mut v);
    c_srv::register(&mut v);
    c_py::register(&mut v);
    c_diff::register(&mut v);
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let defs = registry();
    let find = |id: &str| defs.iter().find(|d| d.id == id).unwrap_or_else(|| { eprintln!("unknown check {id}"); std::process::exit(2) });
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => Tier::Thorough, _ => Tier::Quick };
            let tier = match args.get(3).map(|s| s.as_str()) { Some("thorough") => Tier::Thorough, Some("quick") => Tier::Quick, _ => tier };
            std::process::exit(run_check(find(&args[2]), tier));
        }
        Some("worker") => run_worker(find(&args[2]), &args[3..]),
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).unwrap();
            std::process::exit(replay(find(j["property"].as_str().unwrap()), &args[2]));
        }
        Some("opener") => std::process::exit(c_life::opener(&args[2], args.len() > 3)),
        Some("list") => for d in &defs { println!("{} {}", d.id, d.level) },
        _ => { eprintln!("usage: vx check ID [quick|thorough] | replay FILE | list"); std::process::exit(2) }
    }
}
