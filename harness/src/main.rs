//! kcheck <property>          explore the property's domains and write the evidence
//! kcheck --replay <file>     run the cases of a replay file
//! kcheck --list              the checks and their domains
#[macro_use]
mod engine;
mod checks;
mod cffi;
mod env;
mod refm;
mod sched;
mod trace;
mod util;

use engine::Tier;
use std::time::Instant;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    let t = Instant::now();
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("KC_VERIF").unwrap_or_else(|_| "/verif".into());
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let get = |id: &str, t: Tier| {
        let c = checks::get(id, t).unwrap_or_else(|| panic!("no check {}", id));
        if engine::second() {
            c.thin()
        } else {
            c
        }
    };
    let code = match arg(1) {
        "--worker" => {
            engine::worker(&get(arg(2), tier(arg(3))), arg(4), arg(5).parse().unwrap());
            0
        }
        "--single" => {
            let cases: Vec<(u64, u64)> = arg(4)
                .split(',')
                .map(|p| {
                    let mut i = p.split('+');
                    (i.next().unwrap().parse().unwrap(), i.next().unwrap_or("1").parse().unwrap())
                })
                .collect();
            engine::single(&get(arg(2), tier(arg(3))), &cases)
        }
        "--replay" => {
            let j: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(arg(2)).expect("replay file")).expect("json");
            let cases: Vec<(u64, u64)> = j["cases"]
                .as_array()
                .unwrap()
                .iter()
                .map(|c| (c[0].as_u64().unwrap(), c[1].as_u64().unwrap()))
                .collect();
            let id = j["property"].as_str().unwrap();
            println!("{} {}", id, j["case"]);
            engine::single(&get(id, tier(j["tier"].as_str().unwrap())), &cases)
        }
        "--list" => {
            for id in checks::ids() {
                let c = get(id, tier(arg(2)));
                for d in &c.domains {
                    println!("{} {} {}", id, d.name, d.size);
                }
            }
            0
        }
        id => {
            let env = engine::Env {
                tier: tier(&std::env::var("VERIF_TIER").unwrap_or_default()),
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                verif,
            };
            engine::supervise(&get(id, env.tier), &env, t)
        }
    };
    std::process::exit(code);
}
