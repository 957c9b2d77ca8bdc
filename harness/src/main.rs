mod core1;
mod core2;
mod engine;
mod fc;
mod fcprops;
mod fcprops2;
mod fcprops3;
mod fcprops4;
mod fcprops5;
mod fcprops6;
mod lit1;
mod lit2;
mod lit3;
mod re;

use engine::*;
use std::path::PathBuf;

fn props() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(fcprops::PROPS.iter());
    v.extend(fcprops2::PROPS.iter());
    v.extend(fcprops3::PROPS.iter());
    v.extend(fcprops4::PROPS.iter());
    v.extend(fcprops5::PROPS.iter());
    v.extend(fcprops6::PROPS.iter());
    v.extend(core1::PROPS.iter());
    v.extend(core2::PROPS.iter());
    v.extend(lit1::PROPS.iter());
    v.extend(lit2::PROPS.iter());
    v.extend(lit3::PROPS.iter());
    v
}
fn find(id: &str) -> &'static Prop {
    props().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let bin = || PathBuf::from(std::env::var("VH_BIN").unwrap_or_else(|_| "/verif/target/repo/debug/litcheck".into()));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let n = std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok());
            let verif = PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()));
            let tier = a.get(3).map(|s| s.as_str()).unwrap_or("quick");
            check(find(&a[2]), tier, seed, &verif, &bin(), n)
        }
        Some("worker") => {
            let p = find(&a[2]);
            worker(
                p,
                WorkerArgs {
                    thorough: a[3] == "thorough",
                    seed: a[4].parse().unwrap(),
                    shard: a[5].parse().unwrap(),
                    nshards: a[6].parse().unwrap(),
                    cases: a[7].parse().unwrap(),
                    dir: PathBuf::from(&a[8]),
                    bin: PathBuf::from(&a[9]),
                },
            );
            0
        }
        Some("one") => one(find(&a[2]), &a[3], a[4].as_ref(), a[5].as_ref(), a[6].as_ref()),
        Some("replay") => {
            let f = PathBuf::from(&a[2]);
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&f).unwrap()).unwrap();
            replay(find(v["property"].as_str().unwrap()), &f, &bin())
        }
        Some("list") => {
            for p in props() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check <id> [quick|thorough] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
