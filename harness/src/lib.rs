//! Property-based testing of treeldr.
pub mod compile;
pub mod drv;
pub mod engine;
pub mod gen;
pub mod ints;
pub mod jsyn;
pub mod model;
pub mod props;
pub mod sys;
use engine::*;

fn find(id: &str) -> &'static Prop {
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}
/// Entry point of the harness and of the programs it generates.
pub fn run() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    let derived = drv::Source::of(&s(2)).is_some();
    if derived && !drv::installed() && matches!(s(1).as_str(), "check" | "replay" | "prebuild") {
        std::process::exit(drv::launch(&a))
    }
    let code = match s(1).as_str() {
        "worker" => worker(find(&s(2)), n(3), n(4), n(5), n(6), &s(7)),
        "case" => solo(find(&s(2)), G::random(case_seed(n(3), &s(2), n(4))), a.get(5).map(|x| x.as_str())),
        "shrink" => {
            let c = std::fs::read_to_string(s(3)).unwrap();
            shrink(find(&s(2)), c.lines().filter_map(|l| l.parse().ok()).collect())
        }
        "replay" => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(s(3)).unwrap()).unwrap();
            let p = find(&s(2));
            if let Some(sig) = j["fixed_case"].as_str() {
                quiet_panics();
                let k = p.known.iter().find(|k| k.0 == sig).unwrap();
                match std::panic::catch_unwind(k.2) {
                    Ok(Ok(())) => 0,
                    Ok(Err(m)) => {
                        println!("FAIL {m}");
                        1
                    }
                    Err(_) => {
                        println!("FAIL panic");
                        1
                    }
                }
            } else {
                let c = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                solo(p, G::replay(c), None)
            }
        }
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let thorough = s(3) == "thorough";
            check(find(&s(2)), Cfg { seed, thorough, n: a.get(4).and_then(|x| x.parse().ok()) })
        }
        "cyclic" => drv::cyclic(),
        "list" => {
            for p in props::ALL {
                println!("{} {} {} {}", p.id, p.quick, p.thorough, p.rule);
            }
            0
        }
        _ => 2,
    };
    std::process::exit(code)
}
