//! simnear: deterministic simulation of the repository's contracts.
//!   simnear check PROPERTY [--seed N] [--tier quick|thorough] [--runs N] [--evidence FILE] [--replays DIR]
//!   simnear replay FILE
//!   simnear digest FAMILY N        (run digests, for the determinism self-test)
mod engine;
mod fam;
mod sim;
mod util;
mod world;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str| opt(k).and_then(|v| v.parse::<u64>().ok());
    let rc = match a.first().map(|s| s.as_str()) {
        Some("check") => engine::check(
            &a[1],
            num("--seed").unwrap_or(1),
            &opt("--tier").unwrap_or_else(|| "quick".into()),
            num("--runs"),
            opt("--evidence"),
            &opt("--replays").unwrap_or_else(|| "replays".into()),
            opt("--known"),
        ),
        Some("worker") => engine::worker(
            &a[1],
            engine::Work {
                seed: num("--seed").unwrap(),
                k: num("--k").unwrap(),
                n: num("--n").unwrap(),
                total: num("--total").unwrap(),
                cap: num("--cap").unwrap(),
                dir: opt("--dir").unwrap(),
            },
            opt("--known"),
        ),
        Some("replay") => engine::replay(&a[1], opt("--known")),
        Some("digest") => engine::digests(&a[1], a[2].parse().unwrap(), num("--threads").unwrap_or(8)),
        Some("run") => engine::single(&a[1], a[2].parse().unwrap(), opt("--property")),
        Some("wasm") => {
            println!("{}", fam::spec_of(&a[1]).map_or("", |s| s.contracts));
            0
        }
        _ => {
            eprintln!("usage: simnear check|replay|digest|run|wasm ...");
            2
        }
    };
    std::process::exit(rc);
}
