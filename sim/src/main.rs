//! Deterministic simulation of ellalgo-rs: seeded search over schedules, reply choices and faults.
//!
//!   ellsim check  <ID> <quick|thorough> <seed> <verif-dir>
//!   ellsim replay <file>
//!   ellsim shard ... / minimise ... / verify ...   (internal, child processes)
#[macro_use]
mod ctx;
mod la;
mod problems;
mod props;
mod refs;
mod run;
mod spaces;
mod tape;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => run::check(&a[2], &a[3], a[4].parse().unwrap_or(1), &a[5]),
        Some("shard") => run::shard(&a[2..]),
        Some("minimise") => run::minimise(&a[2..]),
        Some("replay") => run::replay(&a[2], true),
        Some("verify") => run::replay(&a[2], false),
        Some("digest") => run::digest(&a[2..]),
        Some("solo") => props::sessions::solo_child(&a[2..]),
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: ellsim check <ID> <tier> <seed> <verif-dir> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
