//! Native execution of the contracts: replay of counterexamples and search for failing inputs.
use dmi_contracts::rt::{run, Outcome, Source};
use std::time::{Duration, Instant};

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect()
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 27)
}

/// replay list | bytes NAME HEX | seed NAME SEED | search SEED MILLIS ITERATIONS NAME...
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let all = dmi_contracts::all();
    let find = |n: &str| all.iter().find(|c| c.0 == n).unwrap_or_else(|| panic!("no contract {n}")).1;
    let loud = args.get(1).map(|a| a != "search").unwrap_or(false);
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if loud && !i.payload().is::<dmi_contracts::rt::Discard>() {
            hook(i)
        }
    }));
    let one = |name: &str, source: Source| match run(find(name), source) {
        Outcome::Held => println!("HELD {name}"),
        Outcome::Discarded => println!("DISCARDED {name}"),
        Outcome::Failed(m) => {
            println!("FAILED {name}: {m}");
            std::process::exit(1)
        }
    };
    match args[1].as_str() {
        "list" => all.iter().for_each(|c| println!("{}", c.0)),
        "bytes" => one(&args[2], Source::Recorded(hex(args.get(3).map(|s| s.as_str()).unwrap_or("")), 0)),
        "seed" => one(&args[2], Source::Random(args[3].parse().unwrap())),
        "search" => {
            let seed: u64 = args[2].parse().unwrap();
            let millis: u64 = args[3].parse().unwrap();
            let iterations: u64 = args[4].parse().unwrap();
            for name in &args[5..] {
                let f = find(name);
                let start = Instant::now();
                let (mut held, mut discarded) = (0u64, 0u64);
                let mut failed = Vec::<String>::new();
                for k in 0..iterations {
                    if k % 64 == 0 && start.elapsed() > Duration::from_millis(millis) {
                        break;
                    }
                    let s = mix(seed.wrapping_mul(1 << 32).wrapping_add(k));
                    match run(f, Source::Random(s)) {
                        Outcome::Held => held += 1,
                        Outcome::Discarded => discarded += 1,
                        Outcome::Failed(m) => {
                            // one failing input per obligation
                            if !failed.contains(&m) {
                                println!("FOUND {name} {s} {}", m.replace('\n', " "));
                                failed.push(m);
                                if failed.len() > 20 {
                                    break;
                                }
                            }
                        }
                    }
                }
                println!("SEARCHED {name} held={held} discarded={discarded}");
            }
        }
        _ => panic!("usage"),
    }
}
