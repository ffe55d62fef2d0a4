// replay list
// replay search <contract> <seed> <seconds> <max-iters>   -> one JSON line
// replay run <replay.json>                                 -> exit 1 when the contract fails
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

static LAST: Mutex<String> = Mutex::new(String::new());

enum Outcome {
    Pass,
    Discard,
    Fail(String),
}

fn run(c: &Contract, nd: &mut Nd) -> Outcome {
    LAST.lock().unwrap().clear();
    match catch_unwind(AssertUnwindSafe(|| (c.f)(nd))) {
        Ok(()) => Outcome::Pass,
        Err(e) => {
            if e.downcast_ref::<Discard>().is_some() {
                Outcome::Discard
            } else {
                Outcome::Fail(LAST.lock().unwrap().clone())
            }
        }
    }
}

/// bytes of memory in use
fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0) * 4096
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn find(name: &str) -> &'static Contract {
    for r in registry() {
        for c in r.iter() {
            if c.name == name {
                return c;
            }
        }
    }
    eprintln!("no contract {name}");
    std::process::exit(3)
}

/// shrink the tape: shorter prefixes and smaller values that still fail
fn shrink(c: &Contract, tape: Vec<u64>, deadline: Instant) -> (Vec<u64>, String) {
    let mut best = tape;
    let mut msg = String::new();
    if let Outcome::Fail(m) = run(c, &mut Nd::from_tape(best.clone(), false)) {
        msg = m;
    }
    loop {
        let mut improved = false;
        for i in 0..best.len() {
            let v = best[i];
            for nv in [0, 1, v / 2, v.saturating_sub(1)] {
                if nv >= v || Instant::now() > deadline {
                    continue;
                }
                let mut t = best.clone();
                t[i] = nv;
                let mut nd = Nd::from_tape(t, false);
                if let Outcome::Fail(m) = run(c, &mut nd) {
                    best = nd.tape;
                    msg = m;
                    improved = true;
                    break;
                }
            }
            if i + 1 >= best.len() {
                break;
            }
        }
        if !improved || Instant::now() > deadline {
            return (best, msg);
        }
    }
}

pub fn main() {
    std::panic::set_hook(Box::new(|info| {
        *LAST.lock().unwrap() = info.to_string();
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for r in registry() {
                for c in r.iter() {
                    println!("{} {:?} {}", c.name, c.mode, c.file);
                }
            }
        }
        Some("search") => {
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let max: u64 = a[5].parse().unwrap();
            let only = find(&a[2]);
            let t0 = Instant::now();
            let from = |i: usize| a.get(i).map_or(0u64, |v| v.parse().unwrap());
            let (mut n, mut disc) = (from(6), from(7));
            // how many different tapes, counted by their hashes (a lower bound)
            let before = from(8);
            let mut distinct = std::collections::HashSet::<u64>::new();
            let mut sample = String::new();
            while n + disc < max && t0.elapsed().as_secs_f64() < secs {
                let i = n + disc;
                // the contracts leak what Kani need not drop: go on in a fresh process before memory runs low
                if i % 1024 == 1023 && resident() > 700_000_000 {
                    let left = (secs - t0.elapsed().as_secs_f64()).max(0.0);
                    use std::os::unix::process::CommandExt;
                    let e = std::process::Command::new(std::env::current_exe().unwrap())
                        .args(["search", &a[2], &a[3], &left.to_string(), &a[5]])
                        .args([n, disc + 1, before.max(distinct.len() as u64)].map(|v| v.to_string()))
                        .exec();
                    panic!("{e}");
                }
                let mut nd = Nd::seeded(seed.wrapping_mul(0x1000003).wrapping_add(i.wrapping_mul(0xD1342543DE82EF95)));
                match run(only, &mut nd) {
                    Outcome::Pass => {
                        n += 1;
                        if distinct.len() < 2_000_000 {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            std::hash::Hash::hash(&nd.tape, &mut h);
                            distinct.insert(std::hash::Hasher::finish(&h));
                        }
                        if sample.is_empty() && nd.tape.iter().any(|v| *v > 1) {
                            sample = format!("{:?}", nd.tape);
                        }
                    }
                    Outcome::Discard => disc += 1,
                    Outcome::Fail(_) => {
                        let dl = Instant::now() + std::time::Duration::from_secs(5);
                        let (tape, msg) = shrink(only, nd.tape.clone(), dl);
                        println!(
                            "{{\"contract\":\"{}\",\"result\":\"fail\",\"kani_bounds\":false,\"evaluations\":{},\"tape\":{:?},\"message\":\"{}\"}}",
                            only.name, n + disc + 1, tape, esc(&msg)
                        );
                        return;
                    }
                }
            }
            println!(
                "{{\"contract\":\"{}\",\"result\":\"pass\",\"evaluations\":{},\"discarded\":{},\"distinct\":{},\"sample\":\"{}\"}}",
                only.name, n, disc, before.max(distinct.len() as u64), sample
            );
        }
        Some("tape") => {
            // replay tape <contract> <kani_bounds 0|1> v v v ...
            let c = find(&a[2]);
            let tape: Vec<u64> = a[4..].iter().map(|s| s.parse().unwrap()).collect();
            let mut nd = Nd::from_tape(tape, a[3] == "1");
            match run(c, &mut nd) {
                Outcome::Pass => println!("{{\"contract\":\"{}\",\"result\":\"pass\"}}", c.name),
                Outcome::Discard => println!("{{\"contract\":\"{}\",\"result\":\"discard\"}}", c.name),
                Outcome::Fail(m) => {
                    println!("{{\"contract\":\"{}\",\"result\":\"fail\",\"message\":\"{}\"}}", c.name, esc(&m));
                    std::process::exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: replay list | search | tape");
            std::process::exit(2)
        }
    }
}
