//! Runs library cases in one process, for sanitizers and Miri. Only their reports matter here:
//! what the monitors say is counted, but decided by the other checks.
//! san none | san KIND SEED LO HI
use vmon::ctx::{Cx, Dict, Tier};
use vmon::props::p_hostile;
use vmon::worker::{quiet_panics, run_case, Verdict};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        return;
    }
    let kind = a[1].clone();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, lo, hi) = (n(2), n(3), n(4));
    let only = a.get(5).cloned();
    quiet_panics();
    let body = move || {
        let miri = kind == "miri";
        let mut cx = Cx::new(seed, Tier::Quick, if miri { Dict::default() } else { Dict::scan("/repo") });
        let (mut cases, mut held, mut other) = (0u64, 0u64, 0u64);
        let all = vmon::registry::all();
        let (mut hostile, mut first) = (0, 0);
        if kind == "tsan" || only.as_deref() == Some("cold") {
            first = vmon::props::p_cold::cold(seed * 1000 + lo, if miri { 2 } else { 6 });
        }
        for i in lo..hi {
            for p in all.iter().filter(|p| !p.cli) {
                if only.as_ref().is_some_and(|o| !o.split(',').any(|x| x == p.id)) {
                    continue;
                }
                if only.is_none() && kind == "tsan" && !["C11", "C12", "C08"].contains(&p.id) {
                    continue;
                }
                cx.tiny = miri;
                cx.small = miri || (kind == "tsan" && i % 2 == 0);
                // the first numbers of some properties are large enumerations
                let v = run_case(p, &mut cx, 1000 + i);
                cases += 1;
                match v {
                    Verdict::Held => held += 1,
                    Verdict::Violated(m) => {
                        other += 1;
                        eprintln!("note: {} case {}: {m}", p.id, 1000 + i);
                    }
                    Verdict::Harness(m) => {
                        other += 1;
                        eprintln!("HARNESS {} {m}", p.id);
                    }
                }
            }
            if only.as_ref().is_some_and(|o| !o.contains("hostile")) {
                continue;
            }
            cx.small = miri;
            cx.start("hostile", i);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p_hostile::hostile(&mut cx)));
            hostile += 1;
        }
        let g = |k: &str| cx.counts.get(k).copied().unwrap_or(0);
        println!(
            "SAN first_uses={first} cases={cases} held={held} other={other} hostile={hostile} returned={} panicked={} threads={} overlapping={}",
            g("hostile calls that returned"), g("hostile calls that panicked"), g("threads asked for"), g("calls overlapping another one")
        );
    };
    let _ = std::thread::Builder::new().stack_size(256 << 20).spawn(body).unwrap().join();
}
