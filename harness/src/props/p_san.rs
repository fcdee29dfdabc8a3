//! C13: the library's workload under AddressSanitizer, ThreadSanitizer and Miri.
//! Only reports of the sanitizers and of the interpreter, and failed checks of unsafe
//! preconditions, are violations; what the monitors say is for the other checks.
use crate::ctx::*;
use crate::sys;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const MIRI_GROUPS: &[(&str, u64)] = &[
    ("C12", 1), ("C02", 2), ("C10", 2), ("hostile", 3), ("C05", 3), ("C07", 4), ("C11", 5), ("C01", 5),
    ("C03", 5), ("cold", 1), ("C06", 4), ("C04", 6), ("C08", 6), ("C09", 6), ("C24", 6),
];
/// processes of each kind, in a repeating pattern
const PERIOD: u64 = 15 + 12 + 6;

fn run(mut c: Command, limit: u64, log: &str) -> Result<(Option<i32>, String, bool), String> {
    let f = std::fs::File::create(log).map_err(|e| format!("harness: {e}"))?;
    let g = f.try_clone().map_err(|e| format!("harness: {e}"))?;
    c.stdin(Stdio::null()).stdout(f).stderr(g);
    unsafe {
        c.pre_exec(|| {
            sys::new_session();
            sys::die_with_parent();
            Ok(())
        });
    }
    let mut child = c.spawn().map_err(|e| format!("harness: cannot run {c:?}: {e}"))?;
    let t = Instant::now();
    let (code, late) = loop {
        if let Some(s) = child.try_wait().map_err(|e| format!("harness: {e}"))? {
            break (s.code(), false);
        }
        if t.elapsed() > Duration::from_secs(limit) {
            sys::send_group(child.id(), 9);
            let _ = child.wait();
            break (None, true);
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let text = String::from_utf8_lossy(&std::fs::read(log).unwrap_or_default()).into_owned();
    Ok((code, text, late))
}

fn excerpt(t: &str, from: usize) -> String {
    t[from..].lines().take(14).map(|l| l.trim()).collect::<Vec<_>>().join(" | ").chars().take(1200).collect()
}

pub fn c13(cx: &mut Cx) -> R {
    let slot = std::env::var("VMON_SLOT").unwrap_or_default();
    let scratch = std::env::var("VMON_SCRATCH").map_err(|_| "harness: no scratch".to_string())?;
    let log = format!("{scratch}/san{slot}.log");
    let (round, k) = (cx.idx / PERIOD, cx.idx % PERIOD);
    cx.nontrivial = true;
    cx.sign64(cx.idx);
    let seed = cx.seed.to_string();
    let cmd = |kind: &str, lo: u64, hi: u64| {
        let mut c = Command::new(format!("build/{kind}/x86_64-unknown-linux-gnu/release/san"));
        c.args([kind, &seed, &lo.to_string(), &hi.to_string()]);
        c.env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:abort_on_error=0");
        c.env("TSAN_OPTIONS", "halt_on_error=1:report_thread_leaks=0:report_signal_unsafe=0");
        c
    };
    let (kind, what, c, limit) = if (15..27).contains(&k) {
        let lo = (round * 12 + k - 15) * 80;
        ("asan", "all properties".to_string(), cmd("asan", lo, lo + 80), 300)
    } else if k >= 27 {
        let lo = (round * 6 + k - 27) * 40;
        ("tsan", "concurrent calls".to_string(), cmd("tsan", lo, lo + 40), 300)
    } else {
        let (p, n) = MIRI_GROUPS[k as usize];
        ("miri", p.to_string(), miri(cx, p, round * n, n, true), 400)
    };
    cx.note(format!("{kind}: {what}, round {round}"));
    let (code, text, late) = run(c, limit, &log)?;
    if late {
        cx.count("runs cut short", 1);
        return Ok(());
    }
    if let Some(i) = text.find("unsafe precondition(s) violated") {
        return Err(format!("{kind}: {}", excerpt(&text, i)));
    }
    match kind {
        "asan" => {
            if let Some(i) = text.find("ERROR: AddressSanitizer") {
                let e = excerpt(&text, i);
                // running out of stack or memory ends the process in a defined way
                if e.contains("stack-overflow") || e.contains("out-of-memory") || e.contains("allocation-size-too-big") {
                    cx.count("runs cut short", 1);
                    return Ok(());
                }
                return Err(format!("AddressSanitizer: {e}"));
            }
        }
        "tsan" => {
            if let Some(i) = text.find("WARNING: ThreadSanitizer: ") {
                let e = excerpt(&text, i);
                if e.contains("data race") || e.contains("heap-use-after-free") || e.contains("race on") {
                    return Err(e);
                }
            }
        }
        _ => {
            if let Some(i) = text.find("error: Undefined Behavior").or(text.find("error: Data race")) {
                let e = excerpt(&text, i);
                // the aliasing model is experimental: believe it about the code under test only
                let (p, n) = MIRI_GROUPS[k as usize];
                let (_, text2, _) = run(miri(cx, p, round * n, n, false), limit, &log)?;
                let own = text[i..].lines().find(|l| l.trim_start().starts_with("-->")).is_some_and(|l| l.contains("huff_coding/src"));
                if text2.contains("error: Undefined Behavior") || own {
                    return Err(format!("Miri: {e}"));
                }
                cx.count("aliasing reports in other crates (not counted)", 1);
                return Ok(());
            }
        }
    }
    let Some(line) = text.lines().find(|l| l.starts_with("SAN ")) else {
        if code.is_none() || code == Some(134) {
            cx.count("runs cut short", 1);
            return Ok(());
        }
        let tail: Vec<&str> = text.lines().rev().take(12).collect();
        return Err(format!("harness: {kind} ended with {code:?}: {}", tail.into_iter().rev().collect::<Vec<_>>().join(" | ")));
    };
    for f in line.split(' ').skip(1) {
        if let Some((a, b)) = f.split_once('=') {
            if a != "other" {
                cx.count(&format!("{kind}: {a}"), b.parse().unwrap_or(0));
            }
        }
    }
    cx.count(&format!("{kind} processes"), 1);
    Ok(())
}

fn miri(cx: &Cx, group: &str, lo: u64, n: u64, alias: bool) -> Command {
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "--offline", "-q", "--bin", "san", "--", "miri"]);
    c.args([cx.seed.to_string(), lo.to_string(), (lo + n).to_string(), group.to_string()]);
    c.current_dir("harness");
    let build = std::env::current_dir().map(|d| d.join("build/miri")).unwrap_or_default();
    c.env("CARGO_TARGET_DIR", build);
    let model = if alias { "-Zmiri-tree-borrows" } else { "-Zmiri-disable-stacked-borrows" };
    c.env("MIRIFLAGS", format!("{model} -Zmiri-permissive-provenance -Zmiri-disable-isolation -Zmiri-preemption-rate=0.03 -Zmiri-seed={}", cx.seed * 1000 + cx.idx));
    c
}
