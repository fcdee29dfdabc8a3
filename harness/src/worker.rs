//! A worker process: runs cases it is told to run and reports what it saw.
use crate::ctx::*;
use crate::registry::Prop;
use crate::sys;
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local!(static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) });

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => (),
            }
        } else {
            o.push(c);
        }
    }
    o
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if msg.contains("unsafe precondition") || msg.contains("harness") {
            eprintln!("{msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Verdict {
    Held,
    Violated(String),
    Harness(String),
}

/// Run one case. A panic in the code under test (or in what it calls) violates the property;
/// a panic in the harness's own files is the harness's fault.
pub fn run_case(p: &Prop, cx: &mut Cx, idx: u64) -> Verdict {
    cx.start(p.id, idx);
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| (p.run)(cx))) {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(e)) if e.starts_with("harness: ") => Verdict::Harness(e),
        Ok(Err(e)) => Verdict::Violated(e),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                Verdict::Harness(format!("panic in the harness at {loc}: {msg}"))
            } else {
                Verdict::Violated(format!("panicked at {loc}: {msg}"))
            }
        }
    }
}

pub fn main(p: &'static Prop, seed: u64, tier: Tier, dict: Dict, cli: Option<crate::cli::Env>) {
    sys::die_with_parent();
    sys::limit(sys::RLIMIT_CORE, 0);
    if !p.cli {
        sys::limit(sys::RLIMIT_AS, p.mem);
    }
    let mut out = std::io::LineWriter::new(sys::private_stdout());
    quiet_panics();
    let body = move || {
        let mut cx = Cx::new(seed, tier, dict);
        cx.cli = cli;
        let stdin = std::io::stdin();
        let mut line = String::new();
        loop {
            line.clear();
            if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
                return;
            }
            let f: Vec<&str> = line.split_whitespace().collect();
            if f.first() != Some(&"RUN") {
                break;
            }
            let (lo, hi): (u64, u64) = (f[1].parse().unwrap(), f[2].parse().unwrap());
            for idx in lo..hi {
                let _ = writeln!(out, "B {idx}");
                match run_case(p, &mut cx, idx) {
                    Verdict::Held => (),
                    Verdict::Violated(m) => {
                        let _ = writeln!(out, "V {idx} {}\t{}", esc(&m), esc(&cx.desc));
                    }
                    Verdict::Harness(m) => {
                        let _ = writeln!(out, "H {idx} {}\t{}", esc(&m), esc(&cx.desc));
                    }
                }
                if idx < 3 || idx % 997 == 1 {
                    let _ = writeln!(out, "S {idx} {}", esc(&cx.desc));
                }
                let _ = writeln!(out, "E {idx} {} {}", cx.sig, cx.nontrivial as u8);
            }
            let _ = writeln!(out, "D");
        }
        for (k, v) in &cx.counts {
            let _ = writeln!(out, "C {v} {k}");
        }
        for (k, v) in &cx.maxs {
            let _ = writeln!(out, "M {v} {k}");
        }
        for (k, s) in &cx.sets {
            let v: Vec<String> = s.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(out, "T {} {k}", v.join(","));
        }
        let _ = writeln!(out, "Q");
    };
    let h = std::thread::Builder::new().stack_size(p.stack).spawn(body).expect("thread");
    let _ = h.join();
}
