//! The supervisor: deals cases to workers, watches them, gives the verdict, writes the evidence.
use crate::ctx::Tier;
use crate::registry::Prop;
use crate::sys;
use crate::worker::unesc;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct Opts {
    pub seed: u64,
    pub tier: Tier,
    pub evidence: String,
    pub replays: String,
    pub scratch: String,
    pub known: String,
    pub wall: u64,
    pub workers: usize,
    /// environment for the workers
    pub env: Vec<(String, String)>,
    pub only: Option<u64>,
}

struct W {
    child: Child,
    stdin: Option<ChildStdin>,
    cur: Option<u64>,
    cur_since: Instant,
    cpu_at_start: f64,
    last_cpu: f64,
    last_progress: Instant,
    gen: usize,
    alive: bool,
    done: bool,
}

enum Ev {
    Line(usize, usize, String),
    Eof(usize, usize),
}

pub struct Observed {
    pub evaluations: u64,
    pub sigs: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub maxs: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<String>,
    pub violations: Vec<(u64, String, String)>,
    pub harness: Vec<String>,
    pub known_hit: Vec<String>,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn spawn(p: &Prop, o: &Opts, slot: usize, gen: usize, tx: &mpsc::Sender<Ev>) -> W {
    let err = std::fs::File::create(format!("{}/worker{slot}.err", o.scratch)).expect("scratch");
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("worker")
        .arg(p.id)
        .env("VMON_SEED", o.seed.to_string())
        .env("VMON_TIER", if o.tier == Tier::Quick { "quick" } else { "thorough" })
        .env("VMON_SLOT", slot.to_string())
        .env("VMON_SCRATCH", &o.scratch)
        .envs(o.env.iter().cloned())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(err)
        .spawn()
        .expect("spawn worker");
    let stdout = child.stdout.take().unwrap();
    let stdin = child.stdin.take();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(stdout).split(b'\n') {
            match l {
                Ok(l) => {
                    if tx.send(Ev::Line(slot, gen, String::from_utf8_lossy(&l).into_owned())).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Ev::Eof(slot, gen));
    });
    let now = Instant::now();
    W { child, stdin, cur: None, cur_since: now, cpu_at_start: 0.0, last_cpu: 0.0, last_progress: now, gen, alive: true, done: false }
}

/// exit code: 0 held, 1 violated, 2 inconclusive
pub fn check(p: &'static Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let total = match o.tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    };
    let mut next = 0u64;
    let mut end = total;
    if let Some(i) = o.only {
        next = i;
        end = i + 1;
    }
    let known = std::fs::read_to_string(&o.known).unwrap_or_default();
    let keys: Vec<(String, String)> = known
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} key=", p.id)))
        .filter_map(|l| l.split_once(" :: ").map(|(a, b)| (a.to_string(), b.to_string())))
        .collect();
    let (tx, rx) = mpsc::channel();
    let n = if o.only.is_some() { 1 } else { o.workers };
    let mut ob = Observed {
        evaluations: 0,
        sigs: HashSet::new(),
        counts: BTreeMap::new(),
        maxs: BTreeMap::new(),
        sets: BTreeMap::new(),
        samples: Vec::new(),
        violations: Vec::new(),
        harness: Vec::new(),
        known_hit: Vec::new(),
    };
    let mut ws: Vec<W> = (0..n).map(|i| spawn(p, o, i, 0, &tx)).collect();
    let mut inconclusive: Vec<String> = Vec::new();
    let wall = Duration::from_secs(o.wall);
    let mut stop = false;
    let deal = |w: &mut W, next: &mut u64, end: u64, stop: bool| {
        if let Some(s) = w.stdin.as_mut() {
            let r = if *next < end && !stop {
                let lo = *next;
                let hi = (lo + p.batch).min(end);
                *next = hi;
                writeln!(s, "RUN {lo} {hi}")
            } else {
                writeln!(s, "END")
            };
            let _ = r.and_then(|_| s.flush());
        }
    };
    for w in ws.iter_mut() {
        deal(w, &mut next, end, stop);
    }
    let mut last_watch = Instant::now();
    let mut restarts = 0;
    while ws.iter().any(|w| w.alive) {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Ev::Line(s, g, l)) if ws[s].gen == g => {
                let w = &mut ws[s];
                let (k, rest) = l.split_once(' ').unwrap_or((l.as_str(), ""));
                match k {
                    "B" => {
                        w.cur = rest.parse().ok();
                        w.cur_since = Instant::now();
                        w.cpu_at_start = w.last_cpu;
                    }
                    "E" => {
                        w.cur = None;
                        ob.evaluations += 1;
                        let f: Vec<&str> = rest.split(' ').collect();
                        if f.get(2) == Some(&"1") {
                            if let Ok(x) = f[1].parse() {
                                ob.sigs.insert(x);
                            }
                        }
                    }
                    "V" | "H" => {
                        let (i, m) = rest.split_once(' ').unwrap_or((rest, ""));
                        let (m, d) = m.split_once('\t').unwrap_or((m, ""));
                        let (m, d) = (unesc(m), unesc(d));
                        if k == "H" {
                            ob.harness.push(format!("case {i}: {m}; {d}"));
                        } else if let Some((key, what)) = keys.iter().find(|(key, _)| m.contains(key.as_str())) {
                            let _ = key;
                            if !ob.known_hit.contains(what) {
                                ob.known_hit.push(what.clone());
                            }
                        } else {
                            ob.violations.push((i.parse().unwrap_or(0), m, d));
                        }
                    }
                    "S" => {
                        let (i, m) = rest.split_once(' ').unwrap_or((rest, ""));
                        if ob.samples.len() < 8 && !m.is_empty() {
                            ob.samples.push(format!("case {i}: {}", unesc(m)));
                        }
                    }
                    "D" => deal(w, &mut next, end, stop),
                    "C" | "M" | "T" => {
                        let (v, key) = rest.split_once(' ').unwrap_or((rest, ""));
                        match k {
                            "C" => *ob.counts.entry(key.to_string()).or_default() += v.parse::<u64>().unwrap_or(0),
                            "M" => {
                                let e = ob.maxs.entry(key.to_string()).or_default();
                                *e = (*e).max(v.parse().unwrap_or(0));
                            }
                            _ => ob.sets.entry(key.to_string()).or_default().extend(v.split(',').filter_map(|x| x.parse::<u64>().ok())),
                        }
                    }
                    "Q" => {
                        w.done = true;
                        w.stdin = None;
                    }
                    _ => (),
                }
            }
            Ok(Ev::Eof(s, g)) if ws[s].gen == g => {
                let st = ws[s].child.wait();
                let (done, cur) = (ws[s].done, ws[s].cur);
                ws[s].alive = false;
                if !done && !stop {
                    let err = std::fs::read_to_string(format!("{}/worker{s}.err", o.scratch)).unwrap_or_default();
                    let err: String = err.chars().take(600).collect();
                    let sig = st.as_ref().ok().and_then(|x| x.signal());
                    match (sig, cur) {
                        (Some(sig @ (4 | 6 | 7 | 8 | 11)), Some(i)) if !p.cli => {
                            let name = match sig {
                                6 => "aborted (SIGABRT)",
                                11 => "crashed (SIGSEGV)",
                                _ => "crashed",
                            };
                            ob.violations.push((i, format!("the process {name} in this case: {}", err.trim()), String::new()));
                        }
                        (Some(9), _) => inconclusive.push(format!("a worker was killed (case {cur:?}); out of memory?")),
                        _ => inconclusive.push(format!("a worker ended early ({st:?}, case {cur:?}): {}", err.trim())),
                    }
                    if ob.violations.is_empty() && restarts < 3 && inconclusive.len() < 3 {
                        restarts += 1;
                        let g = ws[s].gen + 1;
                        ws[s] = spawn(p, o, s, g, &tx);
                        deal(&mut ws[s], &mut next, end, stop);
                    }
                }
            }
            Ok(_) => (),
            Err(mpsc::RecvTimeoutError::Timeout) => (),
            Err(_) => break,
        }
        if last_watch.elapsed() > Duration::from_millis(1000) {
            last_watch = Instant::now();
            for s in 0..ws.len() {
                let w = &mut ws[s];
                if !w.alive {
                    continue;
                }
                if let Some((c, _)) = sys::cpu_of(w.child.id()) {
                    if c > w.last_cpu + 0.05 {
                        w.last_progress = Instant::now();
                    }
                    w.last_cpu = c;
                }
                if let Some(i) = w.cur {
                    let used = w.last_cpu - w.cpu_at_start;
                    if used > p.cpu as f64 && !p.cli {
                        ob.violations.push((i, format!("still running after {used:.0} s of CPU time (usual: milliseconds)"), String::new()));
                        let _ = w.child.kill();
                    } else if !p.cli && w.cur_since.elapsed() > Duration::from_secs(180) && w.last_progress.elapsed() > Duration::from_secs(150) {
                        // no CPU used at all: blocked. Believe it when it happens again.
                        let _ = w.child.kill();
                        inconclusive.push(format!("case {i} was blocked for 150 s without using CPU"));
                    }
                }
            }
        }
        if (!ob.violations.is_empty() || ob.harness.len() > 5) && !stop {
            stop = true;
            for w in ws.iter_mut() {
                let _ = w.child.kill();
            }
        }
        if t0.elapsed() > wall && !stop && next < end {
            // deal no further cases; what was observed counts
            next = end;
        }
        if t0.elapsed() > wall + Duration::from_secs(240) && !stop {
            inconclusive.push("the run did not end in time".into());
            stop = true;
            for w in ws.iter_mut() {
                let _ = w.child.kill();
            }
        }
    }
    // a case that blocked: try it again, alone
    if ob.violations.is_empty() && o.only.is_none() {
        let blocked: Vec<u64> = inconclusive
            .iter()
            .filter(|m| m.contains("was blocked"))
            .filter_map(|m| m.split(' ').nth(1).and_then(|x| x.parse().ok()))
            .collect();
        if let Some(i) = blocked.first() {
            let o2 = Opts { only: Some(*i), evidence: format!("{}/again.json", o.scratch), env: o.env.clone(), replays: o.replays.clone(),
                scratch: o.scratch.clone(), known: o.known.clone(), ..*o };
            if check(p, &o2) == 2 {
                ob.violations.push((*i, "this case blocks for ever without using CPU (twice)".into(), String::new()));
            }
        }
    }
    let wall_s = t0.elapsed().as_secs_f64();
    if o.only.is_none() {
        for (k, n) in p.floors {
            let seen = ob.counts.get(*k).copied().or(ob.maxs.get(*k).copied()).or(ob.sets.get(*k).map(|s| s.len() as u64)).unwrap_or(0);
            if seen < *n && ob.violations.is_empty() {
                inconclusive.push(format!("only {seen} {k} were observed, at least {n} are expected"));
            }
        }
    }
    write_evidence(p, o, &ob, wall_s);
    for k in &ob.known_hit {
        println!("KNOWN-FINDING: property={} {k}", p.id);
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        p.id, ob.evaluations, ob.sigs.len(), wall_s
    );
    if let Some((i, m, d)) = ob.violations.first() {
        let _ = std::fs::create_dir_all(&o.replays);
        let path = format!("{}/{}-{}-{}.json", o.replays, p.id, o.seed, i);
        let tier = if o.tier == Tier::Quick { "quick" } else { "thorough" };
        let text = format!(
            "{{\n \"property\": {},\n \"seed\": {},\n \"tier\": {},\n \"case\": {},\n \"what\": {},\n \"input\": {},\n \"rerun\": {}\n}}\n",
            jstr(p.id), o.seed, jstr(tier), i, jstr(m), jstr(d),
            jstr(&format!("VERIF_SEED={} VERIF_TIER={tier} ./check.sh {} --case {i}", o.seed, p.id))
        );
        let _ = std::fs::write(&path, text);
        println!("{m}");
        println!("  input: {d}");
        println!("VIOLATION property={} replay={path}", p.id);
        return 1;
    }
    for h in &ob.harness {
        println!("HARNESS ERROR: {h}");
    }
    for i in &inconclusive {
        println!("INCONCLUSIVE: {i}");
    }
    if !ob.harness.is_empty() || !inconclusive.is_empty() {
        return 2;
    }
    if ob.evaluations == 0 {
        println!("INCONCLUSIVE: nothing was observed");
        return 2;
    }
    0
}

fn write_evidence(p: &Prop, o: &Opts, ob: &Observed, wall_s: f64) {
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n", jstr(p.id)));
    s.push_str(&format!(" \"tier\": {},\n", jstr(if o.tier == Tier::Quick { "quick" } else { "thorough" })));
    s.push_str(&format!(" \"seed\": {},\n \"level\": {},\n", o.seed, jstr(p.level)));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", ob.evaluations, ob.sigs.len(), jstr(p.rule)));
    s.push_str("  \"observed\": {\n");
    let mut parts: Vec<String> = ob.counts.iter().map(|(k, v)| format!("   {}: {v}", jstr(k))).collect();
    parts.extend(ob.maxs.iter().map(|(k, v)| format!("   {}: {v}", jstr(k))));
    parts.extend(ob.sets.iter().map(|(k, v)| format!("   {}: {}", jstr(&format!("distinct {k}")), v.len())));
    s.push_str(&parts.join(",\n"));
    s.push_str("\n  },\n");
    let samples: Vec<String> = ob.samples.iter().map(|x| format!("   {}", jstr(x))).collect();
    s.push_str(&format!("  \"samples\": [\n{}\n  ]\n }},\n", samples.join(",\n")));
    let a: Vec<String> = p.assumptions.iter().map(|x| jstr(x)).collect();
    s.push_str(&format!(" \"assumptions\": [{}],\n", a.join(", ")));
    s.push_str(&format!(" \"wall_s\": {wall_s:.2},\n \"violations\": {}\n}}\n", ob.violations.len()));
    if let Some(d) = std::path::Path::new(&o.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(&o.evidence, s) {
        println!("cannot write {}: {e}", o.evidence);
    }
}
