//! Running the huff binary as a black box: scratch files, snapshots, faults, traces.
use crate::sys;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// What a worker needs to run huff
#[derive(Clone)]
pub struct Env {
    /// this worker's directory
    pub dir: PathBuf,
    /// optimized and plain builds of huff, the fault injector
    pub fast: PathBuf,
    pub plain: PathBuf,
    pub shim: PathBuf,
    /// the unprivileged user that runs huff, if that works here
    pub uid: Option<u32>,
}

pub const NOBODY: u32 = 65534;

impl Env {
    pub fn from_env() -> Env {
        let scratch = PathBuf::from(std::env::var("VMON_SCRATCH").expect("harness: no scratch"));
        let slot = std::env::var("VMON_SLOT").unwrap_or("0".into());
        let dir = scratch.join(format!("w{slot}"));
        let _ = std::fs::create_dir_all(&dir);
        let bin = scratch.join("bin");
        let mut e = Env { dir, fast: bin.join("huff2"), plain: bin.join("huff0"), shim: bin.join("fault.so"), uid: None };
        let mut c = Command::new("/bin/true");
        c.uid(NOBODY).gid(NOBODY);
        if c.status().is_ok_and(|s| s.success()) {
            e.uid = Some(NOBODY);
        }
        e
    }
    /// An empty directory that huff may write in
    pub fn fresh(&self) -> PathBuf {
        let d = self.dir.join("d");
        remove(&d);
        mkdir(self, &d);
        let o = self.dir.join("o");
        if !o.exists() {
            mkdir(self, &o);
        }
        d
    }
}

pub fn remove(p: &Path) {
    if p.symlink_metadata().is_ok() {
        // directories without permissions
        fn open_up(p: &Path) {
            if let Ok(m) = p.symlink_metadata() {
                if m.is_dir() {
                    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
                    if let Ok(rd) = std::fs::read_dir(p) {
                        for e in rd.flatten() {
                            open_up(&e.path());
                        }
                    }
                }
            }
        }
        open_up(p);
        let _ = std::fs::remove_dir_all(p);
    }
}

pub fn mkdir(e: &Env, d: &Path) {
    std::fs::create_dir_all(d).expect("harness: mkdir");
    own(e, d);
}

/// Give a file to the user that runs huff
pub fn own(e: &Env, p: &Path) {
    if let Some(u) = e.uid {
        std::os::unix::fs::lchown(p, Some(u), Some(u)).expect("harness: chown");
    }
}

pub fn put(e: &Env, p: &Path, content: &[u8]) {
    std::fs::write(p, content).unwrap_or_else(|x| panic!("harness: write {p:?}: {x}"));
    own(e, p);
}

pub fn symlink(e: &Env, target: &Path, link: &Path) {
    std::os::unix::fs::symlink(target, link).unwrap_or_else(|x| panic!("harness: symlink {link:?}: {x}"));
    own(e, link);
}

/// A fresh scratch directory, in memory if possible
pub fn make_scratch() -> String {
    for base in ["/dev/shm", "/tmp"] {
        let d = format!("{base}/vmon-{}-{}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|x| x.subsec_nanos()).unwrap_or(0));
        if std::fs::create_dir(&d).is_ok() {
            let _ = std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755));
            return d;
        }
    }
    panic!("no scratch directory");
}

/// Copy the binaries to where the unprivileged user can run them
pub fn install(scratch: &str, build: &str) -> Result<(), String> {
    let bin = format!("{scratch}/bin");
    std::fs::create_dir_all(&bin).map_err(|e| e.to_string())?;
    for (from, to) in [("huff2/debug/huff", "huff2"), ("huff0/debug/huff", "huff0"), ("fault.so", "fault.so")] {
        let t = format!("{bin}/{to}");
        std::fs::copy(format!("{build}/{from}"), &t).map_err(|e| format!("{from}: {e}"))?;
        let _ = std::fs::set_permissions(&t, std::fs::Permissions::from_mode(0o755));
    }
    let _ = std::fs::set_permissions(&bin, std::fs::Permissions::from_mode(0o755));
    Ok(())
}

// ------------------------------------------------------------------ snapshots

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Entry {
    File(Vec<u8>, u32),
    Dir(u32),
    Link(PathBuf),
    Other,
}

pub type Snap = BTreeMap<PathBuf, Entry>;

pub fn snapshot(root: &Path) -> Snap {
    let mut m = Snap::new();
    let mut work = vec![root.to_path_buf()];
    while let Some(d) = work.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let p = e.path();
            let Ok(md) = p.symlink_metadata() else { continue };
            let rel = p.strip_prefix(root).unwrap().to_path_buf();
            let v = if md.file_type().is_symlink() {
                Entry::Link(std::fs::read_link(&p).unwrap_or_default())
            } else if md.is_dir() {
                work.push(p.clone());
                Entry::Dir(md.mode() & 0o7777)
            } else if md.is_file() {
                Entry::File(std::fs::read(&p).unwrap_or_default(), md.mode() & 0o7777)
            } else {
                Entry::Other
            };
            m.insert(rel, v);
        }
    }
    m
}

fn brief(e: Option<&Entry>) -> String {
    match e {
        None => "missing".into(),
        Some(Entry::File(c, m)) => {
            let h: String = c.iter().take(12).map(|b| format!("{b:02x}")).collect();
            format!("a file of {} bytes ({h}.., mode {m:o})", c.len())
        }
        Some(Entry::Dir(m)) => format!("a directory (mode {m:o})"),
        Some(Entry::Link(t)) => format!("a link to {t:?}"),
        Some(Entry::Other) => "something else".into(),
    }
}

/// What changed between two snapshots, except for the given paths
pub fn changes(a: &Snap, b: &Snap, except: &[&Path]) -> Vec<String> {
    let mut out = Vec::new();
    let keys: std::collections::BTreeSet<&PathBuf> = a.keys().chain(b.keys()).collect();
    for k in keys {
        if except.iter().any(|x| *x == k.as_path()) {
            continue;
        }
        if a.get(k) != b.get(k) {
            out.push(format!("{k:?}: before {}, after {}", brief(a.get(k)), brief(b.get(k))));
        }
    }
    out
}

pub fn file(s: &Snap, p: &Path) -> Option<Vec<u8>> {
    match s.get(p) {
        Some(Entry::File(c, _)) => Some(c.clone()),
        _ => None,
    }
}

// ------------------------------------------------------------------ running huff

#[derive(Clone, PartialEq, Debug)]
pub enum Stdin {
    /// nothing: end of input at once
    Closed,
    Bytes(Vec<u8>),
    /// an input on which nothing ever comes
    Held,
}

pub struct Run {
    pub args: Vec<OsString>,
    pub cwd: PathBuf,
    pub plain: bool,
    pub stdin: Stdin,
    pub plan: String,
    pub trace: bool,
    /// CPU seconds
    pub cpu: u64,
    /// largest file it may write
    pub fsize: Option<u64>,
    /// kill it after this many microseconds
    pub kill_after: Option<u64>,
    /// standard input and output are a terminal
    pub tty: bool,
    /// environment variables besides PATH
    pub vars: Vec<(OsString, OsString)>,
    /// the directory for its output (each of several at the same time has one)
    pub slot: &'static str,
}

/// What a user types; at the end, the end of input
struct Typing(std::fs::File);
impl Write for Typing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Drop for Typing {
    fn drop(&mut self) {
        let _ = self.0.write_all(&[4, 4]);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Code(i32),
    Signal(i32),
    /// it used up its CPU time
    Spinning,
    /// it waits and will not go on by itself
    Waiting,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub n: u64,
    pub class: char,
    pub fd: i64,
    pub want: i64,
    pub ret: i64,
    pub errno: i64,
    pub path: String,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub end: End,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub events: Vec<Event>,
    pub stdin_reads: u64,
    /// how many reads of standard input were interrupted
    pub stdin_eintr: u64,
    /// peak resident memory, kB (with trace, on a normal end)
    pub hwm: Option<u64>,
    pub secs: f64,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.end == End::Code(0)
    }
    /// a failure status, whichever
    pub fn failed(&self) -> bool {
        matches!(self.end, End::Code(c) if c != 0)
    }
    /// Is anything said on the error output, besides that there is an error?
    pub fn has_message(&self) -> bool {
        let e = String::from_utf8_lossy(&self.stderr).replace("Error", "").replace("error", "");
        e.chars().filter(|c| c.is_alphanumeric()).count() >= 3
    }
    pub fn panicked(&self) -> bool {
        self.end == End::Code(101) || String::from_utf8_lossy(&self.stderr).contains("panicked at")
    }
    pub fn show(&self) -> String {
        let e = String::from_utf8_lossy(&self.stderr);
        let o = String::from_utf8_lossy(&self.stdout);
        format!("{:?}, stdout {:?}, stderr {:?}", self.end, o.chars().take(200).collect::<String>(), e.chars().take(300).collect::<String>())
    }
}

impl Run {
    pub fn new(cwd: &Path, args: &[&dyn AsRef<OsStr>]) -> Run {
        Run {
            args: args.iter().map(|a| a.as_ref().to_os_string()).collect(),
            cwd: cwd.to_path_buf(),
            plain: false,
            stdin: Stdin::Closed,
            plan: String::new(),
            trace: false,
            cpu: 20,
            fsize: None,
            kill_after: None,
            tty: false,
            vars: Vec::new(),
            slot: "o",
        }
    }
    pub fn show(&self) -> String {
        let a: Vec<String> = self.args.iter().map(|x| {
            let s = x.to_string_lossy();
            if !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "./-_".contains(c)) { s.into_owned() } else { format!("{x:?}") }
        }).collect();
        let mut s = format!("huff {}", a.join(" "));
        if self.tty {
            s.push_str(" [on a terminal]");
        }
        if !self.plan.is_empty() {
            s.push_str(&format!(" [faults {}]", self.plan));
        }
        s
    }

    pub fn start(&self, e: &Env) -> Result<Going, String> {
        let o = e.dir.join(self.slot);
        if !o.exists() {
            mkdir(e, &o);
        }
        let (po, pe, pt) = (o.join("stdout"), o.join("stderr"), o.join("trace"));
        let _ = std::fs::remove_file(&pt);
        let mk = |p: &Path| std::fs::File::create(p).map_err(|x| format!("harness: {p:?}: {x}"));
        let mut c = Command::new(if self.plain { &e.plain } else { &e.fast });
        c.args(&self.args).current_dir(&self.cwd).env_clear().stdout(mk(&po)?).stderr(mk(&pe)?);
        c.stdin(if self.stdin == Stdin::Closed { Stdio::null() } else { Stdio::piped() });
        let mut held: Option<Box<dyn Write + Send>> = None;
        let mut reader = None;
        let tty = if self.tty { sys::terminal() } else { None };
        let on_tty = tty.is_some();
        if let Some((user, prog)) = tty {
            let dup = |f: &std::fs::File| f.try_clone().map_err(|x| format!("harness: {x}"));
            c.stdin(dup(&prog)?).stdout(prog);
            held = Some(Box::new(Typing(dup(&user)?)));
            let mut log = mk(&po)?;
            // (ends when no process has the terminal open)
            reader = Some(std::thread::spawn(move || {
                let mut user = user;
                let mut b = [0; 4096];
                while let Ok(n) = std::io::Read::read(&mut user, &mut b) {
                    if n == 0 || log.write_all(&b[..n]).is_err() {
                        break;
                    }
                }
            }));
        }
        c.env("PATH", "/usr/bin:/bin").envs(self.vars.iter().map(|(a, b)| (a, b)));
        if self.trace || !self.plan.is_empty() {
            c.env("LD_PRELOAD", &e.shim).env("VMON_OUT", &pt);
            if !self.plan.is_empty() {
                c.env("VMON_PLAN", &self.plan);
            }
        }
        if let Some(u) = e.uid {
            c.uid(u).gid(u);
        }
        let (cpu, fsize) = (self.cpu, self.fsize);
        unsafe {
            c.pre_exec(move || {
                sys::die_with_parent();
                if on_tty {
                    sys::own_terminal();
                }
                sys::limit(sys::RLIMIT_CORE, 0);
                sys::limit2(sys::RLIMIT_CPU, cpu, cpu + 5);
                if let Some(f) = fsize {
                    sys::limit(sys::RLIMIT_FSIZE, f);
                }
                Ok(())
            });
        }
        let t = Instant::now();
        let mut child = c.spawn().map_err(|x| format!("harness: cannot start huff: {x}"))?;
        drop(c); // (closes our copy of the terminal)
        if let Some(s) = child.stdin.take() {
            held = Some(Box::new(s));
        }
        if let Stdin::Bytes(b) = &self.stdin {
            if let Some(mut s) = held.take() {
                let _ = s.write_all(b);
            }
        }
        if self.stdin == Stdin::Closed {
            held = None;
        }
        Ok(Going { pid: child.id(), held, reader, on_tty, t, limit: Duration::from_secs(self.cpu.max(66) * 3), po, pe, pt, done: None })
    }

    pub fn go(&self, e: &Env) -> Result<Out, String> {
        let mut g = self.start(e)?;
        if let Some(us) = self.kill_after {
            std::thread::sleep(Duration::from_micros(us));
            sys::send_signal(g.pid, 9);
        }
        g.finish(self.stdin == Stdin::Held)
    }
}

/// A huff that is running
pub struct Going {
    limit: Duration,
    pub pid: u32,
    pub held: Option<Box<dyn Write + Send>>,
    reader: Option<std::thread::JoinHandle<()>>,
    pub on_tty: bool,
    t: Instant,
    po: PathBuf,
    pe: PathBuf,
    pt: PathBuf,
    done: Option<i32>,
}

impl Going {
    pub fn stdout(&self) -> Vec<u8> {
        std::fs::read(&self.po).unwrap_or_default()
    }
    pub fn poll(&mut self) -> bool {
        if self.done.is_none() {
            self.done = sys::try_wait(self.pid).map(|x| x.0);
        }
        self.done.is_some()
    }
    /// Wait until it has stopped (true) or ended (false)
    pub fn stopped(&mut self) -> Result<bool, String> {
        let mut nap = 100;
        loop {
            if self.poll() {
                return Ok(false);
            }
            if sys::cpu_of(self.pid).is_some_and(|x| x.1 == 'T') {
                return Ok(true);
            }
            if self.t.elapsed() > self.limit {
                return Err("harness: huff neither stopped nor ended".into());
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 5 / 4).min(5_000);
        }
    }
    pub fn resume(&self) {
        sys::send_signal(self.pid, 18);
    }
    /// Do all its threads sleep? (It may still be on its way)
    fn asleep(&self) -> bool {
        let Ok(rd) = std::fs::read_dir(format!("/proc/{}/task", self.pid)) else { return false };
        rd.flatten().all(|t| {
            let s = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
            s.rfind(')').and_then(|i| s[i + 1..].trim_start().chars().next()) == Some('S')
        })
    }
    /// Wait until it has ended, or waits for something and makes no progress. true: ended.
    pub fn settle(&mut self, quiet: Duration) -> Result<bool, String> {
        let mut since: Option<(Instant, f64)> = None;
        let mut nap = 200;
        loop {
            if self.poll() {
                return Ok(true);
            }
            if self.asleep() {
                let cpu = sys::cpu_of(self.pid).map(|x| x.0).unwrap_or(0.0);
                match since {
                    Some((t, c)) if c == cpu => {
                        if t.elapsed() > quiet {
                            return Ok(false);
                        }
                    }
                    _ => since = Some((Instant::now(), cpu)),
                }
            } else {
                since = None;
            }
            if self.t.elapsed() > self.limit {
                sys::send_signal(self.pid, 9);
                sys::wait(self.pid);
                return Err("harness: huff did not end in time".into());
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 5 / 4).min(20_000);
        }
    }
    pub fn answer(&mut self, b: &[u8]) {
        if let Some(mut h) = self.held.take() {
            let _ = h.write_all(b);
        }
    }
    /// Wait for the end. With `wait_counts` a process that only waits is reported as such.
    pub fn finish(&mut self, wait_counts: bool) -> Result<Out, String> {
        let mut waiting = false;
        if wait_counts {
            if !self.settle(Duration::from_secs(8))? {
                waiting = true;
            }
        } else {
            self.held = None;
            // nothing to wait for: if it does not end by itself it uses up its CPU time
            if !self.settle(Duration::from_secs(90))? {
                waiting = true;
            }
        }
        if waiting && !self.poll() {
            sys::send_signal(self.pid, 9);
            sys::wait(self.pid);
            self.done = Some(9);
        }
        if let Some(r) = self.reader.take() {
            let _ = r.join();
        }
        let st = self.done.unwrap_or(0);
        let end = if waiting {
            End::Waiting
        } else if st & 0x7f == 0 {
            End::Code((st >> 8) & 0xff)
        } else if st & 0x7f == 24 {
            End::Spinning
        } else {
            End::Signal(st & 0x7f)
        };
        let mut events = Vec::new();
        let (mut stdin_reads, mut stdin_eintr, mut hwm) = (0, 0, None);
        if let Ok(t) = std::fs::read(&self.pt) {
            for l in String::from_utf8_lossy(&t).lines() {
                let f: Vec<&str> = l.splitn(7, ' ').collect();
                match f[0] {
                    "i" => stdin_reads += 1,
                    "a" => stdin_eintr += 1,
                    "H" => hwm = f.get(1).and_then(|x| x.parse().ok()),
                    _ if f.len() == 7 => {
                        let n = |i: usize| f[i].parse::<i64>().unwrap_or(-99);
                        events.push(Event {
                            n: n(0) as u64,
                            class: f[1].chars().next().unwrap_or('?'),
                            fd: n(2),
                            want: n(3),
                            ret: n(4),
                            errno: n(5),
                            path: f[6].to_string(),
                        });
                    }
                    _ => (),
                }
            }
        }
        let out = Out {
            end,
            stdout: std::fs::read(&self.po).unwrap_or_default(),
            stderr: std::fs::read(&self.pe).unwrap_or_default(),
            events,
            stdin_reads,
            stdin_eintr,
            hwm,
            secs: self.t.elapsed().as_secs_f64(),
        };
        let err = String::from_utf8_lossy(&out.stderr);
        if err.contains("error while loading shared libraries") || err.contains("cannot be preloaded") {
            return Err(format!("harness: {err}"));
        }
        Ok(out)
    }
}

impl Drop for Going {
    fn drop(&mut self) {
        if !self.poll() {
            sys::send_signal(self.pid, 9);
            sys::wait(self.pid);
        }
    }
}

// ------------------------------------------------------------------ expectations

/// Decode an archive with the harness's own reader
pub fn decode_archive(a: &[u8]) -> Result<Vec<u8>, &'static str> {
    crate::oracle::parse_container(a, 1).map(|c| c.decode_bytes())
}

/// Is this a complete archive of the content? (any tree)
pub fn is_archive_of(a: &[u8], content: &[u8]) -> Result<(), String> {
    match decode_archive(a) {
        Err(e) => Err(format!("it is no archive ({e}; {} bytes)", a.len())),
        Ok(d) if d == content => Ok(()),
        Ok(d) => {
            let i = d.iter().zip(content).position(|(x, y)| x != y).unwrap_or(d.len().min(content.len()));
            Err(format!("it decodes to {} bytes, the file has {}; first difference at {i}", d.len(), content.len()))
        }
    }
}

pub fn os(b: &[u8]) -> OsString {
    OsStr::from_bytes(b).to_os_string()
}
