//! What a case sees: its random numbers, its size limits, and where it records observations.
use crate::rng::{fnv, Rng};
use std::collections::{BTreeMap, HashSet};

/// Err(text) means: the property is violated, and this is how.
pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Cx {
    pub rng: Rng,
    pub seed: u64,
    pub idx: u64,
    pub tier: Tier,
    /// small inputs only (interpreters and sanitizers)
    pub small: bool,
    /// even smaller (Miri)
    pub tiny: bool,
    pub dict: Dict,
    pub desc: String,
    pub nontrivial: bool,
    pub sig: u64,
    pub counts: BTreeMap<String, u64>,
    pub maxs: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub cli: Option<crate::cli::Env>,
}

impl Cx {
    pub fn new(seed: u64, tier: Tier, dict: Dict) -> Self {
        Cx {
            rng: Rng::new(seed, "", 0),
            seed,
            idx: 0,
            tier,
            small: false,
            tiny: false,
            dict,
            desc: String::new(),
            nontrivial: false,
            sig: 0,
            counts: BTreeMap::new(),
            maxs: BTreeMap::new(),
            sets: BTreeMap::new(),
            cli: None,
        }
    }
    pub fn start(&mut self, id: &str, idx: u64) {
        self.rng = Rng::new(self.seed, id, idx);
        self.idx = idx;
        self.desc.clear();
        self.nontrivial = false;
        self.sig = 0xcbf2_9ce4_8422_2325;
    }
    pub fn sign(&mut self, data: &[u8]) {
        self.sig = fnv(data, self.sig);
    }
    pub fn sign64(&mut self, d: u64) {
        self.sign(&d.to_le_bytes());
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.desc.len() < 1500 {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(s.as_ref());
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        match self.maxs.get_mut(k) {
            Some(v) => *v = n.max(*v),
            None => {
                self.maxs.insert(k.to_string(), n);
            }
        }
    }
    /// a distinct observed value
    pub fn seen(&mut self, k: &str, v: u64) {
        if !self.sets.contains_key(k) {
            self.sets.insert(k.to_string(), HashSet::new());
        }
        let s = self.sets.get_mut(k).unwrap();
        if s.len() < 100_000 {
            s.insert(v);
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

/// Integer and string literals of the code under test. They only steer workloads (sizes,
/// counts and contents near the constants the code mentions), never verdicts.
#[derive(Clone, Default, Debug)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}

impl Dict {
    pub fn scan(root: &str) -> Dict {
        let mut files = Vec::new();
        let mut dirs = vec![std::path::PathBuf::from(root)];
        while let Some(d) = dirs.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            es.sort();
            for p in es {
                let name = p.file_name().unwrap_or_default().to_string_lossy().to_string();
                if name == "target" || name == "tests" || name.starts_with('.') {
                    continue;
                }
                if p.is_dir() {
                    dirs.push(p);
                } else if name.ends_with(".rs") {
                    files.push(p);
                }
            }
        }
        let mut d = Dict::default();
        for f in files {
            if let Ok(t) = std::fs::read_to_string(&f) {
                for line in t.lines() {
                    let l = line.trim();
                    if !l.starts_with("//") {
                        d.scan_line(l);
                    }
                }
            }
        }
        d.ints.sort_unstable();
        d.ints.dedup();
        d.strs.sort();
        d.strs.dedup();
        d
    }
    fn scan_line(&mut self, l: &str) {
        // strings
        let mut rest = l;
        while let Some(p) = rest.find('"') {
            let tail = &rest[p + 1..];
            let Some(q) = tail.find('"') else { break };
            if q > 0 && q < 200 {
                self.strs.push(tail.as_bytes()[..q].to_vec());
            }
            rest = &tail[q + 1..];
        }
        // integers; "a << b", "a * b" and "a.pow(b)" are also taken as the result
        let b = l.as_bytes();
        let mut i = 0;
        let mut prev: Option<(u64, usize)> = None;
        while i < b.len() {
            let start_ok = i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
            if b[i].is_ascii_digit() && start_ok {
                let s = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                let mut t: String = l[s..i].chars().filter(|c| *c != '_').collect();
                for suf in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
                    if let Some(x) = t.strip_suffix(suf) {
                        t = x.to_string();
                        break;
                    }
                }
                let v = if let Some(h) = t.strip_prefix("0x") {
                    u64::from_str_radix(h, 16)
                } else if let Some(h) = t.strip_prefix("0b") {
                    u64::from_str_radix(h, 2)
                } else if let Some(h) = t.strip_prefix("0o") {
                    u64::from_str_radix(h, 8)
                } else {
                    t.parse()
                };
                if let Ok(v) = v {
                    self.ints.push(v);
                    if let Some((pv, pe)) = prev {
                        let between: String = l[pe..s].chars().filter(|c| !c.is_whitespace()).collect();
                        let r = match between.as_str() {
                            "<<" if v < 64 => pv.checked_shl(v as u32),
                            "*" => pv.checked_mul(v),
                            ".pow(" => pv.checked_pow(v.min(64) as u32),
                            "-" => pv.checked_sub(v),
                            "+" => pv.checked_add(v),
                            _ => None,
                        };
                        self.ints.extend(r);
                    }
                    prev = Some((v, i));
                }
            } else {
                i += 1;
            }
        }
    }
    /// a number near a constant of the code, at most max
    pub fn near(&self, rng: &mut Rng, max: u64) -> Option<u64> {
        let n = self.ints.partition_point(|x| *x <= max);
        if n == 0 {
            return None;
        }
        let v = self.ints[rng.below(n as u64) as usize];
        let v = match rng.below(8) {
            0 => v.saturating_sub(1),
            1 | 2 => v + 1,
            3 => v.saturating_mul(2),
            4 => v.saturating_mul(8),
            5 => v.saturating_mul(v.min(256)),
            _ => v,
        };
        Some(v.min(max))
    }
}

/// Whatever way an iterator is used, it gives what repeated next() gives
pub fn iterator_laws<I: Iterator, K: PartialEq>(cx: &mut Cx, what: &str, make: impl Fn() -> I, key: impl Fn(I::Item) -> K) -> R {
    let mut all = Vec::new();
    let mut it = make();
    while let Some(x) = it.next() {
        all.push(key(x));
        ensure!(all.len() < 5000, "{what} does not end");
    }
    let n = all.len();
    let at = |r: &mut Rng| r.range(0, n + 1);
    for _ in 0..4 {
        // after some of them have been taken
        let from = if cx.rng.chance(1, 4) { 0 } else { at(&mut cx.rng) };
        let rest = &all[from.min(n)..];
        let start = || {
            let mut it = make();
            for _ in 0..from {
                it.next();
            }
            it
        };
        let (lo, hi) = start().size_hint();
        ensure!(lo <= rest.len() && hi.is_none_or(|h| h >= rest.len()), "{what}: after {from} of {n} items the size hint is ({lo}, {hi:?})");
        let k = match cx.rng.below(8) {
            0 => usize::MAX,
            1 => 255 + cx.rng.range(0, 3),
            _ => at(&mut cx.rng),
        };
        match cx.rng.below(9) {
            0 => {
                let mut it = start();
                ensure!(it.nth(k).map(&key).as_ref() == rest.get(k), "{what}: nth({k}) after {from} of {n} items is another one");
                let left = rest.len().saturating_sub(k.saturating_add(1));
                let more: Vec<_> = it.map(&key).collect();
                ensure!(more == rest[rest.len() - left..], "{what}: after {from} of {n} items and nth({k}) other items follow");
            }
            1 => {
                let v: Vec<_> = start().skip(k).map(&key).collect();
                ensure!(v == rest[k.min(rest.len())..], "{what}: skip({k}) after {from} of {n} items gives other items");
            }
            2 => {
                let v: Vec<_> = start().step_by(k.max(1)).map(&key).collect();
                ensure!(v.iter().eq(rest.iter().step_by(k.max(1))), "{what}: step_by({k}) after {from} of {n} items gives other items");
            }
            3 => ensure!(start().count() == rest.len(), "{what}: count() after {from} of {n} items is {}", start().count()),
            4 => ensure!(start().last().map(&key).as_ref() == rest.last(), "{what}: last() after {from} of {n} items is another one"),
            5 => {
                let mut v = Vec::new();
                start().for_each(|x| v.push(key(x)));
                ensure!(v == rest, "{what}: for_each after {from} of {n} items gives other items");
            }
            6 => {
                let mut it = start();
                let first: Vec<_> = it.by_ref().take(k).map(&key).collect();
                ensure!(first == rest[..k.min(rest.len())], "{what}: take({k}) after {from} of {n} items gives other items");
                let more: Vec<_> = it.map(&key).collect();
                ensure!(more == rest[k.min(rest.len())..], "{what}: other items follow after take({k}) after {from} of {n} items");
            }
            7 => {
                let v: Vec<_> = start().fold(Vec::new(), |mut v, x| {
                    v.push(key(x));
                    v
                });
                ensure!(v == rest, "{what}: fold after {from} of {n} items gives other items");
            }
            _ => {
                let mut i = 0;
                let found = start().find(|_| {
                    i += 1;
                    i > k
                });
                ensure!(found.map(&key).as_ref() == rest.get(k), "{what}: find after {from} of {n} items gives another item");
            }
        }
    }
    cx.count("iterator methods compared", 4);
    Ok(())
}
