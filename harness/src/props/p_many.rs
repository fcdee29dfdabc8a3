//! C27: several runs of huff at the same time.
use super::p_cli::env;
use crate::cli::*;
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use huff_coding::prelude::*;
use std::path::{Path, PathBuf};
use std::time::Duration;

/// One run of huff and what is expected of it
struct Duty {
    decomp: bool,
    replace: bool,
    /// relative to the directory of the case
    cwd: PathBuf,
    src: PathBuf,
    dst: PathBuf,
    dst_arg: Option<String>,
    content: Vec<u8>,
    plain: Vec<u8>,
    old: Option<Vec<u8>>,
    block: String,
}

const STEMS: &[&str] = &["data", "data.txt", "data.bin", "data.txt.bak", ".data", "data.", "DATA", "data.tmp", "a", "a.b", "tmp"];
const SLOTS: [&str; 5] = ["o1", "o2", "o3", "o4", "o5"];

fn duties(cx: &mut Cx) -> Vec<Duty> {
    let kind = cx.rng.below(6);
    let n = if kind == 5 { cx.rng.range(3, 5) } else { 2 };
    let mut stems: Vec<&str> = STEMS.to_vec();
    cx.rng.shuffle(&mut stems);
    let related = kind < 2;
    let size = cx.rng.range(1, 12_000);
    let first = content_n(cx, size);
    let one_way = cx.rng.chance(1, 2);
    (0..n)
        .map(|i| {
            let decomp = if kind == 2 || kind == 3 { one_way } else { cx.rng.chance(1, 2) };
            // the same source; the same name in two directories; names of their own
            let stem = match kind {
                2 | 3 => stems[0],
                _ if related => STEMS[(i + size) % 5],
                _ => stems[i],
            };
            let cwd = if kind == 3 { PathBuf::from(["left", "right"][i]) } else { PathBuf::new() };
            let plain = match (kind, cx.rng.below(3)) {
                (2, _) => first.clone(),
                // as long as the other one
                (_, 0) => {
                    let mut v = first.clone();
                    v.reverse();
                    v
                }
                _ => {
                    let m = cx.rng.range(1, 12_000);
                    content_n(cx, m)
                }
            };
            let content = if decomp {
                compress_with_tree(&plain, HuffTree::from_weights(ByteWeights::from_bytes(&plain))).unwrap().to_bytes()
            } else {
                plain.clone()
            };
            let packed = format!("{stem}.hff");
            let (src, mut dst) = if decomp { (packed, stem.to_string()) } else { (stem.to_string(), packed) };
            let mut dst_arg = if decomp { Some(dst.clone()) } else { None };
            if kind == 2 {
                let name = ["one", "two.txt"][i];
                dst_arg = Some(name.to_string());
                dst = if decomp { name.to_string() } else { format!("{name}.hff") };
            }
            let b = match cx.rng.below(4) {
                0 => 2_000_000_000,
                1 => content.len(),
                _ => content.len().div_ceil(cx.rng.range(2, 6)),
            };
            let old = if cx.rng.chance(1, 4) { Some(b"old content".to_vec()) } else { None };
            let replace = kind != 2 && cx.rng.chance(1, 3);
            Duty { decomp, replace, src: cwd.join(src), dst: cwd.join(dst), cwd, dst_arg, content, plain, old, block: b.to_string() }
        })
        .collect()
}

fn reset(e: &Env, d: &Path, ds: &[Duty]) {
    remove(d);
    mkdir(e, d);
    for x in ds {
        mkdir(e, &d.join(&x.cwd));
        put(e, &d.join(&x.src), &x.content);
        if let Some(o) = &x.old {
            put(e, &d.join(&x.dst), o);
        }
    }
    put(e, &d.join("bystander"), b"bystander");
}

impl Duty {
    fn run(&self, d: &Path, i: usize) -> Run {
        let mut r = Run::new(&d.join(&self.cwd), &[&"-n", &"-b", &self.block]);
        if self.decomp {
            r.args.push("-d".into());
        }
        if self.replace {
            r.args.push("-r".into());
        }
        r.args.push(self.src.file_name().unwrap().into());
        if let Some(a) = &self.dst_arg {
            r.args.push(a.into());
        }
        r.slot = SLOTS[i];
        r.trace = true;
        r
    }
}

fn judge(d: &Path, ds: &[Duty], outs: &[Out], before: &Snap, how: &str) -> R {
    let s = snapshot(d);
    let mut except: Vec<&Path> = Vec::new();
    for (i, (x, o)) in ds.iter().zip(outs).enumerate() {
        let ctx = || format!("{} while {} ({how})", x.run(d, i).show(), ds.iter().enumerate().filter(|(j, _)| *j != i).map(|(j, y)| y.run(d, j).show()).collect::<Vec<_>>().join(", "));
        ensure!(o.ok(), "{}: failed: {}", ctx(), o.show());
        let got = file(&s, &x.dst).ok_or_else(|| format!("{}: no destination", ctx()))?;
        if x.decomp {
            ensure!(got == x.plain, "{}: the destination has {} bytes, not the {} of the file", ctx(), got.len(), x.plain.len());
        } else {
            is_archive_of(&got, &x.plain).map_err(|m| format!("{}: {m}", ctx()))?;
        }
        ensure!(x.replace != s.contains_key(&x.src), "{}: the source is {}", ctx(), if x.replace { "still there" } else { "gone" });
        except.push(&x.dst);
        if x.replace {
            except.push(&x.src);
        }
    }
    let ch = changes(before, &s, &except);
    ensure!(ch.is_empty(), "{how}: other files changed: {}", ch.join("; "));
    Ok(())
}

pub fn c27(cx: &mut Cx) -> R {
    let e = env(cx);
    let d = e.fresh();
    let ds = duties(cx);
    cx.nontrivial = true;
    cx.note(ds.iter().enumerate().map(|(i, x)| format!("{} ({} bytes) in {:?}", x.run(&d, i).show(), x.content.len(), x.cwd)).collect::<Vec<_>>().join(" and "));
    cx.sign(cx.desc.clone().as_bytes());
    reset(&e, &d, &ds);
    let before = snapshot(&d);
    // one after the other
    let mut calls = Vec::new();
    let mut outs = Vec::new();
    for (i, x) in ds.iter().enumerate() {
        let o = x.run(&d, i).go(&e)?;
        calls.push(o.events.iter().map(|v| v.n).max().unwrap_or(0));
        outs.push(o);
    }
    judge(&d, &ds, &outs, &before, "one after the other")?;
    let tries = if cx.thorough() { 60 } else { 16 };
    for t in 0..tries {
        reset(&e, &d, &ds);
        let how;
        let mut outs: Vec<Option<Out>> = ds.iter().map(|_| None).collect();
        if t % 4 == 3 || ds.len() > 2 && t % 2 == 0 {
            // all at once
            how = "all started at once".to_string();
            let mut gs: Vec<Going> = ds.iter().enumerate().map(|(i, x)| x.run(&d, i).start(&e)).collect::<Result<_, _>>()?;
            for (o, g) in outs.iter_mut().zip(gs.iter_mut()) {
                *o = Some(g.finish(false)?);
            }
            cx.count("started at once", 1);
        } else {
            // each one stops at some call; then they go on in some order
            let mut order: Vec<usize> = (0..ds.len()).collect();
            cx.rng.shuffle(&mut order);
            let mut at: Vec<u64> = order.iter().map(|i| 1 + cx.rng.below(calls[*i].max(1))).collect();
            if cx.rng.chance(1, 2) {
                // all but the first run through
                at[1..].fill(0);
            }
            how = format!("stopped before their calls {:?}, in the order {order:?}", at);
            let mut gs: Vec<(usize, Going)> = Vec::new();
            for (i, n) in order.iter().zip(&at) {
                let mut r = ds[*i].run(&d, *i);
                if *n > 0 {
                    r.plan = format!("p:{n}");
                }
                let mut g = r.start(&e)?;
                if *n > 0 {
                    if g.stopped()? {
                        cx.count("runs stopped midway", 1);
                    }
                } else {
                    // (it may wait for the one that is stopped)
                    if !g.settle(Duration::from_secs(2))? {
                        cx.count("runs that waited for a stopped one", 1);
                    }
                }
                gs.push((*i, g));
            }
            if cx.rng.chance(1, 2) {
                gs.reverse();
            }
            let one_by_one = cx.rng.chance(2, 3);
            if !one_by_one {
                gs.iter().for_each(|(_, g)| g.resume());
            }
            for (_, g) in gs.iter_mut() {
                g.resume();
                if one_by_one {
                    g.settle(Duration::from_secs(2))?;
                }
            }
            for (i, g) in gs.iter_mut() {
                outs[*i] = Some(g.finish(false)?);
            }
            cx.seen("interleavings", crate::rng::fnv(format!("{order:?} {at:?} {one_by_one}").as_bytes(), ds.len() as u64));
        }
        let outs: Vec<Out> = outs.into_iter().flatten().collect();
        judge(&d, &ds, &outs, &before, &how)?;
        cx.count("sets of runs at the same time", 1);
    }
    Ok(())
}
