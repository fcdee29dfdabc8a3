//! C14 to C18, C22, C23: the huff binary as a black box.
use crate::cli::*;
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use huff_coding::prelude::*;
use std::ffi::OsString;
use std::path::{Path, PathBuf};
use std::time::Duration;

pub fn env(cx: &Cx) -> Env {
    cx.cli.clone().expect("harness: no environment")
}

/// Environment variables that change nothing
pub fn vars(cx: &mut Cx) -> Vec<(OsString, OsString)> {
    const KNOWN: &[(&str, &str)] = &[
        ("TMPDIR", "/nonexistent"), ("HOME", "/nonexistent"), ("HOME", ""), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "C"), ("LC_ALL", "ja_JP.SJIS"), ("TERM", "dumb"),
        ("NO_COLOR", "1"), ("COLUMNS", "20"), ("TZ", "Asia/Kathmandu"), ("RUST_BACKTRACE", "1"), ("RUST_LOG", "trace"), ("PWD", "/nonexistent"), ("USER", "nobody"), ("CI", "true"),
    ];
    if !cx.rng.chance(1, 4) {
        return vec![];
    }
    let mut v: Vec<(OsString, OsString)> = (0..cx.rng.range(0, 3)).map(|_| *cx.rng.pick(KNOWN)).map(|(a, b)| (a.into(), b.into())).collect();
    // names the code mentions
    let names: Vec<Vec<u8>> = cx.dict.strs.iter().filter(|s| s.len() > 2 && s.iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || *c == b'_')).cloned().collect();
    if !names.is_empty() {
        for _ in 0..cx.rng.range(1, 3) {
            let n = os(cx.rng.pick(&names));
            v.push((n, (*cx.rng.pick(&["1", "0", "", "x", "true"])).into()));
        }
    }
    if !v.is_empty() {
        cx.count("runs with other environments", 1);
    }
    v
}

/// At most this many blocks for a file of n bytes (each costs threads and a copy of the tree)
fn min_block(cx: &mut Cx, n: usize) -> usize {
    let most = if cx.rng.chance(1, 12) { 2500 } else { 120 };
    (n / most).max(1)
}

/// A block size for a file of n bytes, as text and as a number
pub fn block(cx: &mut Cx, n: usize) -> (String, u128) {
    let lo = min_block(cx, n);
    let r = &mut cx.rng;
    let v: u128 = match r.below(14) {
        0 | 1 if lo == 1 => 1,
        0..=3 => r.range(lo, n.max(lo)) as u128,
        4 => (n as u128 + r.below(4) as u128).saturating_sub(1 + r.below(2) as u128).max(lo as u128),
        5 => (n as u128).div_ceil(r.range(1, 6) as u128).max(lo as u128),
        6 => (lo + r.range(0, 9)) as u128,
        7 => [7u128, 8, 9, 11, 12, 13, 64, 256, 4095, 4096, 4097, 8191, 8192, 8193, 65536][r.below(15) as usize].max(lo as u128),
        8 => {
            // divides n
            let d = (2..40).filter(|d| n % d == 0).collect::<Vec<_>>();
            if d.is_empty() { n as u128 } else { (n / *r.pick(&d)).max(lo) as u128 }
        }
        9 => cx.dict.near(r, (n as u64 * 2).max(2)).unwrap_or(100).max(lo as u64) as u128,
        10 => {
            let (u, m) = *r.pick(&[("K", 1000u128), ("k", 1000), ("Ki", 1024), ("KI", 1024), ("ki", 1024), ("kI", 1024)]);
            let k = (lo as u128).div_ceil(m).max(r.range(1, 9) as u128);
            return (format!("{k}{u}"), k * m);
        }
        11 => {
            let (u, m) = *r.pick(&[("M", 1_000_000u128), ("mi", 1 << 20), ("G", 1_000_000_000), ("Gi", 1 << 30), ("g", 1_000_000_000)]);
            let k = r.range(1, 7) as u128;
            return (format!("{k}{u}"), k * m);
        }
        12 => *r.pick(&[u64::MAX as u128, i64::MAX as u128, u32::MAX as u128, 1u128 << 32, 1 << 40, (1 << 31) - 1, 1 << 62]),
        _ => return (String::new(), 2_000_000_000),
    };
    (v.to_string(), v)
}

pub fn with_block(r: &mut Run, b: &str, long: bool) {
    if !b.is_empty() {
        if long {
            r.args.insert(0, format!("--block-size={b}").into());
        } else {
            r.args.insert(0, b.into());
            r.args.insert(0, "-b".into());
        }
    }
}

/// Contents of a file to compress
pub fn file_content(cx: &mut Cx) -> Vec<u8> {
    let max = match cx.rng.below(60) {
        0 => 1_500_000,
        1..=5 => 120_000,
        6..=25 => 9000,
        _ => 600,
    };
    match cx.rng.below(12) {
        0 => {
            // letters with codes of up to 20-odd bits, rare ones in a row
            let k = cx.rng.range(10, 22);
            let (mut a, mut b) = (1usize, 1usize);
            let mut v = Vec::new();
            for i in 0..k {
                v.extend(std::iter::repeat_n((i * 11) as u8, a));
                let c = a + b;
                a = b;
                b = c;
            }
            match cx.rng.below(3) {
                0 => v.reverse(),
                1 => cx.rng.shuffle(&mut v),
                _ => (),
            }
            v
        }
        1 if cx.rng.chance(1, 3) => {
            // a big file with a few bytes all over the place, next to rare ones with counts of every size
            let mut v = Vec::new();
            let total = *cx.rng.pick(&[70_000usize, 140_000, 270_000, 600_000]);
            let k = cx.rng.range(3, 60);
            for i in 0..k {
                let m = *cx.rng.pick(&[3usize, 30, 300, 3000]);
                let c = cx.rng.range(1, m);
                v.extend(std::iter::repeat_n((i * 4 + 1) as u8, c));
            }
            let common = cx.rng.range(1, 3);
            while v.len() < total {
                let c = cx.rng.range(1, 70_000).min(total - v.len());
                let b = cx.rng.below(common as u64) as u8 * 4;
                v.extend(std::iter::repeat_n(b, c));
            }
            if cx.rng.chance(1, 3) {
                cx.rng.shuffle(&mut v);
            }
            v
        }
        _ => content(cx, max),
    }
}

/// An archive of the harness's own making, and what it holds
pub fn foreign(cx: &mut Cx, maxlen: usize) -> (Vec<u8>, Vec<u8>, usize) {
    let k = alpha(cx, 256, 256);
    let (spec, _) = random_spec::<u8>(cx, k, 255);
    let codes = spec.codes();
    let n = len(cx, maxlen);
    let skew = cx.rng.chance(1, 2);
    let mut bits = Vec::new();
    let mut want = Vec::new();
    for _ in 0..n {
        let i = if skew { cx.rng.below(codes.len().min(3) as u64) } else { cx.rng.below(codes.len() as u64) } as usize;
        bits.extend_from_slice(&codes[i].1);
        want.push(codes[i].0[0]);
    }
    (build_container(&spec, &bits), want, k)
}

fn diff(got: &[u8], want: &[u8]) -> String {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("{} bytes instead of {}, first difference at {i}", got.len(), want.len())
}

fn must(e: &Env, r: &Run) -> Result<Out, String> {
    let o = r.go(e)?;
    ensure!(o.ok(), "{} failed: {}", r.show(), o.show());
    Ok(o)
}

fn read(p: &Path) -> Result<Vec<u8>, String> {
    std::fs::read(p).map_err(|e| format!("{p:?} cannot be read: {e}"))
}

// ------------------------------------------------------------------ C14

/// A file or an archive of more than 4 GiB
/// Tens of megabytes: the same contents over and over, with other bytes here and there
fn big_content(cx: &mut Cx) -> Vec<u8> {
    let m = cx.rng.range(60_000, 140_000);
    let total = cx.rng.range(17_000_000, 40_000_000);
    let mut v = content_n(cx, m).repeat(total / m);
    for _ in 0..500 {
        let i = cx.rng.below(v.len() as u64) as usize;
        v[i] = cx.rng.below(256) as u8;
    }
    cx.count("files over 16 MiB", 1);
    v
}

/// Sometimes an older, often longer file is where the result goes
fn old_result(cx: &mut Cx, e: &Env, r: &mut Run, p: &Path, n: usize) {
    if !cx.rng.chance(1, 4) {
        return;
    }
    let len = match cx.rng.below(3) {
        0 => cx.rng.range(0, n + 1),
        _ => n + cx.rng.range(1, n + 1000),
    };
    put(e, p, &vec![cx.rng.below(256) as u8; len]);
    r.args.insert(0, "-n".into());
    cx.count("older results replaced", 1);
}

fn c14_huge(cx: &mut Cx) -> R {
    use std::os::unix::fs::FileExt;
    const N: u64 = (1 << 32) + 70_001;
    let e = env(cx);
    let d = e.fresh();
    cx.nontrivial = true;
    let sparse = |p: &Path, n: u64| -> Result<std::fs::File, String> {
        put(&e, p, b"");
        let f = std::fs::OpenOptions::new().write(true).open(p).map_err(|x| format!("harness: {x}"))?;
        f.set_len(n).map_err(|x| format!("harness: {x}"))?;
        Ok(f)
    };
    let b = *cx.rng.pick(&["1M", "64Mi", "999999"]);
    if cx.idx == 0 {
        cx.note(format!("compressing {N} bytes with -b {b}"));
        let f = sparse(&d.join("f"), N)?;
        // a few other bytes, the last ones beyond 4 GiB: the zeros take one bit
        let mut at: Vec<u64> = (0..40).map(|_| cx.rng.below(N)).collect();
        at.extend([0, 1 << 31, (1 << 32) - 1, 1 << 32, N - 2, N - 1]);
        at.sort_unstable();
        at.dedup();
        for p in &at {
            f.write_all_at(b"x", *p).map_err(|x| format!("harness: {x}"))?;
        }
        let mut r = Run::new(&d, &[&"-b", &b, &"f"]);
        r.cpu = 900;
        must(&e, &r)?;
        let a = read(&d.join("f.hff"))?;
        let c = parse_container(&a, 1).map_err(|x| format!("{}: the archive is malformed: {x}", r.show()))?;
        let codes = c.tree.codes();
        ensure!(codes.len() == 2 && codes.iter().all(|c| c.1.len() == 1), "{}: {} codes for two bytes", r.show(), codes.len());
        let x_bit = codes.iter().find(|c| c.0[0] == b'x').ok_or("no code for x")?.1[0];
        let bits = c.data.len() as u64 * 8 - c.data_pad as u64;
        ensure!(bits == N, "{}: {bits} bits of data for {N} bytes", r.show());
        let same = if x_bit { 0u8 } else { 255 };
        let mut found = Vec::new();
        for (i, byte) in c.data.iter().enumerate() {
            if *byte != same {
                found.extend((0..8).filter(|k| (byte ^ same) >> (7 - k) & 1 == 1).map(|k| i as u64 * 8 + k).filter(|p| *p < N));
            }
        }
        ensure!(found == at, "{}: the x are at {found:?} instead of {at:?}", r.show());
        cx.count("files over 4 GiB compressed", 1);
    } else {
        // a letter with a code of 255 zeros over and over, now and then its sibling
        let (ls, _) = distinct_letters::<u8>(&mut cx.rng, 256);
        let be: Vec<Vec<u8>> = ls.iter().map(|l| vec![*l]).collect();
        let spec = spec_tree(&mut cx.rng, Shape::Left, &be, 255);
        let n = N * 8 / 255;
        let head = build_container(&spec, &[]);
        let data = (n * 255).div_ceil(8);
        cx.note(format!("an archive of {} bytes, {n} letters with -b {b}", head.len() as u64 + data));
        let f = sparse(&d.join("f.hff"), head.len() as u64 + data)?;
        let mut head = head;
        let pad = (data * 8 - n * 255) as u8;
        head[0] = (head[0] & 0xf0) | pad;
        f.write_all_at(&head, 0).map_err(|x| format!("harness: {x}"))?;
        let mut at: Vec<u64> = (0..40).map(|_| cx.rng.below(n)).collect();
        at.extend([0, n / 2, n - 2, n - 1]);
        at.sort_unstable();
        at.dedup();
        for i in &at {
            let bit = i * 255 + 254;
            // codes are longer than a byte, no two ones share one
            f.write_all_at(&[128 >> (bit % 8)], head.len() as u64 + bit / 8).map_err(|x| format!("harness: {x}"))?;
        }
        let codes = spec.codes();
        let of = |last: bool| {
            let mut c = vec![false; 255];
            c[254] = last;
            codes.iter().find(|x| x.1 == c).map(|x| x.0[0]).ok_or("harness: no such code")
        };
        let (main, other) = (of(false)?, of(true)?);
        let mut r = Run::new(&d, &[&"-d", &"-b", &b, &"f.hff", &"out"]);
        r.cpu = 900;
        must(&e, &r)?;
        let got = read(&d.join("out"))?;
        ensure!(got.len() as u64 == n, "{}: {} bytes instead of {n}", r.show(), got.len());
        let mut want = vec![main; n as usize];
        at.iter().for_each(|i| want[*i as usize] = other);
        ensure!(got == want, "{}: {}", r.show(), diff(&got, &want));
        cx.count("archives over 4 GiB decompressed", 1);
    }
    Ok(())
}

pub fn c14(cx: &mut Cx) -> R {
    if cx.thorough() && cx.idx < 2 {
        return c14_huge(cx);
    }
    let e = env(cx);
    let d = e.fresh();
    let data = if (2..8).contains(&cx.idx) { big_content(cx) } else { file_content(cx) };
    put(&e, &d.join("f"), &data);
    cx.sign(&data);
    let (b1, v1) = block(cx, data.len());
    cx.nontrivial = data.len() > 1;
    cx.note(format!("{} bytes, compressed with -b {b1:?}", data.len()));
    let mut r = Run::new(&d, &[&"f"]);
    r.plain = cx.rng.chance(1, 4) && data.len() < 20_000;
    r.vars = vars(cx);
    let long = cx.rng.chance(1, 4);
    with_block(&mut r, &b1, long);
    old_result(cx, &e, &mut r, &d.join("f.hff"), data.len() + 300);
    must(&e, &r)?;
    let arch = read(&d.join("f.hff"))?;
    cx.count("files compressed", 1);
    cx.count("compressing blocks", (data.len() as u128).div_ceil(v1.max(1)) as u64);
    for i in 0..3 {
        let (b2, v2) = block(cx, arch.len());
        cx.note(format!("decompressed with -b {b2:?}"));
        let out = format!("out{i}");
        let mut r = Run::new(&d, &[&"-d", &"f.hff", &out]);
        r.plain = cx.rng.chance(1, 4) && data.len() < 20_000;
        r.vars = vars(cx);
        with_block(&mut r, &b2, false);
        old_result(cx, &e, &mut r, &d.join(&out), data.len());
        must(&e, &r)?;
        let got = read(&d.join(&out))?;
        ensure!(got == data, "compressed with -b {b1:?} and decompressed with -b {b2:?} the file is different: {}", diff(&got, &data));
        cx.count("files restored", 1);
        cx.count("decompressing blocks", (arch.len() as u128).div_ceil(v2.max(1)) as u64);
        cx.sign(b2.as_bytes());
        let f = |v: u128, n: usize| match (n as u128).div_ceil(v.max(1)) { x @ 0..=3 => x as u64, 4..=30 => 4, _ => 5 };
        cx.seen("block count classes", f(v1, data.len()) * 10 + f(v2, arch.len()));
    }
    cx.max("largest file", data.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------ C15

pub fn c15(cx: &mut Cx) -> R {
    if cx.idx % 3 == 2 {
        return c15_foreign(cx);
    }
    let e = env(cx);
    let d = e.fresh();
    let data = if cx.idx < 6 { big_content(cx) } else { file_content(cx) };
    put(&e, &d.join("f"), &data);
    cx.sign(&data);
    cx.nontrivial = data.len() > 1;
    cx.note(format!("{} bytes", data.len()));
    // what the library makes of it
    let bw = ByteWeights::from_bytes(&data);
    let lib = compress_with_tree(&data, HuffTree::from_weights(bw)).map_err(|x| format!("the library refused the file: {x}"))?.to_bytes();
    let mut w = [0u128; 256];
    data.iter().for_each(|b| w[*b as usize] += 1);
    let w: Vec<u128> = w.into_iter().filter(|x| *x > 0).collect();
    let best = if w.len() == 1 { data.len() as u128 } else { optimal_cost(&w) };
    for i in 0..3 {
        let (b, _) = if i == 0 { (String::new(), 0) } else { block(cx, data.len()) };
        let dst = format!("a{i}");
        let mut r = Run::new(&d, &[&"f", &dst]);
        with_block(&mut r, &b, false);
        r.plain = cx.rng.chance(1, 4) && data.len() < 20_000;
        r.vars = vars(cx);
        old_result(cx, &e, &mut r, &d.join(format!("{dst}.hff")), lib.len());
        must(&e, &r)?;
        let a = read(&d.join(format!("{dst}.hff")))?;
        let what = r.show();
        // the documented format
        let c = parse_container(&a, 1).map_err(|x| format!("{what}: the archive is malformed: {x}"))?;
        let back = c.decode_bytes();
        ensure!(back == data, "{what}: by the documented format the archive decodes to {}", diff(&back, &data));
        let bits = c.data.len() as u128 * 8 - c.data_pad as u128;
        ensure!(bits == best, "{what}: the data has {bits} bits, the optimum is {best}");
        ensure!(a.len() == lib.len(), "{what}: the archive has {} bytes, the library's serialized compression {}", a.len(), lib.len());
        ensure!(a == lib, "{what}: the archive is not the library's serialized compression of the bytes: {}", diff(&a, &lib));
        cx.count("archives compared", 1);
        let l = CompressData::<u8>::try_from_bytes(&a).map_err(|x| format!("{what}: the library cannot read the archive: {x}"))?;
        ensure!(decompress(&l) == data, "{what}: the library reads something else from the archive");
    }
    Ok(())
}

fn c15_foreign(cx: &mut Cx) -> R {
    let e = env(cx);
    let d = e.fresh();
    let maxlen = if cx.rng.chance(1, 6) { 30_000 } else { 1200 };
    let (a, want, k) = foreign(cx, maxlen);
    cx.nontrivial = k > 1;
    cx.sign(&a[..a.len().min(3000)]);
    cx.note(format!("foreign archive of {} bytes, {k} letters", a.len()));
    let c = parse_container(&a, 1).map_err(|x| format!("harness: {x}"))?;
    // padding bits may have any value
    let mut a2 = a.clone();
    let last = a2.len() - 1;
    a2[last] |= ((1u16 << c.data_pad) - 1) as u8;
    let t = 5 + c.tree_bytes.len() - 1;
    a2[t] |= ((1u16 << c.tree_pad) - 1) as u8;
    for (i, x) in [a, a2].iter().enumerate() {
        let p = d.join(format!("x{i}.hff"));
        put(&e, &p, x);
        let out = format!("o{i}");
        let mut r = Run::new(&d, &[&"-d", &p, &out]);
        let (b, _) = block(cx, x.len());
        with_block(&mut r, &b, false);
        must(&e, &r)?;
        let got = read(&d.join(&out))?;
        ensure!(got == want, "{}: a well-formed archive is decompressed to {}", r.show(), diff(&got, &want));
        cx.count("foreign archives decompressed", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ scenes (C16, C17, C22)

#[derive(Clone, Debug)]
pub struct Scene {
    pub d: PathBuf,
    /// relative to d
    pub src: PathBuf,
    pub cwd: PathBuf,
    pub decomp: bool,
    /// the source's bytes, and the bytes behind them
    pub content: Vec<u8>,
    pub plain: Vec<u8>,
    pub src_arg: OsString,
}

const NAMES: &[&[u8]] = &[
    b"f", b"file.txt", b"a.b.c", b"archive.tar", b".hidden", b".conf.d", b"with space.txt", b"f.hff.txt", b"hff", b"UPPER.TXT", b"x.y",
    b"n\xc3\xa9.t", b"\xff\xfe.bin", b"quote'\".x", b"new\nline", b"SRC_FILE", b"long_name_long_name_long_name_long_name_long_name.ext", b"f.HFF", b"dot.", b"dots..", b"..two", b".x.", b"...", b" ", b"f.hff.", b"a.b.", b"~", b"*", b"%s",
];

/// Any file name that leaves room for the extension
fn random_name(cx: &mut Cx) -> Vec<u8> {
    let n = match cx.rng.below(8) {
        0 => cx.rng.range(200, 247),
        1 => 247,
        2 => 1,
        _ => cx.rng.range(1, 12),
    };
    let style = cx.rng.below(3);
    let mut v: Vec<u8> = (0..n)
        .map(|_| match style {
            0 => *cx.rng.pick(b"..ahf1 "),
            1 => cx.rng.range(1, 255) as u8,
            _ => *cx.rng.pick(b"abcXYZ019._-+=, #"),
        })
        .map(|c| if c == b'/' { b'.' } else { c })
        .collect();
    if v[0] == b'-' || v == b"." || v == b".." {
        v[0] = b'_';
    }
    v
}

/// A source file somewhere below d, and a way to name it from the working directory
pub fn scene(cx: &mut Cx, e: &Env, decomp: bool) -> Scene {
    let d = e.fresh();
    let plain = {
        let n = if cx.rng.chance(1, 10) { 20_000 } else { 400 };
        content(cx, n)
    };
    let content = if decomp {
        if cx.rng.chance(1, 2) {
            compress_with_tree(&plain, HuffTree::from_weights(ByteWeights::from_bytes(&plain))).unwrap().to_bytes()
        } else {
            let (a, p, _) = foreign(cx, 400);
            return scene_with(cx, e, d, decomp, a, p);
        }
    } else {
        plain.clone()
    };
    scene_with(cx, e, d, decomp, content, plain)
}

/// A file name out of the code's own strings
fn code_name(cx: &mut Cx) -> Option<Vec<u8>> {
    let n = cx.dict.strs.len();
    if n == 0 {
        return None;
    }
    let s = &cx.dict.strs[cx.rng.below(n as u64) as usize];
    let name = s.split(|c| *c == b'/').next_back()?.to_vec();
    let ok = !name.is_empty() && name.len() < 100 && name[0] != b'-' && name != b"." && name != b".." && !name.contains(&0);
    ok.then_some(name)
}

fn scene_with(cx: &mut Cx, e: &Env, d: PathBuf, decomp: bool, content: Vec<u8>, plain: Vec<u8>) -> Scene {
    let mut name = if cx.rng.chance(1, 4) { random_name(cx) } else { cx.rng.pick(NAMES).to_vec() };
    if cx.rng.chance(1, 12) {
        name = code_name(cx).unwrap_or(name);
    }
    if decomp || cx.rng.chance(1, 8) {
        name.extend_from_slice(b".hff");
    }
    for x in ["work", "other", "other/deep", "out"] {
        mkdir(e, &d.join(x));
    }
    // bystanders
    put(e, &d.join("work/bystander"), b"bystander");
    put(e, &d.join("other/bystander.hff"), b"bystander two");
    let (src, arg): (PathBuf, PathBuf) = match cx.rng.below(8) {
        0..=2 => (Path::new("work").join(os(&name)), PathBuf::from(os(&name))),
        3 => (Path::new("work").join(os(&name)), Path::new(".").join(os(&name))),
        4 => (Path::new("other").join(os(&name)), Path::new("../other").join(os(&name))),
        5 => (Path::new("other/deep").join(os(&name)), d.join("other/deep").join(os(&name))),
        6 => (Path::new("work").join(os(&name)), Path::new("../other/../work").join(os(&name))),
        _ => {
            symlink(e, Path::new("../other"), &d.join("work/linkdir"));
            (Path::new("other").join(os(&name)), Path::new("linkdir").join(os(&name)))
        }
    };
    put(e, &d.join(&src), &content);
    Scene { cwd: d.join("work"), src, decomp, content, plain, src_arg: arg.into_os_string(), d }
}

impl Scene {
    fn src_name(&self) -> OsString {
        self.src.file_name().unwrap().to_os_string()
    }
    /// Where the result is documented to go, relative to d (dst as given, relative to the working directory)
    pub fn dst(&self, given: Option<&Path>) -> PathBuf {
        let mut p = match given {
            Some(g) => g.to_path_buf(),
            None => PathBuf::from(self.src_name()),
        };
        if !self.decomp {
            p.as_mut_os_string().push(".hff");
        }
        let abs = if p.is_absolute() { p } else { self.cwd.join(p) };
        let mut out = PathBuf::new();
        for c in abs.components() {
            match c {
                std::path::Component::ParentDir => {
                    out.pop();
                }
                std::path::Component::CurDir => (),
                c => out.push(c),
            }
        }
        let mut out = out.strip_prefix(&self.d).expect("harness: destination outside").to_path_buf();
        if self.decomp && out == self.src {
            out.set_extension("");
        }
        out
    }
    /// Does this content satisfy whoever asked for the destination?
    pub fn right(&self, got: &[u8]) -> Result<(), String> {
        if self.decomp {
            if got == self.plain { Ok(()) } else { Err(diff(got, &self.plain)) }
        } else {
            is_archive_of(got, &self.plain)
        }
    }
    pub fn run(&self, flags: &[&str], dst: Option<&Path>) -> Run {
        let mut r = Run::new(&self.cwd, &[]);
        if self.decomp {
            r.args.push("-d".into());
        }
        for f in flags {
            r.args.push(f.into());
        }
        if self.src_arg.to_string_lossy().starts_with('-') {
            r.args.push("--".into());
        }
        r.args.push(self.src_arg.clone());
        if let Some(p) = dst {
            r.args.push(p.as_os_str().to_os_string());
        }
        r
    }
}

/// A destination argument, or none for the default
pub fn dst_arg(cx: &mut Cx, s: &Scene) -> Option<PathBuf> {
    let n = *cx.rng.pick(&[&b"result"[..], b"out.bin", b"r.x.y", b".dot", b"res ult", b"result.hff", b"deep.hff.x", b"\xfe.o", b"end.", b"...", b"x..hff", b"y."]);
    let mut p = PathBuf::from(os(n));
    if cx.rng.chance(1, 6) {
        if let Some(n) = code_name(cx) {
            p = PathBuf::from(os(&n));
        }
    }
    let given = match cx.rng.below(9) {
        0..=3 => None,
        4 => Some(p),
        5 => Some(Path::new("./").join(p)),
        6 => Some(Path::new("../out").join(p)),
        7 => Some(s.d.join("out").join(p)),
        _ => Some(Path::new("../other/deep/../..").join("out").join(p)),
    };
    // (a name that leads to the source itself is for C16)
    given.filter(|p| s.dst(Some(p)) != s.src && p != Path::new("./SRC_FILE.hff"))
}

// ------------------------------------------------------------------ C22

pub fn c22(cx: &mut Cx) -> R {
    let e = env(cx);
    let dec = cx.rng.chance(1, 2);
    let s = scene(cx, &e, dec);
    let dst = dst_arg(cx, &s);
    let want = s.dst(dst.as_deref());
    let mut flags: Vec<&str> = Vec::new();
    let timed = cx.rng.chance(1, 4);
    if timed {
        flags.push(*cx.rng.pick(&["-t", "--time"]));
    }
    let replace = cx.rng.chance(1, 4);
    if replace {
        flags.push(*cx.rng.pick(&["-r", "--replace"]));
    }
    let exists = cx.rng.chance(1, 4) && want != s.src;
    if exists {
        put(&e, &s.d.join(&want), b"old");
        flags.push(*cx.rng.pick(&["-n", "--noask"]));
    }
    if cx.rng.chance(1, 5) {
        flags.push("-b7");
    }
    // a source that is a link to the file
    let linked = cx.rng.chance(1, 6);
    if linked {
        let real = s.d.join(*cx.rng.pick(&["out/real", "other/real.hff", "other/deep/real.x"]));
        std::fs::rename(s.d.join(&s.src), &real).map_err(|x| format!("harness: {x}"))?;
        symlink(&e, &real, &s.d.join(&s.src));
        cx.count("sources that are links", 1);
    }
    cx.rng.shuffle(&mut flags);
    let mut r = s.run(&flags, dst.as_deref());
    r.tty = cx.rng.chance(1, 12);
    r.vars = vars(cx);
    if s.decomp && cx.rng.chance(1, 3) {
        r.args[0] = "--decompress".into();
    }
    if cx.rng.chance(1, 4) {
        // flags after the paths
        let n = flags.len() + s.decomp as usize;
        r.args.rotate_left(n);
    }
    cx.note(format!("{} in {:?}, expecting {want:?}", r.show(), s.cwd.strip_prefix(&s.d).unwrap()));
    cx.sign(cx.desc.clone().as_bytes());
    cx.nontrivial = true;
    let before = snapshot(&s.d);
    let o = r.go(&e)?;
    ensure!(o.ok(), "{} failed: {}", r.show(), o.show());
    let after = snapshot(&s.d);
    let mut except = vec![want.as_path()];
    if replace {
        except.push(&s.src);
        ensure!(!after.contains_key(&s.src), "{}: the source is still there with --replace", r.show());
    }
    let ch = changes(&before, &after, &except);
    ensure!(ch.is_empty(), "{}: other files changed: {}", r.show(), ch.join("; "));
    match file(&after, &want) {
        None => return Err(format!("{}: {want:?} was not written", r.show())),
        Some(c) => s.right(&c).map_err(|x| format!("{}: {want:?} is wrong: {x}", r.show()))?,
    }
    ensure!(timed != o.stdout.is_empty(), "{}: printed {:?}", r.show(), String::from_utf8_lossy(&o.stdout));
    if timed {
        let t = String::from_utf8_lossy(&o.stdout);
        ensure!(t.lines().count() == 1 && t.trim_end().ends_with('s') && t.starts_with(|c: char| c.is_ascii_digit()), "{}: printed {t:?}, not a time", r.show());
    }
    cx.count("runs", 1);
    cx.count(if dst.is_some() { "destinations given" } else { "default destinations" }, 1);
    cx.count("files compared", after.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------ C17

const YES: &[&[u8]] = &[b"y\n", b"Y\n", b"yes\n", b"Yes\n", b"YES\n", b"yEs", b"y", b"Y", b"yup\n", b"y\r\n", b"yn\n", b"Y n\n", b"y\0\n"];
const NO: &[&[u8]] = &[
    b"n\n", b"N\n", b"no\n", b"", b"\n", b"x\n", b"ny\n", b"no, yes\n", b"1\n", b"ja\n", b"\ny\n", b"n\ny\n", b"true\n", b"\xff\n", b"\xffy\n", b"\0y\n", b"0\ny\ny\n", b"-y\n", b"[Y]\n", b" y\n", b"\ty\n", b"  yes\n", b" \n", b"\r\ny\n", b"\x0by\n",
];

pub fn c17(cx: &mut Cx) -> R {
    let e = env(cx);
    let dec = cx.rng.chance(1, 2);
    let s = scene(cx, &e, dec);
    let dst = dst_arg(cx, &s);
    let want = s.dst(dst.as_deref());
    if want == s.src {
        return Ok(());
    }
    cx.nontrivial = true;
    let replace = cx.rng.chance(1, 3);
    let mut flags: Vec<&str> = if replace { vec!["-r"] } else { vec![] };
    if cx.rng.chance(1, 6) {
        flags.push("-t");
    }
    let full = s.d.join(&want);
    let kind = cx.rng.below(10);
    if kind < 3 {
        // nothing to ask for
        let noask = cx.rng.chance(2, 3);
        if noask {
            flags.push(*cx.rng.pick(&["-n", "--noask"]));
            if cx.rng.chance(3, 4) {
                put(&e, &full, b"old content");
            }
        }
        let mut r = s.run(&flags, dst.as_deref());
        r.vars = vars(cx);
        r.stdin = if cx.rng.chance(1, 2) { Stdin::Held } else { Stdin::Bytes(b"n\n".to_vec()) };
        r.trace = true;
        r.tty = cx.rng.chance(1, 4);
        let before = snapshot(&s.d);
        let existed = before.contains_key(&want);
        cx.note(format!("{}; destination {}", r.show(), if existed { "exists" } else { "is new" }));
        cx.sign(cx.desc.clone().as_bytes());
        let o = r.go(&e)?;
        ensure!(o.end != End::Waiting, "{}: waits, with nothing to ask for: {}", r.show(), o.show());
        ensure!(o.ok(), "{}: failed: {}", r.show(), o.show());
        ensure!(o.stdin_reads == 0, "{}: reads its input, with nothing to ask for", r.show());
        let text = String::from_utf8_lossy(&o.stdout).to_lowercase();
        ensure!(!text.contains("y/n") && !text.contains('?') && !text.contains("replace"), "{}: asks: {text:?}", r.show());
        let got = file(&snapshot(&s.d), &want).ok_or_else(|| format!("{}: no destination", r.show()))?;
        s.right(&got).map_err(|x| format!("{}: {x}", r.show()))?;
        cx.count("runs with nothing to ask for", 1);
        if r.tty {
            cx.count("runs on a terminal", 1);
        }
        return Ok(());
    }
    // the destination exists
    let shape = match cx.rng.below(6) {
        0 => {
            put(&e, &s.d.join("out/target"), b"behind a link");
            symlink(&e, &s.d.join("out/target"), &full);
            "a link to a file"
        }
        1 => {
            put(&e, &full, b"");
            "an empty file"
        }
        2 => {
            let c = if s.decomp { s.plain.clone() } else { s.content.clone() };
            put(&e, &full, &c);
            "a file with other content"
        }
        3 => {
            put(&e, &s.d.join("out/twin"), b"two names");
            std::fs::hard_link(s.d.join("out/twin"), &full).map_err(|x| format!("harness: {x}"))?;
            "a hard link"
        }
        _ => {
            put(&e, &full, b"old content");
            "a file"
        }
    };
    let yes = cx.rng.chance(1, 3);
    let answer: Vec<u8> = if yes {
        cx.rng.pick(YES).to_vec()
    } else if cx.rng.chance(1, 4) {
        // any other first byte
        let mut b = cx.rng.below(256) as u8;
        if b == b'y' || b == b'Y' || b.is_ascii_whitespace() {
            b = b'z';
        }
        vec![b, b'y', b'\n']
    } else {
        cx.rng.pick(NO).to_vec()
    };
    let held = cx.rng.chance(1, 3);
    let mut r = s.run(&flags, dst.as_deref());
    r.vars = vars(cx);
    r.trace = true;
    // reading the answer is interrupted, or gives it in pieces
    if cx.rng.chance(1, 4) {
        r.plan = format!("a:{}:{}", cx.rng.below(4), cx.rng.below(3));
    }
    // (what a terminal would take for commands is left out)
    r.tty = cx.rng.chance(1, 4) && answer.iter().all(|b| (*b >= b' ' && *b != 127) || *b == b'\n' || *b == b'\r');
    if r.tty {
        cx.count("runs on a terminal", 1);
    }
    let before = snapshot(&s.d);
    cx.note(format!("{}; destination is {shape}, answer {:?}{}", r.show(), String::from_utf8_lossy(&answer), if held { ", given later" } else { "" }));
    cx.sign(cx.desc.clone().as_bytes());
    let o = if held {
        r.stdin = Stdin::Held;
        let mut g = r.start(&e)?;
        let ended = g.settle(Duration::from_millis(150))?;
        let now = snapshot(&s.d);
        let ch = changes(&before, &now, &[]);
        ensure!(ch.is_empty(), "{}: changed before any answer was given: {}", r.show(), ch.join("; "));
        ensure!(!ended, "{}: ended without waiting for an answer: {}", r.show(), g.finish(false)?.show());
        ensure!(!g.stdout().is_empty(), "{}: waits without having asked", r.show());
        cx.count("waits observed", 1);
        g.answer(&answer);
        g.finish(false)?
    } else {
        r.stdin = if answer.is_empty() { Stdin::Closed } else { Stdin::Bytes(answer.clone()) };
        r.go(&e)?
    };
    ensure!(o.end != End::Waiting, "{}: goes on waiting after the answer", r.show());
    cx.count("interrupted readings of an answer", o.stdin_eintr);
    let after = snapshot(&s.d);
    if yes {
        ensure!(o.ok(), "{}: failed after the answer {:?}: {}", r.show(), String::from_utf8_lossy(&answer), o.show());
        let got = std::fs::read(&full).map_err(|x| format!("{}: {x}", r.show()))?;
        s.right(&got).map_err(|x| format!("{}: the answer {:?} did not replace the destination: {x}", r.show(), String::from_utf8_lossy(&answer)))?;
        cx.count("consenting answers", 1);
    } else {
        let ch = changes(&before, &after, &[]);
        ensure!(ch.is_empty(), "{}: changed files after the answer {:?}: {}", r.show(), String::from_utf8_lossy(&answer), ch.join("; "));
        ensure!(!matches!(o.end, End::Signal(_) | End::Spinning), "{}: {}", r.show(), o.show());
        cx.count("refusing answers", 1);
    }
    cx.seen("answers", crate::rng::fnv(&answer, 7));
    Ok(())
}

// ------------------------------------------------------------------ C16

pub fn c16(cx: &mut Cx) -> R {
    let e = env(cx);
    let dec = cx.rng.chance(1, 2);
    let mut s = scene(cx, &e, dec);
    cx.nontrivial = true;
    let srcp = s.d.join(&s.src);
    let dir = srcp.parent().unwrap().to_path_buf();
    let alias = cx.rng.below(9);
    let mut what = "an unrelated destination";
    let dst: Option<PathBuf> = match alias {
        0..=1 => dst_arg(cx, &s),
        // names that lead to the source; compressing appends .hff, so the name needs one to take off
        k => {
            if !s.decomp {
                // make the source end in .hff, so that an alias can be named
                if s.src.extension() != Some("hff".as_ref()) {
                    let mut n = s.src.clone().into_os_string();
                    n.push(".hff");
                    let to = s.d.join(&n);
                    std::fs::rename(&srcp, &to).map_err(|x| format!("harness: {x}"))?;
                    s.src = n.into();
                    s.src_arg.push(".hff");
                }
            }
            let srcp = s.d.join(&s.src);
            let name = srcp.file_name().unwrap().to_os_string();
            let strip = |p: PathBuf| if s.decomp { p } else { p.with_extension("") };
            match k {
                2 => {
                    what = "the source itself";
                    Some(strip(PathBuf::from(&s.src_arg)))
                }
                3 => {
                    what = "the source by its absolute path";
                    Some(strip(srcp.clone()))
                }
                4 => {
                    what = "the source by a roundabout path";
                    Some(strip(dir.join("../").join(dir.file_name().unwrap()).join("./").join(&name)))
                }
                5 => {
                    what = "a symbolic link to the source";
                    let l = s.d.join("out/link.hff");
                    symlink(&e, &srcp, &l);
                    Some(strip(l))
                }
                6 => {
                    what = "a hard link to the source";
                    let l = s.d.join("out/hard.hff");
                    std::fs::hard_link(&srcp, &l).map_err(|x| format!("harness: {x}"))?;
                    Some(strip(l))
                }
                7 => {
                    what = "a link to a directory with the source";
                    let l = s.d.join("out/dirlink");
                    symlink(&e, &dir, &l);
                    Some(strip(l.join(&name)))
                }
                _ => {
                    if s.decomp && cx.rng.chance(1, 2) {
                        what = "a link without .hff to the source";
                        let l = s.d.join("out/plainlink");
                        if cx.rng.chance(1, 2) {
                            symlink(&e, &srcp, &l);
                        } else {
                            std::fs::hard_link(&srcp, &l).map_err(|x| format!("harness: {x}"))?;
                        }
                        Some(l)
                    } else {
                        what = "the default, which is a link to the source";
                        let l = s.cwd.join(if s.decomp { name.clone() } else {
                            let mut n = name.clone();
                            n.push(".hff");
                            n
                        });
                        if l.symlink_metadata().is_err() {
                            if cx.rng.chance(1, 2) {
                                symlink(&e, &srcp, &l);
                            } else {
                                std::fs::hard_link(&srcp, &l).map_err(|x| format!("harness: {x}"))?;
                            }
                        }
                        None
                    }
                }
            }
        }
    };
    // what is left of the destination without .hff may lead to the source as well
    let srcp = s.d.join(&s.src);
    let mut also = "";
    if s.decomp && cx.rng.chance(1, 3) {
        let p = match &dst {
            Some(p) => s.cwd.join(p),
            None => s.cwd.join(srcp.file_name().unwrap()),
        };
        if p.extension() == Some("hff".as_ref()) {
            let l = p.with_extension("");
            if l.symlink_metadata().is_err() && l.parent().is_some_and(|d| d.is_dir()) {
                also = " (and to a link to it when .hff is taken off)";
                if cx.rng.chance(1, 2) {
                    symlink(&e, &srcp, &l);
                } else {
                    std::fs::hard_link(&srcp, &l).map_err(|x| format!("harness: {x}"))?;
                }
            }
        }
    }
    // another file may be where the result goes
    if alias < 2 && cx.rng.chance(1, 2) {
        let want = s.dst(dst.as_deref());
        let full = s.d.join(&want);
        if want != s.src && full.symlink_metadata().is_err() {
            what = "an existing file";
            match cx.rng.below(6) {
                0 => put(&e, &full, b""),
                1 => {
                    put(&e, &s.d.join("out/target"), b"behind a link");
                    symlink(&e, &s.d.join("out/target"), &full)
                }
                2 => {
                    what = "a directory";
                    mkdir(&e, &full);
                }
                3 => {
                    what = "a file that cannot be written";
                    put(&e, &full, b"old content");
                    std::fs::set_permissions(&full, std::os::unix::fs::PermissionsExt::from_mode(0o444)).map_err(|x| format!("harness: {x}"))?;
                }
                4 => {
                    what = "a link into a missing directory";
                    symlink(&e, &s.d.join("out/missing/file"), &full)
                }
                _ => put(&e, &full, b"old content"),
            }
            cx.count("existing destinations", 1);
        }
    }
    // the source may itself be named through a link
    let mut named = s.src.clone();
    if cx.rng.chance(1, 6) {
        let l = s.cwd.join("via.hff");
        symlink(&e, &srcp, &l);
        s.src_arg = "via.hff".into();
        named = PathBuf::from("work/via.hff");
    }
    let replace = cx.rng.chance(1, 2);
    let mut flags: Vec<&str> = Vec::new();
    if replace {
        flags.push(*cx.rng.pick(&["-r", "--replace", "-rt"]));
    }
    let noask = cx.rng.chance(1, 2);
    if noask {
        flags.push("-n");
    }
    if cx.rng.chance(1, 4) {
        flags.push(*cx.rng.pick(&["-b1", "-b100", "-b0", "-bx", "-t"]));
    }
    let mut r = s.run(&flags, dst.as_deref());
    let answer = *cx.rng.pick(&[&b"y\n"[..], b"n\n", b"", b"yes"]);
    r.vars = vars(cx);
    r.stdin = if answer.is_empty() { Stdin::Closed } else { Stdin::Bytes(answer.to_vec()) };
    // sometimes the source is no good, or cannot be deleted
    let spoil = cx.rng.below(8);
    let mut locked = None;
    match spoil {
        0 if s.decomp => {
            let mut c = s.content.clone();
            match cx.rng.below(3) {
                0 => c.truncate(cx.rng.below(9) as usize),
                1 => c[0] = 0xff,
                _ => c[1] = 0x7f,
            }
            put(&e, &srcp, &c);
            // (what is left may be an archive, of something else)
            if let Ok(x) = decode_archive(&c) {
                s.plain = x;
            }
            s.content = c;
        }
        1 if e.uid.is_some() => {
            locked = Some(srcp.parent().unwrap().to_path_buf());
        }
        _ => (),
    }
    cx.note(format!("{}; the destination is {what}{also}; answer {:?}{}", r.show(), String::from_utf8_lossy(answer), if locked.is_some() { "; read-only directory" } else { "" }));
    cx.sign(cx.desc.clone().as_bytes());
    let before = snapshot(&s.d);
    let chmod = |p: &Path, m: u32| std::fs::set_permissions(p, std::os::unix::fs::PermissionsExt::from_mode(m)).map_err(|x| format!("harness: {x}"));
    if let Some(p) = &locked {
        chmod(p, 0o555)?;
    }
    let o = r.go(&e)?;
    if let Some(p) = &locked {
        chmod(p, 0o755)?;
    }
    let after = snapshot(&s.d);
    let ctx = || format!("{} (the destination is {what}{also}): {}", r.show(), o.show());
    ensure!(!matches!(o.end, End::Signal(_) | End::Spinning | End::Waiting), "{}", ctx());
    let kept = file(&after, &s.src).as_deref() == Some(&s.content[..]);
    let gone = !after.contains_key(&named);
    if kept && (!gone || named != s.src) {
        cx.count("sources kept", 1);
    }
    if !replace || !o.ok() || named != s.src {
        ensure!(kept, "{}: the source's content is lost: {}", ctx(), changes(&before, &after, &[]).join("; "));
    }
    if !replace || !o.ok() {
        ensure!(!gone, "{}: the source is gone", ctx());
    }
    if gone {
        // replaced: some file that was not there like this before holds the result
        let found = after.iter().any(|(p, x)| {
            let Entry::File(c, _) = x else { return false };
            file(&before, p).as_ref() != Some(c) && s.right(c).is_ok()
        });
        let found = found || after.iter().any(|(p, x)| matches!(x, Entry::File(c, _) if *p != s.src && s.right(c).is_ok()));
        ensure!(found, "{}: the source is gone and no file holds the result", ctx());
        ensure!(s.decomp || parse_ok(&s), "harness: scene");
        cx.count("sources replaced", 1);
    } else if replace && o.ok() && kept {
        // nothing was done: declined
        ensure!(changes(&before, &after, &[]).is_empty(), "{}: succeeded with --replace, but the source is still there", ctx());
        cx.count("declined", 1);
    }
    if alias >= 2 {
        cx.count("aliased destinations", 1);
    }
    if !also.is_empty() {
        cx.count("links behind the extension", 1);
    }
    cx.seen("alias kinds", alias * 4 + s.decomp as u64 * 2 + replace as u64);
    Ok(())
}

fn parse_ok(s: &Scene) -> bool {
    !s.content.is_empty()
}
