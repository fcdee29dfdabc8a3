//! C18 to C21, C23: the huff binary under hostile input, failing calls, kills and big files.
use super::p_cli::*;
use crate::cli::*;
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use huff_coding::prelude::*;
use std::ffi::{OsStr, OsString};
use std::path::{Path, PathBuf};

// ------------------------------------------------------------------ C18

/// It must fail cleanly and leave everything as it was
fn rejected(cx: &mut Cx, e: &Env, d: &Path, r: &Run, why: &str) -> R {
    let before = snapshot(d);
    let o = r.go(e)?;
    let after = snapshot(d);
    clean_failure(r, &o, why)?;
    let ch = changes(&before, &after, &[]);
    ensure!(ch.is_empty(), "{} ({why}): files changed: {}", r.show(), ch.join("; "));
    cx.count("rejections", 1);
    Ok(())
}

fn clean_failure(r: &Run, o: &Out, why: &str) -> R {
    ensure!(matches!(o.end, End::Code(_)), "{} ({why}): {}", r.show(), o.show());
    ensure!(!o.panicked(), "{} ({why}): panicked: {}", r.show(), o.show());
    ensure!(o.failed(), "{} ({why}): success reported: {}", r.show(), o.show());
    ensure!(o.has_message(), "{} ({why}): no error message: {}", r.show(), o.show());
    Ok(())
}

const BAD_BLOCKS: &[&[u8]] = &[
    b"0", b"-1", b"", b"abc", b"1T", b"1.5M", b"K", b"ki", b"1KB", b"99999999999999999999", b"0K", b"00", b"0Gi", b"18446744073709551615K",
    b"18446744073709551616", b"18014398509481984Ki", b"36028797018963968K", b"17592186044416Mi", b"17179869184Gi", b"18446744074G",
    b"9223372036854775808Gi", b"1k1", b"1 K", b"1Kk", b"1Kii", b"1iK", b"0x10", b"1_000", b"5,5", b"\xef\xbc\x91", b"\xd9\xa1", b"1\xff", b"\xff", b"1\xc4\xb0",
    b"nan", b"1e3", b"K1", b"1b", b"1M\n", b"340282366920938463463374607431768211456", b"2G2G", b"1PiB", b"12345678901234567890123K",
    b"+5", b"+5K", b" 5", b"5 ", b"\t5", b"5\r", b"5\xc2\xb2", b"\xc2\xb2", b"\xe2\x85\xa7", b"1\xc2\xa0K", b"5.", b".5", b"5i", b"5I", b"5k ", b"5'000", b"0b11", b"5_", b"1MM", b"1MK", b"1k5k",
];

/// A text near a block size that is none, by the documented units
fn bad_block(cx: &mut Cx) -> Vec<u8> {
    const PARTS: &[&str] = &[
        "0", "1", "5", "7", "42", "1000", "99", "k", "K", "m", "M", "g", "G", "i", "I", "Ki", "mi", "Gi", "B", "b", "T", "+", "-", ".", ",", "_", " ", "\t",
        "\u{b2}", "\u{661}", "\u{ff15}", "\u{bd}", "\u{2160}", "\u{130}", "\u{131}", "\u{1d7d8}", "%", "x", "e", "o",
    ];
    loop {
        let n = cx.rng.range(1, 5);
        let mut t = String::new();
        if cx.rng.chance(2, 3) {
            t.push_str(cx.rng.pick(&["5", "20", "300", "65536"]));
        }
        for _ in 0..n {
            t.push_str(cx.rng.pick(PARTS));
        }
        let digits = t.bytes().take_while(|b| b.is_ascii_digit()).count();
        let fine = digits > 0 && ["", "k", "m", "g", "ki", "mi", "gi"].contains(&t[digits..].to_ascii_lowercase().as_str());
        if fine && t[..digits].bytes().any(|b| b != b'0') || t.starts_with('-') {
            continue;
        }
        return t.into_bytes();
    }
}

pub fn c18(cx: &mut Cx) -> R {
    cx.nontrivial = true;
    match cx.rng.below(10) {
        0..=3 => c18_invocation(cx),
        4..=7 => c18_archive(cx),
        8 => c18_deep(cx),
        _ => c18_headers(cx),
    }
}

fn c18_invocation(cx: &mut Cx) -> R {
    let e = env(cx);
    let dec = cx.rng.chance(1, 2);
    let s = scene(cx, &e, dec);
    let d = s.d.clone();
    let w = s.cwd.clone();
    let mut dst: Option<PathBuf> = if cx.rng.chance(1, 2) { Some("result".into()) } else { None };
    let mut src: OsString = s.src_arg.clone();
    let mut flags: Vec<OsString> = Vec::new();
    let mut locked: Option<PathBuf> = None;
    let mut dec_flag = s.decomp;
    let kind = cx.rng.below(22);
    let why = match kind {
        0..=6 => {
            let b = if cx.rng.chance(1, 6) {
                // a random unit that is none
                let mut u: Vec<u8> = format!("{}", cx.rng.range(0, 2000)).into_bytes();
                let l = *cx.rng.pick(b"abcdefhijlnopqrstuvwxyzTPE.%/");
                u.push(l);
                if cx.rng.chance(1, 3) {
                    u.push(b'i');
                }
                u
            } else if cx.rng.chance(1, 3) {
                bad_block(cx)
            } else {
                cx.rng.pick(BAD_BLOCKS).to_vec()
            };
            match cx.rng.below(3) {
                0 => flags.extend(["-b".into(), os(&b)]),
                1 => {
                    let mut x = OsString::from("--block-size=");
                    x.push(os(&b));
                    flags.push(x);
                }
                _ => flags.extend(["--block-size".into(), os(&b)]),
            }
            "an invalid block size"
        }
        7 => {
            src = cx.rng.pick(&["nothing", "nothing.hff", "../nowhere/x.hff", "bystander/x.hff", "no/such/dir"]).into();
            "a missing source"
        }
        8 => {
            src = match cx.rng.below(4) {
                0 => cx.rng.pick(&["..", ".", "/", "../other", "../other/", ""]).into(),
                1 => d.join("other").into_os_string(),
                2 => {
                    mkdir(&e, &w.join("dir.hff"));
                    "dir.hff".into()
                }
                _ => {
                    symlink(&e, Path::new("../other"), &w.join("ldir.hff"));
                    "ldir.hff".into()
                }
            };
            "a directory as source"
        }
        9 => {
            put(&e, &w.join("empty.hff"), b"");
            src = "empty.hff".into();
            "an empty source"
        }
        10 => {
            dec_flag = true;
            let n = *cx.rng.pick(&[
                "x", "x.hf", "x.hfff", "x.hff.gz", "x.hffx", "hff", ".hff", "x.txt", "x.h ff", "xhff", "x.HFF", "x.Hff", "x.hff ", "x. hff", "x.hff.", "x.hff~", "x.hff-old", "x.hff.tmp",
                "..hff.x", "x.hff.hf", "x.hff\n", "x.huff", "x.hff2", "x.hff.HFF",
            ]);
            put(&e, &w.join(n), &s.content);
            src = n.into();
            "a source without the hff extension to decompress"
        }
        11 => {
            symlink(&e, Path::new("dangling"), &w.join("l.hff"));
            src = "l.hff".into();
            "a dangling link as source"
        }
        12 => {
            symlink(&e, Path::new("m.hff"), &w.join("l.hff"));
            symlink(&e, Path::new("l.hff"), &w.join("m.hff"));
            src = "l.hff".into();
            "a looping link as source"
        }
        13 if e.uid.is_some() => {
            locked = Some(d.join(&s.src));
            "an unreadable source"
        }
        14 => {
            dst = Some(cx.rng.pick(&["no/such/dir/out", "../nowhere/out", "bystander/out"]).into());
            "a destination in a missing directory"
        }
        15 => {
            if s.decomp {
                dst = Some(cx.rng.pick(&["../out", "../other", ".", "..", "/"]).into());
            } else {
                mkdir(&e, &w.join("odir.hff"));
                dst = Some("odir".into());
            }
            "a directory as destination"
        }
        // (clap 2.33 itself panics on an unknown long flag before an argument that is not UTF-8)
        16 if src.to_str().is_some() => {
            flags.push(cx.rng.pick(&["--frobnicate", "-x", "-z7", "--block_size=5", "--decompres s", "-dq"]).into());
            "an unknown flag"
        }
        17 => {
            let mut r = Run::new(&w, &[]);
            r.args = cx.rng.pick(&[&[][..], &["-d"], &["-n", "-r"], &["-b"], &["-b", "5"], &["--block-size"]]).iter().map(OsString::from).collect();
            cx.note(r.show());
            cx.sign(cx.desc.clone().as_bytes());
            return rejected(cx, &e, &d, &r, "no source");
        }
        18 => {
            let mut r = s.run(&["-n"], Some(Path::new("one")));
            r.args.push("two".into());
            cx.note(r.show());
            return rejected(cx, &e, &d, &r, "too many files");
        }
        19 => {
            src.push("/");
            "a file named with a trailing slash as source"
        }
        20 => {
            let mut l = vec![b'n'; 300];
            l.extend_from_slice(b".hff");
            src = os(&l);
            "a source with a name that is too long"
        }
        _ => {
            // too long for any file system
            let mut l = vec![b'n'; 300];
            if s.decomp && cx.rng.chance(1, 2) {
                l.extend_from_slice(b".x");
            }
            dst = Some(PathBuf::from(os(&l)));
            "a destination with a name that is too long"
        }
    };
    // sometimes there is a destination already
    let mut r = Run::new(&w, &[]);
    r.vars = super::p_cli::vars(cx);
    if dec_flag {
        r.args.push("-d".into());
    }
    r.args.extend(flags);
    let mut noask = cx.rng.chance(1, 3) || why == "a directory as destination" || why.contains("trailing slash");
    if cx.rng.chance(1, 2) && why != "a destination in a missing directory" && why != "a directory as destination" && !why.contains("too long") {
        let name = match &dst {
            Some(p) => p.clone().into_os_string(),
            None => Path::new(&src).file_name().unwrap_or(OsStr::new("some")).to_os_string(),
        };
        let mut name2 = name.clone();
        name2.push(".hff");
        for n in [name, name2] {
            let p = w.join(&n);
            // (not where the missing source is expected)
            if p != w.join(&src) && p.symlink_metadata().is_err() {
                put(&e, &p, b"what was there before");
            }
        }
        if !noask && cx.rng.chance(1, 2) {
            r.stdin = Stdin::Bytes(b"y\n".to_vec());
        } else {
            noask = true;
        }
        cx.count("with an existing destination", 1);
    }
    if noask {
        r.args.push("-n".into());
    }
    if cx.rng.chance(1, 3) {
        r.args.push("-r".into());
    }
    r.args.push(src);
    if let Some(p) = &dst {
        r.args.push(p.clone().into_os_string());
    }
    // (a leading flag-like value must not swallow anything)
    r.plain = cx.rng.chance(1, 3);
    cx.note(format!("{} ({why})", r.show()));
    cx.sign(cx.desc.clone().as_bytes());
    cx.seen("kinds of bad invocations", kind * 2 + dec_flag as u64);
    let chmod = |p: &Path, m: u32| std::fs::set_permissions(p, std::os::unix::fs::PermissionsExt::from_mode(m)).map_err(|x| format!("harness: {x}"));
    if let Some(p) = &locked {
        chmod(p, 0)?;
    }
    let v = rejected(cx, &e, &d, &r, why);
    if let Some(p) = &locked {
        chmod(p, 0o644)?;
        let c = std::fs::read(p).map_err(|x| format!("{}: the unreadable source is gone: {x}", r.show()))?;
        ensure!(c == s.content, "{}: the unreadable source was changed", r.show());
    }
    v
}

/// Run huff on an archive of whatever quality and compare its verdict with the harness's reader
fn archive_verdict(cx: &mut Cx, e: &Env, a: &[u8], plain: bool) -> R {
    let d = e.fresh();
    put(e, &d.join("a.hff"), a);
    let exists = cx.rng.chance(1, 2);
    if exists {
        put(e, &d.join("out"), b"what was there before");
    }
    let (b, _) = block(cx, a.len().max(1));
    let mut r = Run::new(&d, &[&"-d", &"a.hff", &"out", &"-n"]);
    let replace = cx.rng.chance(1, 4);
    if replace {
        r.args.push("-r".into());
    }
    with_block(&mut r, &b, false);
    r.plain = plain;
    let head: String = a.iter().take(400).map(|b| format!("{b:02x}")).collect();
    cx.note(format!("{} on the {} bytes {head}", r.show(), a.len()));
    let before = snapshot(&d);
    let o = r.go(e)?;
    let after = snapshot(&d);
    match parse_container(a, 1) {
        Err(why) => {
            clean_failure(&r, &o, why)?;
            let ch = changes(&before, &after, &[]);
            ensure!(ch.is_empty(), "{} ({why}): files changed: {}", r.show(), ch.join("; "));
            cx.count("malformed archives rejected", 1);
        }
        Ok(c) => {
            if !c.ordinary() && !o.ok() {
                clean_failure(&r, &o, "an unusual tree")?;
                let ch = changes(&before, &after, &[]);
                ensure!(ch.is_empty(), "{} (an unusual tree): files changed: {}", r.show(), ch.join("; "));
                cx.count("unusual archives rejected", 1);
                return Ok(());
            }
            ensure!(o.ok(), "{}: a well-formed archive is refused: {}", r.show(), o.show());
            let want = c.decode_bytes();
            let got = file(&after, Path::new("out")).ok_or_else(|| format!("{}: no output", r.show()))?;
            ensure!(got == want, "{}: decompressed to {} bytes, the format gives {}; first difference at {}", r.show(), got.len(), want.len(),
                got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len())));
            let mut except = vec![Path::new("out")];
            if replace {
                except.push(Path::new("a.hff"));
            }
            let ch = changes(&before, &after, &except);
            ensure!(ch.is_empty(), "{}: other files changed: {}", r.show(), ch.join("; "));
            cx.count("archives accepted and compared", 1);
        }
    }
    Ok(())
}

fn c18_archive(cx: &mut Cx) -> R {
    let e = env(cx);
    let (base, _, k) = if cx.rng.chance(1, 2) {
        foreign(cx, 60)
    } else {
        let p = content(cx, 200);
        let k = p.len();
        (compress_with_tree(&p, HuffTree::from_weights(ByteWeights::from_bytes(&p))).unwrap().to_bytes(), p, k)
    };
    cx.seen("letters of the mutated archives", k as u64);
    for _ in 0..6 {
        let mut a = base.clone();
        match cx.rng.below(8) {
            0 => a.truncate(cx.rng.below(a.len() as u64) as usize),
            1 => a.truncate(cx.rng.below(9) as usize),
            2 => {
                // padding
                a[0] = (cx.rng.below(10) as u8) << 4 | cx.rng.below(10) as u8;
            }
            3 => {
                // length of the tree
                let n = u32::from_be_bytes(a[1..5].try_into().unwrap());
                let m = match cx.rng.below(6) {
                    0 => n + 1,
                    1 => n.saturating_sub(1),
                    2 => (a.len() - 5) as u32,
                    3 => (a.len() - 6) as u32,
                    4 => *cx.rng.pick(&[0, 1, u32::MAX, 1 << 31, 1 << 24, 0xff, (1 << 31) - 1, u32::MAX - 4]),
                    _ => cx.rng.below(a.len() as u64 * 2) as u32,
                };
                a[1..5].copy_from_slice(&m.to_be_bytes());
            }
            4 => {
                let i = cx.rng.below(a.len() as u64) as usize;
                a[i] ^= 1 << cx.rng.below(8);
            }
            5 => {
                for _ in 0..cx.rng.range(1, 6) {
                    let i = cx.rng.below(a.len() as u64) as usize;
                    a[i] = cx.rng.below(256) as u8;
                }
            }
            6 => {
                let n = cx.rng.range(0, 60);
                a = cx.rng.bytes(n);
                if a.len() > 5 && cx.rng.chance(3, 4) {
                    a[0] &= 0x77;
                    let n = cx.rng.below(a.len() as u64 - 4) as u32;
                    a[1..5].copy_from_slice(&n.to_be_bytes());
                }
            }
            _ => {
                let n = cx.rng.range(1, 40);
                let x = cx.rng.bytes(n);
                a.extend(x);
            }
        }
        cx.sign(&a);
        let plain = cx.rng.chance(1, 3);
        cx.desc.clear();
        archive_verdict(cx, &e, &a, plain)?;
    }
    Ok(())
}

fn c18_headers(cx: &mut Cx) -> R {
    // every padding byte on one archive
    let e = env(cx);
    let (base, _, _) = foreign(cx, 20);
    let from = cx.rng.below(16) as u16;
    for i in 0..12 {
        let mut a = base.clone();
        a[0] = ((from * 16 + i * 21) % 256) as u8;
        cx.desc.clear();
        cx.sign(&a);
        archive_verdict(cx, &e, &a, i % 2 == 0)?;
    }
    Ok(())
}

fn c18_deep(cx: &mut Cx) -> R {
    // deeply nested trees, some of them complete
    let e = env(cx);
    let depth = match cx.rng.below(5) {
        0 => cx.rng.range(200, 300),
        1 => cx.rng.range(1000, 1100),
        2 => cx.rng.range(3000, 30_000),
        3 => cx.rng.range(100_000, 400_000),
        _ => cx.rng.range(1_000_000, 4_000_000),
    };
    let mut bits = vec![true; depth];
    let complete = depth < 50_000 || cx.rng.chance(1, 2);
    if complete {
        // 1^depth, then depth + 1 leaves
        for i in 0..=depth {
            bits.push(false);
            for j in 0..8 {
                bits.push((i >> j) & 1 == 1);
            }
        }
    } else if cx.rng.chance(1, 2) {
        // the leaf first: a chain down the right side
        bits.clear();
        for i in 0..depth / 8 {
            bits.push(true);
            bits.push(false);
            for j in 0..8 {
                bits.push((i >> j) & 1 == 1);
            }
        }
    }
    let (tree, pad) = pack(&bits);
    let mut a = vec![pad << 4];
    a.extend((tree.len() as u32).to_be_bytes());
    a.extend(tree);
    let n = cx.rng.range(1, 200);
    let x = cx.rng.bytes(n);
    a.extend(x);
    cx.sign(&a[..a.len().min(2000)]);
    cx.sign64(depth as u64);
    cx.max("deepest tree", depth as u64);
    cx.desc.clear();
    cx.note(format!("depth {depth}, complete: {complete}"));
    archive_verdict(cx, &e, &a, true)?;
    cx.count("deep trees", 1);
    Ok(())
}

// ------------------------------------------------------------------ scenarios for faults

#[derive(Clone)]
pub struct Job {
    pub d: PathBuf,
    pub decomp: bool,
    pub replace: bool,
    /// the destination exists at the start
    pub old: Option<Vec<u8>>,
    pub src: &'static str,
    pub dst: &'static str,
    pub content: Vec<u8>,
    pub plain: Vec<u8>,
    pub block: String,
}

/// A small job whose run makes about `calls` reads and writes
pub fn job(cx: &mut Cx, e: &Env, calls: usize) -> Job {
    let d = e.fresh();
    let decomp = cx.rng.chance(1, 2);
    // what a BufReader/BufWriter passes through at once depends on the size
    let n = match cx.rng.below(4) {
        0 => cx.rng.range(1, 40),
        1 => cx.rng.range(100, 3000),
        2 => cx.rng.range(8000, 9000),
        _ => cx.rng.range(9000, 60_000),
    };
    let plain = content_n(cx, n);
    let content = if decomp {
        compress_with_tree(&plain, HuffTree::from_weights(ByteWeights::from_bytes(&plain))).unwrap().to_bytes()
    } else {
        plain.clone()
    };
    let len = content.len();
    let b = match cx.rng.below(5) {
        0 => len,
        1 => len.div_ceil(2),
        2 => len.div_ceil(calls),
        3 => (len.div_ceil(calls)).max(cx.rng.range(1, len)),
        _ => 2_000_000_000,
    };
    let old = if cx.rng.chance(1, 3) {
        let n = if cx.rng.chance(1, 2) { 30 } else { len * 2 + 20_000 };
        Some(content_n(cx, n))
    } else {
        None
    };
    let (src, dst) = if decomp { ("f.hff", "f") } else { ("f", "f.hff") };
    Job { d, decomp, replace: cx.rng.chance(1, 2), old, src, dst, content, plain, block: b.to_string() }
}

impl Job {
    pub fn reset(&self, e: &Env) {
        for x in [self.src, self.dst] {
            let _ = std::fs::remove_file(self.d.join(x));
        }
        put(e, &self.d.join(self.src), &self.content);
        put(e, &self.d.join("bystander"), b"bystander");
        if let Some(o) = &self.old {
            put(e, &self.d.join(self.dst), o);
        }
    }
    pub fn run(&self) -> Run {
        let mut r = Run::new(&self.d, &[&"-n", &"-b", &self.block]);
        if self.decomp {
            r.args.push("-d".into());
        }
        if self.replace {
            r.args.push("-r".into());
        }
        r.args.push(self.src.into());
        if self.decomp {
            r.args.push(self.dst.into());
        }
        r
    }
    pub fn show(&self) -> String {
        format!("{} bytes of content, {}, old destination {:?}", self.plain.len(), self.run().show(), self.old.as_ref().map(|x| x.len()))
    }
    pub fn right(&self, got: Option<&Vec<u8>>) -> Result<(), String> {
        match got {
            None => Err("there is no destination".into()),
            Some(g) if self.decomp => {
                if *g == self.plain { Ok(()) } else { Err(format!("the destination has {} bytes that are not the {} of the content", g.len(), self.plain.len())) }
            }
            Some(g) => is_archive_of(g, &self.plain),
        }
    }
    /// A run without faults; the events of the calls it makes
    fn dry(&self, e: &Env) -> Result<(Out, Vec<u8>), String> {
        self.reset(e);
        let mut r = self.run();
        r.trace = true;
        let o = r.go(e)?;
        ensure!(o.ok(), "{} without faults: {}", r.show(), o.show());
        let s = snapshot(&self.d);
        let got = file(&s, Path::new(self.dst));
        self.right(got.as_ref()).map_err(|x| format!("{} without faults: {x}", r.show()))?;
        ensure!(self.replace != s.contains_key(Path::new(self.src)), "{} without faults: source {}", r.show(), if self.replace { "kept" } else { "gone" });
        ensure!(o.events.len() >= 4, "harness: the fault injector saw only {} calls", o.events.len());
        Ok((o, got.unwrap()))
    }
    fn bystander(&self, s: &Snap, ctx: &dyn Fn() -> String) -> R {
        // (a temporary file may be left behind by a failure or a kill; nothing else)
        ensure!(file(s, Path::new("bystander")).as_deref() == Some(b"bystander"), "{}: another file was changed", ctx());
        Ok(())
    }
}

// ------------------------------------------------------------------ C19

const EIO: i32 = 5;
const EACCES: i32 = 13;
const EBUSY: i32 = 16;
const EMFILE: i32 = 24;
const ENOSPC: i32 = 28;
const EROFS: i32 = 30;
const EPERM: i32 = 1;
const EDQUOT: i32 = 122;
const EINVAL: i32 = 22;
const EFBIG: i32 = 27;
const ENOENT: i32 = 2;
const ENXIO: i32 = 6;
const EAGAIN: i32 = 11;
const ENOMEM: i32 = 12;
const EISDIR: i32 = 21;
const EPIPE: i32 = 32;
const ELOOP: i32 = 40;
const ETIMEDOUT: i32 = 110;
const ESTALE: i32 = 116;

fn errnos(class: char) -> &'static [i32] {
    match class {
        'o' => &[EACCES, EMFILE, EIO, ENOENT, ENOMEM, ENXIO, ESTALE],
        'c' => &[ENOSPC, EACCES, EROFS, EIO, ENOENT, EISDIR, ELOOP, EDQUOT],
        'r' => &[EIO, EAGAIN, EISDIR, ETIMEDOUT, ESTALE, ENOMEM, EPIPE],
        'w' => &[ENOSPC, EIO, EDQUOT, EFBIG, EPIPE, EAGAIN, EINVAL, ETIMEDOUT, ENOMEM],
        's' => &[EIO, EINVAL, ESTALE],
        'u' => &[EACCES, EPERM, EBUSY, EIO, EROFS, ENOENT, ESTALE],
        _ => &[EIO, ENOSPC],
    }
}

pub fn c19(cx: &mut Cx) -> R {
    if cx.idx % 12 == 11 {
        return c19_real(cx);
    }
    let e = env(cx);
    let j = job(cx, &e, 5);
    cx.nontrivial = true;
    cx.note(j.show());
    cx.sign(cx.desc.clone().as_bytes());
    let (dry, _) = j.dry(&e)?;
    let classes: std::collections::BTreeSet<char> = dry.events.iter().map(|x| x.class).collect();
    let mut plans: Vec<(String, char)> = Vec::new();
    let n = dry.events.len();
    for (i, ev) in dry.events.iter().enumerate() {
        // every call, as long as there are not too many of them
        if n > 60 && !(i < 25 || i + 25 > n) && !cx.rng.chance(1, 4) {
            continue;
        }
        let en = *cx.rng.pick(errnos(ev.class));
        plans.push((format!("e:{}:{en}", ev.n), ev.class));
        let en = *cx.rng.pick(errnos(ev.class));
        // from here on, this class
        plans.push((format!("E:{}:{en}:{}", ev.n, ev.class), ev.class));
        if ev.class == 'w' && ev.want > 1 {
            // a disk that fills up: part of it goes through, the rest does not
            let k = cx.rng.range(1, ev.want as usize - 1);
            plans.push((format!("h:{}:{k};E:{}:{ENOSPC}:w", ev.n, ev.n + 1), 'w'));
            // and one that has room again afterwards
            let k = cx.rng.range(1, ev.want as usize - 1);
            let en = *cx.rng.pick(errnos('w'));
            plans.push((format!("h:{}:{k};e:{}:{en}", ev.n, ev.n + 1), 'w'));
        }
        if ev.class == 'r' && ev.ret > 1 && cx.rng.chance(1, 2) {
            // a part is read, the next call fails
            let k = cx.rng.range(1, ev.ret as usize - 1);
            let en = *cx.rng.pick(errnos('r'));
            plans.push((format!("h:{}:{k};e:{}:{en}", ev.n, ev.n + 1), 'r'));
        }
        if cx.rng.chance(1, 3) {
            // everything fails from here on
            let all: String = classes.iter().collect();
            plans.push((format!("E:{}:{EIO}:{all}", ev.n), ev.class));
        }
        if cx.rng.chance(1, 6) {
            // two faults
            let m = ev.n + 1 + cx.rng.below(4);
            plans.push((format!("e:{}:{EIO};e:{m}:{ENOSPC}", ev.n), ev.class));
        }
    }
    for (plan, class) in plans {
        j.reset(&e);
        let mut r = j.run();
        r.plan = plan;
        let o = r.go(&e)?;
        let hit = o.events.iter().filter(|x| x.ret == -1 && x.errno > 0).count();
        judge(cx, &j, &r, &o)?;
        if hit > 0 {
            cx.count(&format!("failing calls of class {class}"), hit as u64);
            cx.count("failed calls", hit as u64);
            cx.seen("fault points", (class as u64) << 32 | r.plan.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)) & 0xffff_ffff);
        }
        cx.count("faulted runs", 1);
        if o.ok() {
            cx.count("runs that succeeded all the same", 1);
        } else {
            cx.count("runs that failed", 1);
        }
    }
    Ok(())
}

fn judge(_cx: &mut Cx, j: &Job, r: &Run, o: &Out) -> R {
    let s = snapshot(&j.d);
    let ctx = || format!("{} ({}): {}", r.show(), j.show(), o.show());
    ensure!(matches!(o.end, End::Code(_)), "{}", ctx());
    ensure!(!o.panicked(), "{}: panicked", ctx());
    let src = file(&s, Path::new(j.src));
    let dst = file(&s, Path::new(j.dst));
    let right = j.right(dst.as_ref());
    if o.ok() {
        right.clone().map_err(|x| format!("{}: success is reported, but {x}", ctx()))?;
    } else {
        ensure!(src.is_some(), "{}: failed, and the source is gone", ctx());
        ensure!(o.has_message(), "{}: no error message", ctx());
    }
    match &src {
        Some(c) => ensure!(*c == j.content, "{}: the source was changed", ctx()),
        None => {
            ensure!(j.replace, "{}: the source is gone without --replace", ctx());
            right.map_err(|x| format!("{}: the source is gone, but {x}", ctx()))?;
        }
    }
    j.bystander(&s, &ctx)
}

/// Failures of real file systems
fn c19_real(cx: &mut Cx) -> R {
    let e = env(cx);
    let j = job(cx, &e, 5);
    cx.nontrivial = true;
    cx.note(format!("real failures: {}", j.show()));
    cx.sign(cx.desc.clone().as_bytes());
    // a full device
    let full = std::fs::OpenOptions::new().write(true).open("/dev/full").is_ok();
    if full {
        let mut j = j.clone();
        j.old = None;
        j.reset(&e);
        symlink(&e, Path::new("/dev/full"), &j.d.join(j.dst));
        let r = j.run();
        let o = r.go(&e)?;
        let ctx = || format!("{} to a full device: {}", r.show(), o.show());
        ensure!(o.failed() && !o.panicked() && o.has_message(), "{}", ctx());
        ensure!(std::fs::read(j.d.join(j.src)).ok().as_ref() == Some(&j.content), "{}: the source is lost", ctx());
        cx.count("full devices", 1);
        let _ = std::fs::remove_file(j.d.join(j.dst));
    }
    if e.uid.is_some() {
        // a directory huff may not write in
        let chmod = |m: u32| std::fs::set_permissions(&j.d, std::os::unix::fs::PermissionsExt::from_mode(m)).map_err(|x| format!("harness: {x}"));
        j.reset(&e);
        chmod(0o555)?;
        let r = j.run();
        let o = r.go(&e);
        chmod(0o755)?;
        let o = o?;
        judge(cx, &j, &r, &o)?;
        ensure!(j.old.is_some() && !j.replace || !o.ok(), "{} in a read-only directory: {}", r.show(), o.show());
        cx.count("read-only directories", 1);
        // a destination huff may not write to
        if j.old.is_some() {
            j.reset(&e);
            let p = j.d.join(j.dst);
            std::fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o444)).map_err(|x| format!("harness: {x}"))?;
            let r = j.run();
            let o = r.go(&e)?;
            judge(cx, &j, &r, &o)?;
            cx.count("read-only destinations", 1);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C20

pub fn c20(cx: &mut Cx) -> R {
    let e = env(cx);
    let j = job(cx, &e, 6);
    cx.nontrivial = true;
    cx.note(j.show());
    cx.sign(cx.desc.clone().as_bytes());
    let (dry, normal) = j.dry(&e)?;
    let mut plans: Vec<String> = Vec::new();
    let transfers: Vec<&Event> = dry.events.iter().filter(|x| matches!(x.class, 'r' | 'w' | 'x')).collect();
    for (i, ev) in transfers.iter().enumerate() {
        if transfers.len() > 24 && !(i < 8 || i + 8 > transfers.len()) && !cx.rng.chance(1, 5) {
            continue;
        }
        if ev.ret > 1 {
            plans.push(format!("h:{}:1", ev.n));
            let k = cx.rng.range(1, ev.ret as usize - 1);
            plans.push(format!("h:{}:{k}", ev.n));
            if cx.rng.chance(1, 3) {
                plans.push(format!("h:{}:{};h:{}:1", ev.n, ev.ret - 1, ev.n + 1));
            }
        }
        plans.push(format!("I:{}", ev.n));
        if cx.rng.chance(1, 3) {
            plans.push(format!("I:{};I:{}", ev.n, ev.n + 1));
        }
        if cx.rng.chance(1, 3) {
            // interrupted after a part
            plans.push(format!("h:{}:1;I:{}", ev.n, ev.n + 1));
        }
    }
    // every transfer at once
    for (p, m) in [(1000, 1), (1000, 2), (1000, 7), (700, 100), (1000, 5000), (500, 20_000)] {
        if m * 3000 < j.content.len().max(j.plain.len()) {
            continue;
        }
        let s = cx.rng.below(1 << 30);
        plans.push(format!("s:{s}:{p}:{m}"));
        plans.push(format!("s:{s}:{p}:{m};i:{}:300", s + 1));
    }
    for p in [100, 600] {
        plans.push(format!("i:{}:{p}", cx.rng.below(1 << 30)));
    }
    // reading the answer, if there is a question
    if j.old.is_some() {
        for p in ["a:1:0", "a:3:1", "a:0:1"] {
            plans.push(if cx.rng.chance(1, 2) { p.into() } else { format!("{p};i:{}:300", cx.rng.below(1 << 30)) });
        }
    }
    for plan in plans {
        j.reset(&e);
        let mut r = j.run();
        if plan.starts_with('a') {
            r.args.retain(|a| a != "-n");
            r.stdin = Stdin::Bytes(cx.rng.pick(&[&b"y\n"[..], b"Yes\n", b"Y"]).to_vec());
        }
        r.plan = plan;
        let o = r.go(&e)?;
        let ctx = || format!("{} ({}): {}", r.show(), j.show(), o.show());
        ensure!(o.ok(), "{}", ctx());
        cx.count("interrupted readings of an answer", o.stdin_eintr);
        let s = snapshot(&j.d);
        let got = file(&s, Path::new(j.dst)).ok_or_else(|| format!("{}: no destination", ctx()))?;
        ensure!(got == normal, "{}: the output has {} bytes and differs from the normal {}, first at {}", ctx(), got.len(), normal.len(),
            got.iter().zip(&normal).position(|(x, y)| x != y).unwrap_or(got.len().min(normal.len())));
        match file(&s, Path::new(j.src)) {
            Some(c) => ensure!(c == j.content && !j.replace, "{}: the source was {}", ctx(), if j.replace { "kept" } else { "changed" }),
            None => ensure!(j.replace, "{}: the source is gone", ctx()),
        }
        j.bystander(&s, &ctx)?;
        cx.count("runs", 1);
        cx.count("short transfers", o.events.iter().filter(|x| x.ret > 0 && x.ret < x.want && matches!(x.class, 'r' | 'w' | 'x')).count() as u64);
        cx.count("interrupted calls", o.events.iter().filter(|x| x.ret == -1 && x.errno == 4).count() as u64);
    }
    Ok(())
}

// ------------------------------------------------------------------ C21

pub fn c21(cx: &mut Cx) -> R {
    let e = env(cx);
    let big = cx.idx % 10 == 9;
    let mut j = job(cx, &e, 6);
    if big {
        j.plain = content_n(cx, 400_000);
        j.content = if j.decomp {
            compress_with_tree(&j.plain, HuffTree::from_weights(ByteWeights::from_bytes(&j.plain))).unwrap().to_bytes()
        } else {
            j.plain.clone()
        };
        j.block = "20000".into();
    }
    cx.nontrivial = true;
    cx.note(j.show());
    cx.sign(cx.desc.clone().as_bytes());
    let (dry, normal) = j.dry(&e)?;
    let mut kills: Vec<(String, Option<u64>)> = Vec::new();
    let n = dry.events.len();
    if big {
        for _ in 0..14 {
            let us = cx.rng.below((dry.secs * 1.1e6) as u64 + 500);
            kills.push((String::new(), Some(us)));
        }
    }
    for (i, ev) in dry.events.iter().enumerate() {
        if n > 30 && !(i < 10 || i + 12 > n) && !cx.rng.chance(1, if big { 12 } else { 3 }) {
            continue;
        }
        for w in ["b", "h", "a"] {
            if w == "h" && (ev.class != 'w' || ev.want < 2) {
                continue;
            }
            kills.push((format!("k:{}:{w}", ev.n), None));
        }
    }
    for (plan, after) in kills {
        j.reset(&e);
        let mut r = j.run();
        r.plan = plan;
        r.kill_after = after;
        let o = r.go(&e)?;
        let ctx = || format!("{}{} ({}): {}", r.show(), after.map(|x| format!(" killed after {x} us")).unwrap_or_default(), j.show(), o.show());
        if after.is_some() && o.ok() {
            cx.count("kills that came too late", 1);
        } else {
            ensure!(o.end == End::Signal(9), "{}: not killed", ctx());
            cx.count("kills", 1);
        }
        let s = snapshot(&j.d);
        let got = file(&s, Path::new(j.dst));
        match file(&s, Path::new(j.src)) {
            Some(c) => {
                ensure!(c == j.content, "{}: the source was changed", ctx());
                let state = match &got {
                    None => 0,
                    Some(g) if Some(g) == j.old.as_ref() => 1,
                    Some(g) if *g == normal => 3,
                    Some(_) => 2,
                };
                cx.count(["killed with no destination yet", "killed with the old destination", "killed with part of the destination", "killed with the whole destination"][state], 1);
            }
            None => {
                ensure!(j.replace, "{}: the source is gone without --replace", ctx());
                j.right(got.as_ref()).map_err(|x| format!("{}: the source is gone, but {x}", ctx()))?;
                cx.count("killed with the source deleted", 1);
                continue;
            }
        }
        j.bystander(&s, &ctx)?;
        // once more
        let mut r2 = j.run();
        if cx.rng.chance(1, 3) {
            r2.args.retain(|a| a != "-n");
            r2.stdin = Stdin::Bytes(b"y\n".to_vec());
        }
        let o2 = r2.go(&e)?;
        ensure!(o2.ok(), "{}: then the run {} fails: {}", ctx(), r2.show(), o2.show());
        let s = snapshot(&j.d);
        let got = file(&s, Path::new(j.dst));
        ensure!(got.as_ref() == Some(&normal), "{}: then the run {} gives another result", ctx(), r2.show());
        ensure!(j.replace != s.contains_key(Path::new(j.src)), "{}: then the run {} leaves the source in another state", ctx(), r2.show());
        cx.count("reruns", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ C23

/// The buffer huff may always use
const FIXED: u128 = 64 * 1024;

fn reads(o: &Out, src: &Path) -> (u128, u64) {
    // reads of the source only
    let mut fds = std::collections::HashSet::new();
    let (mut m, mut n) = (0u128, 0);
    let name = src.file_name().unwrap().to_string_lossy().into_owned();
    for ev in &o.events {
        match ev.class {
            'o' | 'c' => {
                if ev.path.ends_with(&name) {
                    fds.insert(ev.ret);
                } else {
                    fds.remove(&ev.ret);
                }
            }
            'r' if fds.contains(&ev.fd) => {
                m = m.max(ev.want.max(0) as u128);
                n += 1;
            }
            _ => (),
        }
    }
    (m, n)
}

pub fn c23(cx: &mut Cx) -> R {
    cx.nontrivial = true;
    match cx.idx % 10 {
        0..=3 => c23_reads(cx),
        4 => c23_growth(cx),
        5 if cx.idx % 20 == 5 => c23_hostile(cx),
        5..=7 => c23_units(cx),
        8 => c23_giga(cx),
        _ => c23_memory(cx),
    }
}

fn source(cx: &mut Cx, e: &Env, n: usize, decomp: bool) -> (PathBuf, Vec<u8>, Vec<u8>) {
    let d = e.fresh();
    let plain = cheap_content(cx, n);
    let content = if decomp {
        // made by huff itself (its archives are checked by C14 and C15)
        put(e, &d.join("src"), &plain);
        let mut r = Run::new(&d, &[&"-n", &"-b", &"1M", &"src"]);
        r.cpu = 60;
        let _ = r.go(e);
        let _ = std::fs::remove_file(d.join("src"));
        std::fs::read(d.join("src.hff")).unwrap_or_default()
    } else {
        put(e, &d.join("src"), &plain);
        plain.clone()
    };
    (d, plain, content)
}

/// Content that is quick to make
fn cheap_content(cx: &mut Cx, n: usize) -> Vec<u8> {
    let k = cx.rng.range(1, 64);
    let motif = content_n(cx, cx_len(k));
    let noise = if n > 40_000_000 { 1 + cx.rng.below(3) } else { cx.rng.below(4) };
    let noise = if n > 40_000_000 && noise != 2 { 1 } else { noise };
    let mut v = Vec::with_capacity(n);
    let mut x = cx.rng.below(u64::MAX) | 1;
    while v.len() < n {
        if noise == 0 {
            v.extend_from_slice(&motif);
        } else {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            let b = x.to_le_bytes();
            match noise {
                1 => v.extend_from_slice(&b),
                2 => v.extend(b.iter().map(|b| b & 0x11)),
                _ => v.extend(b.iter().map(|b| b & 3 & (b >> 2))),
            }
        }
    }
    v.truncate(n);
    v
}

fn cx_len(k: usize) -> usize {
    k * 16
}

fn traced(e: &Env, d: &Path, decomp: bool, b: &str, plan: &str) -> Result<(Run, Out, u128, u64), String> {
    let src = if decomp { "src.hff" } else { "src" };
    let mut r = Run::new(d, &[&"-n"]);
    if !b.is_empty() {
        r.args.extend(["-b".into(), b.into()]);
    }
    if decomp {
        r.args.push("-d".into());
    }
    r.args.push(src.into());
    r.args.push("res".into());
    r.trace = true;
    r.cpu = 100;
    r.plan = plan.into();
    let o = r.go(e)?;
    let (m, n) = reads(&o, Path::new(src));
    Ok((r, o, m, n))
}

fn c23_reads(cx: &mut Cx) -> R {
    let e = env(cx);
    let decomp = cx.rng.chance(1, 2);
    let n = cx.rng.range(200_000, if cx.thorough() { 4_000_000 } else { 1_200_000 });
    let (d, _plain, content) = source(cx, &e, n, decomp);
    ensure!(!content.is_empty(), "huff made no archive of {n} bytes");
    cx.note(format!("{} of {} bytes", if decomp { "decompressing" } else { "compressing" }, content.len()));
    for _ in 0..3 {
        let lo = (content.len() / 100).max(1);
        let b = match cx.rng.below(4) {
            0 => cx.rng.range(lo, lo * 4),
            1 => cx.rng.range(65_000, 66_000).max(lo),
            _ => cx.rng.range(65_536, content.len().max(65_537)),
        };
        let (r, o, m, k) = traced(&e, &d, decomp, &b.to_string(), "")?;
        cx.sign(format!("{} {n} {b}", r.show()).as_bytes());
        ensure!(o.ok(), "{}: {}", r.show(), o.show());
        ensure!(k > 0, "harness: no reads seen");
        ensure!(m <= FIXED.max(b as u128), "{} on {} bytes: reads {m} bytes in one go", r.show(), content.len());
        cx.count("reads watched", k);
        cx.max("largest read", m as u64);
        cx.count("runs", 1);
    }
    Ok(())
}

fn c23_units(cx: &mut Cx) -> R {
    let e = env(cx);
    let decomp = cx.rng.chance(1, 3);
    // files larger than the block, so that the block shows
    let mega = cx.rng.chance(1, 2);
    let n = if mega { cx.rng.range(2_600_000, 3_300_000) } else { cx.rng.range(800_000, 1_200_000) };
    let (d, _plain, content) = source(cx, &e, n, decomp);
    ensure!(!content.is_empty(), "huff made no archive of {n} bytes");
    let (unit, mult): (&str, u64) = if mega { *cx.rng.pick(&[("M", 1_000_000), ("m", 1_000_000), ("Mi", 1 << 20), ("MI", 1 << 20), ("mi", 1 << 20), ("mI", 1 << 20)]) } else { *cx.rng.pick(&[("K", 1000), ("k", 1000), ("Ki", 1024), ("KI", 1024), ("ki", 1024), ("kI", 1024)]) };
    let most = (content.len() as u64 / mult).saturating_sub(1).max(1);
    let k = if mega { cx.rng.range(1, most as usize) as u64 } else { cx.rng.range((most as usize).min(100), most as usize) as u64 };
    let text = format!("{k}{unit}");
    let bytes = (k * mult).to_string();
    cx.note(format!("-b {text} and -b {bytes} on {} bytes, decompress {decomp}", content.len()));
    cx.sign(cx.desc.clone().as_bytes());
    let (r1, o1, m1, k1) = traced(&e, &d, decomp, &text, "")?;
    let (r2, o2, m2, k2) = traced(&e, &d, decomp, &bytes, "")?;
    ensure!(o1.ok(), "{}: {}", r1.show(), o1.show());
    ensure!(o2.ok(), "{}: {}", r2.show(), o2.show());
    ensure!(m1 <= FIXED.max((k * mult) as u128), "{}: reads {m1} bytes in one go", r1.show());
    ensure!(m1 == m2, "{} reads at most {m1} bytes in one go, {} {m2}", r1.show(), r2.show());
    ensure!(k1 == k2, "{} makes {k1} reads, {} {k2}", r1.show(), r2.show());
    cx.count("reads watched", k1 + k2);
    cx.count("units compared", 1);
    cx.seen("units", crate::rng::fnv(unit.as_bytes(), 0));
    cx.count("runs", 2);
    Ok(())
}

/// Gigabytes: a sparse file, whose first read fails
fn c23_giga(cx: &mut Cx) -> R {
    let e = env(cx);
    let d = e.fresh();
    let f = std::fs::File::create(d.join("src")).map_err(|x| format!("harness: {x}"))?;
    f.set_len(3_300_000_000).map_err(|x| format!("harness: {x}"))?;
    drop(f);
    own(&e, &d.join("src"));
    let (text, n): (&str, u64) = *cx.rng.pick(&[("1G", 1_000_000_000), ("1Gi", 1 << 30), ("1g", 1_000_000_000), ("1gI", 1 << 30), ("1GI", 1 << 30), ("1gi", 1 << 30), ("", 2_000_000_000), ("1000M", 1_000_000_000), ("1024Mi", 1 << 30), ("1000000K", 1_000_000_000), ("1048576Ki", 1 << 30)]);
    cx.note(format!("-b {text:?} and -b {n} on a sparse file"));
    cx.sign(cx.desc.clone().as_bytes());
    let plan = format!("E:1:{EIO}:r");
    let (r1, o1, m1, k1) = traced(&e, &d, false, text, &plan)?;
    let (r2, o2, m2, _) = traced(&e, &d, false, &n.to_string(), &plan)?;
    for (r, o) in [(&r1, &o1), (&r2, &o2)] {
        ensure!(o.failed() && !o.panicked(), "{}: {}", r.show(), o.show());
    }
    ensure!(k1 > 0, "harness: no reads seen");
    ensure!(m1 <= n as u128, "{}: reads {m1} bytes in one go", r1.show());
    ensure!(m1 == m2, "{} reads {m1} bytes in one go, {} {m2}", r1.show(), r2.show());
    let got = std::fs::metadata(d.join("src")).map(|m| m.len()).unwrap_or(0);
    ensure!(got == 3_300_000_000, "{}: the source was changed", r1.show());
    cx.count("units compared", 1);
    cx.count("gigabyte units compared", 1);
    cx.seen("units", crate::rng::fnv(text.as_bytes(), 0));
    cx.count("runs", 2);
    Ok(())
}

/// An archive whose header claims a tree of many megabytes: it is loaded in parts, or not at all
/// (a tree of 256 bytes takes at most 320)
fn c23_hostile(cx: &mut Cx) -> R {
    let e = env(cx);
    let d = e.fresh();
    let n = cx.rng.range(48_000_000, if cx.thorough() { 400_000_000 } else { 90_000_000 });
    let b = *cx.rng.pick(&[1, 2, 5, 100, 4096, 65_536, 250_000]);
    let kind = cx.rng.below(4);
    let data = cx.rng.range(1, 100_000);
    let f = std::fs::File::create(d.join("src.hff")).map_err(|x| format!("harness: {x}"))?;
    {
        use std::os::unix::fs::FileExt;
        let mut head = vec![(cx.rng.below(8) as u8) << 4 | cx.rng.below(8) as u8];
        head.extend((n as u32).to_be_bytes());
        f.write_all_at(&head, 0).map_err(|x| format!("harness: {x}"))?;
        let body = match kind {
            0 => Vec::new(),
            1 => vec![0xff; n],
            // a well-formed tree to begin with, of the same letter again and again
            2 => (0..n).map(|i| [0b1000_0000u8, 0b0010_0000, 0b0000_1000, 0b0000_0010, 0][i % 5]).collect(),
            _ => cheap_content(cx, n),
        };
        f.write_all_at(&body, 5).map_err(|x| format!("harness: {x}"))?;
        f.set_len(5 + (n + data) as u64).map_err(|x| format!("harness: {x}"))?;
    }
    drop(f);
    own(&e, &d.join("src.hff"));
    cx.note(format!("archive with a tree of {n} bytes, kind {kind}, -b {b}"));
    cx.sign(cx.desc.clone().as_bytes());
    let (r, o, m, _) = traced(&e, &d, true, &b.to_string(), "")?;
    ensure!(!o.panicked(), "{}: {}", r.show(), o.show());
    ensure!(m <= FIXED.max(b as u128), "{} of an archive with a tree of {n} bytes: reads {m} bytes in one go", r.show());
    let h = o.hwm.ok_or("harness: no peak memory")?;
    ensure!(h < 16_000 + 32 * (b as u64) / 1000, "{} of an archive with a tree of {n} bytes: {h} kB of memory at the peak", r.show());
    cx.max("peak memory with a huge tree, kB", h);
    cx.count("archives with huge trees", 1);
    cx.count("runs", 1);
    let _ = e.fresh();
    Ok(())
}

/// Small blocks: the memory must not grow with their number
fn c23_growth(cx: &mut Cx) -> R {
    let e = env(cx);
    let decomp = cx.rng.chance(1, 2);
    let b = if decomp { cx.rng.range(2, 24) } else { cx.rng.range(48, 400) };
    let blocks = if decomp { cx.rng.range(60_000, 100_000) } else { cx.rng.range(2_200, 3_000) };
    let letters: Vec<u8> = (0..cx.rng.range(2, 9)).map(|_| cx.rng.below(256) as u8).collect();
    let mut peak = Vec::new();
    for part in [12, 1] {
        let d = e.fresh();
        let n = b * blocks / part * if decomp { 2 } else { 1 };
        let plain: Vec<u8> = (0..n.max(16)).map(|i| if i < letters.len() { letters[i] } else { *cx.rng.pick(&letters) }).collect();
        let content = if decomp {
            compress_with_tree(&plain, HuffTree::from_weights(ByteWeights::from_bytes(&plain))).unwrap().to_bytes()
        } else {
            plain
        };
        put(&e, &d.join(if decomp { "src.hff" } else { "src" }), &content);
        let (r, o, m, _) = traced(&e, &d, decomp, &b.to_string(), "")?;
        cx.note(format!("{} on {} bytes", r.show(), content.len()));
        ensure!(o.ok(), "{}: {}", r.show(), o.show());
        ensure!(m <= FIXED.max(b as u128), "{}: reads {m} bytes in one go", r.show());
        peak.push((o.hwm.ok_or("harness: no peak memory")?, content.len()));
        cx.count("runs", 1);
    }
    cx.sign(cx.desc.clone().as_bytes());
    let (few, many) = (peak[0], peak[1]);
    ensure!(many.0 < few.0 + 1000, "with -b {b}, {} bytes take {} kB of memory at the peak, {} bytes {} kB", few.1, few.0, many.1, many.0);
    cx.max("growth of the peak memory with the number of blocks, kB", many.0.saturating_sub(few.0));
    cx.count("numbers of blocks compared", 1);
    Ok(())
}

fn c23_memory(cx: &mut Cx) -> R {
    let e = env(cx);
    let n = if cx.thorough() { cx.rng.range(60_000_000, 150_000_000) } else { cx.rng.range(48_000_000, 70_000_000) };
    let b = cx.rng.range(20_000, 100_000).max(n / 1200);
    // (of letters of which the compressed data is not tiny)
    let (d, plain, _) = source(cx, &e, n, false);
    cx.note(format!("{n} bytes, -b {b}"));
    cx.sign(cx.desc.clone().as_bytes());
    let bound = 16_000 + 32 * (b as u64) / 1000;
    let slack = 1500 + 8 * (b as u64) / 1000;
    // a part of it, for comparison (with a prefix of the same kind of content)
    let part = cx.rng.range(20, 30) * b;
    put(&e, &d.join("part"), &plain[..part]);
    drop(plain);
    let mut few = Vec::new();
    for (decomp, src) in [(false, "part"), (true, "part.hff")] {
        let mut r = Run::new(&d, &[&"-n", &"-b", &b.to_string()]);
        if decomp {
            r.args.push("-d".into());
        }
        r.args.push(src.into());
        if decomp {
            r.args.push("restored".into());
        }
        r.trace = true;
        let o = r.go(&e)?;
        ensure!(o.ok(), "{}: {}", r.show(), o.show());
        few.push(o.hwm.ok_or("harness: no peak memory")?);
    }
    let (r, o, m, _) = traced(&e, &d, false, &b.to_string(), "")?;
    ensure!(o.ok(), "{}: {}", r.show(), o.show());
    ensure!(m <= FIXED.max(b as u128), "{}: reads {m} bytes in one go", r.show());
    let h = o.hwm.ok_or("harness: no peak memory")?;
    ensure!(h < bound, "{} on {n} bytes: {h} kB of memory at the peak", r.show());
    ensure!(h < few[0] + slack, "{} on {n} bytes: {h} kB of memory at the peak, {part} of them take {} kB", r.show(), few[0]);
    cx.max("peak memory compressing, kB", h);
    cx.max("growth of the peak memory with the file, kB", h.saturating_sub(few[0]));
    cx.max("largest file", n as u64);
    std::fs::rename(d.join("res.hff"), d.join("src.hff")).map_err(|x| format!("harness: {x}"))?;
    let (r, o, m, _) = traced(&e, &d, true, &b.to_string(), "")?;
    ensure!(o.ok(), "{}: {}", r.show(), o.show());
    ensure!(m <= FIXED.max(b as u128), "{}: reads {m} bytes in one go", r.show());
    let h = o.hwm.ok_or("harness: no peak memory")?;
    ensure!(h < bound, "{} of {n} bytes: {h} kB of memory at the peak", r.show());
    ensure!(h < few[1] + slack, "{} of {n} bytes: {h} kB of memory at the peak, of {part} bytes {} kB", r.show(), few[1]);
    cx.max("peak memory decompressing, kB", h);
    cx.max("growth of the peak memory with the file, kB", h.saturating_sub(few[1]));
    cx.count("big files", 1);
    let _ = e.fresh();
    Ok(())
}
