//! C08: untrusted bytes.
use crate::alloc::peak_of;
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::letters::*;
use crate::oracle::*;
use crate::{for_int, for_ltb};
use huff_coding::prelude::*;

pub fn c08(cx: &mut Cx) -> R {
    let n = cx.rng.below(16);
    let n = if n >= 12 { 0 } else { n };
    if cx.idx < 6 && !cx.small && !cx.tiny {
        return for_int!(n, long_data(cx));
    }
    match cx.rng.below(12) {
        0..=2 => for_int!(n, mutated(cx)),
        3 => for_int!(n, random(cx)),
        4 => for_int!(n, truncated(cx)),
        5 => for_int!(n, headers(cx)),
        6 => for_int!(n, nested(cx)),
        7 => for_ltb!(cx.rng.below(LTB), bin_noise(cx)),
        8 => for_int!(n, partial_codes(cx)),
        9 => for_int!(n, tree_bits(cx)),
        10 => for_int!(n, exhaustive_headers(cx)),
        _ => for_int!(n, duplicates(cx)),
    }
}

/// the one check: whatever these bytes are, the parser does what the format says
pub fn check<L: LtB>(cx: &mut Cx, bytes: &[u8]) -> R {
    let spec = parse_container(bytes, L::BYTES);
    let (got, peak) = peak_of(|| CompressData::<L>::try_from_bytes(bytes));
    let bound = (16 << 20) + 3000 * bytes.len();
    ensure!(peak <= bound, "parsing {} bytes allocated {peak} bytes", bytes.len());
    cx.max("max bytes allocated while parsing", peak as u64);
    match (&spec, got) {
        (Err(why), Ok(_)) => Err(format!("malformed bytes ({why}) were accepted: {} bytes {}", bytes.len(), hex(bytes))),
        (Err(_), Err(e)) => {
            let _ = (e.to_string(), format!("{e:?}"), e.message().len());
            cx.count("malformed inputs rejected", 1);
            Ok(())
        }
        (Ok(c), Err(e)) => {
            ensure!(!c.ordinary(), "well-formed bytes were rejected ({e}): {} bytes {}", bytes.len(), hex(bytes));
            cx.count("extraordinary trees rejected", 1);
            Ok(())
        }
        (Ok(c), Ok(d)) => {
            let (out, peak) = peak_of(|| decompress(&d));
            let bound = (16 << 20) + 600 * bytes.len();
            ensure!(peak <= bound, "decompressing {} bytes allocated {peak} bytes", bytes.len());
            let want = c.decode();
            let got: Vec<Vec<u8>> = out.iter().map(|l| l.be()).collect();
            ensure!(got == want, "accepted bytes give {} letters, the format gives {}: {}", got.len(), want.len(), hex(bytes));
            cx.count("inputs accepted and decoded", 1);
            cx.count("letters decoded", want.len() as u64);
            cx.max("deepest tree accepted", c.tree.depth() as u64);
            // what was accepted can be written and read again
            let again = d.to_bytes();
            let d2 = CompressData::<L>::try_from_bytes(&again).map_err(|e| format!("accepted data is written as bytes that are rejected: {e}"))?;
            ensure!(decompress(&d2) == out, "accepted data, written and read again, gives other letters");
            Ok(())
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(100).map(|x| format!("{x:02x}")).collect();
    if b.len() > 100 {
        s.push_str("...");
    }
    s
}

fn valid<L: LtB>(cx: &mut Cx) -> (Vec<u8>, Vec<L>) {
    let k = alpha(cx, L::CARD, 200);
    let (spec, _) = random_spec::<L>(cx, k, MAX_DEPTH);
    let codes = spec.codes();
    let n = len(cx, 600);
    let mut bits = Vec::new();
    let mut want = Vec::new();
    for _ in 0..n {
        let i = cx.rng.below(codes.len() as u64) as usize;
        bits.extend_from_slice(&codes[i].1);
        want.push(L::from_be(&codes[i].0).unwrap());
    }
    (build_container(&spec, &bits), want)
}

/// megabytes of data
fn long_data<L: LtB>(cx: &mut Cx) -> R {
    let (mut b, _) = valid::<L>(cx);
    let n = cx.rng.range(400_000, 2_500_000);
    let mut more = cx.rng.bytes(n.min(100_000)).repeat(n / 100_000 + 1);
    more.truncate(n);
    for _ in 0..200 {
        let i = cx.rng.below(n as u64) as usize;
        more[i] = cx.rng.below(256) as u8;
    }
    b.extend(more);
    mark::<L>(cx, "long data", &b);
    cx.count("inputs over 400 kB", 1);
    check::<L>(cx, &b)?;
    let cut = cx.rng.range(0, b.len());
    check::<L>(cx, &b[..cut])
}

fn mark<L: LtB>(cx: &mut Cx, what: &str, b: &[u8]) {
    cx.note(format!("{what}, {}, {} bytes", L::NAME, b.len()));
    cx.sign(&b[..b.len().min(2000)]);
    cx.nontrivial = b.len() > 5;
}

fn mutated<L: LtB>(cx: &mut Cx) -> R {
    let (b, _) = valid::<L>(cx);
    mark::<L>(cx, "mutations of valid data", &b);
    check::<L>(cx, &b)?;
    for _ in 0..if cx.small { 3 } else { 25 } {
        let mut m = b.clone();
        for _ in 0..cx.rng.range(1, 4) {
            let tl = u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize;
            match cx.rng.below(9) {
                0 => {
                    let i = cx.rng.below(m.len() as u64) as usize;
                    m[i] ^= 1 << cx.rng.below(8);
                }
                1 => {
                    let i = cx.rng.below(m.len() as u64) as usize;
                    m[i] = *cx.rng.pick(&[0, 255, 1, 127, 128]);
                }
                2 => {
                    let i = cx.rng.below(m.len() as u64) as usize;
                    m.truncate(i.max(1));
                }
                3 => {
                    let n = cx.rng.range(1, 40);
                    m.extend(cx.rng.bytes(n));
                }
                4 => {
                    let i = cx.rng.below(m.len() as u64) as usize;
                    m.remove(i);
                    if m.is_empty() {
                        m.push(0);
                    }
                }
                5 => {
                    let i = cx.rng.below(m.len() as u64 + 1) as usize;
                    m.insert(i, cx.rng.below(256) as u8);
                }
                6 => {
                    // the tree length, off by a little
                    if m.len() >= 5 {
                        let d = cx.rng.range(0, 6) as i64 - 3;
                        let v = (tl as i64 + d).max(0) as u32;
                        m[1..5].copy_from_slice(&v.to_be_bytes());
                    }
                }
                7 => m[0] = cx.rng.below(256) as u8,
                _ => {
                    // in the tree
                    let i = 5 + cx.rng.below(tl as u64) as usize;
                    if i < m.len() {
                        m[i] ^= cx.rng.below(256) as u8;
                    }
                }
            }
        }
        check::<L>(cx, &m)?;
    }
    Ok(())
}

fn random<L: LtB>(cx: &mut Cx) -> R {
    cx.note(format!("random bytes, {}", L::NAME));
    cx.nontrivial = true;
    for _ in 0..if cx.small { 5 } else { 60 } {
        let n = if cx.rng.chance(1, 8) { cx.rng.range(0, 7) } else { cx.rng.range(0, 300) };
        let mut b = cx.rng.bytes(n);
        if cx.rng.chance(2, 3) && b.len() > 5 {
            b[0] &= 0x77;
            let tl = cx.rng.range(0, b.len()) as u32;
            b[1..5].copy_from_slice(&tl.to_be_bytes());
        }
        cx.sign(&b);
        check::<L>(cx, &b)?;
    }
    Ok(())
}

/// all prefixes: an error or a prefix of the letters
fn truncated<L: LtB>(cx: &mut Cx) -> R {
    let (b, want) = valid::<L>(cx);
    mark::<L>(cx, "every prefix of valid data", &b);
    let d = CompressData::<L>::try_from_bytes(&b).map_err(|e| format!("well-formed bytes were rejected: {e}"))?;
    ensure!(decompress(&d) == want, "well-formed bytes give other letters");
    let step = if cx.small { 1 + b.len() / 6 } else { 1 + b.len() / 150 };
    for n in (0..b.len()).step_by(step) {
        check::<L>(cx, &b[..n])?;
        if let Ok(d) = CompressData::<L>::try_from_bytes(&b[..n]) {
            let out = decompress(&d);
            ensure!(want.starts_with(&out), "data cut to {n} of {} bytes gives letters that are not a prefix", b.len());
            cx.count("truncated data decoded to a prefix", 1);
        }
    }
    Ok(())
}

fn headers<L: LtB>(cx: &mut Cx) -> R {
    cx.note(format!("extreme header fields, {}", L::NAME));
    cx.nontrivial = true;
    let lens = [0u32, 1, 2, 3, 4, 5, 8, 16, 17, 255, 256, 65535, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX - 5, u32::MAX - 4, u32::MAX - 1, u32::MAX];
    for _ in 0..if cx.small { 5 } else { 60 } {
        let n = *cx.rng.pick(&[0usize, 1, 2, 3, 5, 17, 33, 100]);
        let mut b = vec![*cx.rng.pick(&[0u8, 0x70, 0x07, 0x77, 0x80, 0x08, 0x88, 0xff, 0xf0, 0x0f, 0x10, 0x01])];
        let l = if cx.rng.chance(1, 3) { cx.dict.near(&mut cx.rng, u32::MAX as u64).unwrap_or(9) as u32 } else { *cx.rng.pick(&lens) };
        b.extend(l.to_be_bytes());
        let fill = cx.rng.bytes(n);
        b.extend(match cx.rng.below(3) {
            0 => vec![0; n],
            1 => vec![255; n],
            _ => fill,
        });
        let cut = cx.rng.range(0, b.len());
        if cx.rng.chance(1, 3) {
            b.truncate(cut);
        }
        cx.sign(&b);
        check::<L>(cx, &b)?;
    }
    Ok(())
}

/// the first byte and the tree length in every combination, on small bodies
fn exhaustive_headers<L: LtB>(cx: &mut Cx) -> R {
    let k = cx.rng.range(1, 4).min(L::CARD as usize);
    let (spec, _) = random_spec::<L>(cx, k, MAX_DEPTH);
    let bits = spec.print();
    let (tree, _) = pack(&bits);
    cx.note(format!("every padding byte with every tree length, tree of {k} leaves, {}", L::NAME));
    cx.sign(&tree);
    cx.nontrivial = true;
    let n = cx.rng.range(1, 3);
    let data = cx.rng.bytes(n);
    let step = if cx.small { 37 } else { 1 };
    for pad in (0..=255u8).step_by(step) {
        for tl in 0..=(tree.len() + 3) as u32 {
            if cx.small && tl % 3 != 0 {
                continue;
            }
            if tree.len() > 12 && (tl as usize) < tree.len() - 3 && tl > 3 {
                continue;
            }
            let mut b = vec![pad];
            b.extend(tl.to_be_bytes());
            b.extend(&tree);
            b.extend(&data);
            check::<L>(cx, &b)?;
        }
    }
    Ok(())
}

/// deep nesting, complete and incomplete
fn nested<L: LtB>(cx: &mut Cx) -> R {
    let depth = if cx.small {
        cx.rng.range(1, 40)
    } else {
        match cx.rng.below(6) {
            0 => cx.rng.range(1, 255),
            1 => cx.rng.range(200, 1100),
            2 => cx.rng.range(1000, 20_000),
            3 => *cx.rng.pick(&[254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097]),
            4 => cx.dict.near(&mut cx.rng, 30_000).unwrap_or(300) as usize,
            _ => {
                if cx.rng.chance(1, 4) {
                    cx.rng.range(100_000, 8_000_000)
                } else {
                    cx.rng.range(1000, 3000)
                }
            }
        }
    };
    cx.note(format!("nesting of {depth} levels, {}", L::NAME));
    cx.sign64(depth as u64);
    cx.nontrivial = true;
    cx.max("deepest nesting tried", depth as u64);
    let complete = depth <= 20_000 && cx.rng.chance(2, 3);
    let mut bits;
    if complete {
        // a chain: leaves as children on one side, or alternating
        let leaves = depth + 1;
        let s = salt(&mut cx.rng);
        let be: Vec<Vec<u8>> = (0..leaves as u64).map(|i| L::make(i % L::CARD, s).be()).collect();
        let shape = *cx.rng.pick(&[Shape::Left, Shape::Right, Shape::Zigzag]);
        let spec = spec_tree(&mut cx.rng, shape, &be, usize::MAX / 2);
        bits = spec.print();
        if cx.rng.chance(1, 4) {
            let cut = cx.rng.range(0, 20);
            bits.truncate(bits.len().saturating_sub(cut));
        }
    } else {
        bits = vec![true; depth];
        if cx.rng.chance(1, 2) {
            // start the leaves
            for _ in 0..cx.rng.range(1, 30) {
                bits.push(false);
                bits.extend(bits_of(&L::make(cx.rng.below(L::CARD), 0).be()));
            }
        }
    }
    let (tree, pad) = pack(&bits);
    let mut b = vec![pad << 4 | cx.rng.below(8) as u8];
    b.extend((tree.len() as u32).to_be_bytes());
    b.extend(&tree);
    let n = cx.rng.range(0, 50);
    b.extend(cx.rng.bytes(n));
    check::<L>(cx, &b)?;
    // the tree alone
    let bv = to_bv(&bits);
    let r = HuffTree::<L>::try_from_bin(bv);
    let spec = SpecTree::parse(&bits, L::BYTES);
    match (r, spec) {
        (Ok(_), Err(e)) => Err(format!("a malformed tree ({e:?}) was accepted")),
        (Err(e), Ok(s)) if s.depth() <= MAX_DEPTH && s.letters_distinct() => Err(format!("a well-formed tree was rejected: {e}")),
        (Ok(t), Ok(_)) => {
            ensure!(to_bits(&t.as_bin()) == bits, "the tree is written back differently");
            let c = t.clone();
            drop(t);
            let _ = format!("{}", c.read_codes().len());
            Ok(())
        }
        _ => Ok(()),
    }
}

fn bin_noise<L: LtB>(cx: &mut Cx) -> R {
    cx.note(format!("trees from random bits, {}", L::NAME));
    cx.nontrivial = true;
    for _ in 0..if cx.small { 5 } else { 80 } {
        let n = len(cx, 2000);
        let bias = cx.rng.range(1, 9) as u64;
        let mut bits: Vec<bool> = (0..n).map(|_| cx.rng.chance(bias, 10)).collect();
        if cx.rng.chance(1, 2) {
            // exactly as long as the format wants, if it can be
            for m in 1..=bits.len().min(600) {
                if SpecTree::parse(&bits[..m], L::BYTES).is_ok() {
                    bits.truncate(m);
                    break;
                }
            }
        }
        cx.sign(&pack(&bits).0);
        let (r, peak) = peak_of(|| HuffTree::<L>::try_from_bin(to_bv(&bits)));
        ensure!(peak <= (16 << 20) + 3000 * bits.len(), "reading {} bits allocated {peak} bytes", bits.len());
        let spec = SpecTree::parse(&bits, L::BYTES);
        match (r, spec) {
            (Ok(_), Err(e)) => return Err(format!("malformed bits ({e:?}) were accepted: {}", show(&bits))),
            (Ok(t), Ok(_)) => {
                cx.count("random trees accepted", 1);
                ensure!(to_bits(&t.as_bin()) == bits, "the tree is written back differently: {}", show(&bits));
                let data = cx.rng.bytes(20);
                let d = CompressData::new(data.clone(), 3, t);
                let want = SpecTree::parse(&bits, L::BYTES).unwrap().decode(bit_iter(&data, 3));
                let out: Vec<_> = decompress(&d).iter().map(|l| l.be()).collect();
                ensure!(out == want, "noise is decoded to other letters than the format gives");
            }
            (Err(_), _) => cx.count("random trees rejected", 1),
        }
    }
    Ok(())
}

/// any data bits after a valid tree, also ones ending within a code
fn partial_codes<L: LtB>(cx: &mut Cx) -> R {
    let k = alpha(cx, L::CARD, 300);
    let (spec, _) = random_spec::<L>(cx, k, MAX_DEPTH);
    let n = len(cx, 3000);
    let data = match cx.rng.below(3) {
        0 => vec![0u8; n],
        1 => vec![255u8; n],
        _ => cx.rng.bytes(n),
    };
    let (tree, pad) = pack(&spec.print());
    let mut b = vec![pad << 4 | cx.rng.below(8) as u8];
    b.extend((tree.len() as u32).to_be_bytes());
    b.extend(&tree);
    b.extend(&data);
    mark::<L>(cx, "arbitrary data after a valid tree", &b);
    check::<L>(cx, &b)
}

/// single bits of the tree flipped
fn tree_bits<L: LtB>(cx: &mut Cx) -> R {
    let k = alpha(cx, L::CARD, 12);
    let (spec, _) = random_spec::<L>(cx, k, MAX_DEPTH);
    let bits = spec.print();
    let n = cx.rng.range(1, 4);
    let data = cx.rng.bytes(n);
    cx.note(format!("every bit of a tree of {k} leaves flipped, {}", L::NAME));
    cx.sign(&pack(&bits).0);
    cx.nontrivial = true;
    let step = if cx.small { 1 + bits.len() / 5 } else { 1 };
    for i in (0..bits.len()).step_by(step) {
        let mut m = bits.clone();
        m[i] = !m[i];
        let (tree, pad) = pack(&m);
        let mut b = vec![pad << 4 | cx.rng.below(8) as u8];
        b.extend((tree.len() as u32).to_be_bytes());
        b.extend(&tree);
        b.extend(&data);
        check::<L>(cx, &b)?;
    }
    Ok(())
}

/// trees with repeated letters
fn duplicates<L: LtB>(cx: &mut Cx) -> R {
    let leaves = if cx.small { 5 } else { cx.rng.range(2, 600) };
    let kinds = cx.rng.range(1, leaves.min(L::CARD as usize)) as u64;
    let s = salt(&mut cx.rng);
    let be: Vec<Vec<u8>> = (0..leaves).map(|_| L::make(cx.rng.below(kinds), s).be()).collect();
    let shape = *cx.rng.pick(&SHAPES);
    let spec = spec_tree(&mut cx.rng, shape, &be, 900);
    let n = cx.rng.range(1, 100);
    let bits: Vec<bool> = bits_of(&cx.rng.bytes(n));
    let b = build_container(&spec, &bits);
    mark::<L>(cx, "repeated letters", &b);
    check::<L>(cx, &b)
}
