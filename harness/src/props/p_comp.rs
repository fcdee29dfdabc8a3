//! C01, C02, C05, C07: compression.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::letters::*;
use crate::oracle::*;
use crate::trees::*;
use crate::{for_int, for_lt, for_ltb};
use huff_coding::prelude::*;
use std::collections::HashMap;

fn limits(cx: &mut Cx) -> (usize, usize) {
    // (letters, alphabet): mostly small, sometimes large
    match cx.rng.below(100) {
        0..=69 => (2_000, 300),
        70..=93 => (20_000, 3_000),
        94..=98 => (200_000, 5_000),
        _ => (if cx.thorough() { 5_000_000 } else { 1_500_000 }, 66_000),
    }
}

pub fn show_ids(ids: &[u32]) -> String {
    let head: Vec<_> = ids.iter().take(40).collect();
    format!("{} letters {:?}{}", ids.len(), head, if ids.len() > 40 { "..." } else { "" })
}

fn sign_ids(cx: &mut Cx, ids: &[u32]) {
    let mut h = cx.sig;
    for i in ids {
        h = crate::rng::fnv(&i.to_le_bytes(), h);
    }
    cx.sig = h;
    let distinct: std::collections::HashSet<_> = ids.iter().collect();
    cx.nontrivial = ids.len() > 1 && distinct.len() > 1;
    cx.max("max letters", ids.len() as u64);
    cx.max("max alphabet", distinct.len() as u64);
}

/// Weights covering at least the letters 0..k
fn covering_weights<L: Lt>(cx: &mut Cx, k: usize, salt: u64) -> Vec<(L, usize)> {
    let extra = if cx.rng.chance(1, 2) { 0 } else { cx.rng.range(0, 20) };
    let kk = (k + extra).min(L::CARD as usize);
    let w = weights(cx, kk);
    let mut v: Vec<(L, usize)> = (0..kk as u64).map(|i| L::make(i, salt)).zip(w).collect();
    cx.rng.shuffle(&mut v);
    v
}

/// Some tree with codes for the letters 0..k, and what kind it is
pub fn covering_tree<L: Lt>(cx: &mut Cx, letters: &[L], k: usize, salt: u64) -> (HuffTree<L>, &'static str) {
    match cx.rng.below(4) {
        0 => (HuffTree::from_weights(build_weights_map(letters)), "own weights"),
        1 => {
            let m: HashMap<L, usize> = covering_weights(cx, k, salt).into_iter().collect();
            (HuffTree::from_weights(m), "other weights (map)")
        }
        _ => {
            let v = covering_weights(cx, k, salt);
            (HuffTree::from_weights(VecWeights(v)), "other weights (list)")
        }
    }
}

pub fn covering_tree_b<L: LtB>(cx: &mut Cx, letters: &[L], k: usize, salt: u64) -> Result<(HuffTree<L>, &'static str), String> {
    if cx.rng.chance(1, 2) || k > 3000 {
        let (t, _) = covering_tree(cx, letters, k, salt);
        if cx.rng.chance(1, 2) {
            let back = HuffTree::try_from_bin(t.as_bin()).map_err(|e| format!("as_bin() is not read back: {e}"))?;
            return Ok((back, "read back from binary"));
        }
        return Ok((t, "weights"));
    }
    // any shape at all
    let extra = if cx.rng.chance(1, 2) { 0 } else { cx.rng.range(0, 50) };
    let kk = (k + extra).min(L::CARD as usize);
    let mut ls: Vec<L> = (0..kk as u64).map(|i| L::make(i, salt)).collect();
    cx.rng.shuffle(&mut ls);
    let be: Vec<_> = ls.iter().map(|l| l.be()).collect();
    let shape = *cx.rng.pick(&SHAPES);
    let max_depth = if cx.small { 20 } else { *cx.rng.pick(&[MAX_DEPTH, MAX_DEPTH, 255, 32, 16]) };
    let spec = spec_tree(&mut cx.rng, shape, &be, max_depth);
    Ok((from_spec(&spec)?, "any shape from binary"))
}

fn roundtrip<L: Lt>(cx: &mut Cx, letters: &[L], data: CompressData<L>) -> R {
    let back = decompress(&data);
    ensure!(
        back == letters,
        "decompress(compress(x)) != x: {} letters in, {} out, first difference at {:?}",
        letters.len(), back.len(),
        back.iter().zip(letters).position(|(a, b)| a != b)
    );
    let depth = leaves(data.huff_tree().root())?.iter().map(|l| l.path.len()).max().unwrap_or(0);
    cx.max("longest code (bits)", depth as u64);
    cx.seen("code lengths of the deepest leaf", depth as u64);
    cx.seen("padding", data.padding_bits() as u64);
    cx.count("letters round-tripped", letters.len() as u64);
    // also through its parts
    if cx.rng.chance(1, 4) {
        let (bytes, pad, tree) = data.clone().into_inner();
        let again = CompressData::new(bytes, pad, tree);
        ensure!(decompress(&again) == letters, "decompressing data rebuilt from its parts gives other letters");
    }
    Ok(())
}

pub fn c01(cx: &mut Cx) -> R {
    if cx.idx == 0 && !cx.small && !cx.tiny {
        return huge_bits(cx, true);
    }
    if !cx.small && !cx.tiny {
        match cx.idx {
            21 => return c01_many::<u32>(cx),
            22 => return c01_many::<String>(cx),
            23 => return c01_many::<u64>(cx),
            24 => return c01_many::<Token>(cx),
            _ => (),
        }
    }
    let n = cx.rng.below(LTS + 4);
    if n >= LTS {
        return c01_bin::<u8>(cx);
    }
    if cx.rng.chance(1, 2) && n < LTB {
        return for_ltb!(n, c01_bin(cx));
    }
    for_lt!(n, c01_any(cx))
}

/// hundreds of thousands of different letters
fn c01_many<L: Lt>(cx: &mut Cx) -> R {
    let k = cx.rng.range(131_073, 330_000);
    let mut ids: Vec<u32> = (0..k as u32).collect();
    for _ in 0..k / 2 {
        let i = cx.rng.below(k as u64) as u32;
        ids.push(if cx.rng.chance(1, 2) { i / 1000 } else { i });
    }
    cx.rng.shuffle(&mut ids);
    let s = salt(&mut cx.rng);
    let letters = make_all::<L>(&ids, s);
    sign_ids(cx, &ids);
    let k = *ids.iter().max().unwrap() as usize + 1;
    let (t, kind) = covering_tree(cx, &letters, k, s);
    cx.note(format!("compress_with_tree ({kind}), {} letters, {k} different ones, {}", ids.len(), L::NAME));
    let before = flat(t.root())?;
    let d = compress_with_tree(&letters, t).map_err(|e| format!("a tree with codes for all letters was refused: {e}"))?;
    let d2 = d.clone();
    roundtrip(cx, &letters, d)?;
    c05_data(cx, &letters, &before, d2)
}

fn c01_any<L: Lt>(cx: &mut Cx) -> R {
    if cx.rng.chance(1, 40) {
        return c01_small::<L>(cx);
    }
    let (ml, ma) = limits(cx);
    let ids = seq(cx, L::CARD, ml, ma);
    let s = salt(&mut cx.rng);
    let letters = make_all::<L>(&ids, s);
    sign_ids(cx, &ids);
    cx.sign(L::NAME.as_bytes());
    cx.seen("letter types", crate::rng::fnv(L::NAME.as_bytes(), 1));
    if cx.rng.chance(1, 2) {
        cx.note(format!("compress, {} {}", L::NAME, show_ids(&ids)));
        let d = compress(&letters);
        return roundtrip(cx, &letters, d);
    }
    let k = *ids.iter().max().unwrap() as usize + 1;
    let (t, kind) = covering_tree(cx, &letters, k, s);
    cx.note(format!("compress_with_tree ({kind}), {} {}", L::NAME, show_ids(&ids)));
    match compress_with_tree(&letters, t) {
        Ok(d) => roundtrip(cx, &letters, d),
        Err(e) => Err(format!("a tree with codes for all letters was refused: {e}")),
    }
}

/// every sequence over 3 letters up to length 5
fn c01_small<L: Lt>(cx: &mut Cx) -> R {
    let s = salt(&mut cx.rng);
    cx.note(format!("every sequence of 1 to 5 letters out of 3, {}", L::NAME));
    cx.sign(L::NAME.as_bytes());
    cx.sign64(s);
    cx.nontrivial = true;
    for n in 1..=5u32 {
        for code in 0..3u32.pow(n) {
            let ids: Vec<u32> = (0..n).map(|i| code / 3u32.pow(i) % 3).collect();
            let letters = make_all::<L>(&ids, s);
            let d = compress(&letters);
            let back = decompress(&d);
            ensure!(back == letters, "letters {letters:?} came back as {back:?}");
            cx.count("letters round-tripped", n as u64);
        }
    }
    Ok(())
}

fn c01_bin<L: LtB>(cx: &mut Cx) -> R {
    let (ml, ma) = limits(cx);
    let ids = seq(cx, L::CARD, ml, ma.min(5000));
    let s = salt(&mut cx.rng);
    let letters = make_all::<L>(&ids, s);
    sign_ids(cx, &ids);
    cx.sign(L::NAME.as_bytes());
    cx.seen("letter types", crate::rng::fnv(L::NAME.as_bytes(), 1));
    let k = *ids.iter().max().unwrap() as usize + 1;
    cx.note(format!("compress_with_tree, {} {}", L::NAME, show_ids(&ids)));
    let (t, kind) = covering_tree_b(cx, &letters, k, s)?;
    cx.note(kind);
    match compress_with_tree(&letters, t) {
        Ok(d) => roundtrip(cx, &letters, d),
        Err(e) => Err(format!("a tree with codes for all letters was refused: {e}")),
    }
}

// ---------------------------------------------------------------- C02

pub fn c02(cx: &mut Cx) -> R {
    let n = cx.rng.below(18);
    let n = if n >= 15 { 0 } else { n };
    if cx.idx == 0 && !cx.small {
        return c02_vast(cx);
    }
    if cx.idx == 7 && !cx.small {
        // a tree length that needs all four length bytes
        return c02_huge(cx);
    }
    if (8..14).contains(&cx.idx) && !cx.small && !cx.tiny {
        return for_ltb!(n, c02_long(cx));
    }
    if (14..20).contains(&cx.idx) && !cx.small && !cx.tiny {
        return if cx.rng.chance(1, 2) { c02_zeros::<u32>(cx) } else { c02_zeros::<u16>(cx) };
    }
    if cx.rng.chance(1, 100) {
        return if cx.rng.chance(1, 2) { c02_foreign::<Unit>(cx) } else { c02_own::<Unit>(cx) };
    }
    if cx.rng.chance(2, 5) {
        return for_ltb!(n, c02_foreign(cx));
    }
    for_ltb!(n, c02_own(cx))
}

/// A tree with thousands of letters that have no weight (and do not occur)
fn c02_zeros<L: LtB>(cx: &mut Cx) -> R {
    let k = cx.rng.range(5_000, 60_000) as u64;
    let v = super::p_tree::zeros::<L>(cx, k);
    let n = cx.rng.range(1, 200);
    let letters: Vec<L> = (0..n).map(|_| cx.rng.pick(&v).0.clone()).collect();
    cx.sign(cx.desc.clone().as_bytes());
    cx.count("large alphabets without weight", 1);
    let data = compress_with_tree(&letters, HuffTree::from_weights(VecWeights(v))).map_err(|e| format!("a covering tree was refused: {e}"))?;
    let spec = to_spec(data.huff_tree().root())?;
    let bytes = data.to_bytes();
    check_layout(cx, &bytes, &spec, data.comp_bytes(), data.padding_bits(), L::BYTES)?;
    let back = CompressData::<L>::try_from_bytes(&bytes).map_err(|e| format!("own bytes were rejected: {e}"))?;
    same_data(&data, &back, &letters)
}

fn c02_own<L: LtB>(cx: &mut Cx) -> R {
    let big = cx.rng.chance(1, 150);
    let ids = if big && L::CARD > 256 && !cx.small {
        // many leaves: tree lengths of 2 and 3 bytes
        let k = cx.rng.range(5_000, 65_536);
        let mut v: Vec<u32> = (0..k as u32).collect();
        if cx.rng.chance(1, 2) {
            cx.rng.shuffle(&mut v);
        }
        v
    } else {
        let (ml, _) = limits(cx);
        seq(cx, L::CARD, ml.min(20_000), 3000)
    };
    let s = salt(&mut cx.rng);
    let letters = make_all::<L>(&ids, s);
    sign_ids(cx, &ids);
    cx.sign(L::NAME.as_bytes());
    cx.note(format!("to_bytes of {} {}", L::NAME, show_ids(&ids)));
    let data = if cx.rng.chance(1, 2) {
        compress(&letters)
    } else {
        let k = *ids.iter().max().unwrap() as usize + 1;
        let (t, kind) = covering_tree_b(cx, &letters, k, s)?;
        cx.note(kind);
        compress_with_tree(&letters, t).map_err(|e| format!("a covering tree was refused: {e}"))?
    };
    let spec = to_spec(data.huff_tree().root())?;
    let bytes = data.to_bytes();
    check_layout(cx, &bytes, &spec, data.comp_bytes(), data.padding_bits(), L::BYTES)?;
    let back = CompressData::<L>::try_from_bytes(&bytes).map_err(|e| format!("own bytes were rejected: {e}"))?;
    same_data(&data, &back, &letters)?;
    // and once more
    let bytes2 = back.to_bytes();
    check_layout(cx, &bytes2, &spec, data.comp_bytes(), data.padding_bits(), L::BYTES)?;
    Ok(())
}

fn same_data<L: LtB>(a: &CompressData<L>, b: &CompressData<L>, letters: &[L]) -> R {
    ensure!(a.comp_bytes() == b.comp_bytes(), "the data bytes changed");
    ensure!(a.padding_bits() == b.padding_bits(), "padding {} became {}", a.padding_bits(), b.padding_bits());
    same_codes(&a.huff_tree().read_codes(), &b.huff_tree().read_codes())?;
    let d = decompress(b);
    ensure!(d == letters, "the letters changed ({} became {})", letters.len(), d.len());
    Ok(())
}

fn check_layout(cx: &mut Cx, bytes: &[u8], spec: &SpecTree, comp: &[u8], pad: u8, lb: usize) -> R {
    let tb = spec.print();
    let (tbytes, tpad) = pack(&tb);
    ensure!(bytes.len() == 5 + tbytes.len() + comp.len(), "{} bytes, expected 5 + {} + {}", bytes.len(), tbytes.len(), comp.len());
    ensure!(bytes[0] == tpad << 4 | pad, "first byte is {:#04x}, expected paddings {tpad} and {pad}", bytes[0]);
    let c = parse_container(bytes, lb).map_err(|e| format!("not in the documented layout: {e}"))?;
    ensure!(c.tree_bytes.len() == tbytes.len(), "tree length {} stored as {}", tbytes.len(), c.tree_bytes.len());
    ensure!(c.tree.print() == tb, "another tree is stored");
    ensure!(c.data == comp, "other data is stored");
    cx.seen("padding pairs", bytes[0] as u64);
    cx.seen("bytes in the tree length", (32 - (tbytes.len() as u32).leading_zeros() as u64).div_ceil(8));
    cx.max("max tree bytes", tbytes.len() as u64);
    cx.count("layouts compared", 1);
    Ok(())
}

/// bytes as another implementation would write them
fn c02_foreign<L: LtB>(cx: &mut Cx) -> R {
    let most = if cx.rng.chance(1, 50) { 20_000 } else { 600 };
    let k = alpha(cx, L::CARD, most);
    let (spec, _) = random_spec::<L>(cx, k, MAX_DEPTH);
    let codes = spec.codes();
    let n = len(cx, 5000);
    let mut bits = Vec::new();
    let mut want = Vec::new();
    for _ in 0..n {
        let i = cx.rng.below(codes.len() as u64) as usize;
        bits.extend_from_slice(&codes[i].1);
        want.push(L::from_be(&codes[i].0).ok_or("harness: not a letter")?);
        if bits.len() > 400_000 {
            break;
        }
    }
    let mut bytes = build_container(&spec, &bits);
    let tpad = bytes[0] >> 4;
    let dpad = bytes[0] & 15;
    let tl = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]) as usize;
    // whatever is in the padding bits does not matter
    if cx.rng.chance(1, 2) {
        bytes[5 + tl - 1] |= (cx.rng.u64() as u8) & ((1u16 << tpad) - 1) as u8;
        let last = bytes.len() - 1;
        bytes[last] |= (cx.rng.u64() as u8) & ((1u16 << dpad) - 1) as u8;
    }
    cx.sign(&bytes);
    cx.sign(L::NAME.as_bytes());
    cx.nontrivial = k > 1 && n > 1;
    cx.note(format!("foreign bytes, {} leaves, depth {}, {} letters, {}", k, spec.depth(), want.len(), L::NAME));
    cx.seen("padding pairs", bytes[0] as u64);
    cx.count("foreign containers read", 1);
    let d = CompressData::<L>::try_from_bytes(&bytes).map_err(|e| format!("well-formed bytes were rejected: {e}"))?;
    ensure!(d.padding_bits() == dpad, "padding {dpad} read as {}", d.padding_bits());
    ensure!(d.comp_bytes() == &bytes[5 + tl..], "other data bytes were read");
    ensure!(to_spec(d.huff_tree().root())?.print() == spec.print(), "another tree was read");
    for l in leaves(d.huff_tree().root())? {
        ensure!(l.code.as_ref() == Some(&l.path), "letter {:?} has code {:?}, its path is {:?}", l.letter, l.code, l.path);
    }
    let out = decompress(&d);
    ensure!(out == want, "{} letters expected, {} read, first difference at {:?}", want.len(), out.len(),
        out.iter().zip(&want).position(|(a, b)| a != b));
    Ok(())
}

fn c02_huge(cx: &mut Cx) -> R {
    // 2^24 bytes of tree: u128 letters, 129 + 1 bits per leaf
    let k: usize = 1_040_000;
    cx.note(format!("u128 tree with {k} leaves (tree length over 2^24)"));
    let be: Vec<Vec<u8>> = (0..k as u128).map(|i| (i << 64 | i).to_be_bytes().to_vec()).collect();
    let spec = spec_tree(&mut cx.rng, Shape::Balanced, &be, 255);
    let tree = from_spec::<u128>(&spec)?;
    let letters: Vec<u128> = (0..50u128).map(|i| (i * 20_000) << 64 | (i * 20_000)).collect();
    let data = compress_with_tree(&letters, tree).map_err(|e| format!("a covering tree was refused: {e}"))?;
    let bytes = data.to_bytes();
    check_layout(cx, &bytes, &spec, data.comp_bytes(), data.padding_bits(), 16)?;
    let back = CompressData::<u128>::try_from_bytes(&bytes).map_err(|e| format!("own bytes were rejected: {e}"))?;
    ensure!(decompress(&back) == letters, "the letters changed");
    cx.nontrivial = true;
    Ok(())
}

/// megabytes of data
fn c02_long<L: LtB>(cx: &mut Cx) -> R {
    let most = if L::CARD > 256 { 100_000 } else { 256 };
    let k = if cx.rng.chance(1, 2) { alpha(cx, L::CARD, most) } else { cx.rng.range(2, most) }.min(L::CARD as usize);
    let salt = salt(&mut cx.rng);
    let w = weights(cx, k);
    let v: Vec<(L, usize)> = (0..k as u64).map(|i| L::make(i, salt)).zip(w).collect();
    let n = cx.rng.range(1_500_000, 24_000_000);
    let bytes = cx.rng.bytes(n);
    let pad = cx.rng.below(8) as u8;
    cx.note(format!("{n} bytes of data and {k} letters, {}", L::NAME));
    cx.sign(&bytes[..1000]);
    cx.nontrivial = true;
    cx.count("data over 1 MiB", 1);
    let data = CompressData::new(bytes, pad, HuffTree::from_weights(VecWeights(v)));
    let spec = to_spec(data.huff_tree().root())?;
    let out = data.to_bytes();
    check_layout(cx, &out, &spec, data.comp_bytes(), pad, L::BYTES)?;
    let back = CompressData::<L>::try_from_bytes(&out).map_err(|e| format!("own bytes were rejected: {e}"))?;
    ensure!(back.comp_bytes() == data.comp_bytes(), "the data bytes changed");
    ensure!(back.padding_bits() == pad, "padding {pad} became {}", back.padding_bits());
    same_codes(&data.huff_tree().read_codes(), &back.huff_tree().read_codes())?;
    ensure!(to_spec(back.huff_tree().root())?.print() == spec.print(), "the tree changed");
    Ok(())
}

/// A tree of more than 2^32 bits: few letters, of a page each
fn c02_vast(cx: &mut Cx) -> R {
    let k = (1usize << 32) / (PAGE * 8 + 2) + cx.rng.range(1, 9);
    cx.note(format!("a tree with {k} letters of {PAGE} bytes (over 2^32 bits)"));
    cx.nontrivial = true;
    let salt = cx.rng.u64() as u8;
    let weights: HashMap<Page, usize> = (0..k).map(|i| (Page::new(i as u64, salt), 1 + i % 3)).collect();
    let letters: Vec<Page> = (0..40).map(|_| Page::new(cx.rng.below(k as u64), salt)).collect();
    let data = compress_with_tree(&letters, HuffTree::from_weights(weights)).map_err(|e| format!("a covering tree was refused: {}", e.message()))?;
    let bytes = data.to_bytes();
    let tree_bits = k * (PAGE * 8 + 1) + k - 1;
    let tree_len = tree_bits.div_ceil(8);
    ensure!(bytes[0] == ((tree_len * 8 - tree_bits) as u8) << 4 | data.padding_bits(), "first byte is {:#04x}", bytes[0]);
    let stored = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]) as usize;
    ensure!(stored == tree_len, "tree length {tree_len} stored as {stored}");
    ensure!(bytes.len() == 5 + tree_len + data.comp_bytes().len(), "{} bytes, expected 5 + {tree_len} + {}", bytes.len(), data.comp_bytes().len());
    ensure!(&bytes[5 + tree_len..] == data.comp_bytes(), "other data is stored");
    // the tree, in order
    let tree = &bytes[5..5 + tree_len];
    let mut at = 0usize;
    let mut todo = vec![data.huff_tree().root()];
    while let Some(b) = todo.pop() {
        let bit = tree[at / 8] >> (7 - at % 8) & 1 == 1;
        ensure!(bit == b.has_children(), "bit {at} of the tree is {}", bit as u8);
        at += 1;
        if let (Some(l), Some(r)) = (b.left_child(), b.right_child()) {
            todo.push(r);
            todo.push(l);
            continue;
        }
        let want = &b.leaf().letter().ok_or("a leaf without a letter")?.0;
        let (i, off) = (at / 8, at % 8);
        let same = if off == 0 {
            tree[i..i + PAGE] == want[..]
        } else {
            tree[i..i + PAGE + 1].windows(2).zip(want.iter()).all(|(w, x)| w[0] << off | w[1] >> (8 - off) == *x)
        };
        ensure!(same, "the letter at bit {at} of the tree is another one");
        at += PAGE * 8;
    }
    ensure!(at == tree_bits, "{at} bits in the tree instead of {tree_bits}");
    if cx.thorough() {
        let back = CompressData::<Page>::try_from_bytes(&bytes).map_err(|e| format!("own bytes were rejected: {e}"))?;
        ensure!(decompress(&back) == letters, "the letters changed");
        ensure!(back.padding_bits() == data.padding_bits() && back.comp_bytes() == data.comp_bytes(), "the data changed");
    }
    cx.count("trees over 2^32 bits", 1);
    Ok(())
}

// ---------------------------------------------------------------- C05

/// More than 2^32 bits of codes, of letters with long codes
fn huge_bits(cx: &mut Cx, back: bool) -> R {
    let mut weights = HashMap::new();
    let (mut a, mut b) = (1usize, 1usize);
    for l in 0..42u8 {
        weights.insert(l, a);
        (a, b) = (b, a + b);
    }
    let t = HuffTree::from_weights(weights);
    let codes: HashMap<u8, Vec<bool>> = leaves(t.root())?.into_iter().map(|l| (l.letter, l.path)).collect();
    let deep = cx.rng.below(2) as u8;
    // eight times the same letters, so that it takes whole bytes
    // (and a length that is no power of two, so that its parts start anywhere)
    let mut part = vec![deep; 8 * 65 * 1024];
    for _ in 0..5000 {
        let i = cx.rng.below(part.len() as u64) as usize;
        part[i] = cx.rng.below(42) as u8;
    }
    let pattern = part.repeat(8);
    let bits: usize = part.iter().map(|l| codes[l].len()).sum::<usize>() * 8;
    let times = (1usize << 32) / bits + 2;
    cx.note(format!("{times} times {} letters, {bits} bits of codes, mostly of {} bits", pattern.len(), codes[&deep].len()));
    cx.nontrivial = true;
    let Some(all) = crate::sys::Repeated::new(&pattern, times) else {
        cx.note("not enough address space");
        return Ok(());
    };
    // the rest of a pattern, whole ones, and the begin of another
    let skip = cx.rng.below(pattern.len() as u64 / 2) as usize;
    let bytes = &all.bytes()[skip..];
    let mut pattern = pattern;
    pattern.rotate_left(skip);
    let d = compress_with_tree(bytes, t).map_err(|e| format!("a covering tree was refused: {e}"))?;
    cx.count("data over 2^32 bits", 1);
    if back {
        let r = decompress(&d);
        ensure!(r.len() == bytes.len(), "{} letters became {}", bytes.len(), r.len());
        ensure!(r.chunks(pattern.len()).all(|c| *c == pattern[..c.len()]), "decompress(compress(x)) != x");
        return Ok(());
    }
    let missing: usize = pattern[pattern.len() - skip..].iter().map(|l| codes[l].len()).sum();
    let total = bits * times - missing;
    let pad = (total.div_ceil(8) * 8 - total) as u8;
    ensure!(d.padding_bits() == pad, "padding {} for {total} bits", d.padding_bits());
    let got = d.comp_bytes();
    ensure!(got.len() == total.div_ceil(8), "{} bytes for {total} bits", got.len());
    let mut one = Vec::with_capacity(bits / 8);
    let (mut acc, mut nb) = (0u8, 0u8);
    for l in &pattern {
        for b in &codes[l] {
            acc = acc << 1 | *b as u8;
            nb += 1;
            if nb == 8 {
                one.push(acc);
                nb = 0;
            }
        }
    }
    for (i, c) in got.chunks(one.len()).enumerate() {
        let last = (i + 1) * one.len() >= got.len();
        let n = if last { c.len() - 1 } else { c.len() };
        ensure!(c[..n] == one[..n] && (!last || (c[n] ^ one[n]) >> pad == 0), "the bytes are not the letters' codes; first difference in byte {:?}", c.iter().zip(&one).position(|(a, b)| a != b).map(|p| p + i * one.len()));
    }
    Ok(())
}

pub fn c05(cx: &mut Cx) -> R {
    if cx.idx == 0 && !cx.small && !cx.tiny {
        return huge_bits(cx, false);
    }
    let n = cx.rng.below(LTS + 4);
    if n >= LTS {
        return c05_bin::<u8>(cx);
    }
    if cx.rng.chance(1, 2) && n < LTB {
        return for_ltb!(n, c05_bin(cx));
    }
    for_lt!(n, c05_any(cx))
}

fn c05_bin<L: LtB>(cx: &mut Cx) -> R {
    let (ml, ma) = limits(cx);
    let ids = seq(cx, L::CARD, ml, ma.min(5000));
    let s = salt(&mut cx.rng);
    let letters = make_all::<L>(&ids, s);
    sign_ids(cx, &ids);
    let k = *ids.iter().max().unwrap() as usize + 1;
    let (t, kind) = covering_tree_b(cx, &letters, k, s)?;
    cx.note(format!("{kind}, {} {}", L::NAME, show_ids(&ids)));
    c05_check(cx, &letters, t)
}

fn c05_any<L: Lt>(cx: &mut Cx) -> R {
    let (ml, ma) = limits(cx);
    let ids = seq(cx, L::CARD, ml, ma);
    let s = salt(&mut cx.rng);
    let letters = make_all::<L>(&ids, s);
    sign_ids(cx, &ids);
    let k = *ids.iter().max().unwrap() as usize + 1;
    if cx.rng.chance(1, 3) {
        cx.note(format!("compress, {} {}", L::NAME, show_ids(&ids)));
        let d = compress(&letters);
        let t = flat(d.huff_tree().root())?;
        return c05_data(cx, &letters, &t, d);
    }
    let (t, kind) = covering_tree(cx, &letters, k, s);
    cx.note(format!("{kind}, {} {}", L::NAME, show_ids(&ids)));
    c05_check(cx, &letters, t)
}

fn c05_check<L: Lt>(cx: &mut Cx, letters: &[L], t: HuffTree<L>) -> R {
    let before = flat(t.root())?;
    let d = compress_with_tree(letters, t).map_err(|e| format!("a covering tree was refused: {e}"))?;
    c05_data(cx, letters, &before, d)
}

fn c05_data<L: Lt>(cx: &mut Cx, letters: &[L], before: &[Tok<L>], d: CompressData<L>) -> R {
    ensure!(flat(d.huff_tree().root())? == before, "the tree handed back is not the tree that was used");
    let codes: HashMap<L, Vec<bool>> = leaves(d.huff_tree().root())?.into_iter().map(|l| (l.letter, l.path)).collect();
    // pack on the fly
    let mut want: Vec<u8> = Vec::new();
    let (mut acc, mut nb) = (0u8, 0u8);
    let mut total = 0u64;
    for l in letters {
        let c = codes.get(l).ok_or_else(|| format!("letter {l:?} is not in the tree that was used"))?;
        for b in c {
            acc = acc << 1 | *b as u8;
            nb += 1;
            if nb == 8 {
                want.push(acc);
                acc = 0;
                nb = 0;
            }
        }
        total += c.len() as u64;
    }
    let pad = (8 - nb) % 8;
    if nb > 0 {
        want.push(acc << pad);
    }
    let got = d.comp_bytes();
    ensure!(d.padding_bits() == pad, "{total} bits of codes, but {} padding bits are reported", d.padding_bits());
    ensure!(got.len() == want.len(), "{total} bits of codes in {} bytes", got.len());
    let n = want.len();
    ensure!(
        got[..n - 1] == want[..n - 1] && got[n - 1] >> pad == want[n - 1] >> pad,
        "the bytes are not the letters' codes; first difference in byte {:?}",
        got.iter().zip(&want).position(|(a, b)| a != b)
    );
    cx.seen("total bits modulo 8", total % 8);
    cx.count("code bits compared", total);
    let (bytes, p, t) = (d.comp_bytes().to_vec(), d.padding_bits(), flat(d.huff_tree().root())?);
    let (b2, p2, t2) = d.into_inner();
    ensure!(b2 == bytes && p2 == p && flat(t2.root())? == t, "into_inner gives something else than the accessors");
    Ok(())
}

// ---------------------------------------------------------------- C07

pub fn c07(cx: &mut Cx) -> R {
    let n = cx.rng.below(LTS + 4);
    if n >= LTS {
        return c07_case::<u8>(cx, None);
    }
    if cx.rng.chance(1, 2) && n < LTB {
        return for_ltb!(n, c07_bin(cx));
    }
    for_lt!(n, c07_any(cx))
}

fn c07_any<L: Lt>(cx: &mut Cx) -> R {
    c07_case::<L>(cx, None)
}

fn c07_bin<L: LtB>(cx: &mut Cx) -> R {
    let k = alpha(cx, L::CARD, 600);
    let (spec, ls) = random_spec::<L>(cx, k, MAX_DEPTH);
    let t = from_spec::<L>(&spec)?;
    // letters of the alphabet outside the tree
    let s = salt(&mut cx.rng);
    let mut extra: Vec<L> = Vec::new();
    for _ in 0..200 {
        let l = L::make(cx.rng.below(L::CARD), s);
        if !ls.contains(&l) && !extra.contains(&l) {
            extra.push(l);
        }
        if extra.len() > 5 {
            break;
        }
    }
    c07_case(cx, Some((t, ls, extra)))
}

fn c07_case<L: Lt>(cx: &mut Cx, given: Option<(HuffTree<L>, Vec<L>, Vec<L>)>) -> R {
    let (t, inside, outside) = match given {
        Some(x) => x,
        None => {
            let s = salt(&mut cx.rng);
            let k = alpha(cx, L::CARD, 400);
            let o = if L::CARD as usize > k { cx.rng.range(1, 5.min(L::CARD as usize - k)) } else { 0 };
            let mut all: Vec<L> = (0..(k + o) as u64).map(|i| L::make(i, s)).collect();
            cx.rng.shuffle(&mut all);
            let outside = all.split_off(k);
            let w = weights(cx, k);
            let v: Vec<_> = all.iter().cloned().zip(w).collect();
            let t = if cx.rng.chance(1, 2) {
                HuffTree::from_weights(VecWeights(v))
            } else {
                HuffTree::from_weights(v.into_iter().collect::<HashMap<_, _>>())
            };
            (t, all, outside)
        }
    };
    let n = if cx.idx < 16 && !cx.small && !cx.tiny { cx.rng.range(200_000, 3_000_000) } else { len(cx, 3000) };
    let mut letters: Vec<L> = (0..n).map(|_| cx.rng.pick(&inside).clone()).collect();
    let missing = !outside.is_empty() && cx.rng.chance(2, 3);
    if missing {
        for _ in 0..cx.rng.range(1, 3) {
            let at = match cx.rng.below(4) {
                0 => 0,
                1 => letters.len() - 1,
                _ => cx.rng.below(letters.len() as u64) as usize,
            };
            letters[at] = cx.rng.pick(&outside).clone();
        }
    }
    cx.nontrivial = n > 1 && (missing || inside.len() > 1);
    cx.sign(format!("{} {:?} {:?} {:?}", L::NAME, &letters[..n.min(300)], &inside[..inside.len().min(50)], missing).as_bytes());
    cx.note(format!("{}: {} letters, tree of {} leaves, missing letter: {missing}", L::NAME, n, inside.len()));
    cx.count(if missing { "slices with a missing letter" } else { "covered slices" }, 1);
    cx.seen("tree sizes", inside.len() as u64);
    match compress_with_tree(&letters, t) {
        Ok(_) => ensure!(!missing, "compressing succeeded although {:?} may be missing", outside),
        Err(e) => {
            ensure!(missing, "all letters have codes, but {:?} was reported missing", e.missing_letter());
            let m = e.missing_letter();
            ensure!(letters.contains(m), "the reported letter {m:?} is not in the slice");
            ensure!(outside.contains(m), "the reported letter {m:?} has a code");
            // errors can be shown
            let _ = (e.to_string(), format!("{e:?}"), e.message().len());
        }
    }
    Ok(())
}
