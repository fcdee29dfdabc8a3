//! C25: what values are built from. C26: the bytes of integer letters.
use crate::ctx::*;
use crate::ensure;
use crate::for_int;
use crate::for_lt;
use crate::gen::*;
use crate::letters::*;
use crate::trees::*;
use huff_coding::prelude::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn panics<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn c25(cx: &mut Cx) -> R {
    let n = cx.rng.below(LTS);
    for_lt!(n, parts(cx))
}

fn parts<L: Lt>(cx: &mut Cx) -> R {
    // any weights
    let k = alpha(cx, L::CARD, 60);
    let salt = cx.rng.u64() >> 40;
    let ls: Vec<L> = (0..k as u64).map(|i| L::make(i, salt)).collect();
    let w = weights(cx, k);
    let pairs: Vec<(L, usize)> = ls.iter().cloned().zip(w).collect();
    cx.nontrivial = k > 1;
    cx.sign(format!("{} {pairs:?}", L::NAME).as_bytes());
    let tree = HuffTree::from_weights(VecWeights(pairs.clone()));
    let shape = flat(tree.root())?;
    // any bytes, any number of padding bits
    for _ in 0..6 {
        let len = match cx.rng.below(4) {
            0 => 0,
            1 => 1,
            _ if cx.idx < 16 && !cx.small && !cx.tiny => cx.rng.range(70_000, 6_000_000),
            _ if cx.rng.chance(1, 100) => cx.rng.range(200, 70_000),
            _ => cx.rng.range(2, 200),
        };
        let data = cx.rng.bytes(len);
        let pad = match cx.rng.below(3) {
            0 => cx.rng.below(10) as u8,
            1 => *cx.rng.pick(&[7, 8, 9, 15, 16, 127, 128, 255]),
            _ => cx.rng.below(256) as u8,
        };
        let what = || format!("CompressData::<{}>::new of {len} bytes and {pad} padding bits", L::NAME);
        let valid = len > 0 && pad <= 7;
        match panics(|| CompressData::new(data.clone(), pad, tree.clone())) {
            None => {
                ensure!(!valid, "{}: refused", what());
                cx.count("impossible parts refused", 1);
            }
            Some(d) => {
                ensure!(valid, "{}: accepted", what());
                let same = |d: &CompressData<L>| -> R {
                    ensure!(d.comp_bytes() == data, "{}: the data are other ones", what());
                    ensure!(d.padding_bits() == pad, "{}: {} padding bits", what(), d.padding_bits());
                    ensure!(flat(d.huff_tree().root())? == shape, "{}: the tree is another one", what());
                    Ok(())
                };
                same(&d)?;
                let c = d.clone();
                // (looking at it changes nothing)
                let _ = format!("{d:?}");
                let _ = panics(|| decompress(&d));
                same(&d)?;
                let (b, p, t) = d.into_inner();
                ensure!(b == data && p == pad && flat(t.root())? == shape, "{}: into_inner gives other parts", what());
                same(&c)?;
                same(&CompressData::new(b, p, t))?;
                cx.count("parts kept", 1);
            }
        }
    }
    // no weights at all
    ensure!(panics(|| HuffTree::<L>::from_weights(VecWeights(vec![]))).is_none(), "a tree was built from no weights");
    ensure!(panics(|| HuffTree::<L>::from_weights(HashMap::new())).is_none(), "a tree was built from an empty map");
    ensure!(panics(|| HuffTree::from_weights(ByteWeights::new())).is_none(), "a tree was built from no byte counts");
    ensure!(panics(|| HuffTree::from_weights(ByteWeights::from_bytes(&[]))).is_none(), "a tree was built from the byte counts of nothing");
    cx.count("empty weights refused", 4);
    // a letter without a code: the error says so
    let all: Vec<L> = ls.iter().filter(|_| cx.rng.chance(1, 2)).cloned().collect();
    if let Some(miss) = (0..200u64).map(|i| L::make(i % L::CARD, salt)).find(|l| !ls.contains(l)) {
        let mut v = all;
        let at = cx.rng.range(0, v.len());
        v.insert(at, miss.clone());
        match compress_with_tree(&v, tree) {
            Ok(_) => return Err(format!("{miss:?} has no code, but was compressed")),
            Err(e) => {
                ensure!(*e.missing_letter() == miss, "{miss:?} has no code, but the error is about {:?}", e.missing_letter());
                ensure!(!e.message().is_empty() && !e.to_string().is_empty() && !format!("{e:?}").is_empty(), "the error about a missing letter has no text");
                let c = e.clone();
                ensure!(c.message() == e.message() && *c.missing_letter() == miss, "a copy of an error says something else");
                let b: Box<dyn std::error::Error> = Box::new(c);
                ensure!(b.to_string() == e.to_string(), "a boxed error has another text");
                cx.count("errors read", 1);
            }
        }
    }
    match CompressData::<u8>::try_from_bytes(&[0, 0, 0]) {
        Ok(_) => return Err("three bytes were read as compressed data".into()),
        Err(e) => ensure!(!e.message().is_empty() && !e.to_string().is_empty(), "an error has no text"),
    }
    Ok(())
}

pub fn c26(cx: &mut Cx) -> R {
    let n = cx.rng.below(INTS);
    for_int!(n, ints(cx))
}

fn one<L: LtB>(cx: &mut Cx, v: &L) -> R {
    let want = v.be();
    let got = v.as_be_bytes();
    ensure!(got[..] == want[..], "{v:?}: {}: the bytes are {got:?}, not {want:?}", L::NAME);
    match L::try_from_be_bytes(&want) {
        Ok(x) => ensure!(x == *v, "{want:?} were read as the {} {x:?}, not {v:?}", L::NAME),
        Err(e) => return Err(format!("{want:?} were not read as a {}: {e}", L::NAME)),
    }
    cx.count("letters compared", 1);
    Ok(())
}

fn ints<L: LtB>(cx: &mut Cx) -> R {
    // all letters of one byte, a part of those of two, and any others
    if L::BYTES <= 2 {
        let all = if L::BYTES == 1 { 256 } else { 65536 };
        let from = if L::BYTES == 1 { 0 } else { cx.rng.below(64) * 1024 };
        for x in from..(from + 1024).min(all) {
            let b = (x as u16).to_be_bytes();
            let v = L::from_be(&b[2 - L::BYTES..]).ok_or("harness: from_be")?;
            one(cx, &v)?;
        }
        cx.seen("parts of the small types", from ^ (L::BYTES as u64) << 40);
    }
    for _ in 0..40 {
        let mut b = cx.rng.bytes(L::BYTES);
        match cx.rng.below(8) {
            0 => b.fill(0),
            1 => b.fill(255),
            2 => {
                // a power of two, or one less
                b.fill(0);
                let i = cx.rng.below(L::BYTES as u64) as usize;
                b[i] = 1 << cx.rng.below(8);
                if cx.rng.chance(1, 2) {
                    b[i] -= 1;
                    b[i + 1..].fill(255);
                }
            }
            3 => {
                let i = cx.rng.range(0, L::BYTES);
                b[..i].fill(*cx.rng.pick(&[0, 255]));
            }
            4 => {
                let i = cx.rng.range(0, L::BYTES);
                b[i..].fill(*cx.rng.pick(&[0, 255]));
            }
            _ => (),
        }
        cx.sign(&b);
        let v = L::from_be(&b).ok_or("harness: from_be")?;
        one(cx, &v)?;
    }
    // any other number of bytes
    for _ in 0..10 {
        let n = match cx.rng.below(4) {
            0 => 0,
            1 => L::BYTES - 1,
            2 => L::BYTES + 1,
            _ => cx.rng.range(0, 40),
        };
        if n == L::BYTES {
            continue;
        }
        let mut b = cx.rng.bytes(n);
        if cx.rng.chance(1, 3) {
            b.fill(0);
        }
        match L::try_from_be_bytes(&b) {
            Ok(v) => return Err(format!("{n} bytes {b:?} were read as the {} {v:?}", L::NAME)),
            Err(e) => ensure!(!e.to_string().is_empty(), "an error has no text"),
        }
        cx.count("other lengths refused", 1);
    }
    cx.nontrivial = true;
    cx.sign(L::NAME.as_bytes());
    Ok(())
}
