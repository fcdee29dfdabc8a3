//! C03, C04, C06, C24: trees.
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::letters::*;
use crate::oracle::*;
use crate::trees::*;
use crate::{for_int, for_lt, for_ltb};
use huff_coding::prelude::*;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct ConstHasher;
impl Hasher for ConstHasher {
    fn write(&mut self, _: &[u8]) {}
    fn finish(&self) -> u64 {
        42
    }
}
#[derive(Default, Clone)]
pub struct SumHasher(u64);
impl Hasher for SumHasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

fn sign_weights<L: Lt>(cx: &mut Cx, w: &[(L, usize)]) {
    cx.sign(L::NAME.as_bytes());
    let mut h = cx.sig;
    for (l, x) in w.iter().take(3000) {
        h = crate::rng::fnv(&x.to_le_bytes(), h);
        if w.len() < 50 {
            h = crate::rng::fnv(format!("{l:?}").as_bytes(), h);
        }
    }
    cx.sig = h;
    cx.sign64(w.len() as u64);
    cx.nontrivial = w.len() > 1;
}

fn some_weights<L: Lt>(cx: &mut Cx, max: usize) -> Vec<(L, usize)> {
    let k = alpha(cx, L::CARD, max);
    let s = salt(&mut cx.rng);
    let w = weights(cx, k);
    let mut v: Vec<(L, usize)> = (0..k as u64).map(|i| L::make(i, s)).zip(w).collect();
    if cx.rng.chance(1, 2) {
        cx.rng.shuffle(&mut v);
    }
    cx.note(format!("{}: {} weights {:?}", L::NAME, v.len(), v.iter().take(20).map(|x| x.1).collect::<Vec<_>>()));
    sign_weights(cx, &v);
    v
}

/// the weights as one of the collections; also tells the collection
fn build<L: Lt>(cx: &mut Cx, v: &[(L, usize)]) -> HuffTree<L> {
    if cx.rng.chance(1, 2) {
        cx.count("trees from maps", 1);
        HuffTree::from_weights(v.iter().cloned().collect::<HashMap<L, usize>>())
    } else {
        cx.count("trees from user-defined collections", 1);
        HuffTree::from_weights(VecWeights(v.to_vec()))
    }
}

/// u8 weights through ByteWeights (only positive counts)
fn byte_weights(cx: &mut Cx) -> (Vec<(u8, usize)>, ByteWeights) {
    let mut v = some_weights::<u8>(cx, 256);
    for x in v.iter_mut() {
        if x.1 == 0 {
            x.1 = 1;
        }
    }
    // keep the total in range after the above
    let s: u128 = v.iter().map(|x| x.1 as u128).sum();
    if s > usize::MAX as u128 {
        for x in v.iter_mut() {
            x.1 = (x.1 / 2).max(1);
        }
    }
    let letters: Vec<u8> = v.iter().map(|x| x.0).collect();
    let mut bw = ByteWeights::from_bytes(&letters);
    for (l, w) in &v {
        if let Some(x) = bw.get_mut(l) {
            *x = *w;
        }
    }
    (v, bw)
}

// ---------------------------------------------------------------- C03

pub fn c03(cx: &mut Cx) -> R {
    let n = cx.rng.below(LTS + 3);
    match n {
        20 | 21 => {
            let (v, bw) = byte_weights(cx);
            cx.count("trees from byte counts", 1);
            let t = HuffTree::from_weights(bw);
            c03_check(cx, &t, v.iter().map(|x| x.0).collect(), true)?;
            c03_bin(cx, t)
        }
        22 => for_int!(cx.rng.below(12), c03_shapes(cx)),
        n if n < LTB && cx.rng.chance(1, 2) => for_ltb!(n, c03_own_bin(cx)),
        n => for_lt!(n, c03_any(cx)),
    }
}

fn c03_any<L: Lt>(cx: &mut Cx) -> R {
    let max = if cx.idx < 60 && !cx.small && !cx.tiny { 300_000 } else if cx.rng.chance(1, 60) { 70_000 } else { 1500 };
    let v = some_weights::<L>(cx, max);
    let t = build(cx, &v);
    c03_check(cx, &t, v.into_iter().map(|x| x.0).collect(), true)
}

fn c03_own_bin<L: LtB>(cx: &mut Cx) -> R {
    let v = some_weights::<L>(cx, 1500);
    let t = build(cx, &v);
    c03_check(cx, &t, v.into_iter().map(|x| x.0).collect(), true)?;
    c03_bin(cx, t)
}

fn c03_bin<L: LtB>(cx: &mut Cx, t: HuffTree<L>) -> R {
    let letters: HashSet<L> = leaves(t.root())?.into_iter().map(|l| l.letter).collect();
    let back = HuffTree::<L>::try_from_bin(t.as_bin()).map_err(|e| format!("as_bin() is not read back: {e}"))?;
    cx.count("trees read from binary", 1);
    c03_check(cx, &back, letters, false)
}

fn c03_shapes<L: LtB>(cx: &mut Cx) -> R {
    let k = alpha(cx, L::CARD, 1005);
    let (spec, ls) = random_spec::<L>(cx, k, MAX_DEPTH);
    cx.sign(&pack(&spec.print()).0);
    cx.nontrivial = k > 1;
    cx.note(format!("tree of {k} leaves, depth {}, read from binary", spec.depth()));
    let t = from_spec::<L>(&spec)?;
    cx.count("trees read from binary", 1);
    c03_check(cx, &t, ls.into_iter().collect(), false)
}

fn c03_check<L: Lt>(cx: &mut Cx, t: &HuffTree<L>, want: HashSet<L>, _built: bool) -> R {
    let ls = leaves(t.root())?;
    ensure!(ls.len() == want.len(), "{} letters, but the tree has {} leaves", want.len(), ls.len());
    let mut paths: HashMap<L, Vec<bool>> = HashMap::new();
    for l in &ls {
        ensure!(want.contains(&l.letter), "the tree has a leaf for {:?}, which has no weight", l.letter);
        ensure!(l.code.as_ref() == Some(&l.path), "the leaf of {:?} stores code {:?}, its path is {}", l.letter,
            l.code.as_ref().map(|c| show(c)), show(&l.path));
        ensure!(paths.insert(l.letter.clone(), l.path.clone()).is_none(), "two leaves for {:?}", l.letter);
        cx.seen("code lengths", l.path.len() as u64);
        cx.max("longest code (bits)", l.path.len() as u64);
    }
    fn cmp<L: Lt, S: BuildHasher>(codes: &HashMap<L, Bits, S>, paths: &HashMap<L, Vec<bool>>, h: &str) -> R {
        ensure!(codes.len() == paths.len(), "{} codes for {} letters ({h})", codes.len(), paths.len());
        for (l, c) in codes {
            let c = to_bits(c);
            match paths.get(l) {
                Some(p) => ensure!(*p == c, "the code of {l:?} is {}, the path to its leaf is {} ({h})", show(&c), show(p)),
                None => return Err(format!("a code for {l:?}, which is not in the tree ({h})")),
            }
        }
        // a lookup works with this hasher
        for l in paths.keys().take(50) {
            ensure!(codes.get(l).is_some(), "the code of {l:?} is not found ({h})");
        }
        Ok(())
    }
    let codes = t.read_codes();
    cmp(&codes, &paths, "read_codes")?;
    match cx.rng.below(3) {
        0 => cmp(&t.read_codes_with_hasher(BuildHasherDefault::<SumHasher>::default()), &paths, "a user-defined hasher")?,
        1 if ls.len() < 300 => {
            cmp(&t.read_codes_with_hasher(BuildHasherDefault::<ConstHasher>::default()), &paths, "a colliding hasher")?
        }
        _ => cmp(
            &t.read_codes_with_hasher(BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default()),
            &paths,
            "the default hasher",
        )?,
    }
    let mut all: Vec<Vec<bool>> = codes.values().map(to_bits).collect();
    if all.len() == 1 {
        ensure!(all[0] == [false], "the lone letter has code {}", show(&all[0]));
    } else {
        all.sort();
        if all.iter().map(|c| c.len()).sum::<usize>() < 4_000_000 {
            check_prefix_code(&all)?;
        }
    }
    cx.count("codes compared", codes.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C04

pub fn c04(cx: &mut Cx) -> R {
    if cx.idx < 40 && !cx.small {
        return c04_exhaustive(cx);
    }
    if cx.idx < 46 && !cx.small && !cx.tiny {
        return c04_zeros(cx);
    }
    match cx.rng.below(12) {
        0..=2 => {
            let (v, bw) = byte_weights(cx);
            cx.count("trees from byte counts", 1);
            c04_check(cx, &HuffTree::from_weights(bw), &v)
        }
        3 => {
            // counts of an actual text
            let c = content(cx, 100_000);
            let mut m: HashMap<u8, usize> = HashMap::new();
            c.iter().for_each(|b| *m.entry(*b).or_default() += 1);
            let v: Vec<_> = m.into_iter().collect();
            cx.note(format!("byte counts of {} bytes of text", c.len()));
            sign_weights(cx, &v);
            let t = match cx.rng.below(3) {
                0 => HuffTree::from_weights(ByteWeights::from_bytes(&c)),
                1 => HuffTree::from_weights(ByteWeights::threaded_from_bytes(&c, 3)),
                _ => HuffTree::from_weights(build_weights_map(&c)),
            };
            c04_check(cx, &t, &v)
        }
        _ => for_lt!(cx.rng.below(LTS), c04_any(cx)),
    }
}

fn c04_any<L: Lt>(cx: &mut Cx) -> R {
    let max = if cx.rng.chance(1, 60) { 70_000 } else { 1500 };
    let v = some_weights::<L>(cx, max);
    let t = build(cx, &v);
    c04_check(cx, &t, &v)
}

/// Letters without weight, enough of them to overflow the stack if each had a level of its own
fn c04_zeros(cx: &mut Cx) -> R {
    let k = if cx.idx == 40 { 1_000_000 } else { cx.rng.range(2_000, 400_000) } as u64;
    let v = zeros::<u32>(cx, k);
    sign_weights(cx, &v[..1000]);
    cx.count("large alphabets without weight", 1);
    let t = HuffTree::from_weights(VecWeights(v.clone()));
    c04_check(cx, &t, &v)
}

/// k letters, most or all of weight 0
pub fn zeros<L: Lt>(cx: &mut Cx, k: u64) -> Vec<(L, usize)> {
    let salt = salt(&mut cx.rng);
    let some = *cx.rng.pick(&[0, 0, 1, 5, 300]);
    let mut v: Vec<(L, usize)> = (0..k).map(|i| (L::make(i, salt), 0)).collect();
    for _ in 0..some {
        let i = cx.rng.below(k) as usize;
        v[i].1 = cx.rng.range(1, 1000);
    }
    cx.note(format!("{k} letters, at most {some} of them with a weight, {}", L::NAME));
    cx.nontrivial = true;
    v
}

/// all weight vectors with up to 5 letters and weights up to 6 (spread over 40 cases)
fn c04_exhaustive(cx: &mut Cx) -> R {
    cx.note(format!("every vector of 1 to 5 weights from 0 to 6, part {} of 40", cx.idx));
    cx.nontrivial = true;
    cx.sign64(cx.idx);
    let mut done = 0;
    for k in 1..=5u32 {
        let n = 7u64.pow(k);
        for code in (0..n).filter(|c| c % 40 == cx.idx) {
            let v: Vec<(u8, usize)> = (0..k).map(|i| (i as u8, (code / 7u64.pow(i) % 7) as usize)).collect();
            let t = HuffTree::from_weights(VecWeights(v.clone()));
            c04_tree(&t, &v).map_err(|e| format!("weights {v:?}: {e}"))?;
            done += 1;
        }
    }
    cx.count("weight vectors enumerated", done);
    Ok(())
}

fn c04_check<L: Lt>(cx: &mut Cx, t: &HuffTree<L>, v: &[(L, usize)]) -> R {
    c04_tree(t, v)?;
    cx.seen("leaf counts", v.len() as u64);
    let total: u128 = v.iter().map(|x| x.1 as u128).sum();
    cx.max("largest total weight", total as u64);
    if total > u32::MAX as u128 {
        cx.count("totals over 2^32", 1);
    }
    Ok(())
}

fn c04_tree<L: Lt>(t: &HuffTree<L>, v: &[(L, usize)]) -> R {
    let want: HashMap<&L, usize> = v.iter().map(|(l, w)| (l, *w)).collect();
    let ls = leaves(t.root())?;
    ensure!(ls.len() == v.len(), "{} weights, {} leaves", v.len(), ls.len());
    let mut cost = 0u128;
    let mut seen = HashSet::new();
    for l in &ls {
        ensure!(seen.insert(&l.letter), "two leaves for {:?}", l.letter);
        match want.get(&l.letter) {
            Some(w) => ensure!(*w == l.weight, "the leaf of {:?} has weight {}, its letter has {}", l.letter, l.weight, w),
            None => return Err(format!("a leaf for {:?}, which has no weight", l.letter)),
        }
        cost += l.weight as u128 * l.path.len() as u128;
    }
    let w: Vec<u128> = v.iter().map(|x| x.1 as u128).collect();
    let best = optimal_cost(&w);
    ensure!(cost == best, "the weighted code length is {cost}, the optimum is {best}");
    // sums
    let mut stack = vec![t.root()];
    while let Some(b) = stack.pop() {
        if let (Some(l), Some(r)) = (b.left_child(), b.right_child()) {
            let s = l.leaf().weight() as u128 + r.leaf().weight() as u128;
            ensure!(b.leaf().weight() as u128 == s, "a joint branch weighs {}, its children {s}", b.leaf().weight());
            stack.push(l);
            stack.push(r);
        }
    }
    let total: u128 = w.iter().sum();
    ensure!(t.root().leaf().weight() as u128 == total, "the root weighs {}, all letters {total}", t.root().leaf().weight());
    Ok(())
}

// ---------------------------------------------------------------- C06

pub fn c06(cx: &mut Cx) -> R {
    let n = cx.rng.below(LTB + 3);
    let n = if n >= LTB { 0 } else { n };
    if cx.rng.chance(1, 100) {
        return match cx.rng.below(10) {
            0..=3 => c06_weights::<Unit>(cx),
            4..=6 => c06_shape::<Unit>(cx),
            7 => c06_noise::<Unit>(cx),
            _ => c06_letters::<Unit>(cx),
        };
    }
    match cx.rng.below(10) {
        0..=3 => for_ltb!(n, c06_weights(cx)),
        4..=6 => for_ltb!(n, c06_shape(cx)),
        7 => for_ltb!(n, c06_cut(cx)),
        8 => for_ltb!(n, c06_noise(cx)),
        _ => for_ltb!(if cx.rng.chance(1, 2) { 14 } else { n }, c06_letters(cx)),
    }
}

/// the tree read from these bits, compared with what the format says
fn c06_read<L: LtB>(cx: &mut Cx, bits: &[bool]) -> R {
    let spec = SpecTree::parse(bits, L::BYTES);
    let bv = if cx.rng.chance(1, 5) {
        let off = cx.rng.range(1, 9);
        to_bv_offset(bits, off)
    } else {
        to_bv(bits)
    };
    let got = HuffTree::<L>::try_from_bin(bv);
    match (spec, got) {
        (Err(_), Err(e)) => {
            let _ = (e.to_string(), format!("{e:?}"), e.message().len());
            cx.count("malformed encodings rejected", 1);
            Ok(())
        }
        (Err(e), Ok(_)) => Err(format!("a malformed encoding ({e:?}, {} bits) was accepted", bits.len())),
        (Ok(s), r) => {
            let bad = s.nodes.iter().any(|n| matches!(n, Node::Leaf(b) if L::from_be(b).is_none()));
            let ordinary = s.depth() <= MAX_DEPTH && s.letters_distinct();
            match r {
                Err(_) if bad => {
                    cx.count("invalid letters rejected", 1);
                    Ok(())
                }
                Ok(_) if bad => Err("bytes that are not a letter were accepted as one".into()),
                Err(e) if ordinary => Err(format!(
                    "a well-formed tree of {} leaves and depth {} was rejected: {e}",
                    s.leaves(), s.depth()
                )),
                Err(_) => Ok(()),
                Ok(t) => {
                    cx.count("encodings read", 1);
                    cx.max("deepest tree read", s.depth() as u64);
                    cx.seen("leaf counts", s.leaves() as u64);
                    ensure!(to_spec(t.root())?.print() == bits, "the tree read has another shape or other letters");
                    for x in flat(t.root())? {
                        ensure!(x.weight == 0, "weight {} in a tree read from binary", x.weight);
                    }
                    for l in leaves(t.root())? {
                        ensure!(l.code.as_ref() == Some(&l.path), "leaf {:?} has code {:?} and path {}", l.letter, l.code, show(&l.path));
                    }
                    ensure!(to_bits(&t.as_bin()) == bits, "the tree read is written back differently");
                    if ordinary {
                        let codes = t.read_codes();
                        let want = s.codes();
                        ensure!(codes.len() == want.len(), "{} codes for {} leaves", codes.len(), want.len());
                        for (l, c) in want {
                            let l = L::from_be(&l).unwrap();
                            ensure!(codes.get(&l).map(to_bits) == Some(c), "another code for {l:?}");
                        }
                    }
                    Ok(())
                }
            }
        }
    }
}

fn c06_weights<L: LtB>(cx: &mut Cx) -> R {
    let max = if cx.rng.chance(1, 80) { 66_000 } else { 1000 };
    let v = if L::CARD > 256 && cx.rng.chance(1, 2000) && !cx.small && !cx.tiny {
        let k = cx.rng.range(1100, 30_000) as u64;
        cx.count("large alphabets without weight", 1);
        zeros::<L>(cx, k.min(L::CARD as u64))
    } else {
        some_weights::<L>(cx, max)
    };
    let t = build(cx, &v);
    let spec = to_spec(t.root())?;
    let bits = spec.print();
    ensure!(to_bits(&t.as_bin()) == bits, "as_bin is not the documented encoding of the tree");
    cx.count("encodings written", 1);
    let back = HuffTree::<L>::try_from_bin(t.as_bin()).map_err(|e| format!("as_bin() is not read back: {e}"))?;
    same_codes(&t.read_codes(), &back.read_codes())?;
    if bits.len() < 200_000 {
        c06_read::<L>(cx, &bits)?;
    }
    Ok(())
}

fn c06_shape<L: LtB>(cx: &mut Cx) -> R {
    let k = alpha(cx, L::CARD, 1005);
    let maxd = *cx.rng.pick(&[MAX_DEPTH, MAX_DEPTH, 255, 64, 12]);
    let (spec, _) = random_spec::<L>(cx, k, maxd);
    cx.note(format!("{}: {k} leaves, depth {}", L::NAME, spec.depth()));
    let bits = spec.print();
    cx.sign(&pack(&bits).0);
    cx.nontrivial = k > 1;
    c06_read::<L>(cx, &bits)
}

/// every truncation and some extensions
fn c06_cut<L: LtB>(cx: &mut Cx) -> R {
    let k = alpha(cx, L::CARD, 40);
    let (spec, _) = random_spec::<L>(cx, k, MAX_DEPTH);
    let bits = spec.print();
    cx.note(format!("{}: truncations and extensions of a tree of {k} leaves, {} bits", L::NAME, bits.len()));
    cx.sign(&pack(&bits).0);
    cx.nontrivial = true;
    let step = if cx.small { 1 + bits.len() / 8 } else { 1 + bits.len() / 400 };
    for n in (0..bits.len()).step_by(step) {
        c06_read::<L>(cx, &bits[..n]).map_err(|e| format!("{n} of {} bits: {e}", bits.len()))?;
    }
    for _ in 0..6 {
        let mut b = bits.clone();
        for _ in 0..cx.rng.range(1, 20) {
            b.push(cx.rng.chance(1, 2));
        }
        c06_read::<L>(cx, &b).map_err(|e| format!("{} bits extended to {}: {e}", bits.len(), b.len()))?;
    }
    // two trees, one after the other
    let mut b = bits.clone();
    b.extend_from_slice(&bits);
    c06_read::<L>(cx, &b)
}

fn c06_noise<L: LtB>(cx: &mut Cx) -> R {
    cx.note(format!("{}: noise and flipped bits", L::NAME));
    cx.nontrivial = true;
    for _ in 0..if cx.small { 3 } else { 30 } {
        let n = len(cx, 3000);
        let bias = cx.rng.range(1, 9) as u64;
        let bits: Vec<bool> = (0..n).map(|_| cx.rng.chance(bias, 10)).collect();
        cx.sign(&pack(&bits).0);
        c06_read::<L>(cx, &bits)?;
    }
    let k = alpha(cx, L::CARD, 60);
    let (spec, _) = random_spec::<L>(cx, k, MAX_DEPTH);
    let bits = spec.print();
    for _ in 0..if cx.small { 3 } else { 30 } {
        let mut b = bits.clone();
        for _ in 0..cx.rng.range(1, 3) {
            let i = cx.rng.below(b.len() as u64) as usize;
            b[i] = !b[i];
        }
        c06_read::<L>(cx, &b)?;
    }
    Ok(())
}

/// letters and their bytes
fn c06_letters<L: LtB>(cx: &mut Cx) -> R {
    cx.note(format!("{}: letters to bytes and back", L::NAME));
    cx.nontrivial = true;
    let s = salt(&mut cx.rng);
    cx.sign64(s);
    for i in 0..if cx.small { 5 } else { 100 } {
        let l = L::make(if i < 10 { i % L::CARD } else { cx.rng.below(L::CARD) }, s);
        let b = l.as_be_bytes();
        ensure!(b.to_vec() == l.be(), "{l:?} is written as {b:?}");
        match L::try_from_be_bytes(&b) {
            Ok(x) => ensure!(x == l, "{l:?} is read back as {x:?}"),
            Err(e) => return Err(format!("{l:?} is not read back: {e}")),
        }
        cx.count("letters compared", 1);
    }
    for n in [0, 1, L::BYTES.saturating_sub(1), L::BYTES, L::BYTES + 1, L::BYTES * 2, 40] {
        let b = cx.rng.bytes(n);
        match (L::try_from_be_bytes(&b), L::from_be(&b)) {
            (Ok(x), Some(y)) => ensure!(x == y, "bytes {b:?} are read as {x:?}, not {y:?}"),
            (Err(_), None) => (),
            (Ok(x), None) => return Err(format!("{n} bytes {b:?} are read as {x:?}")),
            (Err(e), Some(y)) => return Err(format!("bytes {b:?} are not read as {y:?}: {e}")),
        }
    }
    // every byte as a lone letter and among others
    if L::BYTES == 1 && !cx.small {
        for x in 0..=255u8 {
            let mut bits = vec![false];
            bits.extend(bits_of(&[x]));
            c06_read::<L>(cx, &bits)?;
            let mut two = vec![true];
            two.extend(&bits);
            two.push(false);
            two.extend(bits_of(&[if x == 48 { 49 } else { 48 }]));
            c06_read::<L>(cx, &two)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug)]
struct Model<L> {
    letter: Option<L>,
    weight: usize,
    code: Option<Vec<bool>>,
    kids: Option<Box<(Model<L>, Model<L>)>>,
}

pub fn c24(cx: &mut Cx) -> R {
    match cx.rng.below(4) {
        0 | 1 => for_lt!(cx.rng.below(LTS), c24_history(cx)),
        2 => for_lt!(cx.rng.below(LTS), c24_order(cx)),
        _ => for_ltb!(cx.rng.below(LTB), c24_tree(cx)),
    }
}

fn rand_code(cx: &mut Cx) -> Vec<bool> {
    let n = *cx.rng.pick(&[0usize, 1, 2, 3, 7, 8, 9, 31, 64, 65, 300]);
    (0..n).map(|_| cx.rng.chance(1, 2)).collect()
}

fn rand_weight(cx: &mut Cx) -> usize {
    match cx.rng.below(6) {
        0 => 0,
        1 => usize::MAX,
        2 => usize::MAX - 1,
        3 => 1 << cx.rng.range(0, 63),
        4 => (1 << 32) + cx.rng.range(0, 2),
        _ => cx.rng.range(0, 5),
    }
}

fn gen_model<L: Lt>(cx: &mut Cx, s: u64, depth: usize) -> (HuffBranch<L>, Model<L>) {
    let letter = if cx.rng.chance(2, 3) { Some(L::make(cx.rng.below(L::CARD), s)) } else { None };
    let weight = rand_weight(cx);
    let mut leaf = HuffLeaf::new(letter.clone(), weight);
    let mut m = Model { letter, weight, code: None, kids: None };
    if cx.rng.chance(1, 3) {
        let c = rand_code(cx);
        leaf.set_code(to_bv(&c));
        m.code = Some(c);
    }
    let kids = if depth > 0 && cx.rng.chance(2, 3) {
        let (a, ma) = gen_model(cx, s, depth - 1);
        let (b, mb) = gen_model(cx, s, depth - 1);
        m.kids = Some(Box::new((ma, mb)));
        Some((a, b))
    } else {
        None
    };
    (HuffBranch::new(leaf, kids), m)
}

fn same<L: Lt>(b: &HuffBranch<L>, m: &Model<L>) -> R {
    ensure!(b.leaf().letter() == m.letter.as_ref(), "letter {:?}, given {:?}", b.leaf().letter(), m.letter);
    ensure!(b.leaf().weight() == m.weight, "weight {}, given {}", b.leaf().weight(), m.weight);
    let code = b.leaf().code().map(to_bits);
    ensure!(code == m.code, "code {:?}, given {:?}", code, m.code);
    ensure!(b.has_children() == m.kids.is_some(), "has_children() = {}, children given: {}", b.has_children(), m.kids.is_some());
    ensure!(b.left_child().is_some() == m.kids.is_some(), "left child {}", b.left_child().is_some());
    ensure!(b.right_child().is_some() == m.kids.is_some(), "right child {}", b.right_child().is_some());
    ensure!(b.children_iter().is_some() == m.kids.is_some(), "children_iter {}", b.children_iter().is_some());
    if let Some(k) = &m.kids {
        let (l, r) = (b.left_child().unwrap(), b.right_child().unwrap());
        same(l, &k.0)?;
        same(r, &k.1)?;
        let mut it = b.children_iter().unwrap();
        let (first, second) = (it.next(), it.next());
        ensure!(first.map(|x| x as *const _) == Some(l as *const _), "the first child iterated is not the left one");
        ensure!(second.map(|x| x as *const _) == Some(r as *const _), "the second child iterated is not the right one");
        for _ in 0..300 {
            ensure!(it.next().is_none(), "more than two children are iterated");
        }
        let other: Vec<_> = huff_coding::tree::branch::ChildrenIter::new(b).map(|x| x as *const _).collect();
        ensure!(other == [l as *const _, r as *const _], "ChildrenIter::new iterates other children");
    }
    Ok(())
}

fn c24_history<L: Lt>(cx: &mut Cx) -> R {
    let s = salt(&mut cx.rng);
    let depth = cx.rng.range(0, 4);
    let (mut b, mut m) = gen_model::<L>(cx, s, depth);
    cx.note(format!("{}: history of changes to a hand-built branch", L::NAME));
    cx.nontrivial = true;
    same(&b, &m)?;
    let steps = if cx.small { 6 } else { cx.rng.range(1, 30) };
    let mut log = Vec::new();
    for _ in 0..steps {
        // walk to a random branch
        let mut bb = &mut b;
        let mut mm = &mut m;
        let mut at = String::new();
        while mm.kids.is_some() && cx.rng.chance(2, 3) {
            let left = cx.rng.chance(1, 2);
            at.push(if left { 'L' } else { 'R' });
            let k = mm.kids.as_mut().unwrap();
            if left {
                bb = bb.left_child_mut().ok_or("left_child_mut gives no left child")?;
                mm = &mut k.0;
            } else {
                bb = bb.right_child_mut().ok_or("right_child_mut gives no right child")?;
                mm = &mut k.1;
            }
        }
        let op = match cx.rng.below(4) {
            0 => {
                let c = rand_code(cx);
                bb.set_code(to_bv(&c));
                mm.code = Some(c);
                "set_code"
            }
            1 => {
                bb.set_children(None);
                mm.kids = None;
                "set_children(None)"
            }
            2 if at.len() < 12 => {
                let (x, mx) = gen_model(cx, s, 1);
                let (y, my) = gen_model(cx, s, 1);
                bb.set_children(Some((x, y)));
                mm.kids = Some(Box::new((mx, my)));
                "set_children(Some)"
            }
            _ => {
                let (x, mx) = gen_model(cx, s, 1);
                *bb = x;
                *mm = mx;
                "replaced"
            }
        };
        log.push(format!("{op}@{at}"));
        cx.sign(log.last().unwrap().as_bytes());
        cx.count("changes", 1);
        same(&b, &m).map_err(|e| format!("after {log:?}: {e}"))?;
    }
    // clones are the same and independent
    let c = b.clone();
    same(&c, &m).map_err(|e| format!("a clone differs: {e}"))?;
    if b.has_children() {
        if cx.rng.chance(1, 2) {
            iterator_laws(cx, "children_iter()", || b.children_iter().unwrap(), |x| x as *const _)?;
        } else {
            iterator_laws(cx, "ChildrenIter::new()", || huff_coding::tree::branch::ChildrenIter::new(&b), |x| x as *const _)?;
        }
    }
    b.set_children(None);
    b.set_code(to_bv(&[true; 9]));
    same(&c, &m).map_err(|e| format!("a clone changed with the original: {e}"))?;
    Ok(())
}

fn c24_order<L: Lt>(cx: &mut Cx) -> R {
    let s = salt(&mut cx.rng);
    cx.note(format!("{}: comparisons", L::NAME));
    cx.nontrivial = true;
    for _ in 0..if cx.small { 5 } else { 60 } {
        let (a, ma) = gen_model::<L>(cx, s, 1);
        let (mut b, mut mb) = gen_model::<L>(cx, s, 1);
        if cx.rng.chance(1, 3) {
            // the same weight, everything else different
            b = HuffBranch::new(HuffLeaf::new(mb.letter.clone(), ma.weight), None);
            mb.weight = ma.weight;
        }
        let want = ma.weight.cmp(&mb.weight);
        cx.sign64(ma.weight as u64 ^ (mb.weight as u64).rotate_left(7));
        let ctx = format!("weights {} and {}", ma.weight, mb.weight);
        macro_rules! check {
            ($x:expr, $y:expr, $what:expr) => {{
                let (x, y) = ($x, $y);
                ensure!(x.cmp(y) == want, "{}: cmp of {ctx} is {:?}", $what, x.cmp(y));
                ensure!(x.partial_cmp(y) == Some(want), "{}: partial_cmp of {ctx} is {:?}", $what, x.partial_cmp(y));
                ensure!((x == y) == want.is_eq(), "{}: == of {ctx} is {}", $what, x == y);
                ensure!((x != y) == want.is_ne(), "{}: != of {ctx} is {}", $what, x != y);
                ensure!((x < y) == want.is_lt() && (x <= y) == want.is_le(), "{}: < or <= of {ctx}", $what);
                ensure!((x > y) == want.is_gt() && (x >= y) == want.is_ge(), "{}: > or >= of {ctx}", $what);
                ensure!(x.max(y).weight_() == ma.weight.max(mb.weight), "{}: max of {ctx}", $what);
                ensure!(x.min(y).weight_() == ma.weight.min(mb.weight), "{}: min of {ctx}", $what);
            }};
        }
        check!(a.leaf(), b.leaf(), "leaves");
        check!(&a, &b, "branches");
        cx.count("pairs compared", 1);
    }
    // sorting
    let mut v: Vec<HuffBranch<L>> = (0..20).map(|_| gen_model::<L>(cx, s, 0).0).collect();
    let mut w: Vec<usize> = v.iter().map(|b| b.leaf().weight()).collect();
    v.sort();
    w.sort_unstable();
    ensure!(v.iter().map(|b| b.leaf().weight()).collect::<Vec<_>>() == w, "sorting branches does not sort by weight");
    Ok(())
}

trait W {
    fn weight_(&self) -> usize;
}
impl<L: HuffLetter> W for HuffBranch<L> {
    fn weight_(&self) -> usize {
        self.leaf().weight()
    }
}
impl<L: HuffLetter> W for HuffLeaf<L> {
    fn weight_(&self) -> usize {
        self.weight()
    }
}
impl<T: W> W for &T {
    fn weight_(&self) -> usize {
        (**self).weight_()
    }
}

/// trees changed through root_mut
fn c24_tree<L: LtB>(cx: &mut Cx) -> R {
    let k = alpha(cx, L::CARD, 300);
    let maxd = *cx.rng.pick(&[MAX_DEPTH, 255, 20, 12]);
    let (spec, ls) = random_spec::<L>(cx, k, maxd);
    cx.note(format!("{}: hand-built tree of {k} leaves, depth {}", L::NAME, spec.depth()));
    cx.sign(&pack(&spec.print()).0);
    cx.nontrivial = k > 1;
    let ws = weights(cx, k);
    let by: HashMap<Vec<u8>, (L, usize)> = ls.iter().zip(ws).map(|(l, w)| (l.be(), (l.clone(), w))).collect();
    let root = by_hand(&spec, &|b| by[b].clone());
    let want = flat(&root)?;
    let mut t = tree_with_root(root.clone(), L::make(0, 5));
    ensure!(flat(t.root())? == want, "the root set through root_mut is not the root of the tree");
    ensure!(flat(t.root_mut())? == want, "root_mut gives another root than root");
    use_tree(cx, &t, &spec)?;
    // swap two subtrees, with the codes corrected: the tree is used as it is now
    if k >= 2 {
        let mut spec2 = spec.clone();
        if let Node::Joint(a, b) = spec2.nodes[0] {
            spec2.nodes[0] = Node::Joint(b, a);
        }
        let r2 = by_hand(&spec2, &|b| by[b].clone());
        let (l, r) = (r2.left_child().unwrap().clone(), r2.right_child().unwrap().clone());
        let keep = t.clone();
        t.root_mut().set_children(Some((l, r)));
        use_tree(cx, &t, &spec2).map_err(|e| format!("after exchanging the root's children: {e}"))?;
        ensure!(flat(keep.root())? == want, "a clone of a tree changed with it");
        // reduced to one of its own leaves, which keeps the code it had, or to a new leaf without one
        let mut b = t.root().clone();
        while b.has_children() {
            b = if cx.rng.chance(1, 2) { b.left_child() } else { b.right_child() }.unwrap().clone();
        }
        let l = b.leaf().letter().unwrap().clone();
        if cx.rng.chance(1, 3) {
            b = HuffBranch::new(HuffLeaf::new(Some(l.clone()), 1), None);
        }
        *t.root_mut() = b;
        use_tree(cx, &t, &SpecTree { nodes: vec![Node::Leaf(l.be())] }).map_err(|e| format!("after reducing it to a leaf with its old code: {e}"))?;
        // and reduced to one leaf
        let first = L::make(0, 77);
        *t.root_mut() = by_hand(&SpecTree { nodes: vec![Node::Leaf(first.be())] }, &|_| (first.clone(), 3));
        use_tree(cx, &t, &SpecTree { nodes: vec![Node::Leaf(first.be())] }).map_err(|e| format!("after reducing it to one leaf: {e}"))?;
    }
    Ok(())
}

fn use_tree<L: LtB>(cx: &mut Cx, t: &HuffTree<L>, spec: &SpecTree) -> R {
    ensure!(to_bits(&t.as_bin()) == spec.print(), "the tree is not written as it is now");
    let codes = t.read_codes();
    let want = spec.codes();
    ensure!(codes.len() == want.len(), "{} codes, {} leaves", codes.len(), want.len());
    for (l, c) in &want {
        let l = L::from_be(l).unwrap();
        ensure!(codes.get(&l).map(to_bits).as_ref() == Some(c), "the code of {l:?} is not its path");
    }
    let n = if cx.small { 10 } else { cx.rng.range(1, 400) };
    let letters: Vec<L> = (0..n).map(|_| L::from_be(&cx.rng.pick(&want).0).unwrap()).collect();
    let by: HashMap<L, &Vec<bool>> = want.iter().map(|(l, c)| (L::from_be(l).unwrap(), c)).collect();
    let bits: Vec<bool> = letters.iter().flat_map(|l| by[l].iter().cloned()).collect();
    let d = compress_with_tree(&letters, t.clone()).map_err(|e| format!("compressing with it failed: {e}"))?;
    let got: Vec<bool> = bit_iter(d.comp_bytes(), d.padding_bits() as usize).collect();
    ensure!(got == bits, "letters are compressed to other codes");
    ensure!(decompress(&d) == letters, "letters do not come back");
    // and decoding data given by hand
    let (b, p) = pack(&bits);
    ensure!(decompress(&CompressData::new(b, p, t.clone())) == letters, "data given by hand is decoded to other letters");
    cx.count("hand-built trees used", 1);
    Ok(())
}
