//! Workload generators.
use crate::ctx::Cx;
use crate::letters::*;
use crate::oracle::{Node, SpecTree};
use crate::rng::Rng;
use huff_coding::bitvec::prelude::{BitVec, Msb0};

pub type Bits = BitVec<Msb0, u8>;

pub fn to_bits(bv: &Bits) -> Vec<bool> {
    bv.iter().map(|b| *b).collect()
}

pub fn to_bv(bits: &[bool]) -> Bits {
    let mut v = Bits::with_capacity(bits.len());
    for b in bits {
        v.push(*b);
    }
    v
}

/// The same bits, but laid out in memory from another bit offset on
pub fn to_bv_offset(bits: &[bool], off: usize) -> Bits {
    let mut v = Bits::with_capacity(bits.len() + off);
    for i in 0..off {
        v.push(i % 2 == 0);
    }
    for b in bits {
        v.push(*b);
    }
    v[off..].to_bitvec()
}

/// A length: mostly small, often near a power of two, ten, or a constant of the code
pub fn len(cx: &mut Cx, max: usize) -> usize {
    let max = if cx.tiny { max.min(20) } else if cx.small { max.min(60) } else { max };
    let r = &mut cx.rng;
    let v = match r.below(20) {
        0..=4 => r.range(1, 16),
        5..=10 => r.range(1, 300),
        11..=13 => {
            let p = 1usize << r.range(0, 20);
            (p + r.range(0, 2)).saturating_sub(1)
        }
        14 => {
            let p = 10usize.pow(r.range(1, 6) as u32);
            (p + r.range(0, 2)).saturating_sub(1)
        }
        15 | 16 => cx.dict.near(r, max as u64).unwrap_or(1) as usize,
        17 | 18 => r.range(1, 5000),
        _ => {
            let hi = (max as f64).ln();
            let x = r.below(1 << 30) as f64 / (1u64 << 30) as f64;
            (x * hi).exp() as usize
        }
    };
    if v > max {
        return r.range(1, max.min(4096));
    }
    v.max(1)
}

/// An alphabet size
pub fn alpha(cx: &mut Cx, card: u64, max: usize) -> usize {
    let max = (card.min(max as u64)) as usize;
    let max = if cx.tiny { max.min(6) } else if cx.small { max.min(12) } else { max };
    let r = &mut cx.rng;
    let v = match r.below(16) {
        0 => 1,
        1 => 2,
        2 => 3,
        3..=6 => r.range(1, 12),
        7..=9 => r.range(1, 100),
        10 => *r.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        11 | 12 => *r.pick(&[254, 255, 256, 257]),
        13 => r.range(100, 256),
        14 => cx.dict.near(r, max as u64).unwrap_or(5) as usize,
        _ => {
            if r.chance(1, 4) {
                r.range(1, max)
            } else {
                r.range(1, max.min(3000))
            }
        }
    };
    v.clamp(1, max)
}

/// Letters as numbers in 0..k; every number occurs if n >= k (mostly)
pub fn seq(cx: &mut Cx, card: u64, maxlen: usize, maxalpha: usize) -> Vec<u32> {
    let k = alpha(cx, card, maxalpha);
    let n = len(cx, maxlen);
    seq_kn(cx, k, n)
}

pub fn seq_kn(cx: &mut Cx, k: usize, n: usize) -> Vec<u32> {
    let small = cx.small;
    let r = &mut cx.rng;
    let mut out: Vec<u32> = Vec::with_capacity(n);
    let style = r.below(12);
    match style {
        0 | 1 => (0..n).for_each(|_| out.push(r.below(k as u64) as u32)),
        2 | 3 => {
            // zipf-like
            let w: Vec<u64> = (0..k as u64).map(|i| 1_000_000 / (i + 1) + 1).collect();
            sample(r, &w, n, &mut out);
        }
        4 => {
            // geometric
            let w: Vec<u64> = (0..k).map(|i| 1u64 << (40usize.saturating_sub(i))).collect();
            sample(r, &w, n, &mut out);
        }
        5 => {
            // Fibonacci counts: the longest codes a sequence can produce
            let (mut a, mut b) = (1usize, 1usize);
            for i in 0..k.min(if small { 8 } else { 24 }) {
                if out.len() + a > n.max(100) * 4 {
                    break;
                }
                out.extend(std::iter::repeat_n(i as u32, a));
                (a, b) = (b, a + b);
            }
            r.shuffle(&mut out);
        }
        6 => {
            // one dominant letter, others rare
            let rare = r.range(2, 50) as u64;
            (0..n).for_each(|_| {
                let x = if r.chance(1, rare) { r.below(k as u64) as u32 } else { 0 };
                out.push(x)
            });
        }
        7 => {
            // each letter once, in order or shuffled, then repeated
            let mut p: Vec<u32> = (0..k as u32).collect();
            if r.chance(1, 2) {
                r.shuffle(&mut p);
            }
            out.extend(p.iter().cycle().take(n.max(k.min(n * 4))));
        }
        8 => {
            // runs
            while out.len() < n {
                let x = r.below(k as u64) as u32;
                let l = r.range(1, 40);
                out.extend(std::iter::repeat_n(x, l.min(n - out.len())));
            }
        }
        9 => {
            // only one letter, then another one at a single place
            let x = r.below(k as u64) as u32;
            out.resize(n, x);
            if r.chance(2, 3) {
                let i = *r.pick(&[0, n / 2, n - 1]);
                out[i] = r.below(k as u64) as u32;
            }
        }
        10 => {
            // power-of-two counts (all codes have definite lengths)
            let mut c = n / 2;
            for i in 0..k as u32 {
                out.extend(std::iter::repeat_n(i, c.max(1)));
                c /= 2;
                if out.len() >= n {
                    break;
                }
            }
            r.shuffle(&mut out);
        }
        _ => {
            // repeated motif
            let m: Vec<u32> = (0..r.range(1, 20)).map(|_| r.below(k as u64) as u32).collect();
            out.extend(m.iter().cycle().take(n));
        }
    }
    if out.is_empty() {
        out.push(0);
    }
    if r.chance(1, 10) {
        out.sort_unstable();
    }
    out
}

fn sample(r: &mut Rng, w: &[u64], n: usize, out: &mut Vec<u32>) {
    let mut cum = Vec::with_capacity(w.len());
    let mut t = 0u64;
    for x in w {
        t = t.saturating_add(*x);
        cum.push(t);
    }
    for _ in 0..n {
        let x = r.below(t);
        out.push(cum.partition_point(|c| *c <= x) as u32);
    }
}

/// k weights with total <= usize::MAX
pub fn weights(cx: &mut Cx, k: usize) -> Vec<usize> {
    let r = &mut cx.rng;
    let cap = usize::MAX / k;
    let style = r.below(14);
    let mut w: Vec<usize> = match style {
        0 => vec![1; k],
        1 => vec![r.range(0, cap.min(1 << 40)); k],
        2 => (0..k).map(|_| r.range(1, 10)).collect(),
        3 => (0..k).map(|_| r.range(1, 1000)).collect(),
        4 => (0..k).map(|_| r.range(0, 3)).collect(),
        5 | 6 => {
            // Fibonacci: trees up to ~90 levels
            let (mut a, mut b) = (1usize, 1usize);
            let mut sum = 0usize;
            let mut v = Vec::new();
            for _ in 0..k {
                match sum.checked_add(a) {
                    Some(s) => sum = s,
                    None => break,
                }
                v.push(a);
                let c = a.saturating_add(b);
                a = b;
                b = c;
            }
            while v.len() < k {
                v.push(0);
                // keep the total in range: zeros add nothing
            }
            if r.chance(1, 2) {
                let d = r.range(0, 3);
                for x in v.iter_mut() {
                    *x = x.saturating_sub(d);
                }
            }
            v
        }
        7 => (0..k).map(|i| 1usize << (i % 48).min(63 - usize::BITS as usize / 64)).map(|x| x.min(cap)).collect(),
        8 => {
            // total exactly usize::MAX or a little less
            let mut v: Vec<usize> = (0..k).map(|_| r.range(0, cap)).collect();
            let s: u128 = v.iter().map(|x| *x as u128).sum();
            let slack = usize::MAX as u128 - s;
            let i = r.below(k as u64) as usize;
            let less = r.below(3) as usize;
            v[i] = (v[i] as u128 + slack) as usize;
            v[i] = v[i].saturating_sub(less);
            v
        }
        9 => (0..k).map(|_| r.range(0, cap)).collect(),
        10 => (0..k).map(|_| if r.chance(1, 5) { 0 } else { r.range(1, 100) }).collect(),
        11 => (0..k).map(|i| (1_000_000 / (i + 1)).min(cap)).collect(),
        12 => {
            // around 2^32 and 2^31: what a narrower weight type would get wrong
            (0..k).map(|_| ((1usize << *r.pick(&[8, 16, 31, 32, 33])) + r.range(0, 4)).saturating_sub(2).min(cap)).collect()
        }
        _ => (0..k).map(|_| cx.dict.near(r, cap as u64).unwrap_or(3) as usize).collect(),
    };
    // not too many zeros: they make trees as deep as there are zeros
    let mut zeros = 0;
    let mut sum: u128 = w.iter().map(|x| *x as u128).sum();
    for x in w.iter_mut() {
        if *x == 0 {
            zeros += 1;
            if zeros > 200 && sum < usize::MAX as u128 {
                *x = 1;
                sum += 1;
            }
        }
    }
    if cx.rng.chance(1, 2) {
        cx.rng.shuffle(&mut w);
    }
    w
}

/// Tree shapes, as arenas with leaves numbered 0.. left to right in `Leaf`
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Random,
    Left,
    Right,
    Zigzag,
    Balanced,
    Bushy,
}
pub const SHAPES: [Shape; 6] = [Shape::Random, Shape::Left, Shape::Right, Shape::Zigzag, Shape::Balanced, Shape::Bushy];

/// Trees with more levels than this may be refused
pub const MAX_DEPTH: usize = 1000;

/// A tree with the given leaves (left to right) and at most max_depth levels
pub fn spec_tree(r: &mut Rng, shape: Shape, leaves: &[Vec<u8>], max_depth: usize) -> SpecTree {
    // work list of (node, first leaf, count, depth)
    let mut nodes = vec![Node::Leaf(Vec::new())];
    let mut work = vec![(0usize, 0usize, leaves.len(), 0usize)];
    while let Some((n, lo, cnt, d)) = work.pop() {
        if cnt == 1 {
            nodes[n] = Node::Leaf(leaves[lo].clone());
            continue;
        }
        let room = max_depth - d - 1; // levels left below the children
        let mut l = match shape {
            Shape::Random => r.range(1, cnt - 1),
            Shape::Left => cnt - 1,
            Shape::Right => 1,
            Shape::Zigzag => {
                if d % 2 == 0 {
                    1
                } else {
                    cnt - 1
                }
            }
            Shape::Balanced => cnt / 2,
            Shape::Bushy => {
                if r.chance(3, 4) {
                    let x = r.range(1, cnt.min(5) - 1);
                    if r.chance(1, 2) {
                        x
                    } else {
                        cnt - x
                    }
                } else {
                    r.range(1, cnt - 1)
                }
            }
        };
        // a subtree with x leaves needs ceil(log2 x) levels
        let cap = if room >= 40 { usize::MAX } else { 1usize << room };
        l = l.min(cap).max(cnt.saturating_sub(cap));
        let (a, b) = (nodes.len(), nodes.len() + 1);
        nodes.push(Node::Leaf(Vec::new()));
        nodes.push(Node::Leaf(Vec::new()));
        nodes[n] = Node::Joint(a, b);
        work.push((b, lo + l, cnt - l, d + 1));
        work.push((a, lo, l, d + 1));
    }
    SpecTree { nodes }
}

pub fn distinct_letters<L: Lt>(r: &mut Rng, k: usize) -> (Vec<L>, u64) {
    let salt = if r.chance(1, 3) { 0 } else { r.u64() };
    ((0..k as u64).map(|i| L::make(i, salt)).collect(), salt)
}

/// A random tree over k distinct letters of an alphabet
pub fn random_spec<L: LtB>(cx: &mut Cx, k: usize, max_depth: usize) -> (SpecTree, Vec<L>) {
    let (mut ls, _) = distinct_letters::<L>(&mut cx.rng, k);
    if cx.rng.chance(1, 2) {
        cx.rng.shuffle(&mut ls);
    }
    let shape = *cx.rng.pick(&SHAPES);
    let be: Vec<Vec<u8>> = ls.iter().map(|l| l.be()).collect();
    (spec_tree(&mut cx.rng, shape, &be, max_depth), ls)
}

pub fn salt(r: &mut Rng) -> u64 {
    if r.chance(1, 3) {
        0
    } else {
        r.u64()
    }
}

pub fn make_all<L: Lt>(ids: &[u32], salt: u64) -> Vec<L> {
    ids.iter().map(|i| L::make(*i as u64, salt)).collect()
}

/// File contents for the command line program
pub fn content(cx: &mut Cx, max: usize) -> Vec<u8> {
    let n = len(cx, max);
    content_n(cx, n)
}

pub fn content_n(cx: &mut Cx, n: usize) -> Vec<u8> {
    match cx.rng.below(10) {
        0..=5 => {
            let k = alpha(cx, 256, 256);
            let ids = seq_kn(cx, k, n);
            let s = salt(&mut cx.rng);
            let mut v = make_all::<u8>(&ids, s);
            v.truncate(n.max(1));
            v
        }
        6 => cx.rng.bytes(n),
        7 => {
            let text = b"the quick brown fox jumps over the lazy dog. \nfn main() { println!(\"hello\"); }\n\t0123456789";
            text.iter().cycle().skip(cx.rng.below(50) as usize).take(n).cloned().collect()
        }
        8 => {
            // text made of the code's own strings
            let mut v = Vec::new();
            while v.len() < n {
                if cx.dict.strs.is_empty() {
                    v.push(b'x');
                } else {
                    let i = cx.rng.below(cx.dict.strs.len() as u64) as usize;
                    v.extend_from_slice(&cx.dict.strs[i]);
                }
            }
            v.truncate(n);
            v
        }
        _ => {
            let b = *cx.rng.pick(&[0u8, 255, 1, 128, b'a', 0x0a]);
            let mut v = vec![b; n];
            if cx.rng.chance(1, 2) {
                let i = cx.rng.below(n as u64) as usize;
                v[i] = cx.rng.below(256) as u8;
            }
            v
        }
    }
}
