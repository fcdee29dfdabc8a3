//! C09, C10, C11: weights.
use super::p_comp::show_ids;
use super::p_tree::{ConstHasher, SumHasher};
use crate::ctx::*;
use crate::ensure;
use crate::for_lt;
use crate::gen::*;
use crate::letters::*;
use huff_coding::prelude::*;
use std::collections::HashMap;
use std::hash::{BuildHasher, BuildHasherDefault};

/// everything the API tells about byte counts, compared with plain counts
pub fn same_counts(bw: &ByteWeights, want: &[usize; 256]) -> R {
    let distinct = want.iter().filter(|x| **x > 0).count();
    ensure!(bw.len() == distinct, "len() is {}, {} bytes have weights", bw.len(), distinct);
    ensure!(bw.is_empty() == (distinct == 0), "is_empty() is {} with {} bytes", bw.is_empty(), distinct);
    ensure!(Weights::len(bw) == distinct && Weights::is_empty(bw) == (distinct == 0), "len or is_empty of the Weights trait differ");
    for b in 0..=255u8 {
        let w = if want[b as usize] == 0 { None } else { Some(want[b as usize]) };
        ensure!(bw.get(&b).copied() == w, "get({b}) is {:?}, expected {w:?}", bw.get(&b));
        ensure!(Weights::get(bw, &b).copied() == w, "Weights::get({b}) is {:?}, expected {w:?}", Weights::get(bw, &b));
    }
    let listed: Vec<(u8, usize)> = (0..=255u8).filter(|b| want[*b as usize] > 0).map(|b| (b, want[b as usize])).collect();
    fn iter(it: impl Iterator<Item = (u8, usize)>, listed: &[(u8, usize)], what: &str) -> R {
        let (lo, hi) = it.size_hint();
        let mut v: Vec<(u8, usize)> = it.take(2000).collect();
        ensure!(lo <= v.len() && hi.is_none_or(|h| h >= v.len()), "{what}: size hint ({lo}, {hi:?}) for {} items", v.len());
        v.sort_unstable();
        if v != listed {
            let extra: Vec<_> = v.iter().filter(|x| !listed.contains(x)).take(5).collect();
            let miss: Vec<_> = listed.iter().filter(|x| !v.contains(x)).take(5).collect();
            return Err(format!("{what} gives {} items for {} bytes; not expected: {extra:?}; missing: {miss:?}", v.len(), listed.len()));
        }
        Ok(())
    }
    iter(bw.iter(), &listed, "iter()")?;
    iter(bw.into_iter(), &listed, "into_iter() by reference")?;
    iter(bw.clone().into_iter(), &listed, "into_iter() by value")?;
    Ok(())
}

fn count(bytes: &[u8]) -> [usize; 256] {
    let mut c = [0usize; 256];
    for b in bytes {
        c[*b as usize] += 1;
    }
    c
}

/// So many of the same byte (also at every position modulo something) that narrow counters overflow
fn long_runs(cx: &mut Cx) -> Vec<u8> {
    let p = 1usize << cx.rng.range(14, 21);
    let n = p + *cx.rng.pick(&[0usize, 0, 1, 7, p / 2]) - *cx.rng.pick(&[0usize, 1]);
    let period = *cx.rng.pick(&[1usize, 1, 1, 2, 3, 4, 8, 16]);
    let pattern = cx.rng.bytes(period);
    let k = cx.rng.range(0, 70);
    let mut v = if cx.rng.chance(1, 2) { cx.rng.bytes(k) } else { vec![] };
    v.extend(pattern.iter().cycle().take(n));
    if cx.rng.chance(1, 2) {
        let k = cx.rng.range(0, 70);
        v.extend(cx.rng.bytes(k));
    }
    cx.count("slices with long runs", 1);
    v
}

fn byte_slice(cx: &mut Cx, max: usize) -> Vec<u8> {
    if cx.rng.chance(1, 20) {
        return vec![];
    }
    if !cx.small && !cx.tiny && max > 20_000 && cx.rng.chance(1, 60) {
        return long_runs(cx);
    }
    match cx.rng.below(8) {
        0 => {
            // a random subset of all bytes, each a few times
            let p = cx.rng.range(1, 10) as u64;
            let mut v: Vec<u8> = Vec::new();
            for b in 0..=255u8 {
                if cx.rng.chance(p, 10) {
                    for _ in 0..cx.rng.range(1, 3) {
                        v.push(b);
                    }
                }
            }
            cx.rng.shuffle(&mut v);
            v
        }
        1 => {
            let v = [0u8, 255, 1, 254, 127, 128];
            let n = len(cx, max);
            let m = cx.rng.range(1, 6);
            (0..n).map(|_| v[cx.rng.below(m as u64) as usize]).collect()
        }
        _ => content(cx, max),
    }
}

// ---------------------------------------------------------------- C09

pub fn c09(cx: &mut Cx) -> R {
    if cx.idx < 8 && !cx.small {
        return c09_all_pairs(cx);
    }
    if cx.idx == 8 && !cx.small && !cx.tiny {
        return huge_counts(cx, None);
    }
    if cx.rng.chance(1, 2) {
        let max = if cx.rng.chance(1, 100) { 3_000_000 } else { 60_000 };
        let b = byte_slice(cx, max);
        cx.note(format!("{} bytes, {:?}...", b.len(), &b[..b.len().min(20)]));
        cx.sign(&b[..b.len().min(5000)]);
        cx.sign64(b.len() as u64);
        cx.nontrivial = b.len() > 1;
        let want = count(&b);
        cx.count("letters counted", b.len() as u64);
        cx.seen("distinct letters", want.iter().filter(|x| **x > 0).count() as u64);
        let bw = ByteWeights::from_bytes(&b);
        same_counts(&bw, &want)?;
        match cx.rng.below(3) {
            0 => iterator_laws(cx, "iter()", || bw.iter(), |x| x)?,
            1 => iterator_laws(cx, "into_iter() by reference", || (&bw).into_iter(), |x| x)?,
            _ => iterator_laws(cx, "into_iter() by value", || bw.clone().into_iter(), |x| x)?,
        }
        let m: HashMap<u8, usize> = build_weights_map(&b);
        return map_is(&m, &want.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, w)| (i as u8, *w)).collect());
    }
    for_lt!(cx.rng.below(LTS), c09_map(cx))
}

/// more than 2^32 of a byte
fn huge_counts(cx: &mut Cx, threads: Option<usize>) -> R {
    let b = cx.rng.below(256) as u8;
    let mut pattern = vec![b; 32 << 20];
    for _ in 0..1000 {
        let i = cx.rng.below(pattern.len() as u64) as usize;
        pattern[i] = cx.rng.below(256) as u8;
    }
    let times = 129;
    cx.note(format!("{} times a pattern of {} bytes, mostly {b}", times, pattern.len()));
    cx.nontrivial = true;
    let mut want = count(&pattern);
    want.iter_mut().for_each(|w| *w *= times);
    assert!(want[b as usize] > 1 << 32);
    let Some(all) = crate::sys::Repeated::new(&pattern, times) else {
        cx.note("not enough address space");
        return Ok(());
    };
    let got = match threads {
        None => ByteWeights::from_bytes(all.bytes()),
        Some(t) => ByteWeights::threaded_from_bytes(all.bytes(), t),
    };
    cx.count("counts over 2^32", 1);
    same_counts(&got, &want)
}

/// every set of one or two byte values
fn c09_all_pairs(cx: &mut Cx) -> R {
    cx.note(format!("every set of one or two byte values, part {} of 8", cx.idx));
    cx.nontrivial = true;
    cx.sign64(cx.idx);
    let part = cx.idx;
    for a in (0..=255u8).filter(|a| *a as u64 % 8 == part) {
        for b in a..=255u8 {
            let s = if a == b { vec![a] } else { vec![b, a, b] };
            same_counts(&ByteWeights::from_bytes(&s), &count(&s)).map_err(|e| format!("bytes {s:?}: {e}"))?;
        }
        cx.count("byte sets enumerated", 256 - a as u64);
    }
    Ok(())
}

fn map_is<L: Lt, S: BuildHasher>(m: &HashMap<L, usize, S>, want: &HashMap<L, usize>) -> R {
    ensure!(m.len() == want.len(), "{} entries for {} distinct letters", m.len(), want.len());
    for (l, w) in m {
        ensure!(want.get(l) == Some(w), "{l:?} is counted {w} times, expected {:?}", want.get(l));
    }
    for (l, w) in want.iter().take(300) {
        ensure!(m.get(l) == Some(w), "looking up {l:?} gives {:?}, expected {w}", m.get(l));
    }
    Ok(())
}

fn c09_map<L: Lt>(cx: &mut Cx) -> R {
    let big = cx.rng.chance(1, 50);
    let mut ids = seq(cx, L::CARD, if big { 300_000 } else { 5_000 }, if big { 70_000 } else { 2000 });
    if cx.rng.chance(1, 30) {
        ids.clear();
    }
    let s = salt(&mut cx.rng);
    let letters = make_all::<L>(&ids, s);
    cx.note(format!("{} {}", L::NAME, show_ids(&ids)));
    ids.iter().take(5000).for_each(|i| cx.sign64(*i as u64));
    cx.sign(L::NAME.as_bytes());
    cx.nontrivial = ids.len() > 1;
    let mut byid: HashMap<u32, usize> = HashMap::new();
    ids.iter().for_each(|i| *byid.entry(*i).or_default() += 1);
    let want: HashMap<L, usize> = byid.into_iter().map(|(i, w)| (L::make(i as u64, s), w)).collect();
    cx.count("letters counted", ids.len() as u64);
    cx.seen("distinct letters", want.len() as u64);
    let m = build_weights_map(&letters);
    map_is(&m, &want)?;
    // through the Weights trait
    let total: usize = m.clone().into_iter().map(|x| x.1).sum();
    ensure!(total == ids.len(), "{} letters, the weights add up to {total}", ids.len());
    ensure!(Weights::len(&m) == want.len() && Weights::is_empty(&m) == want.is_empty(), "Weights::len or is_empty of a map");
    for (l, w) in want.iter().take(20) {
        ensure!(Weights::get(&m, l) == Some(w), "Weights::get({l:?}) is {:?}, expected {w}", Weights::get(&m, l));
    }
    if let Some(l) = letters.first() {
        let mut m2 = m.clone();
        if let Some(x) = Weights::get_mut(&mut m2, l) {
            *x += 5;
        }
        ensure!(m2.get(l).copied() == want.get(l).map(|w| w + 5), "a weight written through get_mut is not read back");
    }
    // any map as weights, also with entries nothing was counted for
    if want.len() <= 2000 && cx.rng.chance(1, 3) {
        let mut plain = want;
        let mut m = m;
        for l in letters.iter().take(40) {
            let w = match cx.rng.below(4) {
                0 => 0,
                1 => *cx.rng.pick(&[1usize, usize::MAX, usize::MAX - 1, 1 << 31, 1 << 32, 1 << 33, (1 << 32) - 1, 1 << 63]),
                2 => cx.rng.u64() as usize,
                _ => continue,
            };
            if let Some(x) = Weights::get_mut(&mut m, l) {
                *x = w;
            }
            plain.insert(l.clone(), w);
        }
        if cx.rng.chance(1, 4) {
            let n = cx.rng.range(0, 3);
            m.retain(|l, _| letters[..n.min(letters.len())].contains(l));
            plain.retain(|l, _| letters[..n.min(letters.len())].contains(l));
        }
        ensure!(Weights::len(&m) == plain.len(), "Weights::len of a map with {} entries is {}", plain.len(), Weights::len(&m));
        ensure!(Weights::is_empty(&m) == plain.is_empty(), "Weights::is_empty of a map with {} entries", plain.len());
        for l in letters.iter().take(60) {
            ensure!(Weights::get(&m, l) == plain.get(l), "Weights::get({l:?}) of a map is {:?}, the entry is {:?}", Weights::get(&m, l), plain.get(l));
            ensure!(Weights::get_mut(&mut m, l).copied() == plain.get(l).copied(), "Weights::get_mut({l:?}) of a map is another weight than {:?}", plain.get(l));
        }
        let mut all: HashMap<L, usize> = HashMap::new();
        for (l, w) in m {
            ensure!(all.insert(l, w).is_none(), "a map gives an entry twice");
        }
        ensure!(all == plain, "a map gives other entries than it has");
        cx.count("maps used as weights", 1);
        return Ok(());
    }
    match cx.rng.below(4) {
        0 => map_is(&build_weights_map_with_hasher(&letters, BuildHasherDefault::<SumHasher>::default()), &want),
        1 if want.len() < 300 => map_is(&build_weights_map_with_hasher(&letters, BuildHasherDefault::<ConstHasher>::default()), &want),
        _ => map_is(&build_weights_map_with_hasher(&letters, std::collections::hash_map::RandomState::new()), &want),
    }
}

// ---------------------------------------------------------------- C10

type Model = [usize; 256];

pub fn c10(cx: &mut Cx) -> R {
    let mut pool: Vec<(ByteWeights, Model)> = vec![(ByteWeights::new(), [0; 256])];
    let steps = if cx.tiny { 3 } else if cx.small { 8 } else { cx.rng.range(2, 60) };
    let mut log: Vec<String> = Vec::new();
    cx.nontrivial = steps > 3;
    // few bytes, so that operations meet
    let hot: Vec<u8> = (0..cx.rng.range(1, 8)).map(|_| *cx.rng.pick(&[0u8, 255, 1, 254, 97, 128, 127, 200])).collect();
    let cap = (1usize << 60) / 64;
    for _ in 0..steps {
        let i = cx.rng.below(pool.len() as u64) as usize;
        let op = cx.rng.below(14);
        // (totals beyond usize::MAX are nobody's business)
        let total = |m: &Model| m.iter().map(|x| *x as u128).sum::<u128>();
        let fits = |t: u128| t <= usize::MAX as u128;
        match op {
            0 => {
                pool.push((if cx.rng.chance(1, 2) { ByteWeights::new() } else { ByteWeights::default() }, [0; 256]));
                log.push("new".into());
            }
            1 | 2 => {
                let b = if cx.rng.chance(1, 2) { byte_slice(cx, 300) } else { (0..cx.rng.range(0, 6)).map(|_| *cx.rng.pick(&hot)).collect() };
                log.push(format!("from_bytes({} bytes {:?})", b.len(), &b[..b.len().min(6)]));
                let m = count(&b);
                pool.push((ByteWeights::from_bytes(&b), m));
            }
            3 => {
                let b = byte_slice(cx, 200);
                let t = cx.rng.range(1, 6);
                log.push(format!("threaded_from_bytes({} bytes, {t})", b.len()));
                let m = count(&b);
                pool.push((ByteWeights::threaded_from_bytes(&b, t), m));
            }
            4 => {
                let c = pool[i].clone();
                pool.push((c.0.clone(), c.1));
                log.push(format!("clone #{i}"));
                // and nearly the same: a few counts other, by amounts that may hide from sums and narrow integers
                let present: Vec<u8> = (0..=255u8).filter(|b| c.1[*b as usize] > 0).collect();
                if cx.rng.chance(2, 3) {
                    let (mut w, mut m) = (c.0.clone(), c.1);
                    let d = match cx.rng.below(4) {
                        0 => 1,
                        1 => 1usize << cx.rng.range(0, 63),
                        2 => cx.rng.range(1, 9) << 32,
                        _ => cx.rng.range(1, 300),
                    };
                    let d = if fits(total(&m) + d as u128) { d } else { 0 };
                    let b = if cx.rng.chance(1, 3) { cx.rng.below(256) as u8 } else { *cx.rng.pick(&hot) };
                    let set = |w: &mut ByteWeights, m: &mut Model, b: u8, v: usize| {
                        if m[b as usize] == 0 && v > 0 {
                            *w += ByteWeights::from_bytes(&[b]);
                        }
                        if let Some(x) = w.get_mut(&b) {
                            *x = v;
                        }
                        m[b as usize] = v;
                    };
                    match (present.len(), cx.rng.below(4)) {
                        (1.., 0) => {
                            // moved from one byte to another: the total is the same
                            let a = *cx.rng.pick(&present);
                            let d = d.min(m[a as usize]);
                            let left = m[a as usize] - d;
                            set(&mut w, &mut m, a, left);
                            let v = m[b as usize] + d;
                            set(&mut w, &mut m, b, v);
                        }
                        (2.., 1) => {
                            let (x, y) = (*cx.rng.pick(&present), *cx.rng.pick(&present));
                            let (vx, vy) = (m[x as usize], m[y as usize]);
                            set(&mut w, &mut m, x, vy);
                            set(&mut w, &mut m, y, vx);
                        }
                        (1.., 2) => {
                            let a = *cx.rng.pick(&present);
                            set(&mut w, &mut m, a, 0);
                        }
                        _ => {
                            let v = m[b as usize] + d;
                            set(&mut w, &mut m, b, v);
                        }
                    }
                    log.push(format!("a clone of #{i}, nearly the same"));
                    let want = m == c.1;
                    ensure!((c.0 == w) == want && (w == c.0) == want, "byte counts that are {} compare as {} and, the other way round, {}: {:?} and {:?}",
                        if want { "equal" } else { "different" }, c.0 == w, w == c.0, c.0.iter().collect::<Vec<_>>(), w.iter().collect::<Vec<_>>());
                    ensure!((c.0 != w) == !want, "!= is wrong; {}", tail(&log));
                    cx.count("nearly equal pairs compared", 1);
                    same_counts(&w, &m).map_err(|e| format!("after {}: {e}", tail(&log)))?;
                    pool.push((w, m));
                }
            }
            5..=7 => {
                let j = cx.rng.below(pool.len() as u64) as usize;
                if !fits(total(&pool[i].1) + total(&pool[j].1)) {
                    continue;
                }
                let other = pool[j].0.clone();
                let om = pool[j].1;
                match op {
                    5 => {
                        let sum = pool[i].0.clone() + other.clone();
                        let mut m = pool[i].1;
                        (0..256).for_each(|k| m[k] += om[k]);
                        pool.push((sum, m));
                        log.push(format!("#{i} + #{j}"));
                    }
                    6 => {
                        pool[i].0 += other.clone();
                        (0..256).for_each(|k| pool[i].1[k] += om[k]);
                        log.push(format!("#{i} += #{j}"));
                    }
                    _ => {
                        pool[i].0.add_byte_weights(&other);
                        (0..256).for_each(|k| pool[i].1[k] += om[k]);
                        log.push(format!("#{i}.add_byte_weights(#{j})"));
                    }
                }
                same_counts(&other, &om).map_err(|e| format!("the added operand changed; {log:?}: {e}"))?;
            }
            8..=11 => {
                let b = if cx.rng.chance(3, 4) { *cx.rng.pick(&hot) } else { cx.rng.below(256) as u8 };
                let v = match cx.rng.below(5) {
                    0 | 1 => 0,
                    2 => 1,
                    3 if cx.rng.chance(1, 2) => cx.rng.range(0, cap),
                    3 if cx.rng.chance(1, 2) => 1usize << cx.rng.range(0, 63),
                    // the most there may be, or around half of it (so that it can be doubled)
                    3 => *cx.rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 2 - 300, i64::MAX as usize - 1]) - cx.rng.range(0, 2) * 256,
                    _ => cx.rng.range(0, 300),
                };
                let (w, m) = &mut pool[i];
                let v = if fits(total(m) - m[b as usize] as u128 + v as u128) { v } else { (usize::MAX as u128 - (total(m) - m[b as usize] as u128)) as usize };
                let r = if op == 11 { Weights::get_mut(w, &b) } else { w.get_mut(&b) };
                log.push(format!("#{i}.get_mut({b}) = {v}"));
                ensure!(r.as_deref().copied() == Some(m[b as usize]).filter(|x| *x > 0), "get_mut({b}) gives {:?}, expected {}; {log:?}", r, m[b as usize]);
                if let Some(x) = r {
                    *x = v;
                    m[b as usize] = v;
                }
            }
            12 => {
                let j = cx.rng.below(pool.len() as u64) as usize;
                let (a, b) = (&pool[i], &pool[j]);
                let want = a.1 == b.1;
                log.push(format!("#{i} == #{j}"));
                ensure!((a.0 == b.0) == want, "== is {}, the counts are {}; {log:?}", a.0 == b.0, if want { "equal" } else { "different" });
                ensure!((a.0 != b.0) != want, "!= is wrong; {log:?}");
                cx.count(if want { "equal pairs compared" } else { "different pairs compared" }, 1);
            }
            _ => {
                // counting a concatenation
                let (a, b) = (byte_slice(cx, 100), byte_slice(cx, 100));
                let both: Vec<u8> = a.iter().chain(&b).cloned().collect();
                let s = ByteWeights::from_bytes(&a) + ByteWeights::from_bytes(&b);
                log.push("sum of parts".into());
                ensure!(s == ByteWeights::from_bytes(&both), "counting two parts and adding differs from counting them together: {a:?} {b:?}");
                pool.push((s, count(&both)));
            }
        }
        cx.count("operations", 1);
        if let Some(l) = log.last() {
            let l = l.clone();
            cx.sign(l.as_bytes());
        }
        let every = if cx.small { 1 } else { 6 };
        for (n, (w, m)) in pool.iter().enumerate() {
            if n == i || n + 1 == pool.len() || cx.rng.chance(1, every) {
                same_counts(w, m).map_err(|e| format!("#{n} after {}: {e}", tail(&log)))?;
            }
        }
        if pool.len() > 8 {
            let k = cx.rng.below(pool.len() as u64) as usize;
            pool.swap_remove(k);
            log.push(format!("(dropped #{k}, the last is #{k} now)"));
        }
    }
    for (n, (w, m)) in pool.iter().enumerate() {
        same_counts(w, m).map_err(|e| format!("#{n} after {}: {e}", tail(&log)))?;
    }
    // used as weights of a tree
    let (w, m) = pool.last().unwrap();
    if !w.is_empty() && m.iter().map(|x| *x as u128).sum::<u128>() <= usize::MAX as u128 {
        let t = HuffTree::from_weights(w.clone());
        let mut ls: Vec<(u8, usize)> = crate::trees::leaves(t.root())?.into_iter().map(|l| (l.letter, l.weight)).collect();
        ls.sort_unstable();
        let want: Vec<(u8, usize)> = (0..=255u8).filter(|b| m[*b as usize] > 0).map(|b| (b, m[b as usize])).collect();
        ensure!(ls == want, "the tree of these byte counts has other leaves; {}", tail(&log));
    }
    cx.note(tail(&log));
    Ok(())
}

fn tail(log: &[String]) -> String {
    log[log.len().saturating_sub(12)..].join(", ")
}

// ---------------------------------------------------------------- C11

pub fn c11(cx: &mut Cx) -> R {
    if cx.thorough() && cx.idx < 2 && !cx.small && !cx.tiny {
        let t = if cx.idx == 0 { 12 } else { cx.rng.range(2, 40) };
        return huge_counts(cx, Some(t));
    }
    // tens of megabytes
    let big = !cx.small && !cx.tiny && (2..8).contains(&cx.idx);
    let max_threads = if cx.small { 4 } else if cx.rng.chance(1, 60) { 3000 } else if cx.rng.chance(1, 6) { 300 } else { 40 };
    let threads = match cx.rng.below(8) {
        0 => 1,
        1 => 2,
        2 => *cx.rng.pick(&[3usize, 4, 7, 8, 12, 16, 64, 100, 128, 255, 256, 257]),
        3 => cx.dict.near(&mut cx.rng, max_threads as u64).unwrap_or(12).max(1) as usize,
        _ => cx.rng.range(1, max_threads),
    }
    .min(max_threads);
    let n = match cx.rng.below(8) {
        0 => 0,
        1 => cx.rng.range(0, threads),
        2 => threads,
        3 => threads * cx.rng.range(1, 20),
        4 => threads * cx.rng.range(1, 20) + cx.rng.range(0, threads),
        5 => (threads * cx.rng.range(1, 20)).saturating_sub(1),
        _ => len(cx, 100_000),
    };
    // far more threads than bytes
    let (threads, n) = if cx.rng.chance(1, 20) {
        let e = cx.rng.range(10, 63);
        let t = *cx.rng.pick(&[usize::MAX, usize::MAX / 2 + 1, usize::MAX / 8, 1 << e, (1 << e) + 1, u32::MAX as usize, 1 << 32]);
        cx.count("calls with far more threads than bytes", 1);
        (t, cx.rng.range(0, 200))
    } else {
        (threads, n)
    };
    let threads = if !big { threads } else if cx.rng.chance(1, 2) { *cx.rng.pick(&[1usize, 2, 3, 12, 16, 31]) } else { cx.rng.range(2, 300) };
    let b = if big {
        let m = cx.rng.range(60_000, 140_000);
        let mut b = content_n(cx, m).repeat(cx.rng.range(9_000_000, 70_000_000) / m);
        for _ in 0..300 {
            let i = cx.rng.below(b.len() as u64) as usize;
            b[i] = cx.rng.below(256) as u8;
        }
        cx.count("inputs over 8 MiB", 1);
        b
    } else if n == 0 {
        vec![]
    } else if !cx.small && !cx.tiny && threads < 100 && cx.rng.chance(1, 100) {
        long_runs(cx)
    } else {
        content_n(cx, n)
    };
    let n = b.len();
    cx.note(format!("{n} bytes, {threads} threads"));
    cx.sign(&b[..n.min(3000)]);
    cx.sign64(threads as u64);
    cx.nontrivial = threads > 1 && n > 1;
    cx.max("max threads", threads as u64);
    cx.max("max bytes", n as u64);
    cx.seen("thread counts", threads as u64);
    cx.seen("length modulo thread count", (n % threads) as u64);
    let want = count(&b);
    let seq = ByteWeights::from_bytes(&b);
    let reps = if threads > 100 || cx.small { 1 } else { 3 };
    for _ in 0..reps {
        let t = ByteWeights::threaded_from_bytes(&b, threads);
        same_counts(&t, &want).map_err(|e| format!("{n} bytes with {threads} threads: {e}"))?;
        ensure!(t == seq, "{n} bytes with {threads} threads: not equal to the single-threaded counts");
        cx.count("threads asked for", threads.min(n.max(1)) as u64);
    }
    // several callers at once
    if cx.rng.chance(1, 5) && threads <= 40 {
        let callers = if cx.small { 2 } else { 6 };
        let bad = std::thread::scope(|s| {
            let hs: Vec<_> = (0..callers)
                .map(|c| {
                    let (b, want) = (&b, &want);
                    s.spawn(move || -> R {
                        for _ in 0..2 {
                            let cut = (c * 7) % (b.len() + 1);
                            let t = ByteWeights::threaded_from_bytes(&b[cut..], threads);
                            let _ = want;
                            same_counts(&t, &count(&b[cut..]))?;
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
        });
        for r in bad {
            match r {
                Ok(r) => r.map_err(|e| format!("{n} bytes, {threads} threads, concurrent callers: {e}"))?,
                Err(_) => return Err(format!("{n} bytes, {threads} threads: a concurrent caller panicked")),
            }
        }
        cx.count("concurrent calls", callers as u64 * 2);
    }
    Ok(())
}
