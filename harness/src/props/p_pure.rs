//! C12: results depend only on the arguments.
use crate::ctx::*;
use crate::ensure;
use crate::for_ltb;
use crate::gen::*;
use crate::letters::*;
use crate::oracle::*;
use crate::trees::*;
use huff_coding::prelude::*;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// Values shared by reference between calls and threads
struct Fx<L: LtB> {
    letters: Vec<L>,
    missing: Option<Vec<L>>,
    weights: Vec<(L, usize)>,
    tree: HuffTree<L>,
    bin: Bits,
    data: CompressData<L>,
    bytes: Vec<u8>,
    garbage: Vec<u8>,
    raw: Vec<u8>,
    bw: ByteWeights,
}

const OPS: u64 = 16;

trait AnyFx: Sync + Send {
    fn run(&self, op: u64) -> Vec<u8>;
    fn snapshot(&self) -> Vec<u8>;
}

fn dbg(x: impl std::fmt::Debug) -> Vec<u8> {
    format!("{x:?}").into_bytes()
}

/// letters, weights and optimal length: what is promised of a tree built from weights
fn canon<L: LtB>(t: &HuffTree<L>) -> Vec<u8> {
    match leaves(t.root()) {
        Err(e) => e.into_bytes(),
        Ok(ls) => {
            let cost: u128 = ls.iter().map(|l| l.weight as u128 * l.path.len() as u128).sum();
            let codes_ok = ls.iter().all(|l| l.code.as_ref() == Some(&l.path));
            let mut v: Vec<_> = ls.into_iter().map(|l| (l.letter.be(), l.weight)).collect();
            v.sort();
            dbg((v, cost, codes_ok))
        }
    }
}

fn show_data<L: LtB>(d: &CompressData<L>) -> Vec<u8> {
    dbg((d.comp_bytes(), d.padding_bits(), flat(d.huff_tree().root())))
}

impl<L: LtB> AnyFx for Fx<L> {
    fn run(&self, op: u64) -> Vec<u8> {
        match op {
            0 => match compress_with_tree(&self.letters, self.tree.clone()) {
                Ok(d) => show_data(&d),
                Err(e) => dbg(e),
            },
            1 => dbg(decompress(&self.data)),
            2 => self.data.to_bytes(),
            3 => match CompressData::<L>::try_from_bytes(&self.bytes) {
                Ok(d) => show_data(&d),
                Err(e) => dbg(e),
            },
            4 => dbg(to_bits(&self.tree.as_bin())),
            5 => match HuffTree::<L>::try_from_bin(self.bin.clone()) {
                Ok(t) => dbg(flat(t.root())),
                Err(e) => dbg(e.to_string()),
            },
            6 => {
                let mut v: Vec<_> = codes_vec(&self.tree.read_codes()).into_iter().map(|(l, c)| (l.be(), c)).collect();
                v.sort();
                dbg(v)
            }
            7 => {
                let a = ByteWeights::from_bytes(&self.raw);
                let b = ByteWeights::threaded_from_bytes(&self.raw, 3);
                let mut v: Vec<_> = a.iter().collect();
                v.sort();
                dbg((v, a == b, a == self.bw, a.len()))
            }
            8 => {
                let mut v: Vec<_> = build_weights_map(&self.letters).into_iter().map(|(l, w)| (l.be(), w)).collect();
                v.sort();
                dbg(v)
            }
            // (the order of these weights is fixed: the tree has to be the same, ties or not)
            9 => {
                let t = HuffTree::from_weights(VecWeights(self.weights.clone()));
                [canon(&t), dbg(flat(t.root()))].concat()
            }
            10 => {
                let t = HuffTree::from_weights(self.bw.clone());
                [canon(&t), dbg((flat(t.root()), to_bits(&t.as_bin())))].concat()
            }
            11 => {
                let d = compress(&self.letters);
                let mut v = canon(d.huff_tree());
                v.extend(dbg((decompress(&d) == self.letters, d.padding_bits(), d.comp_bytes().len())));
                v
            }
            12 => {
                // fails: a letter is missing
                match &self.missing {
                    Some(m) => dbg(compress_with_tree(m, self.tree.clone()).err().map(|e| m.contains(e.missing_letter()))),
                    None => vec![],
                }
            }
            13 => dbg(CompressData::<L>::try_from_bytes(&self.garbage).is_ok()),
            14 => {
                let mut w = self.bw.clone();
                w += self.bw.clone();
                let s = self.bw.clone() + self.bw.clone();
                let mut v: Vec<_> = w.iter().collect();
                v.sort();
                dbg((v, w == s))
            }
            _ => {
                let c = self.data.clone();
                let (a, b, t) = c.into_inner();
                show_data(&CompressData::new(a, b, t))
            }
        }
    }
    fn snapshot(&self) -> Vec<u8> {
        let mut bw: Vec<_> = self.bw.iter().collect();
        bw.sort();
        dbg((
            (&self.letters, &self.missing, &self.weights, flat(self.tree.root()), to_bits(&self.bin)),
            (show_data(&self.data), &self.bytes, &self.garbage, &self.raw, bw),
        ))
    }
}

fn fixture<L: LtB>(cx: &mut Cx, twin: bool) -> Result<Vec<Box<dyn AnyFx>>, String> {
    let k = alpha(cx, L::CARD, 120);
    let (spec, ls) = random_spec::<L>(cx, k, 100);
    let n = len(cx, 800);
    let letters: Vec<L> = (0..n).map(|_| cx.rng.pick(&ls).clone()).collect();
    let mut specs = vec![spec.clone()];
    if twin {
        // the same letters, the same number of leaves, the mirrored shape
        let mut m = spec;
        for x in m.nodes.iter_mut() {
            if let Node::Joint(a, b) = x {
                std::mem::swap(a, b);
            }
        }
        specs.push(m);
    }
    let mut out: Vec<Box<dyn AnyFx>> = Vec::new();
    for spec in specs {
        let tree = from_spec::<L>(&spec)?;
        let data = compress_with_tree(&letters, tree.clone()).map_err(|e| format!("a covering tree was refused: {e}"))?;
        let bytes = data.to_bytes();
        let mut garbage = bytes.clone();
        for _ in 0..3 {
            let i = cx.rng.below(garbage.len() as u64) as usize;
            garbage[i] ^= 1 << cx.rng.below(8);
        }
        let missing = (0..40).map(|i| L::make(i % L::CARD, 9)).find(|l| !ls.contains(l)).map(|l| {
            let mut v = letters.clone();
            let i = cx.rng.below(v.len() as u64) as usize;
            v.insert(i, l);
            v
        });
        let mut w = weights(cx, k);
        if cx.rng.chance(1, 3) {
            // ties all over
            let m = cx.rng.range(1, 3);
            w.iter_mut().for_each(|x| *x = *x % m + 1);
        }
        let rn = len(cx, 500);
        let mut raw = content_n(cx, rn);
        raw.push(cx.rng.below(256) as u8);
        out.push(Box::new(Fx {
            missing,
            weights: ls.iter().cloned().zip(w).collect(),
            bin: tree.as_bin(),
            bw: ByteWeights::from_bytes(&raw),
            letters: letters.clone(),
            tree,
            data,
            bytes,
            garbage,
            raw,
        }));
    }
    Ok(out)
}

/// A letter type that panics on demand in Clone, Hash or Eq
#[derive(Debug)]
struct Bomb(u32);
thread_local!(static FUSE: Cell<i64> = const { Cell::new(-1) });
fn tick() {
    FUSE.with(|f| {
        let v = f.get();
        if v == 0 {
            f.set(-1);
            std::panic::panic_any("bomb");
        }
        if v > 0 {
            f.set(v - 1);
        }
    });
}
impl Clone for Bomb {
    fn clone(&self) -> Self {
        tick();
        Bomb(self.0)
    }
}
impl PartialEq for Bomb {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for Bomb {}
impl std::hash::Hash for Bomb {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        tick();
        h.write_u32(self.0)
    }
}
impl HuffLetter for Bomb {}

/// calls that panic, as documented or because the letter type does
fn disturb(kind: u64, fuse: i64) {
    let _ = catch_unwind(AssertUnwindSafe(|| match kind {
        0 => drop(HuffTree::from_weights(ByteWeights::new())),
        1 => drop(compress::<u8>(&[])),
        2 => drop(CompressData::new(vec![], 0, HuffTree::from_weights(VecWeights(vec![(1u8, 1)])))),
        3 => drop(CompressData::new(vec![1], 9, HuffTree::from_weights(VecWeights(vec![(1u8, 1)])))),
        4 => {
            let v: Vec<Bomb> = (0..30).map(|i| Bomb(i % 7)).collect();
            FUSE.with(|f| f.set(fuse));
            drop(compress(&v));
        }
        _ => {
            let v: Vec<Bomb> = (0..30).map(|i| Bomb(i % 7)).collect();
            let d = compress(&v);
            FUSE.with(|f| f.set(fuse));
            drop(decompress(&d));
        }
    }));
    FUSE.with(|f| f.set(-1));
}

/// Letters of a type that itself calls the library when it is cloned, hashed, compared or written
#[derive(Debug)]
pub struct Nester(u16);
#[derive(Default)]
struct Nest {
    fxs: std::rc::Rc<Vec<(Box<dyn AnyFx>, Vec<Vec<u8>>)>>,
    rng: Option<crate::rng::Rng>,
    every: u64,
    left: u64,
    calls: u64,
    wrong: Option<String>,
}
thread_local!(static NEST: Cell<Option<Nest>> = const { Cell::new(None) });
fn nest() {
    let Ok(Some(mut n)) = NEST.try_with(|n| n.take()) else { return };
    // (nothing nests in here: NEST is empty)
    if n.left > 0 {
        n.left -= 1;
    } else {
        let r = n.rng.as_mut().unwrap();
        let (f, op) = (r.below(n.fxs.len() as u64) as usize, r.below(OPS));
        n.left = r.below(n.every);
        let got = n.fxs[f].0.run(op);
        n.calls += 1;
        let want = &n.fxs[f].1[op as usize];
        if got != *want && n.wrong.is_none() {
            n.wrong = Some(format!("operation {op}, called by a letter's trait method while the library calls it, gives another result:\n  {}\n  {}", lossy(want, &got), lossy(&got, want)));
        }
    }
    NEST.with(|c| c.set(Some(n)));
}
impl Clone for Nester {
    fn clone(&self) -> Self {
        nest();
        Nester(self.0)
    }
}
impl PartialEq for Nester {
    fn eq(&self, o: &Self) -> bool {
        nest();
        self.0 == o.0
    }
}
impl Eq for Nester {}
impl std::hash::Hash for Nester {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        nest();
        h.write_u16(self.0)
    }
}
impl HuffLetter for Nester {}
impl HuffLetterAsBytes for Nester {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
        nest();
        Ok(Nester(u16::from_be_bytes(b.try_into()?)))
    }
    fn as_be_bytes(&self) -> Box<[u8]> {
        nest();
        Box::new(self.0.to_be_bytes())
    }
}
impl Lt for Nester {
    const NAME: &'static str = "Nester";
    const CARD: u64 = 65536;
    fn make(id: u64, salt: u64) -> Self {
        Nester((id as u16).wrapping_mul(salt as u16 | 1))
    }
}
impl LtB for Nester {
    const BYTES: usize = 2;
    fn be(&self) -> Vec<u8> {
        self.0.to_be_bytes().to_vec()
    }
    fn from_be(b: &[u8]) -> Option<Self> {
        Some(Nester(u16::from_be_bytes(b.try_into().ok()?)))
    }
}

/// calls from within calls: letter types whose trait methods use the library themselves
fn nested(cx: &mut Cx) -> R {
    let small = std::mem::replace(&mut cx.small, true);
    let r = nested_small(cx);
    cx.small = small;
    NEST.with(|n| n.set(None));
    r
}
fn nested_small(cx: &mut Cx) -> R {
    NEST.with(|n| n.set(None));
    let mut inner = Vec::new();
    let with_refs = |f: Box<dyn AnyFx>| {
        let refs = (0..OPS).map(|o| f.run(o)).collect();
        (f, refs)
    };
    inner.extend(fixture::<Nester>(cx, false)?.into_iter().map(with_refs));
    inner.extend(fixture::<u8>(cx, false)?.into_iter().map(with_refs));
    let inner = std::rc::Rc::new(inner);
    let outer: Vec<_> = fixture::<Nester>(cx, true)?.into_iter().map(with_refs).collect();
    let steps = if cx.tiny { 2 } else { cx.rng.range(3, 20) };
    for _ in 0..steps {
        let (f, op) = (cx.rng.below(outer.len() as u64) as usize, cx.rng.below(OPS));
        let every = *cx.rng.pick(&[1, 2, 5, 30]);
        let left = cx.rng.below(40);
        let rng = crate::rng::Rng::new(cx.rng.u64(), "nest", 0);
        NEST.with(|n| n.set(Some(Nest { fxs: inner.clone(), rng: Some(rng), every, left, calls: 0, wrong: None })));
        let got = outer[f].0.run(op);
        let n = NEST.with(|n| n.take()).ok_or("harness: the nesting state is gone")?;
        if let Some(w) = n.wrong {
            return Err(w);
        }
        ensure!(got == outer[f].1[op as usize], "operation {op} gives another result when letters call the library from their trait methods ({} times):\n  {}\n  {}",
            n.calls, lossy(&outer[f].1[op as usize], &got), lossy(&got, &outer[f].1[op as usize]));
        cx.count("calls from within calls", n.calls);
    }
    Ok(())
}

/// more calls than 16 bits can count, on one thread or each on a thread of its own
fn many_calls(cx: &mut Cx, idx: u64) -> R {
    cx.small = true;
    let k = 1 + cx.rng.below(LTB);
    let fxs = for_ltb!(k, fixture(cx, true));
    cx.small = false;
    let fxs = fxs?;
    let refs: Vec<Vec<Vec<u8>>> = fxs.iter().map(|f| (0..OPS).map(|o| f.run(o)).collect()).collect();
    cx.nontrivial = true;
    cx.sign(&fxs[0].snapshot());
    let total = if cx.thorough() { 300_000u64 } else { 140_000 };
    let ops: Vec<u64> = if idx < OPS { vec![idx] } else { (0..OPS).collect() };
    cx.note(format!("{total} calls, operations {ops:?}"));
    for i in 0..total {
        let edge = (i + 30) % 65536 < 60;
        let f = if i % 997 == 0 || edge && cx.rng.chance(1, 2) { 0 } else { fxs.len() - 1 };
        let op = ops[if ops.len() > 1 { cx.rng.below(OPS) as usize } else { 0 }];
        let got = if idx == OPS {
            std::thread::scope(|s| s.spawn(|| fxs[f].run(op)).join()).map_err(|_| format!("operation {op} panicked on a thread of its own, after {i} calls"))?
        } else {
            fxs[f].run(op)
        };
        ensure!(got == refs[f][op as usize], "operation {op} gives another result after {i} calls:\n  {}\n  {}",
            lossy(&refs[f][op as usize], &got), lossy(&got, &refs[f][op as usize]));
    }
    for (f, r) in fxs.iter().zip(&refs) {
        for op in 0..OPS {
            let got = f.run(op);
            ensure!(got == r[op as usize], "operation {op} gives another result after {total} other calls:\n  {}\n  {}", lossy(&r[op as usize], &got), lossy(&got, &r[op as usize]));
        }
    }
    cx.count("calls in long histories", total);
    Ok(())
}

pub fn c12(cx: &mut Cx) -> R {
    // (one in a batch)
    if !cx.small && cx.idx % 50 == 7 && cx.idx / 50 <= OPS + 1 {
        return many_calls(cx, cx.idx / 50);
    }
    let mut fxs: Vec<Box<dyn AnyFx>> = Vec::new();
    for _ in 0..if cx.tiny { 1 } else { cx.rng.range(1, 3) } {
        let n = cx.rng.below(LTB);
        let twin = !cx.tiny && cx.rng.chance(1, 2);
        fxs.extend(for_ltb!(n, fixture(cx, twin))?);
    }
    let snaps: Vec<Vec<u8>> = fxs.iter().map(|f| f.snapshot()).collect();
    for s in &snaps {
        cx.sign(s);
    }
    cx.nontrivial = true;
    // (the smallest runs do with a few of the operations)
    let ops: Vec<u64> = if cx.tiny { (0..3).map(|_| cx.rng.below(OPS)).collect() } else { (0..OPS).collect() };
    let refs: Vec<Vec<Vec<u8>>> = fxs
        .iter()
        .map(|f| (0..OPS).map(|o| if ops.contains(&o) { f.run(o) } else { vec![] }).collect())
        .collect();
    // history: the same calls in another order, with failing and panicking ones in between
    let steps = if cx.tiny { 3 } else if cx.small { 10 } else { 60 };
    let mut last = String::new();
    for _ in 0..steps {
        if cx.rng.chance(1, 5) {
            let kind = cx.rng.below(6);
            disturb(kind, cx.rng.below(60) as i64);
            last = format!("a panicking call (kind {kind})");
            cx.count("panicking calls", 1);
            continue;
        }
        let f = cx.rng.below(fxs.len() as u64) as usize;
        let op = *cx.rng.pick(&ops);
        let got = fxs[f].run(op);
        ensure!(got == refs[f][op as usize], "operation {op} gives another result after {last}:\n  {}\n  {}",
            lossy(&refs[f][op as usize], &got), lossy(&got, &refs[f][op as usize]));
        last = format!("operation {op} on values {f}");
        cx.count("calls repeated in another history", 1);
    }
    // concurrently, sharing everything by reference
    let crowd = !cx.small && cx.rng.chance(1, 25);
    let threads = if cx.small { 2 } else if crowd { cx.rng.range(40, 150) } else { cx.rng.range(2, 12) };
    let per = if cx.tiny { 3 } else if cx.small { 4 } else if crowd { cx.rng.range(2, 6) } else { cx.rng.range(5, 40) };
    cx.max("threads at once", threads as u64);
    let plans: Vec<Vec<(usize, u64, u64)>> = (0..threads)
        .map(|_| (0..per).map(|_| (cx.rng.below(fxs.len() as u64) as usize, *cx.rng.pick(&ops), cx.rng.below(100))).collect())
        .collect();
    cx.note(format!("{} sets of values, {threads} threads, {per} calls each", fxs.len()));
    let clock = AtomicU64::new(0);
    let barrier = std::sync::Barrier::new(threads);
    let results = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .map(|p| {
                let (fxs, refs, clock, barrier) = (&fxs, &refs, &clock, &barrier);
                s.spawn(move || -> Result<Vec<(u64, u64, u64)>, String> {
                    barrier.wait();
                    let mut ev = Vec::new();
                    for (f, op, d) in p {
                        if *d < 8 {
                            disturb(*d % 6, *d as i64 * 3);
                        }
                        let call = clock.fetch_add(1, SeqCst);
                        let got = fxs[*f].run(*op);
                        let ret = clock.fetch_add(1, SeqCst);
                        ev.push((call, ret, *op));
                        ensure!(got == refs[*f][*op as usize], "operation {op} gives another result while other threads run:\n  {}\n  {}",
                            lossy(&refs[*f][*op as usize], &got), lossy(&got, &refs[*f][*op as usize]));
                    }
                    Ok(ev)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    let mut evs = Vec::new();
    for (t, r) in results.into_iter().enumerate() {
        match r {
            Ok(Ok(e)) => evs.extend(e.into_iter().map(|e| (e, t))),
            Ok(Err(e)) => return Err(e),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                return Err(format!("a call panicked while other threads run: {m:?}"));
            }
        }
    }
    // what interleavings were there?
    evs.sort();
    let mut order = 0xcbf2_9ce4_8422_2325;
    for ((c, r, op), t) in &evs {
        order = crate::rng::fnv(&[*t as u8, *op as u8, (*r - *c).min(200) as u8], order);
    }
    cx.seen("call interleavings", order);
    let overlaps: u64 = evs.iter().filter(|((c, r, _), _)| r - c > 1).count() as u64;
    cx.count("concurrent calls", evs.len() as u64);
    cx.count("calls overlapping another one", overlaps);
    for (f, s) in fxs.iter().zip(&snaps) {
        let now = f.snapshot();
        ensure!(now == *s, "values passed by reference changed:\n  {}\n  {}", lossy(s, &now), lossy(&now, s));
    }
    reused(cx)?;
    nested(cx)?;
    clones(cx)
}

/// the shape, letters and codes, without the weights
fn strip(v: Vec<Tok<u8>>) -> Vec<(bool, Option<u8>, Option<Vec<bool>>)> {
    v.into_iter().map(|t| (t.joint, t.letter, t.code)).collect()
}

/// the same buffers filled with something else between the calls
fn reused(cx: &mut Cx) -> R {
    let max = if cx.tiny { 20 } else if cx.small { 60 } else { 40_000 };
    let n = if cx.tiny || cx.small { len(cx, max) } else if cx.rng.chance(1, 2) { cx.rng.range(4000, 10_000) } else { len(cx, max) };
    let mut raw = vec![0u8; n];
    let mut comp: Vec<u8> = Vec::with_capacity(1 << 17);
    let k = *cx.rng.pick(&[2usize, 3, 40, 256]);
    let rounds = if cx.tiny { 2 } else { cx.rng.range(2, 6) };
    let edges = cx.rng.chance(3, 4);
    let (mut w, mut t) = (ByteWeights::new(), None::<HuffTree<u8>>);
    for round in 0..rounds {
        let (first, last) = (raw[0], raw[n - 1]);
        match cx.rng.below(3) {
            // a few bytes exchanged: even the histogram may stay as it was
            0 if round > 0 && n > 4 => {
                for _ in 0..cx.rng.range(1, 3) {
                    let (a, b) = (cx.rng.range(1, n - 2), cx.rng.range(1, n - 2));
                    if cx.rng.chance(1, 2) {
                        raw.swap(a, b);
                    } else {
                        raw[a] = cx.rng.below(k as u64) as u8;
                    }
                }
            }
            _ => {
                for b in raw.iter_mut() {
                    *b = cx.rng.below(k as u64) as u8;
                }
            }
        }
        if edges && round > 0 && n > 1 {
            (raw[0], raw[n - 1]) = (first, last);
        }
        let mut counts = [0usize; 256];
        raw.iter().for_each(|b| counts[*b as usize] += 1);
        let want: Vec<(u8, usize)> = (0..=255u8).filter(|b| counts[*b as usize] > 0).map(|b| (b, counts[b as usize])).collect();
        let check = |bw: &ByteWeights, what: &str| -> R {
            let mut got: Vec<(u8, usize)> = bw.iter().map(|(b, w)| (b, w)).collect();
            got.sort();
            ensure!(got == want, "{what} counts something else in a buffer filled anew (round {round}, {n} bytes)");
            Ok(())
        };
        let order = cx.rng.below(2);
        for i in 0..2 {
            if i == order {
                check(&ByteWeights::from_bytes(&raw), "ByteWeights::from_bytes")?;
            } else {
                let th = if cx.small { 2 } else { cx.rng.range(1, 13) };
                check(&ByteWeights::threaded_from_bytes(&raw, th), "ByteWeights::threaded_from_bytes")?;
            }
        }
        let mut m: Vec<(u8, usize)> = build_weights_map(&raw).into_iter().collect();
        m.sort();
        ensure!(m == want, "build_weights_map counts something else in a buffer filled anew (round {round}, {n} letters)");
        // a tree replaced in place, for the same addresses
        w = if round % 2 == 0 { ByteWeights::from_bytes(&raw) } else { std::mem::replace(&mut w, ByteWeights::new()) };
        if !want.iter().all(|(b, _)| w.get(b).is_some()) {
            w = ByteWeights::from_bytes(&raw);
        }
        let tree = HuffTree::from_weights(w);
        let twice = HuffTree::from_weights(w);
        ensure!(flat(tree.root()) == flat(twice.root()), "the same byte counts give two different trees");
        let tree = match t.as_mut() {
            Some(t) => {
                *t = tree;
                &*t
            }
            None => &*t.insert(tree),
        };
        let d = compress_with_tree(&raw, tree.clone()).map_err(|e| format!("a covering tree was refused: {e}"))?;
        ensure!(decompress(&d) == raw, "a buffer filled anew does not come back (round {round}, {n} letters)");
        comp.clear();
        comp.extend_from_slice(&d.to_bytes());
        let back = CompressData::<u8>::try_from_bytes(&comp).map_err(|e| format!("to_bytes's own output refused: {e}"))?;
        ensure!(back.comp_bytes() == d.comp_bytes() && flat(back.huff_tree().root()).map(strip) == flat(tree.root()).map(strip),
            "a buffer filled anew is read as something else (round {round}, {n} letters)");
        ensure!(decompress(&back) == raw, "a buffer filled anew does not come back from its bytes (round {round}, {n} letters)");
        cx.count("calls on buffers filled anew", 9);
    }
    Ok(())
}

fn lossy(a: &[u8], b: &[u8]) -> String {
    let d = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let lo = d.saturating_sub(40);
    format!("..{}..", String::from_utf8_lossy(&a[lo..(d + 80).min(a.len())]))
}

/// clones do not change with the original
fn clones(cx: &mut Cx) -> R {
    let k = alpha(cx, 256, 60);
    let (spec, ls) = random_spec::<u8>(cx, k, 60);
    let n = len(cx, 200);
    let letters: Vec<u8> = (0..n).map(|_| *cx.rng.pick(&ls)).collect();
    let mut tree = from_spec::<u8>(&spec)?;
    let before = flat(tree.root())?;
    let copy = tree.clone();
    let data = compress_with_tree(&letters, tree.clone()).map_err(|e| format!("a covering tree was refused: {e}"))?;
    let dcopy = data.clone();
    // modify the original in place
    tree.root_mut().set_code(to_bv(&[true, true, false]));
    if let Some(l) = tree.root_mut().left_child_mut() {
        l.set_code(to_bv(&[true; 5]));
        l.set_children(Some((HuffBranch::new(HuffLeaf::new(Some(1), 1), None), HuffBranch::new(HuffLeaf::new(Some(2), 1), None))));
    }
    ensure!(flat(copy.root())? == before, "a clone of a tree changed with the original");
    drop(tree);
    ensure!(flat(copy.root())? == before, "a clone of a tree changed when the original was dropped");
    let (mut b, p, t) = data.into_inner();
    b.iter_mut().for_each(|x| *x = !*x);
    drop((b, p, t));
    ensure!(decompress(&dcopy) == letters, "a clone of compressed data changed with the original");
    let mut w = ByteWeights::from_bytes(&letters);
    let wc = w.clone();
    if let Some(x) = w.get_mut(&letters[0]) {
        *x += 100;
    }
    ensure!(wc == ByteWeights::from_bytes(&letters) && wc != w, "a clone of byte counts changed with the original");
    cx.count("clones checked", 3);
    Ok(())
}
