//! The first use of every operation in a process, by several threads at the same time and without
//! anything that orders one thread's operation after another's: what is set up lazily is set up
//! here. Run by the sanitizer driver only, before anything else uses the library.
use crate::rng::Rng;
use huff_coding::bitvec::prelude::{BitVec, Msb0};
use huff_coding::comp::*;
use huff_coding::prelude::*;
use std::collections::HashMap;
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Barrier;

/// what a thread has made so far
#[derive(Default)]
struct Own {
    bytes: Vec<u8>,
    words: Vec<u32>,
    bw: Option<ByteWeights>,
    map: HashMap<u32, usize>,
    tree: Option<HuffTree<u8>>,
    wtree: Option<HuffTree<u32>>,
    bin: BitVec<Msb0, u8>,
    wbin: BitVec<Msb0, u8>,
    data: Option<CompressData<u8>>,
    wdata: Option<CompressData<u32>>,
    ser: Vec<u8>,
    wser: Vec<u8>,
}

type Step = fn(&mut Own);

/// each needs only what the ones above it made
const STEPS: &[Step] = &[
    |o| o.bw = Some(ByteWeights::from_bytes(&o.bytes)),
    |o| drop(black_box(ByteWeights::threaded_from_bytes(&o.bytes, 2))),
    |o| {
        let mut w = ByteWeights::new();
        w += o.bw.unwrap();
        black_box(w + o.bw.unwrap() == w);
    },
    |o| {
        let mut w = o.bw.unwrap();
        black_box((w.len(), w.is_empty(), w.get(&o.bytes[0]).copied()));
        if let Some(x) = w.get_mut(&o.bytes[0]) {
            *x = 0;
        }
        black_box(w.iter().count() + w.into_iter().count());
    },
    |o| o.map = build_weights_map(&o.words),
    |o| o.tree = Some(HuffTree::from_weights(o.bw.unwrap())),
    |o| o.wtree = Some(HuffTree::from_weights(o.map.clone())),
    |_o| drop(black_box(HuffTree::from_weights(ByteWeights::from_bytes(&[7])))),
    |o| drop(black_box((o.tree.as_ref().unwrap().read_codes(), o.wtree.as_ref().unwrap().read_codes()))),
    |o| o.bin = o.tree.as_ref().unwrap().as_bin(),
    |o| o.wbin = o.wtree.as_ref().unwrap().as_bin(),
    |o| drop(black_box(HuffTree::<u8>::try_from_bin(o.bin.clone()))),
    |o| drop(black_box(HuffTree::<u32>::try_from_bin(o.wbin.clone()))),
    |o| {
        let mut b = o.bin.clone();
        b.pop();
        if let Err(e) = HuffTree::<u8>::try_from_bin(b) {
            black_box(e.to_string());
        }
    },
    |o| drop(black_box(compress(&o.words))),
    |o| o.data = compress_with_tree(&o.bytes, o.tree.clone().unwrap()).ok(),
    |o| o.wdata = compress_with_tree(&o.words, o.wtree.clone().unwrap()).ok(),
    |o| {
        let t = HuffTree::from_weights(ByteWeights::from_bytes(&[200, 201]));
        if let Err(e) = compress_with_tree(&o.bytes, t) {
            black_box(e.to_string());
        }
    },
    |o| drop(black_box((decompress(o.data.as_ref().unwrap()), decompress(o.wdata.as_ref().unwrap())))),
    |o| o.ser = o.data.as_ref().unwrap().to_bytes(),
    |o| o.wser = o.wdata.as_ref().unwrap().to_bytes(),
    |o| drop(black_box(CompressData::<u8>::try_from_bytes(&o.ser))),
    |o| drop(black_box(CompressData::<u32>::try_from_bytes(&o.wser))),
    |o| {
        for n in [0, 3, 6, o.ser.len() / 2] {
            if let Err(e) = CompressData::<u8>::try_from_bytes(&o.ser[..n]) {
                black_box(e.to_string());
            }
        }
    },
    |o| {
        let t = o.tree.clone().unwrap();
        black_box((t.root().children_iter().map(|c| c.count()), t.root() == o.tree.as_ref().unwrap().root()));
    },
    |_| {
        let _ = catch_unwind(|| drop(HuffTree::from_weights(ByteWeights::new())));
    },
    |o| drop(black_box(o.data.clone().map(|d| d.into_inner()))),
];

pub fn cold(seed: u64, threads: u64) -> u64 {
    let barrier = Barrier::new(threads as usize);
    std::thread::scope(|s| {
        for t in 0..threads {
            let barrier = &barrier;
            s.spawn(move || {
                let mut r = Rng::new(seed, "cold", t);
                let n = r.range(30, 60);
                let mut o = Own {
                    bytes: (0..n).map(|_| r.below(12) as u8).collect(),
                    words: (0..n).map(|_| r.below(9) as u32 * 70_000).collect(),
                    ..Own::default()
                };
                for f in STEPS {
                    barrier.wait();
                    if catch_unwind(AssertUnwindSafe(|| f(&mut o))).is_err() {
                        eprintln!("note: a first use panicked");
                    }
                }
            });
        }
    });
    STEPS.len() as u64 * threads
}
