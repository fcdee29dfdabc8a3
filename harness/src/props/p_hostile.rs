//! Safe calls no sensible user makes: hand-made branches without letters or codes, lying weights,
//! letters whose trait methods panic or contradict each other. Whatever the library answers (a
//! panic included), there must be no undefined behaviour. Run by the sanitizer driver only.
use crate::ctx::{Cx, R};
use huff_coding::bitvec::prelude::{BitVec, Msb0};
use huff_coding::comp::*;
use huff_coding::prelude::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local!(static FUSE: Cell<i64> = const { Cell::new(i64::MAX) });

fn burn() {
    FUSE.with(|f| {
        f.set(f.get() - 1);
        if f.get() == 0 {
            panic!("a trait method of the letter panics");
        }
    });
}

/// A letter whose methods panic when the fuse has burnt down, with chosen equality, hash and bytes
#[derive(Debug)]
pub struct Bomb {
    id: u8,
    mode: u8,
    heap: Box<u32>,
}
impl Bomb {
    fn new(id: u8, mode: u8) -> Bomb {
        Bomb { id, mode, heap: Box::new(id as u32 * 3) }
    }
}
impl Clone for Bomb {
    fn clone(&self) -> Bomb {
        burn();
        Bomb { id: self.id, mode: self.mode, heap: self.heap.clone() }
    }
}
impl PartialEq for Bomb {
    fn eq(&self, o: &Bomb) -> bool {
        burn();
        match self.mode {
            1 => false,
            2 => true,
            _ => self.id == o.id && self.heap == o.heap,
        }
    }
}
impl Eq for Bomb {}
impl Hash for Bomb {
    fn hash<H: Hasher>(&self, h: &mut H) {
        burn();
        match self.mode {
            3 => h.write_u8(0),
            4 => h.write_u64(FUSE.with(|f| f.get()) as u64),
            _ => h.write_u8(self.id),
        }
    }
}
impl HuffLetter for Bomb {}
impl Default for Bomb {
    fn default() -> Bomb {
        Bomb::new(0, 0)
    }
}
impl HuffLetterAsBytes for Bomb {
    fn as_be_bytes(&self) -> Box<[u8]> {
        burn();
        let n = match self.mode {
            5 => 0,
            6 => 1,
            7 => 40,
            _ => std::mem::size_of::<Bomb>(),
        };
        vec![self.id; n].into()
    }
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
        burn();
        let id = *b.first().unwrap_or(&0);
        if id > 250 {
            return Err("no letter".into());
        }
        Ok(Bomb::new(id, id % 9))
    }
}

#[derive(Clone, PartialEq, Eq)]
struct Liar<L: HuffLetter> {
    v: Vec<(L, usize)>,
    len: usize,
}
impl<L: HuffLetter> IntoIterator for Liar<L> {
    type Item = (L, usize);
    type IntoIter = std::vec::IntoIter<(L, usize)>;
    fn into_iter(self) -> Self::IntoIter {
        self.v.into_iter()
    }
}
impl<L: HuffLetter> Weights<L> for Liar<L> {
    fn get(&self, _: &L) -> Option<&usize> {
        None
    }
    fn get_mut(&mut self, _: &L) -> Option<&mut usize> {
        None
    }
    fn len(&self) -> usize {
        self.len
    }
    fn is_empty(&self) -> bool {
        self.len == 0
    }
}

/// a tree of any shape whose leaves and branches may lack letters and codes, or have both
fn weird(cx: &mut Cx, depth: u32) -> HuffBranch<u8> {
    let kids = depth > 0 && cx.rng.chance(2, 3);
    let letter = if cx.rng.chance(3, 4) != kids { Some(cx.rng.below(256) as u8) } else { None };
    let children = if kids { Some((weird(cx, depth - 1), weird(cx, depth - 1))) } else { None };
    let w = if cx.rng.chance(1, 8) { usize::MAX } else { cx.rng.below(9) as usize };
    let mut b = HuffBranch::new(HuffLeaf::new(letter, w), children);
    if cx.rng.chance(3, 4) {
        let n = cx.rng.below(if cx.small { 12 } else { 300 });
        let c: BitVec<Msb0, u8> = (0..n).map(|_| cx.rng.chance(1, 2)).collect();
        b.set_code(c);
    }
    b
}

fn weird_bytes(cx: &mut Cx) -> Vec<u8> {
    let n = cx.rng.below(40);
    (0..n).map(|_| if cx.rng.chance(1, 2) { cx.rng.below(4) as u8 } else { cx.rng.below(256) as u8 }).collect()
}

fn attempt<T>(cx: &mut Cx, f: impl FnOnce() -> T) -> Option<T> {
    let r = catch_unwind(AssertUnwindSafe(f));
    FUSE.with(|x| x.set(i64::MAX));
    match r {
        Ok(x) => {
            cx.count("hostile calls that returned", 1);
            Some(x)
        }
        Err(_) => {
            cx.count("hostile calls that panicked", 1);
            None
        }
    }
}

pub fn hostile(cx: &mut Cx) -> R {
    cx.nontrivial = true;
    // hand-made trees
    let root = weird(cx, 4);
    let mut tree = HuffTree::from_weights(ByteWeights::from_bytes(&[1, 2, 3, 3]));
    *tree.root_mut() = root;
    attempt(cx, || tree.read_codes());
    attempt(cx, || tree.as_bin());
    attempt(cx, || tree.clone() .root().clone() == *tree.root());
    let letters = weird_bytes(cx);
    attempt(cx, || compress_with_tree(&letters, tree.clone()));
    let pad = cx.rng.below(12) as u8;
    let bytes = weird_bytes(cx);
    if let Some(d) = attempt(cx, || CompressData::new(bytes.clone(), pad, tree.clone())) {
        attempt(cx, || decompress(&d));
        attempt(cx, || CompressData::<u8>::try_from_bytes(&d.to_bytes()).map(|d| decompress(&d)));
        attempt(cx, || d.clone().into_inner());
    }
    // iterators used past their end and dropped early
    let it = tree.root().children_iter();
    attempt(cx, || it.map(|mut i| (0..300).filter_map(|_| i.next()).count()));
    attempt(cx, || {
        let mut i = huff_coding::tree::branch::ChildrenIter::new(tree.root());
        (0..5).filter_map(|_| i.next()).count()
    });
    let mut bw = ByteWeights::from_bytes(&weird_bytes(cx));
    if let Some(w) = bw.get_mut(&1) {
        *w = if cx.rng.chance(1, 2) { 0 } else { usize::MAX };
    }
    attempt(cx, || {
        let mut i = bw.into_iter();
        (0..600).filter_map(|_| i.next()).count()
    });
    attempt(cx, || {
        let mut i = bw.iter();
        (0..600).filter_map(|_| i.next()).count()
    });
    let other = ByteWeights::from_bytes(&weird_bytes(cx));
    attempt(cx, || bw + other + bw);
    attempt(cx, || HuffTree::from_weights(bw));
    // counts of threads and empty slices
    let t = cx.rng.below(if cx.small { 5 } else { 60 }) as usize;
    let b = weird_bytes(cx);
    attempt(cx, || ByteWeights::threaded_from_bytes(&b, t));
    attempt(cx, || ByteWeights::threaded_from_bytes(&[], t));
    attempt(cx, || compress(&b));
    attempt(cx, || compress::<String>(&[]));
    // letters that panic or contradict themselves
    for _ in 0..3 {
        let mode = cx.rng.below(9) as u8;
        let n = cx.rng.range(0, 14);
        let ls: Vec<Bomb> = (0..n).map(|i| Bomb::new((i * 5 % 11) as u8, mode)).collect();
        let fuse = if cx.rng.chance(2, 3) { cx.rng.range(1, 150) as i64 } else { i64::MAX };
        FUSE.with(|f| f.set(fuse));
        let d = attempt(cx, || compress(&ls));
        if let Some(d) = d {
            FUSE.with(|f| f.set(cx.rng.range(1, 60) as i64));
            attempt(cx, || decompress(&d));
            FUSE.with(|f| f.set(cx.rng.range(1, 90) as i64));
            let raw = attempt(cx, || d.to_bytes());
            if let Some(raw) = raw {
                FUSE.with(|f| f.set(cx.rng.range(1, 60) as i64));
                attempt(cx, || CompressData::<Bomb>::try_from_bytes(&raw).map(|d| decompress(&d)));
            }
        }
        FUSE.with(|f| f.set(fuse));
        attempt(cx, || build_weights_map(&ls));
        let liar = Liar { v: ls.iter().map(|l| (Bomb::new(l.id, l.mode), 1)).collect(), len: cx.rng.below(4) as usize * 100 };
        FUSE.with(|f| f.set(fuse));
        attempt(cx, || HuffTree::from_weights(liar).read_codes());
        let bin: BitVec<Msb0, u8> = BitVec::from_vec(weird_bytes(cx));
        FUSE.with(|f| f.set(fuse));
        attempt(cx, || HuffTree::<Bomb>::try_from_bin(bin).map(|t| t.as_bin()));
    }
    let m: HashMap<u8, usize> = HashMap::new();
    attempt(cx, || HuffTree::from_weights(m));
    Ok(())
}
