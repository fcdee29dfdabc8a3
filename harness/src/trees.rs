//! Looking at and building the library's trees.
use crate::ctx::R;
use crate::gen::{to_bits, to_bv, Bits};
use crate::letters::*;
use crate::oracle::{Node, SpecTree};
use huff_coding::prelude::*;

/// Preorder tokens of a tree: everything there is to observe about it
#[derive(Clone, Debug, PartialEq)]
pub struct Tok<L> {
    pub joint: bool,
    pub letter: Option<L>,
    pub weight: usize,
    pub code: Option<Vec<bool>>,
}

pub fn flat<L: HuffLetter>(root: &HuffBranch<L>) -> Result<Vec<Tok<L>>, String> {
    let mut out = Vec::new();
    let mut stack = vec![root];
    while let Some(b) = stack.pop() {
        let (l, r) = (b.left_child(), b.right_child());
        if l.is_some() != r.is_some() || l.is_some() != b.has_children() {
            return Err(format!(
                "a branch has {} left child, {} right child and has_children() = {}",
                l.is_some() as u8, r.is_some() as u8, b.has_children()
            ));
        }
        out.push(Tok {
            joint: b.has_children(),
            letter: b.leaf().letter().cloned(),
            weight: b.leaf().weight(),
            code: b.leaf().code().map(to_bits),
        });
        if let (Some(l), Some(r)) = (l, r) {
            stack.push(r);
            stack.push(l);
        }
    }
    Ok(out)
}

/// A leaf found by walking left (false) and right (true) from the root
pub struct LeafAt<L> {
    pub letter: L,
    pub path: Vec<bool>,
    pub code: Option<Vec<bool>>,
    pub weight: usize,
}

/// All leaves with their paths (a lone root: path 0), checking the structure on the way
pub fn leaves<L: HuffLetter>(root: &HuffBranch<L>) -> Result<Vec<LeafAt<L>>, String> {
    let mut out = Vec::new();
    let mut stack = vec![(root, Vec::new())];
    while let Some((b, path)) = stack.pop() {
        match (b.left_child(), b.right_child(), b.leaf().letter()) {
            (Some(l), Some(r), None) => {
                let mut pl: Vec<bool> = path.clone();
                pl.push(false);
                let mut pr = path;
                pr.push(true);
                stack.push((r, pr));
                stack.push((l, pl));
            }
            (None, None, Some(x)) => {
                let path = if path.is_empty() { vec![false] } else { path };
                out.push(LeafAt { letter: x.clone(), path, code: b.leaf().code().map(to_bits), weight: b.leaf().weight() });
            }
            (l, r, x) => {
                return Err(format!(
                    "a branch has left child: {}, right child: {}, letter: {:?}",
                    l.is_some(), r.is_some(), x
                ))
            }
        }
    }
    Ok(out)
}

/// The tree as the format would describe it
pub fn to_spec<L: LtB>(root: &HuffBranch<L>) -> Result<SpecTree, String> {
    let toks = flat(root)?;
    let mut nodes = Vec::new();
    // joints waiting for children
    let mut stack: Vec<(usize, Option<usize>)> = Vec::new();
    for t in toks {
        let id = nodes.len();
        if t.joint {
            nodes.push(Node::Joint(0, 0));
            stack.push((id, None));
            continue;
        }
        let Some(l) = t.letter else { return Err("a leaf without a letter".into()) };
        nodes.push(Node::Leaf(l.be()));
        let mut done = id;
        while let Some((p, l)) = stack.pop() {
            match l {
                None => {
                    stack.push((p, Some(done)));
                    break;
                }
                Some(l) => {
                    nodes[p] = Node::Joint(l, done);
                    done = p;
                }
            }
        }
    }
    Ok(SpecTree { nodes })
}

/// The tree the library reads from the format's description of this tree
pub fn from_spec<L: LtB>(t: &SpecTree) -> Result<HuffTree<L>, String> {
    let bits = t.print();
    HuffTree::<L>::try_from_bin(to_bv(&bits))
        .map_err(|e| format!("a well-formed tree of {} leaves, depth {} was rejected: {e}", t.leaves(), t.depth()))
}

/// A hand-built tree with codes equal to the paths; leaves are (letter, weight) by number in `Leaf`
pub fn by_hand<L: HuffLetter>(t: &SpecTree, leaf: &dyn Fn(&[u8]) -> (L, usize)) -> HuffBranch<L> {
    // post-order over the arena
    let mut order = Vec::new();
    let mut stack = vec![(0usize, Vec::new())];
    while let Some((n, path)) = stack.pop() {
        if let Node::Joint(l, r) = &t.nodes[n] {
            let mut a: Vec<bool> = path.clone();
            a.push(false);
            let mut b: Vec<bool> = path.clone();
            b.push(true);
            stack.push((*l, a));
            stack.push((*r, b));
        }
        order.push((n, path));
    }
    let mut done: Vec<Option<HuffBranch<L>>> = (0..t.nodes.len()).map(|_| None).collect();
    for (n, path) in order.into_iter().rev() {
        let mut b = match &t.nodes[n] {
            Node::Joint(l, r) => {
                let (a, b) = (done[*l].take().unwrap(), done[*r].take().unwrap());
                let w = a.leaf().weight().wrapping_add(b.leaf().weight());
                HuffBranch::new(HuffLeaf::new(None, w), Some((a, b)))
            }
            Node::Leaf(x) => {
                let (l, w) = leaf(x);
                HuffBranch::new(HuffLeaf::new(Some(l), w), None)
            }
        };
        if n != 0 {
            b.set_code(to_bv(&path));
        } else if t.nodes.len() == 1 {
            b.set_code(to_bv(&[false]));
        }
        done[n] = Some(b);
    }
    done[0].take().unwrap()
}

/// A tree whose root is the given branch
pub fn tree_with_root<L: HuffLetter>(root: HuffBranch<L>, some_letter: L) -> HuffTree<L> {
    let mut t = HuffTree::from_weights(VecWeights(vec![(some_letter, 1)]));
    *t.root_mut() = root;
    t
}

/// A user-defined weights collection: just a list
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VecWeights<L>(pub Vec<(L, usize)>);

impl<L> IntoIterator for VecWeights<L> {
    type Item = (L, usize);
    type IntoIter = std::vec::IntoIter<(L, usize)>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<L: Eq + Clone> Weights<L> for VecWeights<L> {
    fn get(&self, l: &L) -> Option<&usize> {
        self.0.iter().find(|(x, _)| x == l).map(|(_, w)| w)
    }
    fn get_mut(&mut self, l: &L) -> Option<&mut usize> {
        self.0.iter_mut().find(|(x, _)| x == l).map(|(_, w)| w)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}

pub fn codes_vec<L: HuffLetter, S>(m: &std::collections::HashMap<L, Bits, S>) -> Vec<(L, Vec<bool>)> {
    m.iter().map(|(l, c)| (l.clone(), to_bits(c))).collect()
}

/// Both maps have the same letters with the same codes
pub fn same_codes<L: HuffLetter>(
    a: &std::collections::HashMap<L, Bits>,
    b: &std::collections::HashMap<L, Bits>,
) -> R {
    if a.len() != b.len() {
        return Err(format!("{} codes became {}", a.len(), b.len()));
    }
    for (l, c) in a {
        match b.get(l) {
            Some(d) if to_bits(c) == to_bits(d) => (),
            Some(d) => {
                return Err(format!("code of {l:?} was {} and became {}", crate::oracle::show(&to_bits(c)), crate::oracle::show(&to_bits(d))))
            }
            None => return Err(format!("letter {l:?} lost its code")),
        }
    }
    Ok(())
}
