//! Independent oracles, written from the documentation of the formats.
//! Everything here is iterative, so that hostile inputs cannot overflow the harness itself.

/// Minimum total weighted code length (two-queue Huffman). A lone letter has a 1-bit code.
pub fn optimal_cost(weights: &[u128]) -> u128 {
    assert!(!weights.is_empty());
    if weights.len() == 1 {
        return weights[0];
    }
    let mut leaves = weights.to_vec();
    leaves.sort_unstable();
    let mut joints: Vec<u128> = Vec::with_capacity(leaves.len());
    let (mut i, mut j) = (0, 0);
    let mut cost = 0u128;
    for _ in 1..leaves.len() {
        let mut take = || {
            if i < leaves.len() && (j >= joints.len() || leaves[i] <= joints[j]) {
                i += 1;
                leaves[i - 1]
            } else {
                j += 1;
                joints[j - 1]
            }
        };
        let s = take() + take();
        joints.push(s);
        cost += s;
    }
    cost
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Joint(usize, usize),
    /// the letter's big-endian bytes
    Leaf(Vec<u8>),
}

/// A tree as an arena; node 0 is the root
#[derive(Clone, Debug)]
pub struct SpecTree {
    pub nodes: Vec<Node>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Malformed {
    TooShort,
    TooLong,
}

impl SpecTree {
    /// Parse exactly all bits: 1 = joint (left, right), 0 = letter of letter_bytes bytes
    pub fn parse(bits: &[bool], letter_bytes: usize) -> Result<SpecTree, Malformed> {
        let mut nodes: Vec<Node> = Vec::new();
        // joints waiting for children: (node, left child or MAX)
        let mut stack: Vec<(usize, usize)> = Vec::new();
        let mut pos = 0;
        loop {
            let b = *bits.get(pos).ok_or(Malformed::TooShort)?;
            pos += 1;
            let id = nodes.len();
            if b {
                nodes.push(Node::Joint(usize::MAX, usize::MAX));
                stack.push((id, usize::MAX));
                continue;
            }
            if pos + letter_bytes * 8 > bits.len() {
                return Err(Malformed::TooShort);
            }
            let letter = pack(&bits[pos..pos + letter_bytes * 8]).0;
            pos += letter_bytes * 8;
            nodes.push(Node::Leaf(letter));
            // attach
            let mut done = id;
            loop {
                match stack.pop() {
                    None => {
                        if pos != bits.len() {
                            return Err(Malformed::TooLong);
                        }
                        return Ok(SpecTree { nodes });
                    }
                    Some((p, usize::MAX)) => {
                        stack.push((p, done));
                        break;
                    }
                    Some((p, l)) => {
                        nodes[p] = Node::Joint(l, done);
                        done = p;
                    }
                }
            }
        }
    }

    pub fn print(&self) -> Vec<bool> {
        let mut out = Vec::new();
        let mut stack = vec![0usize];
        while let Some(n) = stack.pop() {
            match &self.nodes[n] {
                Node::Joint(l, r) => {
                    out.push(true);
                    stack.push(*r);
                    stack.push(*l);
                }
                Node::Leaf(b) => {
                    out.push(false);
                    out.extend(bits_of(b));
                }
            }
        }
        out
    }

    /// (letter bytes, code) per leaf, in left-to-right order. A lone leaf has code 0.
    pub fn codes(&self) -> Vec<(Vec<u8>, Vec<bool>)> {
        let mut out = Vec::new();
        if let Node::Leaf(b) = &self.nodes[0] {
            return vec![(b.clone(), vec![false])];
        }
        let mut stack = vec![(0usize, Vec::new())];
        while let Some((n, path)) = stack.pop() {
            match &self.nodes[n] {
                Node::Joint(l, r) => {
                    let mut pr: Vec<bool> = path.clone();
                    pr.push(true);
                    let mut pl = path;
                    pl.push(false);
                    stack.push((*r, pr));
                    stack.push((*l, pl));
                }
                Node::Leaf(b) => out.push((b.clone(), path)),
            }
        }
        out
    }

    pub fn depth(&self) -> usize {
        let mut max = 0;
        let mut stack = vec![(0usize, 0usize)];
        while let Some((n, d)) = stack.pop() {
            max = max.max(d);
            if let Node::Joint(l, r) = &self.nodes[n] {
                stack.push((*l, d + 1));
                stack.push((*r, d + 1));
            }
        }
        max
    }

    pub fn leaves(&self) -> usize {
        self.nodes.iter().filter(|n| matches!(n, Node::Leaf(_))).count()
    }

    pub fn letters_distinct(&self) -> bool {
        let mut set = std::collections::HashSet::new();
        self.nodes.iter().all(|n| match n {
            Node::Leaf(b) => set.insert(b.clone()),
            _ => true,
        })
    }

    /// Decode bits to letters (as bytes); bits left over at the end are ignored
    pub fn decode(&self, bits: impl Iterator<Item = bool>) -> Vec<Vec<u8>> {
        let mut out = Vec::new();
        self.decode_with(bits, |b| out.push(b.to_vec()));
        out
    }

    pub fn decode_with(&self, bits: impl Iterator<Item = bool>, mut f: impl FnMut(&[u8])) {
        let mut cur = 0usize;
        for b in bits {
            if let Node::Joint(l, r) = &self.nodes[cur] {
                cur = if b { *r } else { *l };
            }
            if let Node::Leaf(letter) = &self.nodes[cur] {
                f(letter);
                cur = 0;
            }
        }
    }
}

pub fn bits_of(bytes: &[u8]) -> Vec<bool> {
    let mut v = Vec::with_capacity(bytes.len() * 8);
    for b in bytes {
        for i in (0..8).rev() {
            v.push(b >> i & 1 == 1);
        }
    }
    v
}

pub fn bit_iter(bytes: &[u8], drop_last: usize) -> impl Iterator<Item = bool> + '_ {
    let n = (bytes.len() * 8).saturating_sub(drop_last);
    (0..n).map(move |i| bytes[i / 8] >> (7 - i % 8) & 1 == 1)
}

/// Pack bits MSB first; returns (bytes, number of padding bits)
pub fn pack(bits: &[bool]) -> (Vec<u8>, u8) {
    let mut v = vec![0u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            v[i / 8] |= 0x80 >> (i % 8);
        }
    }
    let pad = v.len() * 8 - bits.len();
    (v, pad as u8)
}

/// The documented container: padding nibbles, 4-byte tree length, tree, data
#[derive(Debug, Clone)]
pub struct Container {
    pub tree_pad: u8,
    pub data_pad: u8,
    pub tree_bytes: Vec<u8>,
    pub data: Vec<u8>,
    pub tree: SpecTree,
}

pub fn parse_container(bytes: &[u8], letter_bytes: usize) -> Result<Container, &'static str> {
    if bytes.len() < 5 {
        return Err("shorter than the header");
    }
    let (tree_pad, data_pad) = (bytes[0] >> 4, bytes[0] & 15);
    if tree_pad > 7 || data_pad > 7 {
        return Err("more than 7 padding bits");
    }
    let tree_len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]) as usize;
    let rest = &bytes[5..];
    if rest.len() < tree_len {
        return Err("tree is cut short");
    }
    if rest.len() == tree_len {
        return Err("no data");
    }
    let tree_bytes = rest[..tree_len].to_vec();
    let bits: Vec<bool> = bit_iter(&tree_bytes, tree_pad as usize).collect();
    let tree = SpecTree::parse(&bits, letter_bytes).map_err(|_| "malformed tree")?;
    Ok(Container { tree_pad, data_pad, tree_bytes, data: rest[tree_len..].to_vec(), tree })
}

impl Container {
    pub fn decode_bytes(&self) -> Vec<u8> {
        let mut out = Vec::new();
        self.tree.decode_with(bit_iter(&self.data, self.data_pad as usize), |l| out.push(l[0]));
        out
    }
    pub fn decode(&self) -> Vec<Vec<u8>> {
        self.tree.decode(bit_iter(&self.data, self.data_pad as usize))
    }
    /// Neither nesting nor letters that a producer could not have written for 1-byte letters
    pub fn ordinary(&self) -> bool {
        self.tree.depth() <= 255 && self.tree.letters_distinct()
    }
}

pub fn build_container(tree: &SpecTree, data_bits: &[bool]) -> Vec<u8> {
    let (tb, tp) = pack(&tree.print());
    let (db, dp) = pack(data_bits);
    let mut v = vec![tp << 4 | dp];
    v.extend((tb.len() as u32).to_be_bytes());
    v.extend(tb);
    v.extend(db);
    v
}

/// Does this set of codes form a complete prefix code? (two or more codes)
pub fn check_prefix_code(codes: &[Vec<bool>]) -> Result<(), String> {
    // trie: child indices, 0 = none; usize::MAX in both = leaf
    let mut trie: Vec<[usize; 2]> = vec![[0, 0]];
    let mut leaf: Vec<bool> = vec![false];
    for c in codes {
        if c.is_empty() {
            return Err("empty code".into());
        }
        let mut n = 0;
        for (i, b) in c.iter().enumerate() {
            if leaf[n] {
                return Err(format!("another code is a prefix of {}", show(c)));
            }
            let b = *b as usize;
            if trie[n][b] == 0 {
                trie.push([0, 0]);
                leaf.push(false);
                trie[n][b] = trie.len() - 1;
            } else if i + 1 == c.len() {
                return Err(format!("{} is a prefix of (or equal to) another code", show(c)));
            }
            n = trie[n][b];
        }
        leaf[n] = true;
    }
    for (n, t) in trie.iter().enumerate() {
        if !leaf[n] && (t[0] == 0 || t[1] == 0) {
            return Err("the code is not complete: some bit string is unused".into());
        }
    }
    Ok(())
}

pub fn show(bits: &[bool]) -> String {
    let mut s: String = bits.iter().take(200).map(|b| if *b { '1' } else { '0' }).collect();
    if bits.len() > 200 {
        s.push_str(&format!("...({} bits)", bits.len()));
    }
    s
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn t() {
        assert_eq!(optimal_cost(&[5, 9, 12, 13, 16, 45]), 224);
        let t = SpecTree { nodes: vec![Node::Joint(1, 2), Node::Leaf(vec![7]), Node::Leaf(vec![255])] };
        let p = t.print();
        assert_eq!(SpecTree::parse(&p, 1).unwrap().print(), p);
        assert_eq!(SpecTree::parse(&p[..p.len() - 1], 1).unwrap_err(), Malformed::TooShort);
        assert!(check_prefix_code(&[vec![false], vec![true, false], vec![true, true]]).is_ok());
        assert!(check_prefix_code(&[vec![false], vec![true, false]]).is_err());
        assert!(check_prefix_code(&[vec![false], vec![false, false], vec![true]]).is_err());
        let c = build_container(&t, &[true, false, true]);
        assert_eq!(parse_container(&c, 1).unwrap().decode_bytes(), vec![255, 7, 255]);
    }
}
