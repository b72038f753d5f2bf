//! Persistent sparse binary Merkle trees: the reference model of an SSZ tree.
//! Zero sub-trees of any depth are virtual. All hashing here is independent of the code under test.

use sha2::{Digest, Sha256};
use std::sync::{Arc, OnceLock};

pub type H = [u8; 32];

#[derive(Clone, Debug)]
pub enum Node {
    /// Root of a full zero sub-tree of this depth (depth 0 is a zero leaf).
    Zero(u32),
    Leaf(H),
    Branch(Arc<(H, Node, Node)>),
}

pub fn hash2(a: &H, b: &H) -> H {
    let mut s = Sha256::new();
    s.update(a);
    s.update(b);
    s.finalize().into()
}

pub fn sha(data: &[u8]) -> H {
    Sha256::digest(data).into()
}

pub fn zero_hash(depth: u32) -> H {
    static T: OnceLock<Vec<H>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![[0u8; 32]];
        for i in 0..128 {
            let h = hash2(&v[i], &v[i]);
            v.push(h);
        }
        v
    })[depth as usize]
}

impl Node {
    pub fn root(&self) -> H {
        match self {
            Node::Zero(d) => zero_hash(*d),
            Node::Leaf(h) => *h,
            Node::Branch(b) => b.0,
        }
    }
    pub fn branch(l: Node, r: Node) -> Node {
        if let (Node::Zero(a), Node::Zero(b)) = (&l, &r) {
            if a == b {
                return Node::Zero(a + 1);
            }
        }
        let h = hash2(&l.root(), &r.root());
        Node::Branch(Arc::new((h, l, r)))
    }
    pub fn leaf(h: H) -> Node {
        if h == [0; 32] {
            Node::Zero(0)
        } else {
            Node::Leaf(h)
        }
    }
    pub fn u64(v: u64) -> Node {
        let mut h = [0; 32];
        h[..8].copy_from_slice(&v.to_le_bytes());
        Node::leaf(h)
    }
    pub fn children(&self) -> Option<(Node, Node)> {
        match self {
            Node::Zero(0) | Node::Leaf(_) => None,
            Node::Zero(d) => Some((Node::Zero(d - 1), Node::Zero(d - 1))),
            Node::Branch(b) => Some((b.1.clone(), b.2.clone())),
        }
    }
    pub fn is_leaf(&self) -> bool {
        matches!(self, Node::Zero(0) | Node::Leaf(_))
    }
    /// Node at a generalized index, None if the index points below a leaf.
    pub fn at(&self, gindex: u64) -> Option<Node> {
        if gindex == 0 {
            return None;
        }
        let depth = 63 - gindex.leading_zeros();
        let mut n = self.clone();
        for i in (0..depth).rev() {
            let (l, r) = n.children()?;
            n = if (gindex >> i) & 1 == 0 { l } else { r };
        }
        Some(n)
    }
    /// Tree with the node at `gindex` replaced (the path must exist).
    pub fn with(&self, gindex: u64, new: Node) -> Node {
        assert!(gindex > 0);
        let depth = 63 - gindex.leading_zeros();
        fn go(n: &Node, gindex: u64, depth: u32, new: Node) -> Node {
            if depth == 0 {
                return new;
            }
            let (l, r) = n.children().expect("path below a leaf");
            if (gindex >> (depth - 1)) & 1 == 0 {
                Node::branch(go(&l, gindex, depth - 1, new), r)
            } else {
                Node::branch(l, go(&r, gindex, depth - 1, new))
            }
        }
        go(self, gindex, depth, new)
    }
    /// Merkleization of a list of sub-trees padded with zero leaves to `2^depth`.
    pub fn merkleize(nodes: &[Node], depth: u32) -> Node {
        if nodes.is_empty() {
            return Node::Zero(depth);
        }
        let mut layer: Vec<Node> = nodes.to_vec();
        let mut d = 0;
        while layer.len() > 1 {
            let mut next = Vec::with_capacity(layer.len().div_ceil(2));
            for c in layer.chunks(2) {
                let r = if c.len() == 2 { c[1].clone() } else { Node::Zero(d) };
                next.push(Node::branch(c[0].clone(), r));
            }
            layer = next;
            d += 1;
        }
        assert!(d <= depth, "too many nodes");
        let mut n = layer.pop().unwrap();
        while d < depth {
            n = Node::branch(n, Node::Zero(d));
            d += 1;
        }
        n
    }
    /// A list: contents and length mix-in.
    pub fn list(nodes: &[Node], depth: u32, len: u64) -> Node {
        Node::branch(Node::merkleize(nodes, depth), Node::u64(len))
    }
}

/// Packs bytes into 32-byte leaves.
pub fn pack(bytes: &[u8]) -> Vec<Node> {
    bytes
        .chunks(32)
        .map(|c| {
            let mut h = [0; 32];
            h[..c.len()].copy_from_slice(c);
            Node::leaf(h)
        })
        .collect()
}

pub fn depth_for(leaves: u64) -> u32 {
    leaves.max(1).next_power_of_two().trailing_zeros()
}
