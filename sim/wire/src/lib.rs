//! Reference model: frontiers of a tree, the wire form of a multiproof, and an independent reader.
use bitvec::prelude::*;
use serde::{Deserialize, Serialize};
use simkit::{Ctx, Rng};
use simtree::{hash2, Node, H};

pub type Bits = BitVec<u32, Lsb0>;

/// Same fields in the same order as the proof type, for crafting and inspecting wire bytes.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Wire {
    pub data: Vec<u8>,
    pub value_mask: Bits,
    pub descriptor: Bits,
    pub max_stack_depth: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Codec {
    Bincode,
    Postcard,
}

impl Wire {
    pub fn encode(&self, c: Codec) -> Vec<u8> {
        match c {
            Codec::Bincode => bincode::serialize(self).unwrap(),
            Codec::Postcard => postcard::to_stdvec(self).unwrap(),
        }
    }
    pub fn leaves(&self) -> usize {
        self.descriptor.count_ones()
    }
}

/// A node position as the path from the root (true = right), of any depth.
pub type PathBits = Vec<bool>;

pub fn gindex(p: &[bool]) -> Option<u64> {
    if p.len() > 63 {
        return None;
    }
    Some(p.iter().fold(1u64, |g, b| g * 2 + *b as u64))
}

/// Independent reading of a proof: positions and nodes in tree order and the root they imply.
/// None when the descriptor is not exactly one full binary tree or nodes are missing.
pub fn reference_read(w: &Wire) -> Option<(Vec<(PathBits, H)>, H)> {
    let bits: Vec<bool> = w.descriptor.iter().map(|b| *b).collect();
    let mut out = vec![];
    let mut leaf = 0usize;
    // explicit stack of partially built internal nodes: (left hash once known)
    let mut stack: Vec<Option<H>> = vec![];
    let mut path: PathBits = vec![];
    let mut done: Option<H> = None;
    for b in bits {
        if done.is_some() {
            return None; // trailing bits
        }
        if !b {
            stack.push(None);
            path.push(false);
            continue;
        }
        let h: H = w.data.get(leaf * 32..leaf * 32 + 32)?.try_into().unwrap();
        leaf += 1;
        out.push((path.clone(), h));
        let mut cur = h;
        loop {
            match stack.pop() {
                None => {
                    done = Some(cur);
                    break;
                }
                Some(None) => {
                    stack.push(Some(cur));
                    *path.last_mut().unwrap() = true;
                    break;
                }
                Some(Some(l)) => {
                    cur = hash2(&l, &cur);
                    path.pop();
                }
            }
        }
    }
    Some((out, done?))
}

/// A random tree. Kinds: balanced-ish, spine (very deep), list-like with virtual zeros, repetitive.
pub fn random_tree(ctx: &mut Ctx, allow_very_deep: bool) -> (Node, &'static str) {
    let kind = ctx.t.below(if allow_very_deep { 5 } else { 4 });
    let mut r = ctx.t.fork();
    match kind {
        0 => {
            let d = 1 + ctx.t.below(6) as u32;
            let m = ctx.t.below(3);
            let t = grow(&mut r, d, m);
            (if t.is_leaf() { Node::branch(t, small(&mut r)) } else { t }, "bushy")
        }
        1 => {
            // list-like: a few leaves in a large virtual tree
            let depth = *ctx.t.pick(&[4u32, 6, 16, 24, 40, 50, 60]);
            let n = 1 + ctx.t.below(if depth < 8 { 12 } else { 40 });
            let mut t = Node::Zero(depth);
            for _ in 0..n {
                let base = 1u64 << depth;
                let i = match r.below(3) {
                    0 => r.below(base.min(16)),
                    1 => base - 1 - r.below(base.min(16)),
                    _ => r.below(base),
                };
                let mut h: H = r.bytes();
                if r.below(4) == 0 {
                    h = [r.below(3) as u8; 32];
                }
                t = t.with(base + i, Node::leaf(h));
            }
            (t, "sparse")
        }
        2 => {
            // repeated sub-trees: equal nodes at many positions
            let a = Node::branch(grow(&mut r, 1, 2), small(&mut r));
            let mut t = a.clone();
            for _ in 0..1 + ctx.t.below(5) {
                let other = if r.below(2) == 0 { a.clone() } else { t.clone() };
                t = if r.below(2) == 0 { Node::branch(t, other) } else { Node::branch(other, t) };
            }
            (t, "repeated")
        }
        3 => {
            let len = 2 + ctx.t.below(60) as u32;
            (spine(&mut r, len), "spine")
        }
        _ => {
            let len = 58 + ctx.t.below(90) as u32;
            (spine(&mut r, len), "over-deep")
        }
    }
}

fn small(r: &mut Rng) -> Node {
    Node::leaf(match r.below(3) {
        0 => [r.below(2) as u8; 32],
        _ => r.bytes(),
    })
}

fn grow(r: &mut Rng, depth: u32, mode: u64) -> Node {
    if depth == 0 || (mode > 0 && r.below(6) < mode) {
        return small(r);
    }
    let a = grow(r, depth - 1, mode);
    let b = grow(r, depth - 1, mode);
    Node::branch(a, b)
}

fn spine(r: &mut Rng, len: u32) -> Node {
    let style = r.below(4);
    let mut t = Node::branch(small(r), small(r));
    for i in 0..len {
        let side = match style {
            0 => false,
            1 => true,
            2 => i % 2 == 0,
            _ => r.below(2) == 0,
        };
        let s = if r.below(5) == 0 { grow(r, 2, 1) } else { small(r) };
        t = if side { Node::branch(s, t) } else { Node::branch(t, s) };
    }
    t
}

/// A random frontier: a set of nodes that cuts every root-to-leaf path exactly once.
pub fn frontier(r: &mut Rng, t: &Node, stop: u64, max: usize) -> Vec<(PathBits, H)> {
    let mut out = vec![];
    let mut stack: Vec<(PathBits, Node)> = vec![(vec![], t.clone())];
    let mut budget = max;
    while let Some((p, n)) = stack.pop() {
        let open = p.is_empty() || (r.below(16) >= stop && budget > 0);
        match n.children() {
            Some((l, rr)) if open => {
                budget = budget.saturating_sub(1);
                let mut a = p.clone();
                a.push(true);
                stack.push((a, rr));
                let mut b = p;
                b.push(false);
                stack.push((b, l));
            }
            _ => out.push((p, n.root())),
        }
    }
    out
}

/// Independent encoder: the compact multiproof of a frontier given in tree order.
pub fn encode_frontier(f: &[(PathBits, H)], mask: &[bool]) -> Wire {
    let mut descriptor = Bits::new();
    let mut data = vec![];
    // pre-order walk over the tree spanned by the frontier
    let mut prev: Option<&PathBits> = None;
    for (p, h) in f {
        // length of the common prefix with the previous leaf: internal nodes below it are new
        let from = match prev {
            None => 0,
            Some(q) => {
                let c = p.iter().zip(q.iter()).take_while(|(a, b)| a == b).count();
                c + 1
            }
        };
        for _ in from..p.len() {
            descriptor.push(false);
        }
        descriptor.push(true);
        data.extend_from_slice(h);
        prev = Some(p);
    }
    let max = f.iter().map(|(p, _)| p.len()).max().unwrap_or(0) * 2 + 2;
    Wire { data, value_mask: mask.iter().collect(), descriptor, max_stack_depth: max }
}

/// Pre-order comparison of positions none of which is above another.
pub fn tree_order(a: u64, b: u64) -> std::cmp::Ordering {
    let la = 63 - a.leading_zeros();
    let lb = 63 - b.leading_zeros();
    let m = la.min(lb);
    (a >> (la - m)).cmp(&(b >> (lb - m))).then(la.cmp(&lb))
}

pub fn is_ancestor(a: u64, b: u64) -> bool {
    let la = a.leading_zeros();
    let lb = b.leading_zeros();
    la > lb && (b >> (la - lb)) == a || a == b
}

/// The honest prover of the model: the smallest proof of the given positions, in tree order.
/// Positions below a leaf, or below another requested one, are left out.
pub fn prove_frontier(t: &Node, gindices: &[u64]) -> (Vec<(PathBits, H)>, Vec<bool>) {
    fn go(n: &Node, here: u64, depth: u32, want: &[u64], path: &mut PathBits, out: &mut (Vec<(PathBits, H)>, Vec<bool>)) {
        if want.contains(&here) || want.is_empty() || n.is_leaf() {
            out.0.push((path.clone(), n.root()));
            out.1.push(want.contains(&here));
            return;
        }
        let (l, r) = n.children().unwrap();
        let side = |g: u64| {
            let d = 63 - g.leading_zeros();
            (g >> (d - depth - 1)) & 1
        };
        let (a, b): (Vec<u64>, Vec<u64>) = want.iter().partition(|g| side(**g) == 0);
        path.push(false);
        go(&l, here * 2, depth + 1, &a, path, out);
        *path.last_mut().unwrap() = true;
        go(&r, here * 2 + 1, depth + 1, &b, path, out);
        path.pop();
    }
    let mut out = (vec![], vec![]);
    go(t, 1, 0, gindices, &mut vec![], &mut out);
    out
}
pub fn prove(t: &Node, gindices: &[u64]) -> Wire {
    let (f, m) = prove_frontier(t, gindices);
    encode_frontier(&f, &m)
}
