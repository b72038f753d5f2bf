//! Stand-in for `tree_hash`.
use alloy_primitives::B256;
pub type Hash256 = B256;
pub type PackedEncoding = smallvec::SmallVec<[u8; 32]>;
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum TreeHashType {
    Basic,
    Vector,
    List,
    Container,
}
pub trait TreeHash {
    fn tree_hash_type() -> TreeHashType;
    fn tree_hash_packed_encoding(&self) -> PackedEncoding;
    fn tree_hash_packing_factor() -> usize;
    fn tree_hash_root(&self) -> Hash256;
}
impl TreeHash for u64 {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Basic
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        PackedEncoding::from_slice(&self.to_le_bytes())
    }
    fn tree_hash_packing_factor() -> usize {
        4
    }
    fn tree_hash_root(&self) -> Hash256 {
        let mut b = [0; 32];
        b[..8].copy_from_slice(&self.to_le_bytes());
        B256::from(b)
    }
}
impl TreeHash for B256 {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        PackedEncoding::from_slice(&self[..])
    }
    fn tree_hash_packing_factor() -> usize {
        1
    }
    fn tree_hash_root(&self) -> Hash256 {
        *self
    }
}
/// Root of a container with the given field roots.
pub fn container_root(fields: &[Hash256]) -> Hash256 {
    let leaves: Vec<_> = fields.iter().map(|f| simtree::Node::leaf(f.0)).collect();
    B256::from(simtree::Node::merkleize(&leaves, simtree::depth_for(leaves.len() as u64)).root())
}
