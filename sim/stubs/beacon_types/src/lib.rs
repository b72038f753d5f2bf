//! Stand-in for Lighthouse's `types` crate, written from the consensus specification: exactly the part
//! of it that the repository uses.
pub mod attestation;
mod chain_spec;
mod eth_spec;
mod slot_epoch;

pub use attestation::{Attestation, AttestationBase, AttestationData, AttestationElectra, AttestationRef};
pub use bls::{
    AggregateSignature, FixedBytesExtended, Hash256, Keypair, PublicKey, PublicKeyBytes, SecretKey, Signature, SignatureBytes,
};
pub use chain_spec::*;
pub use eth_spec::*;
pub use slot_epoch::{Epoch, Slot};
pub use ssz_types::{typenum::Unsigned, BitList, BitVector};

use ssz::{Decode, DecodeError, Encode};
use tree_hash::{container_root, PackedEncoding, TreeHash, TreeHashType};

pub type Root = Hash256;
pub type CommitteeIndex = u64;

#[derive(Debug, PartialEq, Clone)]
pub enum Error {
    InsufficientValidators,
    UnableToShuffle,
    InvalidBitfield,
    EpochOutOfBounds,
    SlotOutOfBounds,
    IncorrectStateVariant,
    ArithError(safe_arith::ArithError),
    SszTypesError(ssz_types::Error),
}
impl From<safe_arith::ArithError> for Error {
    fn from(e: safe_arith::ArithError) -> Self {
        Error::ArithError(e)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

/// Implements SSZ coding of a struct of fixed-size fields, and its tree hash root.
macro_rules! fixed_container {
    ($t:ty { $($f:ident: $ft:ty),* }) => {
        impl Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { 0 $(+ <$ft as Encode>::ssz_fixed_len())* }
            fn ssz_append(&self, b: &mut Vec<u8>) { $(self.$f.ssz_append(b);)* }
        }
        impl Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { <Self as Encode>::ssz_fixed_len() }
            #[allow(unused_assignments)]
            fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
                let expected = <Self as Encode>::ssz_fixed_len();
                if b.len() != expected { return Err(DecodeError::InvalidByteLength { len: b.len(), expected }); }
                let mut at = 0;
                $(let n = <$ft as Decode>::ssz_fixed_len();
                  let $f = <$ft as Decode>::from_ssz_bytes(&b[at..at + n])?;
                  at += n;)*
                Ok(Self { $($f),* })
            }
        }
        impl TreeHash for $t {
            fn tree_hash_type() -> TreeHashType { TreeHashType::Container }
            fn tree_hash_packed_encoding(&self) -> PackedEncoding { unreachable!("Struct should never be packed.") }
            fn tree_hash_packing_factor() -> usize { unreachable!("Struct should never be packed.") }
            fn tree_hash_root(&self) -> Hash256 { container_root(&[$(self.$f.tree_hash_root()),*]) }
        }
    };
}
pub(crate) use fixed_container;

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Checkpoint {
    pub epoch: Epoch,
    pub root: Hash256,
}
fixed_container!(Checkpoint { epoch: Epoch, root: Hash256 });

/// A fork version as it is hashed: four bytes in one chunk.
fn version_root(v: &[u8; 4]) -> Hash256 {
    let mut b = [0; 32];
    b[..4].copy_from_slice(v);
    b.into()
}
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash)]
pub struct Fork {
    pub previous_version: [u8; 4],
    pub current_version: [u8; 4],
    pub epoch: Epoch,
}
impl Fork {
    pub fn get_fork_version(&self, epoch: Epoch) -> [u8; 4] {
        if epoch < self.epoch {
            self.previous_version
        } else {
            self.current_version
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ForkData {
    pub current_version: [u8; 4],
    pub genesis_validators_root: Hash256,
}
impl ForkData {
    pub fn tree_hash_root(&self) -> Hash256 {
        container_root(&[version_root(&self.current_version), self.genesis_validators_root])
    }
}
pub struct SigningData {
    pub object_root: Hash256,
    pub domain: Hash256,
}
impl SigningData {
    pub fn tree_hash_root(&self) -> Hash256 {
        container_root(&[self.object_root, self.domain])
    }
}
pub trait SignedRoot: TreeHash {
    fn signing_root(&self, domain: Hash256) -> Hash256 {
        SigningData { object_root: self.tree_hash_root(), domain }.tree_hash_root()
    }
}

/// `compute_committee` index helpers.
pub fn compute_committee_index_in_epoch(slot: Slot, slots_per_epoch: usize, committees_per_slot: usize, committee_index: usize) -> usize {
    (slot.as_usize() % slots_per_epoch) * committees_per_slot + committee_index
}
pub fn compute_committee_range_in_epoch(epoch_committee_count: usize, index_in_epoch: usize, shuffling_len: usize) -> Option<std::ops::Range<usize>> {
    if epoch_committee_count == 0 || index_in_epoch >= epoch_committee_count {
        return None;
    }
    let start = (shuffling_len * index_in_epoch) / epoch_committee_count;
    let end = (shuffling_len * (index_in_epoch + 1)) / epoch_committee_count;
    Some(start..end)
}
pub fn epoch_committee_count(committees_per_slot: usize, slots_per_epoch: usize) -> usize {
    committees_per_slot * slots_per_epoch
}

/// The state of the in-process test chain (named by the repository, never built here).
#[derive(Debug, Clone, serde::Serialize)]
pub struct BeaconState<E> {
    current_justified: Checkpoint,
    finalized: Checkpoint,
    #[serde(skip)]
    _p: std::marker::PhantomData<fn() -> E>,
}
impl<E: EthSpec> BeaconState<E> {
    pub fn current_justified_checkpoint(&self) -> Checkpoint {
        self.current_justified
    }
    pub fn finalized_checkpoint(&self) -> Checkpoint {
        self.finalized
    }
    pub fn fork_name_unchecked(&self) -> ForkName {
        unimplemented!()
    }
}
