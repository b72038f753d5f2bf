use crate::{fixed_container, AggregateSignature, Checkpoint, EthSpec, Hash256, SignedRoot, Slot};
use ssz::{Decode, DecodeError, Encode};
use ssz_types::{BitList, BitVector};
use tree_hash::{container_root, PackedEncoding, TreeHash, TreeHashType};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct AttestationData {
    pub slot: Slot,
    pub index: u64,
    pub beacon_block_root: Hash256,
    pub source: Checkpoint,
    pub target: Checkpoint,
}
fixed_container!(AttestationData { slot: Slot, index: u64, beacon_block_root: Hash256, source: Checkpoint, target: Checkpoint });
impl SignedRoot for AttestationData {}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct AttestationBase<E: EthSpec> {
    pub aggregation_bits: BitList<E::MaxValidatorsPerCommittee>,
    pub data: AttestationData,
    pub signature: AggregateSignature,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct AttestationElectra<E: EthSpec> {
    pub aggregation_bits: BitList<E::MaxValidatorsPerSlot>,
    pub data: AttestationData,
    pub signature: AggregateSignature,
    pub committee_bits: BitVector<E::MaxCommitteesPerSlot>,
}
impl<E: EthSpec> AttestationElectra<E> {
    pub fn get_committee_indices(&self) -> Vec<u64> {
        self.committee_bits.iter().enumerate().filter_map(|(i, b)| b.then_some(i as u64)).collect()
    }
    pub fn committee_index(&self) -> Option<u64> {
        self.get_committee_indices().first().copied()
    }
    pub fn get_aggregation_bits(&self) -> Vec<u64> {
        self.aggregation_bits.iter().enumerate().filter_map(|(i, b)| b.then_some(i as u64)).collect()
    }
}

fn need(b: &[u8], n: usize) -> Result<(), DecodeError> {
    if b.len() < n {
        Err(DecodeError::InvalidByteLength { len: b.len(), expected: n })
    } else {
        Ok(())
    }
}
fn first_offset(b: &[u8], fixed: usize) -> Result<(), DecodeError> {
    let o = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
    if o < fixed {
        Err(DecodeError::OffsetIntoFixedPortion(o))
    } else if o > b.len() {
        Err(DecodeError::OffsetOutOfBounds(o))
    } else if o != fixed {
        Err(DecodeError::OffsetOutOfBounds(o))
    } else {
        Ok(())
    }
}
impl<E: EthSpec> Encode for AttestationElectra<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        let fixed = 4 + 128 + 96 + <BitVector<E::MaxCommitteesPerSlot> as Encode>::ssz_fixed_len();
        b.extend_from_slice(&(fixed as u32).to_le_bytes());
        self.data.ssz_append(b);
        self.signature.ssz_append(b);
        self.committee_bits.ssz_append(b);
        self.aggregation_bits.ssz_append(b);
    }
}
impl<E: EthSpec> Decode for AttestationElectra<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        let cb = <BitVector<E::MaxCommitteesPerSlot> as Encode>::ssz_fixed_len();
        let fixed = 4 + 128 + 96 + cb;
        need(b, fixed)?;
        first_offset(b, fixed)?;
        Ok(Self {
            data: AttestationData::from_ssz_bytes(&b[4..132])?,
            signature: AggregateSignature::from_ssz_bytes(&b[132..228])?,
            committee_bits: BitVector::from_ssz_bytes(&b[228..228 + cb])?,
            aggregation_bits: BitList::from_ssz_bytes(&b[fixed..])?,
        })
    }
}
impl<E: EthSpec> Encode for AttestationBase<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        b.extend_from_slice(&228u32.to_le_bytes());
        self.data.ssz_append(b);
        self.signature.ssz_append(b);
        self.aggregation_bits.ssz_append(b);
    }
}
impl<E: EthSpec> Decode for AttestationBase<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        need(b, 228)?;
        first_offset(b, 228)?;
        Ok(Self {
            data: AttestationData::from_ssz_bytes(&b[4..132])?,
            signature: AggregateSignature::from_ssz_bytes(&b[132..228])?,
            aggregation_bits: BitList::from_ssz_bytes(&b[228..])?,
        })
    }
}
impl<E: EthSpec> TreeHash for AttestationElectra<E> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Container
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!()
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!()
    }
    fn tree_hash_root(&self) -> Hash256 {
        let bytes = |v: &[u8]| {
            let c = simtree_pack(v);
            container_root(&c)
        };
        container_root(&[
            self.aggregation_bits.root(),
            self.data.tree_hash_root(),
            bytes(&self.signature.serialize()),
            bytes(&self.committee_bits.clone().into_bytes()),
        ])
    }
}
fn simtree_pack(v: &[u8]) -> Vec<Hash256> {
    v.chunks(32)
        .map(|c| {
            let mut b = [0; 32];
            b[..c.len()].copy_from_slice(c);
            b.into()
        })
        .collect()
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Attestation<E: EthSpec> {
    Base(AttestationBase<E>),
    Electra(AttestationElectra<E>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum AttestationRef<'a, E: EthSpec> {
    Base(&'a AttestationBase<E>),
    Electra(&'a AttestationElectra<E>),
}
use crate::Error;
macro_rules! accessors { ([$($g:tt)*] $t:ty) => {
    impl<$($g)* E: EthSpec> $t {
        pub fn data(&self) -> &AttestationData {
            match self { Self::Base(a) => &a.data, Self::Electra(a) => &a.data }
        }
        pub fn signature(&self) -> &AggregateSignature {
            match self { Self::Base(a) => &a.signature, Self::Electra(a) => &a.signature }
        }
        pub fn as_electra(&self) -> Result<&AttestationElectra<E>, Error> {
            match self { Self::Electra(a) => Ok(a), _ => Err(Error::IncorrectStateVariant) }
        }
        pub fn as_base(&self) -> Result<&AttestationBase<E>, Error> {
            match self { Self::Base(a) => Ok(a), _ => Err(Error::IncorrectStateVariant) }
        }
        pub fn is_aggregation_bits_zero(&self) -> bool {
            match self { Self::Base(a) => a.aggregation_bits.is_zero(), Self::Electra(a) => a.aggregation_bits.is_zero() }
        }
        pub fn num_set_aggregation_bits(&self) -> usize {
            match self { Self::Base(a) => a.aggregation_bits.num_set_bits(), Self::Electra(a) => a.aggregation_bits.num_set_bits() }
        }
        pub fn committee_index(&self) -> Option<u64> {
            match self { Self::Base(a) => Some(a.data.index), Self::Electra(a) => a.committee_index() }
        }
    }
} }
accessors!([] Attestation<E>);
accessors!(['a, ] AttestationRef<'a, E>);
impl<E: EthSpec> Attestation<E> {
    pub fn to_ref(&self) -> AttestationRef<'_, E> {
        match self {
            Self::Base(a) => AttestationRef::Base(a),
            Self::Electra(a) => AttestationRef::Electra(a),
        }
    }
    pub fn as_electra_mut(&mut self) -> Result<&mut AttestationElectra<E>, Error> {
        match self {
            Self::Electra(a) => Ok(a),
            _ => Err(Error::IncorrectStateVariant),
        }
    }
    pub fn data_mut(&mut self) -> &mut AttestationData {
        match self {
            Self::Base(a) => &mut a.data,
            Self::Electra(a) => &mut a.data,
        }
    }
}
impl<'a, E: EthSpec> AttestationRef<'a, E> {
    pub fn clone_as_attestation(self) -> Attestation<E> {
        match self {
            Self::Base(a) => Attestation::Base(a.clone()),
            Self::Electra(a) => Attestation::Electra(a.clone()),
        }
    }
}
impl<E: EthSpec> From<AttestationElectra<E>> for Attestation<E> {
    fn from(a: AttestationElectra<E>) -> Self {
        Attestation::Electra(a)
    }
}
impl<E: EthSpec> From<AttestationBase<E>> for Attestation<E> {
    fn from(a: AttestationBase<E>) -> Self {
        Attestation::Base(a)
    }
}

/// The self-describing encoding: a selector byte and the attestation.
#[derive(Debug, Clone, PartialEq)]
pub enum AttestationOnDisk<E: EthSpec> {
    Base(AttestationBase<E>),
    Electra(AttestationElectra<E>),
}
#[derive(Debug, Clone, PartialEq)]
pub enum AttestationRefOnDisk<'a, E: EthSpec> {
    Base(&'a AttestationBase<E>),
    Electra(&'a AttestationElectra<E>),
}
impl<'a, E: EthSpec> From<AttestationRef<'a, E>> for AttestationRefOnDisk<'a, E> {
    fn from(a: AttestationRef<'a, E>) -> Self {
        match a {
            AttestationRef::Base(a) => Self::Base(a),
            AttestationRef::Electra(a) => Self::Electra(a),
        }
    }
}
impl<E: EthSpec> From<Attestation<E>> for AttestationOnDisk<E> {
    fn from(a: Attestation<E>) -> Self {
        match a {
            Attestation::Base(a) => Self::Base(a),
            Attestation::Electra(a) => Self::Electra(a),
        }
    }
}
impl<E: EthSpec> From<AttestationOnDisk<E>> for Attestation<E> {
    fn from(a: AttestationOnDisk<E>) -> Self {
        match a {
            AttestationOnDisk::Base(a) => Self::Base(a),
            AttestationOnDisk::Electra(a) => Self::Electra(a),
        }
    }
}
impl<E: EthSpec> Encode for AttestationRefOnDisk<'_, E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        match self {
            Self::Base(a) => {
                b.push(0);
                a.ssz_append(b)
            }
            Self::Electra(a) => {
                b.push(1);
                a.ssz_append(b)
            }
        }
    }
}
impl<E: EthSpec> Encode for AttestationOnDisk<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        match self {
            Self::Base(a) => AttestationRefOnDisk::Base(a).ssz_append(b),
            Self::Electra(a) => AttestationRefOnDisk::Electra(a).ssz_append(b),
        }
    }
}
impl<E: EthSpec> Decode for AttestationOnDisk<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        match b.split_first() {
            None => Err(DecodeError::OutOfBoundsByte { i: 0 }),
            Some((0, r)) => AttestationBase::from_ssz_bytes(r).map(Self::Base),
            Some((1, r)) => AttestationElectra::from_ssz_bytes(r).map(Self::Electra),
            Some((s, _)) => Err(DecodeError::UnionSelectorInvalid(*s)),
        }
    }
}
