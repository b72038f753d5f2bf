//! Stand-in for the bitfields of `ssz_types`.
use alloy_primitives::B256;
use ssz::{Decode, DecodeError, Encode};
use std::marker::PhantomData;
pub use typenum;
use typenum::Unsigned;

#[derive(Debug, PartialEq, Clone)]
pub enum Error {
    OutOfBounds { i: usize, len: usize },
    MissingLengthInformation,
    ExcessBits,
    InvalidByteCount { given: usize, expected: usize },
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

macro_rules! common { ($t:ident) => {
    impl<N: Unsigned> $t<N> {
        pub fn get(&self, i: usize) -> Result<bool, Error> {
            self.bits.get(i).copied().ok_or(Error::OutOfBounds { i, len: self.bits.len() })
        }
        pub fn set(&mut self, i: usize, value: bool) -> Result<(), Error> {
            let len = self.bits.len();
            *self.bits.get_mut(i).ok_or(Error::OutOfBounds { i, len })? = value;
            Ok(())
        }
        pub fn len(&self) -> usize {
            self.bits.len()
        }
        pub fn is_empty(&self) -> bool {
            self.bits.is_empty()
        }
        pub fn is_zero(&self) -> bool {
            !self.bits.iter().any(|b| *b)
        }
        pub fn iter(&self) -> impl Iterator<Item = bool> + '_ {
            self.bits.iter().copied()
        }
        pub fn num_set_bits(&self) -> usize {
            self.bits.iter().filter(|b| **b).count()
        }
        pub fn highest_set_bit(&self) -> Option<usize> {
            self.bits.iter().rposition(|b| *b)
        }
        pub fn max_len() -> usize {
            N::to_usize()
        }
        pub fn union(&self, other: &Self) -> Self {
            let n = self.len().max(other.len());
            let bits = (0..n).map(|i| self.get(i).unwrap_or(false) || other.get(i).unwrap_or(false)).collect();
            Self { bits, n: PhantomData }
        }
        pub fn intersection(&self, other: &Self) -> Self {
            let n = self.len().min(other.len());
            Self { bits: (0..n).map(|i| self.bits[i] && other.bits[i]).collect(), n: PhantomData }
        }
        pub fn is_subset(&self, other: &Self) -> bool {
            (0..self.len()).all(|i| !self.bits[i] || other.get(i).unwrap_or(false))
        }
    }
    impl<N> Clone for $t<N> {
        fn clone(&self) -> Self {
            Self { bits: self.bits.clone(), n: PhantomData }
        }
    }
    impl<N> PartialEq for $t<N> {
        fn eq(&self, o: &Self) -> bool {
            self.bits == o.bits
        }
    }
    impl<N> Eq for $t<N> {}
    impl<N> std::hash::Hash for $t<N> {
        fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
            self.bits.hash(h)
        }
    }
    impl<N> std::fmt::Debug for $t<N> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            for b in &self.bits {
                f.write_str(if *b { "1" } else { "0" })?;
            }
            Ok(())
        }
    }
} }
fn pack(bits: &[bool], extra: bool) -> Vec<u8> {
    let mut v = vec![0u8; (bits.len() + extra as usize).div_ceil(8)];
    for (i, b) in bits.iter().chain(extra.then_some(&true)).enumerate() {
        if *b {
            v[i / 8] |= 1 << (i % 8);
        }
    }
    v
}
fn unpack(b: &[u8]) -> Vec<bool> {
    (0..b.len() * 8).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect()
}

pub struct BitList<N> {
    bits: Vec<bool>,
    n: PhantomData<N>,
}
common!(BitList);
impl<N: Unsigned> BitList<N> {
    pub fn with_capacity(len: usize) -> Result<Self, Error> {
        if len > N::to_usize() {
            return Err(Error::OutOfBounds { i: len, len: N::to_usize() });
        }
        Ok(Self { bits: vec![false; len], n: PhantomData })
    }
    pub fn into_bytes(self) -> Vec<u8> {
        pack(&self.bits, true)
    }
    pub fn root(&self) -> B256 {
        let chunks = simtree::pack(&pack(&self.bits, false));
        let depth = simtree::depth_for(N::to_u64().div_ceil(256));
        B256::from(simtree::Node::list(&chunks, depth, self.bits.len() as u64).root())
    }
}
impl<N: Unsigned> Encode for BitList<N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        b.extend(pack(&self.bits, true))
    }
}
impl<N: Unsigned> Decode for BitList<N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        let bad = |m: &str| DecodeError::BytesInvalid(format!("BitList: {m}"));
        let last = *b.last().ok_or_else(|| bad("empty"))?;
        if last == 0 {
            return Err(bad("missing length information"));
        }
        let len = (b.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
        if len > N::to_usize() {
            return Err(bad("too long"));
        }
        let mut bits = unpack(b);
        bits.truncate(len);
        Ok(Self { bits, n: PhantomData })
    }
}

pub struct BitVector<N> {
    bits: Vec<bool>,
    n: PhantomData<N>,
}
common!(BitVector);
impl<N: Unsigned> BitVector<N> {
    pub fn new() -> Self {
        Self { bits: vec![false; N::to_usize()], n: PhantomData }
    }
    pub fn into_bytes(self) -> Vec<u8> {
        pack(&self.bits, false)
    }
}
impl<N: Unsigned> Default for BitVector<N> {
    fn default() -> Self {
        Self::new()
    }
}
impl<N: Unsigned> Encode for BitVector<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N::to_usize().div_ceil(8)
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        b.extend(pack(&self.bits, false))
    }
}
impl<N: Unsigned> Decode for BitVector<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N::to_usize().div_ceil(8)
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        let want = N::to_usize().div_ceil(8);
        if b.len() != want {
            return Err(DecodeError::InvalidByteLength { len: b.len(), expected: want });
        }
        let mut bits = unpack(b);
        if bits[N::to_usize()..].iter().any(|b| *b) {
            return Err(DecodeError::BytesInvalid("excess bits".into()));
        }
        bits.truncate(N::to_usize());
        Ok(Self { bits, n: PhantomData })
    }
}
