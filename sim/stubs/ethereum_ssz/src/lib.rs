//! Stand-in for `ethereum_ssz`: the encoding traits and the types the simulator needs.
use alloy_primitives::FixedBytes;
pub const BYTES_PER_LENGTH_OFFSET: usize = 4;

#[derive(Debug, PartialEq, Clone)]
pub enum DecodeError {
    InvalidByteLength { len: usize, expected: usize },
    OutOfBoundsByte { i: usize },
    OffsetIntoFixedPortion(usize),
    OffsetOutOfBounds(usize),
    OffsetsAreDecreasing(usize),
    UnionSelectorInvalid(u8),
    BytesInvalid(String),
    NoMatchingVariant,
}
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DecodeError {}

pub trait Encode {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn ssz_append(&self, buf: &mut Vec<u8>);
    fn ssz_bytes_len(&self) -> usize {
        self.as_ssz_bytes().len()
    }
    fn as_ssz_bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        self.ssz_append(&mut v);
        v
    }
}
pub trait Decode: Sized {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>;
}
macro_rules! ints { ($($t:ty),*) => {$(
    impl Encode for $t {
        fn is_ssz_fixed_len() -> bool { true }
        fn ssz_fixed_len() -> usize { std::mem::size_of::<$t>() }
        fn ssz_append(&self, b: &mut Vec<u8>) { b.extend_from_slice(&self.to_le_bytes()) }
    }
    impl Decode for $t {
        fn is_ssz_fixed_len() -> bool { true }
        fn ssz_fixed_len() -> usize { std::mem::size_of::<$t>() }
        fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
            let n = std::mem::size_of::<$t>();
            Ok(<$t>::from_le_bytes(b.try_into().map_err(|_| DecodeError::InvalidByteLength { len: b.len(), expected: n })?))
        }
    }
)*} }
ints!(u8, u16, u32, u64, usize);
impl<const N: usize> Encode for FixedBytes<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn ssz_append(&self, b: &mut Vec<u8>) {
        b.extend_from_slice(&self[..])
    }
}
impl<const N: usize> Decode for FixedBytes<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        if b.len() != N {
            return Err(DecodeError::InvalidByteLength { len: b.len(), expected: N });
        }
        Ok(FixedBytes::from_slice(b))
    }
}
