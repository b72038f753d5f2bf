use safe_arith::{ArithError, SafeArith};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use ssz::{Decode, DecodeError, Encode};
use std::fmt;
use std::ops::*;
use tree_hash::{Hash256, PackedEncoding, TreeHash, TreeHashType};

#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Slot(u64);
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Epoch(u64);

macro_rules! common {
    ($t:ident) => {
        impl $t {
            pub const fn new(v: u64) -> Self {
                Self(v)
            }
            pub fn as_u64(self) -> u64 {
                self.0
            }
            pub fn as_usize(self) -> usize {
                self.0 as usize
            }
            pub fn max_value() -> Self {
                Self(u64::MAX)
            }
            pub fn saturating_add<T: Into<$t>>(&self, o: T) -> Self {
                Self(self.0.saturating_add(o.into().0))
            }
            pub fn saturating_sub<T: Into<$t>>(&self, o: T) -> Self {
                Self(self.0.saturating_sub(o.into().0))
            }
            pub fn is_power_of_two(&self) -> bool {
                self.0.is_power_of_two()
            }
            pub fn ssz_bytes_len() -> usize {
                8
            }
        }
        impl From<u64> for $t {
            fn from(v: u64) -> Self {
                Self(v)
            }
        }
        impl From<$t> for u64 {
            fn from(v: $t) -> u64 {
                v.0
            }
        }
        impl PartialEq<u64> for $t {
            fn eq(&self, o: &u64) -> bool {
                self.0 == *o
            }
        }
        impl PartialOrd<u64> for $t {
            fn partial_cmp(&self, o: &u64) -> Option<std::cmp::Ordering> {
                self.0.partial_cmp(o)
            }
        }
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.0)
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}({:?})", stringify!($t), self.0)
            }
        }
        impl std::str::FromStr for $t {
            type Err = std::num::ParseIntError;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                Ok(Self(s.parse()?))
            }
        }
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_str(&self.0.to_string())
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let s = String::deserialize(d)?;
                s.parse().map_err(serde::de::Error::custom)
            }
        }
        impl Encode for $t {
            fn is_ssz_fixed_len() -> bool {
                true
            }
            fn ssz_fixed_len() -> usize {
                8
            }
            fn ssz_append(&self, b: &mut Vec<u8>) {
                self.0.ssz_append(b)
            }
        }
        impl Decode for $t {
            fn is_ssz_fixed_len() -> bool {
                true
            }
            fn ssz_fixed_len() -> usize {
                8
            }
            fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
                u64::from_ssz_bytes(b).map(Self)
            }
        }
        impl TreeHash for $t {
            fn tree_hash_type() -> TreeHashType {
                TreeHashType::Basic
            }
            fn tree_hash_packed_encoding(&self) -> PackedEncoding {
                self.0.tree_hash_packed_encoding()
            }
            fn tree_hash_packing_factor() -> usize {
                4
            }
            fn tree_hash_root(&self) -> Hash256 {
                self.0.tree_hash_root()
            }
        }
        arith!($t, $t);
        arith!($t, u64);
        impl Shl<u32> for $t {
            type Output = Self;
            fn shl(self, o: u32) -> Self {
                Self(self.0 << o)
            }
        }
    };
}
/// Operators saturate, as Lighthouse's `legacy-arith` ones do.
macro_rules! arith {
    ($t:ident, $o:ident) => {
        impl Add<$o> for $t {
            type Output = $t;
            fn add(self, o: $o) -> $t {
                $t(self.0.saturating_add(u64::from(o)))
            }
        }
        impl Sub<$o> for $t {
            type Output = $t;
            fn sub(self, o: $o) -> $t {
                $t(self.0.saturating_sub(u64::from(o)))
            }
        }
        impl Mul<$o> for $t {
            type Output = $t;
            fn mul(self, o: $o) -> $t {
                $t(self.0.saturating_mul(u64::from(o)))
            }
        }
        impl Div<$o> for $t {
            type Output = $t;
            fn div(self, o: $o) -> $t {
                let r = u64::from(o);
                if r == 0 {
                    panic!("Cannot divide by zero-valued Slot/Epoch")
                }
                $t(self.0 / r)
            }
        }
        impl Rem<$o> for $t {
            type Output = $t;
            fn rem(self, o: $o) -> $t {
                let r = u64::from(o);
                if r == 0 {
                    panic!("Cannot divide by zero-valued Slot/Epoch")
                }
                $t(self.0 % r)
            }
        }
        impl AddAssign<$o> for $t {
            fn add_assign(&mut self, o: $o) {
                *self = *self + o
            }
        }
        impl SubAssign<$o> for $t {
            fn sub_assign(&mut self, o: $o) {
                *self = *self - o
            }
        }
        impl MulAssign<$o> for $t {
            fn mul_assign(&mut self, o: $o) {
                *self = *self * o
            }
        }
        impl DivAssign<$o> for $t {
            fn div_assign(&mut self, o: $o) {
                *self = *self / o
            }
        }
        impl RemAssign<$o> for $t {
            fn rem_assign(&mut self, o: $o) {
                *self = *self % o
            }
        }
        impl SafeArith<$o> for $t {
            const ZERO: Self = $t(0);
            const ONE: Self = $t(1);
            fn safe_add(&self, o: $o) -> Result<Self, ArithError> {
                self.0.safe_add(u64::from(o)).map($t)
            }
            fn safe_sub(&self, o: $o) -> Result<Self, ArithError> {
                self.0.safe_sub(u64::from(o)).map($t)
            }
            fn safe_mul(&self, o: $o) -> Result<Self, ArithError> {
                self.0.safe_mul(u64::from(o)).map($t)
            }
            fn safe_div(&self, o: $o) -> Result<Self, ArithError> {
                self.0.safe_div(u64::from(o)).map($t)
            }
            fn safe_rem(&self, o: $o) -> Result<Self, ArithError> {
                self.0.safe_rem(u64::from(o)).map($t)
            }
            fn safe_shl(&self, o: u32) -> Result<Self, ArithError> {
                self.0.safe_shl(o).map($t)
            }
            fn safe_shr(&self, o: u32) -> Result<Self, ArithError> {
                self.0.safe_shr(o).map($t)
            }
        }
    };
}
common!(Slot);
common!(Epoch);

impl Slot {
    pub fn epoch(self, slots_per_epoch: u64) -> Epoch {
        Epoch(self.0.checked_div(slots_per_epoch).expect("slots_per_epoch is not 0"))
    }
}
impl Epoch {
    pub fn start_slot(self, slots_per_epoch: u64) -> Slot {
        Slot(self.0.saturating_mul(slots_per_epoch))
    }
    pub fn end_slot(self, slots_per_epoch: u64) -> Slot {
        Slot(self.0.saturating_add(1).saturating_mul(slots_per_epoch).saturating_sub(1))
    }
    pub fn slot_iter(&self, slots_per_epoch: u64) -> impl DoubleEndedIterator<Item = Slot> {
        (self.start_slot(slots_per_epoch).0..=self.end_slot(slots_per_epoch).0).map(Slot)
    }
}
