//! Stand-in for `alloy-sol-types`: ABI coding of static structs of `uint64`, `bytes32` and other such
//! structs. As in the real crate, plain decoding ignores trailing data and the unused high bytes of a word.
use std::borrow::Cow;
pub use alloy_primitives;

pub type Result<T, E = Error> = std::result::Result<T, E>;

#[derive(Debug, Clone, PartialEq)]
pub enum Error {
    Overrun,
    TypeCheckFail,
    Other(Cow<'static, str>),
}
impl Error {
    pub fn custom(s: impl Into<Cow<'static, str>>) -> Self {
        Error::Other(s.into())
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::Overrun => f.write_str("ABI decoding failed: buffer overrun while deserializing"),
            Error::TypeCheckFail => f.write_str("type check failed"),
            Error::Other(s) => f.write_str(s),
        }
    }
}
impl std::error::Error for Error {}

/// A static type, a fixed number of words.
pub trait Word: Sized + Clone {
    const WORDS: usize;
    fn put(&self, out: &mut Vec<u8>);
    fn take(data: &mut &[u8]) -> Result<Self>;
    /// Whether the encoding consumed was canonical.
    fn canonical(&self, data: &[u8]) -> bool {
        let mut v = vec![];
        self.put(&mut v);
        data.starts_with(&v)
    }
}
pub fn word<'a>(data: &mut &'a [u8]) -> Result<&'a [u8]> {
    if data.len() < 32 {
        return Err(Error::Overrun);
    }
    let (w, rest) = data.split_at(32);
    *data = rest;
    Ok(w)
}
macro_rules! uints { ($($t:ty),*) => {$(
    impl Word for $t {
        const WORDS: usize = 1;
        fn put(&self, out: &mut Vec<u8>) {
            let b = self.to_be_bytes();
            out.extend(std::iter::repeat(0).take(32 - b.len()));
            out.extend_from_slice(&b);
        }
        fn take(data: &mut &[u8]) -> Result<Self> {
            let w = word(data)?;
            Ok(<$t>::from_be_bytes(w[32 - std::mem::size_of::<$t>()..].try_into().unwrap()))
        }
    }
)*} }
uints!(u8, u16, u32, u64, u128);
impl Word for alloy_primitives::B256 {
    const WORDS: usize = 1;
    fn put(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self[..])
    }
    fn take(data: &mut &[u8]) -> Result<Self> {
        Ok(Self::from_slice(word(data)?))
    }
}
impl Word for bool {
    const WORDS: usize = 1;
    fn put(&self, out: &mut Vec<u8>) {
        (*self as u8).put(out)
    }
    fn take(data: &mut &[u8]) -> Result<Self> {
        Ok(word(data)?[31] != 0)
    }
}
#[allow(non_camel_case_types)]
pub mod aliases {
    pub type uint8 = u8;
    pub type uint16 = u16;
    pub type uint32 = u32;
    pub type uint64 = u64;
    pub type uint128 = u128;
    pub type bytes32 = alloy_primitives::B256;
}

pub trait SolType {
    type RustType;
    const ENCODED_SIZE: Option<usize>;
    fn abi_decode(data: &[u8]) -> Result<Self::RustType>;
    fn abi_decode_validate(data: &[u8]) -> Result<Self::RustType>;
}
pub trait SolStruct {}
impl<T: Word> SolType for T {
    type RustType = T;
    const ENCODED_SIZE: Option<usize> = Some(T::WORDS * 32);
    fn abi_decode(mut data: &[u8]) -> Result<T> {
        T::take(&mut data)
    }
    fn abi_decode_validate(data: &[u8]) -> Result<T> {
        let v = T::take(&mut &data[..])?;
        if v.canonical(data) {
            Ok(v)
        } else {
            Err(Error::TypeCheckFail)
        }
    }
}
pub trait SolValue {
    fn abi_encode(&self) -> Vec<u8>;
    fn abi_encoded_size(&self) -> usize;
    fn abi_decode(data: &[u8]) -> Result<Self>
    where
        Self: Sized;
    fn abi_decode_validate(data: &[u8]) -> Result<Self>
    where
        Self: Sized;
}
impl<T: Word> SolValue for T {
    fn abi_encode(&self) -> Vec<u8> {
        let mut v = vec![];
        self.put(&mut v);
        v
    }
    fn abi_encoded_size(&self) -> usize {
        T::WORDS * 32
    }
    fn abi_decode(data: &[u8]) -> Result<Self> {
        <T as SolType>::abi_decode(data)
    }
    fn abi_decode_validate(data: &[u8]) -> Result<Self> {
        <T as SolType>::abi_decode_validate(data)
    }
}

#[macro_export]
macro_rules! sol {
    ($($(#[$m:meta])* struct $name:ident { $($(#[$fm:meta])* $ty:ident $field:ident;)* })*) => {
        #[allow(unused_imports)]
        use $crate::aliases::*;
        $(
            $(#[$m])*
            #[derive(Clone)]
            pub struct $name { $($(#[$fm])* pub $field: $ty,)* }
            impl $crate::Word for $name {
                const WORDS: usize = 0 $(+ <$ty as $crate::Word>::WORDS)*;
                fn put(&self, out: &mut Vec<u8>) { $($crate::Word::put(&self.$field, out);)* }
                fn take(data: &mut &[u8]) -> $crate::Result<Self> {
                    Ok(Self { $($field: <$ty as $crate::Word>::take(data)?,)* })
                }
            }
            impl $crate::SolStruct for $name {}
        )*
    };
}
