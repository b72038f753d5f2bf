//! Stand-in for `serde_arrays`: arrays of any length as tuples.
use serde::{de::*, ser::SerializeTuple, Deserialize, Serialize, Serializer};
use std::{fmt, marker::PhantomData};

pub fn serialize<S: Serializer, T: Serialize, const N: usize>(data: &[T; N], ser: S) -> Result<S::Ok, S::Error> {
    let mut s = ser.serialize_tuple(N)?;
    for x in data {
        s.serialize_element(x)?;
    }
    s.end()
}
struct V<T, const N: usize>(PhantomData<T>);
impl<'de, T: Deserialize<'de>, const N: usize> Visitor<'de> for V<T, N> {
    type Value = [T; N];
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "an array of size {N}")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<[T; N], A::Error> {
        let mut v = Vec::with_capacity(N);
        while v.len() < N {
            match seq.next_element()? {
                Some(x) => v.push(x),
                None => return Err(A::Error::invalid_length(v.len(), &self)),
            }
        }
        Ok(v.try_into().ok().unwrap())
    }
}
pub fn deserialize<'de, D: Deserializer<'de>, T: Deserialize<'de>, const N: usize>(d: D) -> Result<[T; N], D::Error> {
    d.deserialize_tuple(N, V::<T, N>(PhantomData))
}
