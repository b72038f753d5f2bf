//! Stand-in for the parts of `serde_with` that adapters are built from.
use serde::{de, ser::SerializeMap, ser::SerializeSeq, Deserialize, Deserializer, Serialize, Serializer};
pub use serde_with_macros::serde_as;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt;
use std::hash::Hash;
use std::marker::PhantomData;

pub trait SerializeAs<T: ?Sized> {
    fn serialize_as<S: Serializer>(source: &T, serializer: S) -> Result<S::Ok, S::Error>;
}
pub trait DeserializeAs<'de, T>: Sized {
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<T, D::Error>;
}
pub struct As<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> As<T> {
    pub fn serialize<S: Serializer, I: ?Sized>(value: &I, s: S) -> Result<S::Ok, S::Error>
    where
        T: SerializeAs<I>,
    {
        T::serialize_as(value, s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>, I>(d: D) -> Result<I, D::Error>
    where
        T: DeserializeAs<'de, I>,
    {
        T::deserialize_as(d)
    }
}
pub struct Same;
impl<T: Serialize + ?Sized> SerializeAs<T> for Same {
    fn serialize_as<S: Serializer>(x: &T, s: S) -> Result<S::Ok, S::Error> {
        x.serialize(s)
    }
}
impl<'de, T: Deserialize<'de>> DeserializeAs<'de, T> for Same {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        T::deserialize(d)
    }
}
pub struct DisplayFromStr;
impl<T: fmt::Display> SerializeAs<T> for DisplayFromStr {
    fn serialize_as<S: Serializer>(x: &T, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(x)
    }
}
impl<'de, T: std::str::FromStr> DeserializeAs<'de, T> for DisplayFromStr
where
    T::Err: fmt::Display,
{
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map_err(de::Error::custom)
    }
}

struct W<'a, T: ?Sized, U: ?Sized>(&'a T, PhantomData<U>);
impl<T: ?Sized, U: SerializeAs<T> + ?Sized> Serialize for W<'_, T, U> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        U::serialize_as(self.0, s)
    }
}
struct R<T, U: ?Sized>(T, PhantomData<U>);
impl<'de, T, U: DeserializeAs<'de, T> + ?Sized> Deserialize<'de> for R<T, U> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(R(U::deserialize_as(d)?, PhantomData))
    }
}

fn seq<'a, S: Serializer, T: 'a, U: SerializeAs<T>>(it: impl ExactSizeIterator<Item = &'a T>, s: S) -> Result<S::Ok, S::Error> {
    let mut q = s.serialize_seq(Some(it.len()))?;
    for x in it {
        q.serialize_element(&W::<T, U>(x, PhantomData))?;
    }
    q.end()
}
struct SeqV<T, U, C>(PhantomData<(T, U, C)>);
impl<'de, T, U: DeserializeAs<'de, T>, C: FromIterator<T>> de::Visitor<'de> for SeqV<T, U, C> {
    type Value = C;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<C, A::Error> {
        std::iter::from_fn(|| a.next_element::<R<T, U>>().transpose()).map(|r| r.map(|x| x.0)).collect()
    }
}
macro_rules! seqs { ($($c:ident [$($b:tt)*]),*) => {$(
    impl<T: $($b)*, U: SerializeAs<T>> SerializeAs<$c<T>> for $c<U> {
        fn serialize_as<S: Serializer>(x: &$c<T>, s: S) -> Result<S::Ok, S::Error> { seq::<S, T, U>(x.iter(), s) }
    }
    impl<'de, T: $($b)*, U: DeserializeAs<'de, T>> DeserializeAs<'de, $c<T>> for $c<U> {
        fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<$c<T>, D::Error> {
            d.deserialize_seq(SeqV::<T, U, $c<T>>(PhantomData))
        }
    }
)*} }
seqs!(Vec [Sized], BTreeSet [Ord]);

impl<T, U: SerializeAs<T>> SerializeAs<Option<T>> for Option<U> {
    fn serialize_as<S: Serializer>(x: &Option<T>, s: S) -> Result<S::Ok, S::Error> {
        match x {
            None => s.serialize_none(),
            Some(v) => s.serialize_some(&W::<T, U>(v, PhantomData)),
        }
    }
}
impl<'de, T, U: DeserializeAs<'de, T>> DeserializeAs<'de, Option<T>> for Option<U> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Option<T>, D::Error> {
        Ok(Option::<R<T, U>>::deserialize(d)?.map(|x| x.0))
    }
}
struct MapV<K, V, KU, VU, C>(PhantomData<(K, V, KU, VU, C)>);
impl<'de, K, V, KU: DeserializeAs<'de, K>, VU: DeserializeAs<'de, V>, C: FromIterator<(K, V)>> de::Visitor<'de> for MapV<K, V, KU, VU, C> {
    type Value = C;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<C, A::Error> {
        std::iter::from_fn(|| a.next_entry::<R<K, KU>, R<V, VU>>().transpose()).map(|r| r.map(|(k, v)| (k.0, v.0))).collect()
    }
}
macro_rules! maps { ($($c:ident [$($b:tt)*]),*) => {$(
    impl<K: $($b)*, V, KU: SerializeAs<K>, VU: SerializeAs<V>> SerializeAs<$c<K, V>> for $c<KU, VU> {
        fn serialize_as<S: Serializer>(x: &$c<K, V>, s: S) -> Result<S::Ok, S::Error> {
            let mut m = s.serialize_map(Some(x.len()))?;
            for (k, v) in x {
                m.serialize_entry(&W::<K, KU>(k, PhantomData), &W::<V, VU>(v, PhantomData))?;
            }
            m.end()
        }
    }
    impl<'de, K: $($b)*, V, KU: DeserializeAs<'de, K>, VU: DeserializeAs<'de, V>> DeserializeAs<'de, $c<K, V>> for $c<KU, VU> {
        fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<$c<K, V>, D::Error> {
            d.deserialize_map(MapV::<K, V, KU, VU, $c<K, V>>(PhantomData))
        }
    }
)*} }
maps!(BTreeMap [Ord], HashMap [Eq + Hash]);

/// Bytes via the format's byte-string type.
pub struct Bytes;
impl<T: AsRef<[u8]> + ?Sized> SerializeAs<T> for Bytes {
    fn serialize_as<S: Serializer>(x: &T, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(x.as_ref())
    }
}
struct BorrowedV;
impl<'de> de::Visitor<'de> for BorrowedV {
    type Value = &'de [u8];
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a borrowed byte string")
    }
    fn visit_borrowed_bytes<E>(self, v: &'de [u8]) -> Result<&'de [u8], E> {
        Ok(v)
    }
    fn visit_borrowed_str<E>(self, v: &'de str) -> Result<&'de [u8], E> {
        Ok(v.as_bytes())
    }
}
impl<'de> DeserializeAs<'de, &'de [u8]> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<&'de [u8], D::Error> {
        d.deserialize_bytes(BorrowedV)
    }
}
struct OwnedV;
impl<'de> de::Visitor<'de> for OwnedV {
    type Value = Vec<u8>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a byte string")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> {
        Ok(v.to_vec())
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
        Ok(v)
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> {
        std::iter::from_fn(|| a.next_element().transpose()).collect()
    }
}
impl<'de> DeserializeAs<'de, Vec<u8>> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        d.deserialize_byte_buf(OwnedV)
    }
}
impl<'de> DeserializeAs<'de, Cow<'de, [u8]>> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Cow<'de, [u8]>, D::Error> {
        d.deserialize_bytes(BorrowedV).map(Cow::Borrowed)
    }
}
