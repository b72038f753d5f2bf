use super::*;
use serde::de::Error as _;
use std::ops::{Deref, DerefMut, Index, IndexMut};
use std::sync::Arc;

fn index_of<T: GeneralizedIndexable>(base: usize, i: usize, limit: usize, rest: Path) -> Result<usize, MerkleizationError> {
    let b = T::basic_size();
    if b > 0 {
        let chunks = (limit * b).div_ceil(32);
        if !rest.is_empty() {
            return Err(MerkleizationError::InvalidPath);
        }
        Ok(base * (1usize << depth_for(chunks as u64)) + i * b / 32)
    } else {
        T::compute_generalized_index(base * (1usize << depth_for(limit as u64)) + i, rest)
    }
}

fn contents<T: HashTreeRoot>(items: &[T], limit: usize) -> Node {
    let b = T::packed_size();
    if b > 0 {
        let mut bytes = vec![];
        items.iter().for_each(|x| x.pack_into(&mut bytes));
        Node::merkleize(&pack(&bytes), depth_for((limit * b).div_ceil(32) as u64))
    } else {
        let nodes: Vec<_> = items.iter().map(|x| x.tree_node()).collect();
        Node::merkleize(&nodes, depth_for(limit as u64))
    }
}

fn ser_items<T: Serialize>(items: &[T], b: &mut Vec<u8>) -> Result<usize, SerializeError> {
    let n0 = b.len();
    if T::is_variable_size() {
        let mut w = ContainerWriter::default();
        for x in items {
            w.field(x)?;
        }
        w.finish(b);
    } else {
        for x in items {
            x.serialize(b)?;
        }
    }
    Ok(b.len() - n0)
}

fn de_items<T: Deserialize>(e: &[u8]) -> Result<Vec<T>, DeserializeError> {
    if e.is_empty() {
        return Ok(vec![]);
    }
    if T::is_variable_size() {
        if e.len() < 4 {
            return Err(DeserializeError::ExpectedFurtherInput);
        }
        let first = u32::from_le_bytes(e[..4].try_into().unwrap()) as usize;
        if first == 0 || first % 4 != 0 || first > e.len() {
            return Err(DeserializeError::InvalidOffset);
        }
        let kinds = vec![(true, 0); first / 4];
        split_container(e, &kinds)?.into_iter().map(T::deserialize).collect()
    } else {
        let s = T::size_hint();
        if e.len() % s != 0 {
            return Err(DeserializeError::AdditionalInput);
        }
        e.chunks(s).map(T::deserialize).collect()
    }
}

// ---------------------------------------------------------------- List

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct List<T, const N: usize>(Vec<T>);

impl<T, const N: usize> Default for List<T, N> {
    fn default() -> Self {
        List(vec![])
    }
}
impl<T: fmt::Debug, const N: usize> fmt::Debug for List<T, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T, const N: usize> Deref for List<T, N> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.0
    }
}
impl<T, const N: usize> DerefMut for List<T, N> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.0
    }
}
impl<T, const N: usize> AsRef<[T]> for List<T, N> {
    fn as_ref(&self) -> &[T] {
        &self.0
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for List<T, N> {
    type Error = (Vec<T>, String);
    fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
        if v.len() > N {
            Err((v, "too long".into()))
        } else {
            Ok(List(v))
        }
    }
}
impl<'a, T, const N: usize> IntoIterator for &'a List<T, N> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T, const N: usize> IntoIterator for List<T, N> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<T, const N: usize> FromIterator<T> for List<T, N> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        List(i.into_iter().collect())
    }
}
impl<T: Serializable, const N: usize> Serializable for List<T, N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<T: Serialize, const N: usize> Serialize for List<T, N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        ser_items(&self.0, b)
    }
}
impl<T: Deserialize, const N: usize> Deserialize for List<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let v = de_items(e)?;
        if v.len() > N {
            return Err(DeserializeError::InvalidLength);
        }
        Ok(List(v))
    }
}
impl<T: HashTreeRoot, const N: usize> HashTreeRoot for List<T, N> {
    fn tree_node(&self) -> Node {
        Node::branch(contents(&self.0, N), Node::u64(self.0.len() as u64))
    }
}
impl<T: GeneralizedIndexable, const N: usize> GeneralizedIndexable for List<T, N> {
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        let Some((head, rest)) = path.split_first() else { return Ok(parent) };
        match head {
            PathElement::Length if rest.is_empty() => Ok(parent * 2 + 1),
            PathElement::Index(i) if *i < N => index_of::<T>(parent * 2, *i, N, rest),
            _ => Err(MerkleizationError::InvalidPath),
        }
    }
}
impl<T: GeneralizedIndexable + HashTreeRoot, const N: usize> Prove for List<T, N> {}
impl<T: serde::Serialize, const N: usize> serde::Serialize for List<T, N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        serde::Serialize::serialize(&self.0, s)
    }
}
impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for List<T, N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v: Vec<T> = serde::Deserialize::deserialize(d)?;
        List::try_from(v).map_err(|_| D::Error::custom("list too long"))
    }
}

// ---------------------------------------------------------------- Vector

/// Vectors of this many elements or more are stored shared and encoded sparsely.
pub const SPARSE: usize = 512;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Vector<T, const N: usize>(Arc<Vec<T>>);

impl<T: Default + Clone, const N: usize> Default for Vector<T, N> {
    fn default() -> Self {
        Vector(Arc::new(vec![T::default(); N]))
    }
}
impl<T: fmt::Debug, const N: usize> fmt::Debug for Vector<T, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Vector[{N}]")
    }
}
impl<T, const N: usize> Deref for Vector<T, N> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.0
    }
}
impl<T, const N: usize> AsRef<[T]> for Vector<T, N> {
    fn as_ref(&self) -> &[T] {
        &self.0
    }
}
impl<T: Clone, const N: usize> DerefMut for Vector<T, N> {
    fn deref_mut(&mut self) -> &mut [T] {
        Arc::<Vec<T>>::make_mut(&mut self.0)
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for Vector<T, N> {
    type Error = (Vec<T>, String);
    fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
        if v.len() != N {
            Err((v, "wrong length".into()))
        } else {
            Ok(Vector(Arc::new(v)))
        }
    }
}
impl<'a, T, const N: usize> IntoIterator for &'a Vector<T, N> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T: Serializable, const N: usize> Serializable for Vector<T, N> {
    fn is_variable_size() -> bool {
        N >= SPARSE || T::is_variable_size()
    }
    fn size_hint() -> usize {
        if Self::is_variable_size() {
            0
        } else {
            N * T::size_hint()
        }
    }
}
impl<T: Serialize + Default + PartialEq, const N: usize> Serialize for Vector<T, N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let n0 = b.len();
        if N >= SPARSE {
            let z = T::default();
            for (i, x) in self.0.iter().enumerate().filter(|(_, x)| **x != z) {
                b.extend_from_slice(&(i as u32).to_le_bytes());
                x.serialize(b)?;
            }
            Ok(b.len() - n0)
        } else {
            ser_items(&self.0, b)
        }
    }
}
impl<T: Deserialize + Default + Clone, const N: usize> Deserialize for Vector<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        if N >= SPARSE {
            let s = 4 + T::size_hint();
            if e.len() % s != 0 {
                return Err(DeserializeError::InvalidLength);
            }
            let mut v = vec![T::default(); N];
            for c in e.chunks(s) {
                let i = u32::from_le_bytes(c[..4].try_into().unwrap()) as usize;
                if i >= N {
                    return Err(DeserializeError::InvalidOffset);
                }
                v[i] = T::deserialize(&c[4..])?;
            }
            return Ok(Vector(Arc::new(v)));
        }
        let v = de_items(e)?;
        if v.len() != N {
            return Err(DeserializeError::InvalidLength);
        }
        Ok(Vector(Arc::new(v)))
    }
}
impl<T: HashTreeRoot + Default + PartialEq, const N: usize> HashTreeRoot for Vector<T, N> {
    fn tree_node(&self) -> Node {
        if N >= SPARSE {
            let z = T::default();
            let b = T::packed_size();
            // the chunks (or elements) that differ from the default, in order
            let (chunks, width): (Vec<(usize, Node)>, usize) = if b == 0 {
                (self.0.iter().enumerate().filter(|(_, x)| **x != z).map(|(i, x)| (i, x.tree_node())).collect(), N)
            } else {
                let per = 32 / b;
                let it = self.0.chunks(per).enumerate().filter(|(_, c)| c.iter().any(|x| *x != z));
                let f = |(i, c): (usize, &[T])| {
                    let mut bytes = vec![];
                    c.iter().for_each(|x| x.pack_into(&mut bytes));
                    (i, pack(&bytes)[0].clone())
                };
                (it.map(f).collect(), N.div_ceil(per))
            };
            let depth = depth_for(width as u64);
            let mut bytes = vec![];
            let zero = if b == 0 {
                z.tree_node()
            } else {
                z.pack_into(&mut bytes);
                pack(&bytes)[0].clone()
            };
            // subtrees of default elements only; those past the end are zero chunks
            let blank = if zero.root() == [0; 32] { Node::Zero(0) } else { zero };
            assert!(matches!(blank, Node::Zero(0)) || width.is_power_of_two());
            let mut fill = vec![blank];
            for d in 0..depth as usize {
                let n = match &fill[d] {
                    Node::Zero(k) => Node::Zero(k + 1),
                    x => Node::branch(x.clone(), x.clone()),
                };
                fill.push(n);
            }
            fn go(xs: &[(usize, Node)], base: usize, depth: usize, fill: &[Node]) -> Node {
                if xs.is_empty() {
                    return fill[depth].clone();
                }
                if depth == 0 {
                    return xs[0].1.clone();
                }
                let mid = base + (1usize << (depth - 1));
                let k = xs.partition_point(|x| x.0 < mid);
                Node::branch(go(&xs[..k], base, depth - 1, fill), go(&xs[k..], mid, depth - 1, fill))
            }
            return go(&chunks, 0, depth as usize, &fill);
        }
        contents(&self.0, N)
    }
}
impl<T: GeneralizedIndexable, const N: usize> GeneralizedIndexable for Vector<T, N> {
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        let Some((head, rest)) = path.split_first() else { return Ok(parent) };
        match head {
            PathElement::Index(i) if *i < N => index_of::<T>(parent, *i, N, rest),
            _ => Err(MerkleizationError::InvalidPath),
        }
    }
}
impl<T: GeneralizedIndexable + HashTreeRoot + Default + PartialEq, const N: usize> Prove for Vector<T, N> {}

impl<T: Default + PartialEq, const N: usize> Vector<T, N> {
    /// Non-default entries.
    pub fn sparse(&self) -> Vec<(usize, &T)> {
        let z = T::default();
        self.0.iter().enumerate().filter(|(_, x)| **x != z).collect()
    }
}
impl<T: Default + Clone, const N: usize> Vector<T, N> {
    pub fn from_sparse(v: Vec<(usize, T)>) -> Option<Self> {
        let mut d = vec![T::default(); N];
        for (i, x) in v {
            *d.get_mut(i)? = x;
        }
        Some(Vector(Arc::new(d)))
    }
}
impl<T: serde::Serialize + Default + PartialEq, const N: usize> serde::Serialize for Vector<T, N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if N >= SPARSE {
            serde::Serialize::serialize(&self.sparse(), s)
        } else {
            serde::Serialize::serialize(&self.0[..], s)
        }
    }
}
impl<'de, T: serde::Deserialize<'de> + Default + Clone, const N: usize> serde::Deserialize<'de> for Vector<T, N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if N >= SPARSE {
            let v: Vec<(usize, T)> = serde::Deserialize::deserialize(d)?;
            Self::from_sparse(v).ok_or_else(|| D::Error::custom("index"))
        } else {
            let v: Vec<T> = serde::Deserialize::deserialize(d)?;
            Vector::try_from(v).map_err(|_| D::Error::custom("wrong vector length"))
        }
    }
}

/// Numbers written as decimal strings, in lists and (sparsely) in long vectors.
pub trait SeqOfStr: Sized {
    fn ser<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
fn parse<T: std::str::FromStr, E: serde::de::Error>(s: &str) -> Result<T, E> {
    s.parse().map_err(|_| E::custom("not a number"))
}
impl<T: fmt::Display + std::str::FromStr, const N: usize> SeqOfStr for List<T, N> {
    fn ser<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(self.0.iter().map(|x| x.to_string()))
    }
    fn de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v: Vec<String> = serde::Deserialize::deserialize(d)?;
        let v = v.iter().map(|x| parse::<T, D::Error>(x)).collect::<Result<Vec<_>, _>>()?;
        List::try_from(v).map_err(|_| D::Error::custom("list too long"))
    }
}
impl<T: fmt::Display + std::str::FromStr + Default + Clone + PartialEq, const N: usize> SeqOfStr for Vector<T, N> {
    fn ser<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if N >= SPARSE {
            s.collect_seq(self.sparse().into_iter().map(|(i, x)| (i, x.to_string())))
        } else {
            s.collect_seq(self.0.iter().map(|x| x.to_string()))
        }
    }
    fn de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if N >= SPARSE {
            let v: Vec<(usize, String)> = serde::Deserialize::deserialize(d)?;
            let v = v.iter().map(|(i, x)| Ok((*i, parse::<T, D::Error>(x)?))).collect::<Result<Vec<_>, D::Error>>()?;
            Self::from_sparse(v).ok_or_else(|| D::Error::custom("index"))
        } else {
            let v: Vec<String> = serde::Deserialize::deserialize(d)?;
            let v = v.iter().map(|x| parse::<T, D::Error>(x)).collect::<Result<Vec<_>, _>>()?;
            Vector::try_from(v).map_err(|_| D::Error::custom("wrong vector length"))
        }
    }
}

// ---------------------------------------------------------------- bytes

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ByteVector<const N: usize>(pub [u8; N]);

impl<const N: usize> Default for ByteVector<N> {
    fn default() -> Self {
        ByteVector([0; N])
    }
}
impl<const N: usize> fmt::Debug for ByteVector<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.0))
    }
}
impl<const N: usize> fmt::Display for ByteVector<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.0))
    }
}
impl<const N: usize> ByteVector<N> {
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> Deref for ByteVector<N> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> DerefMut for ByteVector<N> {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl<const N: usize> AsRef<[u8]> for ByteVector<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> From<[u8; N]> for ByteVector<N> {
    fn from(b: [u8; N]) -> Self {
        ByteVector(b)
    }
}
impl<const N: usize> TryFrom<&[u8]> for ByteVector<N> {
    type Error = DeserializeError;
    fn try_from(b: &[u8]) -> Result<Self, DeserializeError> {
        Ok(ByteVector(b.try_into().map_err(|_| DeserializeError::InvalidLength)?))
    }
}
impl<const N: usize> serde::Serialize for ByteVector<N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.to_string())
    }
}
fn from_hex<E: serde::de::Error>(s: &str) -> Result<Vec<u8>, E> {
    hex::decode(s.strip_prefix("0x").ok_or_else(|| E::custom("no 0x prefix"))?).map_err(E::custom)
}
impl<'de, const N: usize> serde::Deserialize<'de> for ByteVector<N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s: String = serde::Deserialize::deserialize(d)?;
        let v = from_hex::<D::Error>(&s)?;
        ByteVector::try_from(&v[..]).map_err(D::Error::custom)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct ByteList<const N: usize>(pub Vec<u8>);
impl<const N: usize> fmt::Debug for ByteList<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(&self.0))
    }
}
impl<const N: usize> Deref for ByteList<N> {
    type Target = Vec<u8>;
    fn deref(&self) -> &Vec<u8> {
        &self.0
    }
}
impl<const N: usize> Serializable for ByteList<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> Serialize for ByteList<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend_from_slice(&self.0);
        Ok(self.0.len())
    }
}
impl<const N: usize> Deserialize for ByteList<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        if e.len() > N {
            return Err(DeserializeError::InvalidLength);
        }
        Ok(ByteList(e.to_vec()))
    }
}
impl<const N: usize> HashTreeRoot for ByteList<N> {
    fn tree_node(&self) -> Node {
        Node::branch(Node::merkleize(&pack(&self.0), depth_for(N.div_ceil(32) as u64)), Node::u64(self.0.len() as u64))
    }
}
impl<const N: usize> GeneralizedIndexable for ByteList<N> {
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        match path {
            [] => Ok(parent),
            [PathElement::Length] => Ok(parent * 2 + 1),
            _ => bytes_index(parent * 2, path, N),
        }
    }
}
impl<const N: usize> Prove for ByteList<N> {}
impl<const N: usize> serde::Serialize for ByteList<N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{}", hex::encode(&self.0)))
    }
}
impl<'de, const N: usize> serde::Deserialize<'de> for ByteList<N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s: String = serde::Deserialize::deserialize(d)?;
        let v = from_hex::<D::Error>(&s)?;
        if v.len() > N {
            return Err(D::Error::custom("too long"));
        }
        Ok(ByteList(v))
    }
}

// ---------------------------------------------------------------- bits

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Bitvector<const N: usize>(Vec<bool>);
impl<const N: usize> Default for Bitvector<N> {
    fn default() -> Self {
        Bitvector(vec![false; N])
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Bitlist<const N: usize>(Vec<bool>);

fn bits_to_bytes(bits: &[bool], n: usize) -> Vec<u8> {
    let mut out = vec![0u8; n];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            out[i / 8] |= 1 << (i % 8);
        }
    }
    out
}
macro_rules! bits { ($t:ident) => {
    impl<const N: usize> Deref for $t<N> {
        type Target = Vec<bool>;
        fn deref(&self) -> &Vec<bool> { &self.0 }
    }
    impl<const N: usize> $t<N> {
        pub fn set(&mut self, i: usize, v: bool) { self.0[i] = v }
    }
    impl<const N: usize> Index<usize> for $t<N> {
        type Output = bool;
        fn index(&self, i: usize) -> &bool { &self.0[i] }
    }
    impl<const N: usize> IndexMut<usize> for $t<N> {
        fn index_mut(&mut self, i: usize) -> &mut bool { &mut self.0[i] }
    }
    impl<const N: usize> serde::Serialize for $t<N> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let mut b = vec![];
            Serialize::serialize(self, &mut b).map_err(serde::ser::Error::custom)?;
            s.serialize_str(&format!("0x{}", hex::encode(b)))
        }
    }
    impl<'de, const N: usize> serde::Deserialize<'de> for $t<N> {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let s: String = serde::Deserialize::deserialize(d)?;
            let v = from_hex::<D::Error>(&s)?;
            <Self as Deserialize>::deserialize(&v).map_err(D::Error::custom)
        }
    }
} }
bits!(Bitvector);
bits!(Bitlist);

impl<const N: usize> Serializable for Bitvector<N> {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        N.div_ceil(8)
    }
}
impl<const N: usize> Serialize for Bitvector<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend(bits_to_bytes(&self.0, N.div_ceil(8)));
        Ok(N.div_ceil(8))
    }
}
impl<const N: usize> Deserialize for Bitvector<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        if e.len() != N.div_ceil(8) {
            return Err(DeserializeError::InvalidLength);
        }
        for i in N..e.len() * 8 {
            if e[i / 8] >> (i % 8) & 1 == 1 {
                return Err(DeserializeError::InvalidByte);
            }
        }
        Ok(Bitvector((0..N).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect()))
    }
}
impl<const N: usize> HashTreeRoot for Bitvector<N> {
    fn tree_node(&self) -> Node {
        Node::merkleize(&pack(&bits_to_bytes(&self.0, N.div_ceil(8))), depth_for(N.div_ceil(256) as u64))
    }
}
impl<const N: usize> GeneralizedIndexable for Bitvector<N> {
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        if path.is_empty() {
            Ok(parent)
        } else {
            Err(MerkleizationError::InvalidPath)
        }
    }
}
impl<const N: usize> Prove for Bitvector<N> {}

impl<const N: usize> TryFrom<Vec<bool>> for Bitlist<N> {
    type Error = DeserializeError;
    fn try_from(v: Vec<bool>) -> Result<Self, DeserializeError> {
        if v.len() > N {
            return Err(DeserializeError::InvalidLength);
        }
        Ok(Bitlist(v))
    }
}
impl<const N: usize> Serializable for Bitlist<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> Serialize for Bitlist<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let mut v = self.0.clone();
        v.push(true);
        let n = v.len().div_ceil(8);
        b.extend(bits_to_bytes(&v, n));
        Ok(n)
    }
}
impl<const N: usize> Deserialize for Bitlist<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let last = *e.last().ok_or(DeserializeError::ExpectedFurtherInput)?;
        if last == 0 {
            return Err(DeserializeError::InvalidByte);
        }
        let len = (e.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
        if len > N {
            return Err(DeserializeError::InvalidLength);
        }
        Ok(Bitlist((0..len).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect()))
    }
}
impl<const N: usize> HashTreeRoot for Bitlist<N> {
    fn tree_node(&self) -> Node {
        let n = self.0.len().div_ceil(8);
        Node::branch(Node::merkleize(&pack(&bits_to_bytes(&self.0, n)), depth_for(N.div_ceil(256) as u64)), Node::u64(self.0.len() as u64))
    }
}
impl<const N: usize> GeneralizedIndexable for Bitlist<N> {
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        match path {
            [] => Ok(parent),
            [PathElement::Length] => Ok(parent * 2 + 1),
            _ => Err(MerkleizationError::InvalidPath),
        }
    }
}
impl<const N: usize> Prove for Bitlist<N> {}
