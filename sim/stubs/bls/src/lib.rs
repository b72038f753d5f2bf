//! Stand-in for Lighthouse's `bls`: an ideal aggregate signature. A signature is the lane-wise sum over
//! its (key, message) pairs of a hash of key and message, so an aggregate verifies exactly for the
//! multiset of signers that produced it and cannot be made up without asking the signers.
use alloy_primitives::B256;
use simtree::sha;
use ssz::{Decode, DecodeError, Encode};
use std::fmt;

pub const PUBLIC_KEY_BYTES_LEN: usize = 48;
pub const PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN: usize = 96;
pub const SIGNATURE_BYTES_LEN: usize = 96;
pub const SECRET_KEY_BYTES_LEN: usize = 32;
pub const INFINITY_SIGNATURE: [u8; 96] = {
    let mut a = [0; 96];
    a[0] = 0xc0;
    a
};
pub type Hash256 = B256;

pub trait FixedBytesExtended {
    fn from_low_u64_be(value: u64) -> Self;
    fn from_low_u64_le(value: u64) -> Self;
    fn zero() -> Self;
}
impl FixedBytesExtended for B256 {
    fn from_low_u64_be(value: u64) -> Self {
        let mut b = [0; 32];
        b[24..].copy_from_slice(&value.to_be_bytes());
        b.into()
    }
    fn from_low_u64_le(value: u64) -> Self {
        let mut b = [0; 32];
        b[..8].copy_from_slice(&value.to_le_bytes());
        b.into()
    }
    fn zero() -> Self {
        B256::ZERO
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Error {
    BlstError(String),
    InvalidByteLength { got: usize, expected: usize },
    InvalidSecretKeyLength { got: usize, expected: usize },
    InvalidInfinityPublicKey,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct PublicKey([u8; 48]);
fn tail(c: &[u8; 48]) -> [u8; 48] {
    let mut out = [0; 48];
    let a = sha(&[&b"pk-tail-0"[..], c].concat());
    let b = sha(&[&b"pk-tail-1"[..], c].concat());
    out[..32].copy_from_slice(&a);
    out[32..].copy_from_slice(&b[..16]);
    out
}
/// Roughly the shape of a real key: the compression flag is set, the infinity and sign flags vary, and
/// not every byte string is a point.
fn on_curve(c: &[u8]) -> bool {
    c[0] & 0xc0 == 0x80 && c[47] & 1 == 0
}
impl PublicKey {
    pub fn serialize(&self) -> [u8; 48] {
        self.0
    }
    pub fn compress(&self) -> PublicKeyBytes {
        PublicKeyBytes(self.0)
    }
    pub fn serialize_uncompressed(&self) -> [u8; 96] {
        let mut out = [0; 96];
        out[..48].copy_from_slice(&self.0);
        out[0] &= 0x3f;
        out[48..].copy_from_slice(&tail(&self.0));
        out
    }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        let b: [u8; 48] = bytes.try_into().map_err(|_| Error::InvalidByteLength { got: bytes.len(), expected: 48 })?;
        if b[0] == 0xc0 && b[1..].iter().all(|x| *x == 0) {
            return Err(Error::InvalidInfinityPublicKey);
        }
        if !on_curve(&b) {
            return Err(Error::BlstError("BLST_POINT_NOT_ON_CURVE".into()));
        }
        Ok(PublicKey(b))
    }
    pub fn deserialize_uncompressed(bytes: &[u8]) -> Result<Self, Error> {
        if bytes.len() != 96 {
            return Err(Error::InvalidByteLength { got: bytes.len(), expected: 96 });
        }
        let mut c: [u8; 48] = bytes[..48].try_into().unwrap();
        if c[0] & 0xc0 != 0 {
            return Err(Error::BlstError("BLST_BAD_ENCODING".into()));
        }
        c[0] |= 0x80;
        if !on_curve(&c) || bytes[48..] != tail(&c) {
            return Err(Error::BlstError("BLST_POINT_NOT_ON_CURVE".into()));
        }
        Ok(PublicKey(c))
    }
    pub fn as_hex_string(&self) -> String {
        format!("0x{}", hex::encode(self.0))
    }
}
impl fmt::Debug for PublicKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.as_hex_string())
    }
}
impl fmt::Display for PublicKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.as_hex_string())
    }
}
impl serde::Serialize for PublicKey {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.as_hex_string())
    }
}
impl<'de> serde::Deserialize<'de> for PublicKey {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let b = hex::decode(s.strip_prefix("0x").unwrap_or(&s)).map_err(serde::de::Error::custom)?;
        PublicKey::deserialize(&b).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct PublicKeyBytes([u8; 48]);
impl PublicKeyBytes {
    pub fn empty() -> Self {
        PublicKeyBytes([0; 48])
    }
    pub fn serialize(&self) -> [u8; 48] {
        self.0
    }
    pub fn as_serialized(&self) -> &[u8] {
        &self.0
    }
    pub fn deserialize(b: &[u8]) -> Result<Self, Error> {
        Ok(PublicKeyBytes(b.try_into().map_err(|_| Error::InvalidByteLength { got: b.len(), expected: 48 })?))
    }
    pub fn decompress(&self) -> Result<PublicKey, Error> {
        PublicKey::deserialize(&self.0)
    }
}
impl fmt::Debug for PublicKeyBytes {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.0))
    }
}
impl From<PublicKey> for PublicKeyBytes {
    fn from(p: PublicKey) -> Self {
        p.compress()
    }
}
impl From<&PublicKey> for PublicKeyBytes {
    fn from(p: &PublicKey) -> Self {
        p.compress()
    }
}

#[derive(Clone)]
pub struct SecretKey([u8; 32]);
impl SecretKey {
    pub fn random() -> Self {
        let mut b = [0; 32];
        getrandom::getrandom(&mut b).expect("randomness");
        SecretKey(b)
    }
    pub fn deserialize(b: &[u8]) -> Result<Self, Error> {
        Ok(SecretKey(b.try_into().map_err(|_| Error::InvalidSecretKeyLength { got: b.len(), expected: 32 })?))
    }
    pub fn public_key(&self) -> PublicKey {
        let mut out = [0; 48];
        out[..32].copy_from_slice(&sha(&[&b"pk0"[..], &self.0].concat()));
        out[32..].copy_from_slice(&sha(&[&b"pk1"[..], &self.0].concat())[..16]);
        out[0] = out[0] & 0x3f | 0x80;
        out[47] &= 0xfe;
        PublicKey(out)
    }
    pub fn sign(&self, msg: Hash256) -> Signature {
        Signature(Point::of(&self.public_key(), &msg))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
struct Point([u64; 12]);
impl Point {
    fn of(pk: &PublicKey, msg: &B256) -> Point {
        let mut p = [0; 12];
        for block in 0..3u8 {
            let h = sha(&[&pk.0[..], &msg[..], &[block]].concat());
            for j in 0..4 {
                p[block as usize * 4 + j] = u64::from_le_bytes(h[j * 8..j * 8 + 8].try_into().unwrap());
            }
        }
        Point(p)
    }
    fn add(&mut self, o: &Point) {
        for i in 0..12 {
            self.0[i] = self.0[i].wrapping_add(o.0[i]);
        }
    }
    fn bytes(&self) -> [u8; 96] {
        if *self == Point::default() {
            return INFINITY_SIGNATURE;
        }
        let mut b = [0; 96];
        for i in 0..12 {
            b[i * 8..i * 8 + 8].copy_from_slice(&self.0[i].to_le_bytes());
        }
        b
    }
    fn from_bytes(b: &[u8]) -> Result<Point, Error> {
        if b.len() != 96 {
            return Err(Error::InvalidByteLength { got: b.len(), expected: 96 });
        }
        if b == INFINITY_SIGNATURE {
            return Ok(Point::default());
        }
        let mut p = [0; 12];
        for i in 0..12 {
            p[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        }
        Ok(Point(p))
    }
}

macro_rules! sig { ($t:ident) => {
    impl $t {
        pub fn serialize(&self) -> [u8; 96] {
            self.0.bytes()
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, Error> {
            Ok($t(Point::from_bytes(b)?))
        }
        pub fn infinity() -> Self {
            $t(Point::default())
        }
        pub fn empty() -> Self {
            Self::infinity()
        }
        pub fn is_infinity(&self) -> bool {
            self.0 == Point::default()
        }
    }
    impl fmt::Debug for $t {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "0x{}", hex::encode(self.serialize()))
        }
    }
    impl Encode for $t {
        fn is_ssz_fixed_len() -> bool {
            true
        }
        fn ssz_fixed_len() -> usize {
            96
        }
        fn ssz_append(&self, b: &mut Vec<u8>) {
            b.extend_from_slice(&self.serialize())
        }
    }
    impl Decode for $t {
        fn is_ssz_fixed_len() -> bool {
            true
        }
        fn ssz_fixed_len() -> usize {
            96
        }
        fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
            Self::deserialize(b).map_err(|e| DecodeError::BytesInvalid(format!("{e:?}")))
        }
    }
} }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Signature(Point);
sig!(Signature);
impl Signature {
    pub fn verify(&self, pubkey: &PublicKey, msg: Hash256) -> bool {
        self.0 == Point::of(pubkey, &msg)
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct AggregateSignature(Point);
sig!(AggregateSignature);
impl AggregateSignature {
    pub fn add_assign(&mut self, other: &Signature) {
        self.0.add(&other.0)
    }
    pub fn add_assign_aggregate(&mut self, other: &Self) {
        self.0.add(&other.0)
    }
    pub fn fast_aggregate_verify(&self, msg: Hash256, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() || self.is_infinity() {
            return false;
        }
        let mut sum = Point::default();
        for pk in pubkeys {
            sum.add(&Point::of(pk, &msg));
        }
        sum == self.0
    }
    pub fn eth_fast_aggregate_verify(&self, msg: Hash256, pubkeys: &[&PublicKey]) -> bool {
        (pubkeys.is_empty() && self.is_infinity()) || self.fast_aggregate_verify(msg, pubkeys)
    }
    pub fn aggregate_verify(&self, msgs: &[Hash256], pubkeys: &[&PublicKey]) -> bool {
        if msgs.is_empty() || msgs.len() != pubkeys.len() {
            return false;
        }
        let mut sum = Point::default();
        for (m, pk) in msgs.iter().zip(pubkeys) {
            sum.add(&Point::of(pk, m));
        }
        sum == self.0
    }
}

#[derive(Clone)]
pub struct Keypair {
    pub sk: SecretKey,
    pub pk: PublicKey,
}
impl Keypair {
    pub fn from_components(pk: PublicKey, sk: SecretKey) -> Self {
        Keypair { sk, pk }
    }
    pub fn random() -> Self {
        let sk = SecretKey::random();
        Keypair { pk: sk.public_key(), sk }
    }
    /// The key used by simulated validator `i` of world `tag`.
    pub fn simulated(tag: u64, i: u64) -> Self {
        let sk = SecretKey(sha(&[&tag.to_le_bytes()[..], &i.to_le_bytes()].concat()));
        Keypair { pk: sk.public_key(), sk }
    }
}
pub fn get_withdrawal_credentials(pubkey: &PublicKey, prefix: u8) -> Vec<u8> {
    let mut h = sha(&pubkey.0).to_vec();
    h[0] = prefix;
    h
}

/// A signature kept in its encoded form.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SignatureBytes([u8; 96]);
impl SignatureBytes {
    pub fn empty() -> Self {
        SignatureBytes([0; 96])
    }
    pub fn serialize(&self) -> [u8; 96] {
        self.0
    }
    pub fn decompress(&self) -> Result<Signature, Error> {
        Signature::deserialize(&self.0)
    }
}
