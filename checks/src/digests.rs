use crate::*;
use rcrypto::{sha, sha3, Digest, DigestXOF, MD5, SHA, SHA3, SM3};
use refimpl::hash::Alg;
use refimpl::keccak;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Hash { Md5, Sha1, Sha224, Sha256, Sha384, Sha512, Sha512t(usize), Sm3, Sha3(usize), Shake { sec: usize, out: usize, raw: bool } }

impl Hash {
    pub fn alg(&self) -> Option<Alg> {
        Some(match self {
            Hash::Md5 => Alg::Md5, Hash::Sha1 => Alg::Sha1, Hash::Sha224 => Alg::Sha224, Hash::Sha256 => Alg::Sha256,
            Hash::Sha384 => Alg::Sha384, Hash::Sha512 => Alg::Sha512, Hash::Sha512t(t) => Alg::Sha512t(*t), Hash::Sm3 => Alg::Sm3,
            _ => return None,
        })
    }
    pub fn bits(&self) -> usize {
        match self { Hash::Sha3(b) => *b, Hash::Shake { out, .. } => *out, h => h.alg().unwrap().bits() }
    }
    pub fn bytes(&self) -> usize { (self.bits() + 7) / 8 }
    pub fn block(&self) -> usize {
        match self { Hash::Sha3(b) => (1600 - 2 * b) / 8, Hash::Shake { sec, .. } => (1600 - 2 * sec) / 8, h => h.alg().unwrap().block() }
    }
    pub fn name(&self) -> String {
        match self { Hash::Sha512t(_) => s("Sha512t"), Hash::Sha3(b) => format!("Sha3-{}", b), Hash::Shake { sec, .. } => format!("Shake{}", sec), h => format!("{:?}", h) }
    }
    pub fn reference(&self, m: &[u8]) -> Vec<u8> {
        match self {
            Hash::Sha3(b) => keccak::sha3_bytes(m, *b),
            Hash::Shake { sec, out, raw } => keccak::shake_bytes(m, *sec, *raw, *out),
            h => h.alg().unwrap().digest(m),
        }
    }
    pub fn reference_bits(&self, m: &[bool]) -> Vec<u8> {
        match self {
            Hash::Sha3(b) => keccak::sha3(m, *b),
            Hash::Shake { sec, out, raw } => keccak::shake(m, *sec, *raw, *out),
            h => h.alg().unwrap().digest(&keccak::bytes_of(m)),
        }
    }
    pub fn is_keccak(&self) -> bool { matches!(self, Hash::Sha3(_) | Hash::Shake { .. }) }
    /// the library object; family: through the family type instead of the hash's own type
    pub fn make(&self, family: bool) -> Box<dyn Dig> {
        match (self, family) {
            (Hash::Md5, _) => Box::new(D(MD5::new())),
            (Hash::Sm3, _) => Box::new(D(SM3::new())),
            (Hash::Sha1, false) => Box::new(D(sha::SHA1::new())),
            (Hash::Sha1, true) => Box::new(D(SHA::sha1())),
            (Hash::Sha224, false) => Box::new(D(sha::SHA224::new())),
            (Hash::Sha224, true) => Box::new(D(SHA::sha224())),
            (Hash::Sha256, false) => Box::new(D(sha::SHA256::new())),
            (Hash::Sha256, true) => Box::new(D(SHA::sha256())),
            (Hash::Sha384, false) => Box::new(D(sha::SHA384::new())),
            (Hash::Sha384, true) => Box::new(D(SHA::sha384())),
            (Hash::Sha512, false) => Box::new(D(sha::SHA512::new())),
            (Hash::Sha512, true) => Box::new(D(SHA::sha512())),
            (Hash::Sha512t(t), false) => Box::new(D(sha::SHA512T::new(*t).expect("SHA512T::new"))),
            (Hash::Sha512t(t), true) => Box::new(D(SHA::sha512t(*t).expect("SHA::sha512t"))),
            (Hash::Sha3(224), false) => Box::new(B224(sha3::SHA224::new())),
            (Hash::Sha3(256), false) => Box::new(B256(sha3::SHA256::new())),
            (Hash::Sha3(384), false) => Box::new(B384(sha3::SHA384::new())),
            (Hash::Sha3(_), false) => Box::new(B512(sha3::SHA512::new())),
            (Hash::Sha3(224), true) => Box::new(BF(SHA3::sha224())),
            (Hash::Sha3(256), true) => Box::new(BF(SHA3::sha256())),
            (Hash::Sha3(384), true) => Box::new(BF(SHA3::sha384())),
            (Hash::Sha3(_), true) => Box::new(BF(SHA3::sha512())),
            // A raw object converted once more stays the same object.
            (Hash::Shake { sec: 128, out, raw }, again) => { let h = sha3::Shake128::new(*out); Box::new(X128(match (*raw, again) { (false, _) => h, (true, false) => h.to_raw_shake(), (true, true) => h.to_raw_shake().to_raw_shake() })) }
            (Hash::Shake { out, raw, .. }, again) => { let h = sha3::Shake256::new(*out); Box::new(X256(match (*raw, again) { (false, _) => h, (true, false) => h.to_raw_shake(), (true, true) => h.to_raw_shake().to_raw_shake() })) }
        }
    }
    /// SHA-512/224 and SHA-512/256 have types of their own as well
    pub fn make_named(&self, family: bool) -> Option<Box<dyn Dig>> {
        Some(match (self, family) {
            (Hash::Sha512t(224), false) => Box::new(D(sha::SHA512T224::new())),
            (Hash::Sha512t(224), true) => Box::new(D(SHA::sha512_224())),
            (Hash::Sha512t(256), false) => Box::new(D(sha::SHA512T256::new())),
            (Hash::Sha512t(256), true) => Box::new(D(SHA::sha512_256())),
            _ => return None,
        })
    }
}

/// a digest object with the operations beyond the Digest trait where it has them
pub trait Dig {
    fn d(&mut self) -> &mut dyn Digest;
    fn r(&self) -> &dyn Digest;
    fn dup(&self) -> Box<dyn Dig>;
    fn bit(&mut self, _b: u8) -> bool { false }
    fn set_len(&mut self, _n: usize) -> bool { false }
}
#[derive(Clone)]
pub struct D<T>(pub T);
impl<T: Digest + Clone + 'static> Dig for D<T> {
    fn d(&mut self) -> &mut dyn Digest { &mut self.0 }
    fn r(&self) -> &dyn Digest { &self.0 }
    fn dup(&self) -> Box<dyn Dig> { Box::new(D(self.0.clone())) }
}
macro_rules! bitty { ($n:ident, $t:ty) => {
    pub struct $n(pub $t);
    impl Dig for $n {
        fn d(&mut self) -> &mut dyn Digest { &mut self.0 }
        fn r(&self) -> &dyn Digest { &self.0 }
        fn dup(&self) -> Box<dyn Dig> { Box::new($n(self.0.clone())) }
        fn bit(&mut self, b: u8) -> bool { self.0.write_bit(b); true }
    }
}; }
bitty!(B224, sha3::SHA224);
bitty!(B256, sha3::SHA256);
bitty!(B384, sha3::SHA384);
bitty!(B512, sha3::SHA512);
bitty!(BF, SHA3);
macro_rules! xof { ($n:ident, $t:ty) => {
    pub struct $n(pub $t);
    impl Dig for $n {
        fn d(&mut self) -> &mut dyn Digest { &mut self.0 }
        fn r(&self) -> &dyn Digest { &self.0 }
        fn dup(&self) -> Box<dyn Dig> { Box::new($n(self.0.clone())) }
        fn set_len(&mut self, n: usize) -> bool { self.0.set_digest_len(n); true }
    }
}; }
xof!(X128, sha3::Shake128);
xof!(X256, sha3::Shake256);

/// the Digest trait for boxed objects, so that HMAC can be built over any of them
pub struct BoxD(pub Box<dyn Dig>);
impl Clone for BoxD { fn clone(&self) -> Self { BoxD(self.0.dup()) } }
impl Digest for BoxD {
    fn block_size(&self) -> Option<usize> { self.0.r().block_size() }
    fn bits_len(&self) -> usize { self.0.r().bits_len() }
    fn write(&mut self, m: &[u8]) { burn(); self.0.d().write(m) }
    fn checksum(&mut self, o: &mut Vec<u8>) { burn(); self.0.d().checksum(o) }
    fn reset(&mut self) { self.0.d().reset() }
}

/// any admissible t of SHA-512/t
pub fn any_t() -> BoxedStrategy<usize> {
    prop_oneof![1 => Just(224usize), 1 => Just(256usize), 4 => 1usize..512, 2 => (1usize..64).prop_map(|x| x * 8)].prop_map(|t| if t == 384 { 383 } else { t }).boxed()
}
pub fn md_hash() -> BoxedStrategy<Hash> {
    prop_oneof![Just(Hash::Md5), Just(Hash::Sha1), Just(Hash::Sha224), Just(Hash::Sha256), Just(Hash::Sha384), Just(Hash::Sha512), Just(Hash::Sm3), any_t().prop_map(Hash::Sha512t)].boxed()
}
pub fn sha3_hash() -> BoxedStrategy<Hash> { prop_oneof![Just(224usize), Just(256), Just(384), Just(512)].prop_map(Hash::Sha3).boxed() }
pub fn out_bits() -> BoxedStrategy<usize> {
    prop_oneof![3 => (0usize..64).prop_map(|x| x * 8), 3 => 0usize..600, 1 => (0usize..9).prop_map(|d| 1088 + d - 4), 1 => (0usize..9).prop_map(|d| 1344 + d - 4), 2 => 600usize..5000].boxed()
}
pub fn shake_hash() -> BoxedStrategy<Hash> {
    (prop_oneof![Just(128usize), Just(256)], out_bits(), prop::bool::weighted(0.3)).prop_map(|(sec, out, raw)| Hash::Shake { sec, out, raw }).boxed()
}
