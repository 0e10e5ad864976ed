use crate::*;
use rcrypto::{Cipher, CryptoError, CryptoErrorKind, AES, DES, SM4, TDES};
use refimpl::block as rb;
use refimpl::block::RefCipher;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind { Aes128, Aes192, Aes256, Des, Tdes, Sm4, Toy(usize) }

impl Kind {
    pub fn key_len(&self) -> usize {
        match self { Kind::Aes128 | Kind::Sm4 => 16, Kind::Aes192 | Kind::Tdes => 24, Kind::Aes256 => 32, Kind::Des | Kind::Toy(_) => 8 }
    }
    pub fn bs(&self) -> usize { match self { Kind::Des | Kind::Tdes => 8, Kind::Toy(n) => *n, _ => 16 } }
    pub fn name(&self) -> &'static str {
        match self { Kind::Aes128 => "AES-128", Kind::Aes192 => "AES-192", Kind::Aes256 => "AES-256", Kind::Des => "DES", Kind::Tdes => "TDES", Kind::Sm4 => "SM4", Kind::Toy(_) => "toy" }
    }
}
pub fn real_kind() -> BoxedStrategy<Kind> {
    prop_oneof![Just(Kind::Aes128), Just(Kind::Aes192), Just(Kind::Aes256), Just(Kind::Des), Just(Kind::Tdes), Just(Kind::Sm4)].boxed()
}
/// library ciphers and user-supplied ciphers of other block sizes
pub fn any_kind() -> BoxedStrategy<Kind> {
    prop_oneof![6 => real_kind(), 2 => prop_oneof![Just(4usize), Just(8), Just(12), Just(32), 1..40usize].prop_map(Kind::Toy)].boxed()
}

/// a user-supplied cipher of any block size
#[derive(Clone)]
pub struct ToyC(pub rb::Toy);

pub enum AnyC { Aes(AES), Des(DES), Tdes(TDES), Sm4(SM4), Toy(ToyC) }

impl Clone for AnyC {
    fn clone(&self) -> Self {
        match self {
            AnyC::Aes(c) => AnyC::Aes(c.clone()),
            AnyC::Des(c) => AnyC::Des(c.clone()),
            AnyC::Tdes(c) => AnyC::Tdes(c.clone()),
            AnyC::Sm4(c) => AnyC::Sm4(c.clone()),
            AnyC::Toy(c) => AnyC::Toy(c.clone()),
        }
    }
}

impl Cipher for ToyC {
    type Output = usize;
    fn block_size(&self) -> Option<usize> { Some(self.0.bs) }
    fn encrypt(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> {
        if b.len() != self.0.bs { return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "block length")); }
        *dst = self.0.enc(b);
        Ok(dst.len())
    }
    fn decrypt(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> {
        if b.len() != self.0.bs { return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "block length")); }
        *dst = self.0.dec(b);
        Ok(dst.len())
    }
}
impl Cipher for AnyC {
    type Output = usize;
    fn block_size(&self) -> Option<usize> {
        match self { AnyC::Aes(c) => c.block_size(), AnyC::Des(c) => c.block_size(), AnyC::Tdes(c) => c.block_size(), AnyC::Sm4(c) => c.block_size(), AnyC::Toy(c) => c.block_size() }
    }
    fn encrypt(&self, d: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> {
        burn();
        match self { AnyC::Aes(c) => c.encrypt(d, b), AnyC::Des(c) => c.encrypt(d, b), AnyC::Tdes(c) => c.encrypt(d, b), AnyC::Sm4(c) => c.encrypt(d, b), AnyC::Toy(c) => c.encrypt(d, b) }
    }
    fn decrypt(&self, d: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> {
        burn();
        match self { AnyC::Aes(c) => c.decrypt(d, b), AnyC::Des(c) => c.decrypt(d, b), AnyC::Tdes(c) => c.decrypt(d, b), AnyC::Sm4(c) => c.decrypt(d, b), AnyC::Toy(c) => c.decrypt(d, b) }
    }
}

pub fn arr<const N: usize>(v: &[u8]) -> [u8; N] { let mut a = [0u8; N]; a.copy_from_slice(&v[..N]); a }

/// alt selects the other constructor where there are two
pub fn lib_cipher(k: Kind, key: &[u8], alt: bool) -> AnyC {
    match k {
        Kind::Aes128 => AnyC::Aes(if alt { AES::aes_128(arr(key)) } else { AES::new(key.to_vec()).unwrap() }),
        Kind::Aes192 => AnyC::Aes(if alt { AES::aes_192(arr(key)) } else { AES::new(key.to_vec()).unwrap() }),
        Kind::Aes256 => AnyC::Aes(if alt { AES::aes_256(arr(key)) } else { AES::new(key.to_vec()).unwrap() }),
        Kind::Des => AnyC::Des(DES::new(arr(key))),
        Kind::Tdes => AnyC::Tdes(TDES::new(arr(&key[..8]), arr(&key[8..16]), arr(&key[16..]))),
        Kind::Sm4 => AnyC::Sm4(if alt { SM4::new(arr(key)) } else { SM4::from_slice(key).unwrap() }),
        Kind::Toy(bs) => AnyC::Toy(ToyC(rb::Toy { bs, key: u64::from_be_bytes(arr(key)) })),
    }
}
pub fn ref_cipher(k: Kind, key: &[u8]) -> Box<dyn RefCipher> {
    match k {
        Kind::Aes128 | Kind::Aes192 | Kind::Aes256 => Box::new(rb::Aes::new(key)),
        Kind::Des => Box::new(rb::Des::new(key)),
        Kind::Tdes => Box::new(rb::Tdes::new(&key[..8], &key[8..16], &key[16..])),
        Kind::Sm4 => Box::new(rb::Sm4::new(key)),
        Kind::Toy(bs) => Box::new(rb::Toy { bs, key: u64::from_be_bytes(arr(key)) }),
    }
}
