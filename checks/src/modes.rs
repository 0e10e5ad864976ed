//! Every mode of operation behind one interface, with its reference.
use crate::*;
use rcrypto::cipher_mode::*;
use rcrypto::{Cipher, CryptoError, CryptoErrorKind};
pub use refimpl::modes as rm;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum ModeK { Ecb, Cbc, Cfb(usize), Ofb, Ctr }

/// a mode with all its parameters
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec { pub kind: Kind, pub key: Blob, pub mode: ModeK, pub pad: bool, pub iv: Blob, pub wide: usize }

#[derive(Clone)]
pub enum AnyPad { Empty(EmptyPadding), Default(DefaultPadding<AnyC>) }
impl Padding for AnyPad {
    fn padding(&self, b: &mut Vec<u8>) { match self { AnyPad::Empty(p) => p.padding(b), AnyPad::Default(p) => p.padding(b) } }
    fn unpadding(&self, b: &mut Vec<u8>) -> Result<usize, CryptoError> { match self { AnyPad::Empty(p) => p.unpadding(b), AnyPad::Default(p) => p.unpadding(b) } }
}
pub fn any_pad(c: &AnyC, pad: bool) -> AnyPad { if pad { AnyPad::Default(DefaultPadding::new(c)) } else { AnyPad::Empty(EmptyPadding::new()) } }

/// a user-supplied source of initial vectors: gives what it is told to, or fails
#[derive(Clone)]
pub struct IvSrc(pub Rc<RefCell<Option<Vec<u8>>>>);
impl InitialVec<AnyC> for IvSrc {
    fn initial_vec(&mut self, iv: &mut Vec<u8>) -> Result<(), CryptoError> {
        iv.clear();
        match &*self.0.borrow() {
            Some(v) => { iv.extend_from_slice(v); Ok(()) }
            None => { iv.push(1); Err(CryptoError::new(CryptoErrorKind::RandError, "no initial vector")) }
        }
    }
}

pub enum M { Ecb(ECB<AnyC, AnyPad>), Cbc(CBC<AnyC, AnyPad, IvSrc>), Cfb(CFB<AnyC, AnyPad, IvSrc>), Ofb(OFB<AnyC, IvSrc>), Ctr(CTR<AnyC, DefaultCounter>) }
pub struct LibMode { pub m: M, pub src: Rc<RefCell<Option<Vec<u8>>>> }

macro_rules! each { ($s:expr, $x:ident => $e:expr) => { match $s { M::Ecb($x) => $e, M::Cbc($x) => $e, M::Cfb($x) => $e, M::Ofb($x) => $e, M::Ctr($x) => $e } } }
impl M {
    pub fn encrypt(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError> { each!(self, x => x.encrypt(d, m)) }
    pub fn decrypt(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError> { each!(self, x => x.decrypt(d, m)) }
    pub fn block_size(&self) -> Option<usize> { each!(self, x => x.block_size()) }
    pub fn dup(&self) -> M {
        match self { M::Ecb(x) => M::Ecb(x.clone()), M::Cbc(x) => M::Cbc(x.clone()), M::Cfb(x) => M::Cfb(x.clone()), M::Ofb(x) => M::Ofb(x.clone()), M::Ctr(x) => M::Ctr(x.clone()) }
    }
    /// None: the mode has no initial vector
    pub fn set_iv(&mut self, iv: Vec<u8>) -> Option<Result<(), CryptoError>> {
        match self { M::Cbc(x) => Some(x.set_iv(iv)), M::Cfb(x) => Some(x.set_iv(iv)), M::Ofb(x) => Some(x.set_iv(iv)), _ => None }
    }
    pub fn update_iv(&mut self) -> Option<Result<Vec<u8>, CryptoError>> {
        match self { M::Cbc(x) => Some(x.update_iv().map(|v| v.clone())), M::Cfb(x) => Some(x.update_iv().map(|v| v.clone())), M::Ofb(x) => Some(x.update_iv().map(|v| v.clone())), _ => None }
    }
    pub fn cur_iv(&self) -> Option<Vec<u8>> {
        match self { M::Cbc(x) => Some(x.cur_iv()), M::Cfb(x) => Some(x.cur_iv()), M::Ofb(x) => Some(x.cur_iv()), _ => None }
    }
    pub fn enc_stream(self) -> Box<dyn Str> {
        match self { M::Ecb(x) => Box::new(E(x.encrypt_stream())), M::Cbc(x) => Box::new(E(x.encrypt_stream())), M::Cfb(x) => Box::new(E(x.encrypt_stream())), M::Ofb(x) => Box::new(E(x.encrypt_stream())), M::Ctr(x) => Box::new(E(x.encrypt_stream())) }
    }
    pub fn dec_stream(self) -> Box<dyn Str> {
        match self { M::Ecb(x) => Box::new(De(x.decrypt_stream())), M::Cbc(x) => Box::new(De(x.decrypt_stream())), M::Cfb(x) => Box::new(De(x.decrypt_stream())), M::Ofb(x) => Box::new(De(x.decrypt_stream())), M::Ctr(x) => Box::new(De(x.decrypt_stream())) }
    }
}

/// a stream of either direction; output goes to `draw` when given and stays in the pond otherwise
pub trait Str {
    fn write(&mut self, m: &[u8], draw: Option<&mut Vec<u8>>) -> Result<(), CryptoError>;
    fn finish(&mut self, draw: Option<&mut Vec<u8>>) -> Result<(), CryptoError>;
    fn reset(&mut self);
    fn enc(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError>;
    fn dec(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError>;
}
pub struct E<T>(pub T);
pub struct De<T>(pub T);
pub trait Rst { fn rst(&mut self); }
macro_rules! rst { ($($t:ty),*) => { $(impl Rst for $t { fn rst(&mut self) { self.reset() } })* } }
rst!(ECBEncrypt<AnyC, AnyPad>, ECBDecrypt<AnyC, AnyPad>, CBCEncrypt<AnyC, AnyPad, IvSrc>, CBCDecrypt<AnyC, AnyPad, IvSrc>,
    CFBEncrypt<AnyC, AnyPad, IvSrc>, CFBDecrypt<AnyC, AnyPad, IvSrc>, OFBEncrypt<AnyC, IvSrc>, OFBDecrypt<AnyC, IvSrc>, CTREncrypt<AnyC, DefaultCounter>, CTRDecrypt<AnyC, DefaultCounter>);

fn pour(p: Pond, draw: Option<&mut Vec<u8>>) {
    if let Some(d) = draw {
        let before = d.len();
        let n = p.draw_off(d);
        assert_eq!(d.len() - before, n, "draw_off reported a length it did not append");
    }
}
macro_rules! strimpl { ($w:ident, $tr:ident) => {
    impl<T: $tr + Rst + Cipher<Output = usize>> Str for $w<T> {
        fn write(&mut self, m: &[u8], draw: Option<&mut Vec<u8>>) -> Result<(), CryptoError> { pour(self.0.write(m)?, draw); Ok(()) }
        fn finish(&mut self, draw: Option<&mut Vec<u8>>) -> Result<(), CryptoError> { pour(self.0.finish()?, draw); Ok(()) }
        fn reset(&mut self) { self.0.rst() }
        fn enc(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError> { self.0.encrypt(d, m) }
        fn dec(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError> { self.0.decrypt(d, m) }
    }
}; }
strimpl!(E, EncryptStream);
strimpl!(De, DecryptStream);

impl Spec {
    pub fn bs(&self) -> usize { self.kind.bs() }
    pub fn mode(&self) -> rm::Mode { match self.mode { ModeK::Ecb => rm::Mode::Ecb, ModeK::Cbc => rm::Mode::Cbc, ModeK::Cfb(s) => rm::Mode::Cfb(s), ModeK::Ofb => rm::Mode::Ofb, ModeK::Ctr => rm::Mode::Ctr } }
    pub fn rpad(&self) -> rm::Pad { if self.pad { rm::Pad::OneZeros } else { rm::Pad::None } }
    pub fn name(&self) -> String { format!("{}-{}{}", self.kind.name(), match self.mode { ModeK::Cfb(s) => format!("CFB{}", 8 * s), m => format!("{:?}", m).to_uppercase() }, if self.pad { " padded" } else { "" }) }
    pub fn short(&self) -> &'static str { match self.mode { ModeK::Ecb => "ECB", ModeK::Cbc => "CBC", ModeK::Cfb(_) => "CFB", ModeK::Ofb => "OFB", ModeK::Ctr => "CTR" } }
    pub fn counter(&self, init: &[u8]) -> Result<DefaultCounter, String> { Ok(must!(DefaultCounter::new(init.to_vec(), 8 * self.bs() + self.wide), "DefaultCounter::new")) }
    pub fn make(&self) -> Result<LibMode, String> {
        let c = lib_cipher(self.kind, &self.key.bytes(), false);
        let p = any_pad(&c, self.pad);
        let iv = self.iv.bytes();
        let src = Rc::new(RefCell::new(Some(iv.clone())));
        let i = IvSrc(src.clone());
        let m = match self.mode {
            ModeK::Ecb => M::Ecb(ECB::new(c, p)),
            ModeK::Cbc => M::Cbc(must!(CBC::new(c, p, i), "CBC::new")),
            ModeK::Cfb(s) => M::Cfb(must!(CFB::new(c, p, i, 8 * s), "CFB::new s={}", 8 * s)),
            ModeK::Ofb => M::Ofb(must!(OFB::new(c, i), "OFB::new")),
            ModeK::Ctr => M::Ctr(must!(CTR::new(c, self.counter(&iv)?), "CTR::new")),
        };
        Ok(LibMode { m, src })
    }
    pub fn rc(&self) -> Box<dyn refimpl::block::RefCipher> { ref_cipher(self.kind, &self.key.bytes()) }
    /// whole units the mode takes without padding
    pub fn unit(&self) -> usize { match self.mode { ModeK::Ecb | ModeK::Cbc => self.bs(), ModeK::Cfb(s) => s, _ => 1 } }
}

/// messages that end like a padding now and then
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Msg { pub body: Blob, pub tail: Vec<u8> }
impl Msg { pub fn bytes(&self) -> Vec<u8> { let mut b = self.body.bytes(); b.extend_from_slice(&self.tail); b } }
pub fn tail(bs: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => Just(vec![]),
        2 => (0..bs + 2).prop_map(|n| { let mut v = vec![0x80]; v.resize(1 + n, 0); v }),
        1 => (1..bs + 2).prop_map(|n| vec![0; n]),
        1 => (any::<u8>(), 0..bs + 2).prop_map(|(b, n)| { let mut v = vec![0x80, b]; v.resize(2 + n, 0); v }),
    ].boxed()
}
pub fn message(bs: usize) -> BoxedStrategy<Msg> { (blob(prop_oneof![6 => lens(bs, 6 * bs), 1 => 0..(20 * bs)]), tail(bs)).prop_map(|(body, tail)| Msg { body, tail }).boxed() }

pub fn mode_k(bs: usize, pad: bool) -> BoxedStrategy<ModeK> {
    let segs: Vec<usize> = (1..=bs).filter(|s| !pad || bs % s == 0).collect();
    let seg = prop_oneof![2 => prop::sample::select(segs), 1 => Just(1usize), 1 => Just(bs)].prop_map(ModeK::Cfb);
    if pad { prop_oneof![2 => Just(ModeK::Ecb), 3 => Just(ModeK::Cbc), 4 => seg].boxed() }
    else { prop_oneof![2 => Just(ModeK::Ecb), 3 => Just(ModeK::Cbc), 4 => seg, 3 => Just(ModeK::Ofb), 5 => Just(ModeK::Ctr)].boxed() }
}
/// counters near carries and the wrap-around as well
fn ctr_iv(bs: usize) -> BoxedStrategy<(Blob, usize)> {
    let near = |n: usize| prop_oneof![
        3 => blob_n(n),
        2 => (0..=n, any::<u8>(), any::<u64>()).prop_map(move |(k, low, seed)| { let mut v = Sm64(seed).bytes(n); let l = v.len(); for b in v[l - k..].iter_mut() { *b = 0xff; } if k > 0 { v[l - 1] = 0xff - (low & 15); } Blob::lit(&v) }),
    ];
    prop_oneof![
        4 => near(bs).prop_map(|b| (b, 0)),
        1 => (0..=bs).prop_flat_map(move |n| near(n)).prop_map(|b| (b, 0)),
        2 => (1usize..90).prop_flat_map(move |w| ((0..=bs + (w + 7) / 8).prop_flat_map(move |n| near(n)), Just(w))),
    ].boxed()
}
pub fn spec() -> BoxedStrategy<Spec> {
    (any_kind(), prop::bool::weighted(0.4)).prop_flat_map(|(kind, pad)| (Just(kind), Just(pad), blob_n(kind.key_len()), mode_k(kind.bs(), pad)))
        .prop_flat_map(|(kind, pad, key, mode)| {
            let iv = match mode { ModeK::Ctr => ctr_iv(kind.bs()), _ => blob_n(kind.bs()).prop_map(|b| (b, 0)).boxed() };
            (Just(kind), Just(pad), Just(key), Just(mode), iv)
        }).prop_map(|(kind, pad, key, mode, (iv, wide))| Spec { kind, key, mode, pad, iv, wide }).boxed()
}
