//! C17: invalid input yields an error, never a panic, and leaves objects usable.
use checks::curves::{curve_of, BoxC, IMPLS};

use checks::pk::*;
use checks::*;
use rcrypto::cipher_mode::*;
use rcrypto::ecdsa::ECDSA;

use rcrypto::sha::{SHA, SHA512T};
use rcrypto::rsa::{KeyPair, PrivateKey, PublicKey, OAEP, PKCS1, PSS};

use rcrypto::{dsa, ecdsa, elliptic, rsa, Keccak, ZUCCipher, ZUCMac, ZUC, Cipher, CryptoError, CryptoErrorKind, Digest, Signature, AES, CMAC, HMAC, SM4};
use refimpl::rsa as rr;
use rmath::bigint::BigInt;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

const FUEL: u64 = 300_000;

/// any value of the big integer type
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Int { Nan, Pos(Num), Neg(Num) }
impl Int { fn get(&self, m: &Bn) -> BigInt { match self { Int::Nan => nan(), Int::Pos(n) => big(&n.get(m)), Int::Neg(n) => neg(&n.get(m)) } } }
fn int() -> BoxedStrategy<Int> { prop_oneof![8 => num().prop_map(Int::Pos), 4 => wide_num().prop_map(Int::Pos), 1 => Just(Int::Nan), 2 => num().prop_map(Int::Neg)].boxed() }
/// mostly the right value
fn near() -> BoxedStrategy<Option<Int>> { prop_oneof![3 => Just(None), 2 => int().prop_map(Some)].boxed() }
fn pick(x: &Option<Int>, right: &Bn, m: &Bn) -> BigInt { match x { None => big(right), Some(i) => i.get(m) } }
/// lengths from nothing to far too long
fn any_len(n: usize) -> BoxedStrategy<usize> { prop_oneof![4 => 0usize..20, 4 => (0..5usize).prop_map(move |d| (n + d).saturating_sub(2)), 3 => 0..2 * n + 2, 1 => 0..600usize].boxed() }
fn any_blob(n: usize) -> BoxedStrategy<Blob> { blob(any_len(n)) }
/// hashes, also ones of unusual or no output length
fn odd_hash() -> BoxedStrategy<Hash> {
    prop_oneof![6 => md_hash(), 2 => sha3_hash(), 2 => (prop_oneof![2 => Just(0usize), 2 => 0usize..40, 1 => 0usize..900], any::<bool>(), any::<bool>()).prop_map(|(out, a, raw)| Hash::Shake { sec: if a { 128 } else { 256 }, out, raw })].boxed()
}
fn count<T>(l: &mut Vec<String>, r: &Result<T, CryptoError>) { l.push(s(if r.is_ok() { "accepted" } else { "refused" })); }
fn done(mut l: Vec<String>) -> Res { l.sort(); l.dedup(); fuel(u64::MAX); okls(true, l) }

// ---------------------------------------------------------------- keys of symmetric algorithms
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sym { Aes(Blob), Sm4(Blob), Zuc(Blob, Blob), Eea(Blob, u32, u8), Eia(Blob, u32, u8), Hmac(Blob, Hash), Cmac(Option<usize>, bool), Keccak(usize, u32, usize), Sha512t(usize), Hash(Hash) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SymC { new: Sym, ops: Vec<(u8, Blob)> }
/// a cipher of any declared block size, failing at some calls
#[derive(Clone)]
struct Odd { bs: Option<usize>, fail: Rc<RefCell<Option<(usize, usize)>>>, calls: Rc<RefCell<usize>> }
impl Odd {
    fn new(bs: Option<usize>) -> Odd { Odd { bs, fail: Rc::new(RefCell::new(None)), calls: Rc::new(RefCell::new(0)) } }
    fn toy(&self) -> refimpl::block::Toy { refimpl::block::Toy { bs: self.bs.unwrap_or(1), key: 77 } }
    fn go(&self, d: &mut Vec<u8>, b: &[u8], enc: bool) -> Result<usize, CryptoError> {
        let i = { let mut c = self.calls.borrow_mut(); *c += 1; *c - 1 };
        if let Some((a, n)) = *self.fail.borrow() { if i >= a && i - a < n { d.clear(); return Err(CryptoError::new(CryptoErrorKind::OuterErr, "scripted failure")); } }
        if b.len() != self.toy().bs { return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "block length")); }
        use refimpl::block::RefCipher;
        *d = if enc { self.toy().enc(b) } else { self.toy().dec(b) };
        Ok(d.len())
    }
}
impl Cipher for Odd {
    type Output = usize;
    fn block_size(&self) -> Option<usize> { self.bs }
    fn encrypt(&self, d: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> { self.go(d, b, true) }
    fn decrypt(&self, d: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> { self.go(d, b, false) }
}
fn block_ops(c: &dyn Cipher<Output = usize>, fresh: &dyn Cipher<Output = usize>, bs: usize, ops: &[(u8, Blob)], l: &mut Vec<String>) -> Result<(), String> {
    let probe = Sm64(4).bytes(bs);
    let (mut want, mut d) = (vec![], vec![]);
    must!(fresh.encrypt(&mut want, &probe), "fresh object");
    for (k, b) in ops {
        let b = b.bytes();
        let r = if k & 1 == 0 { c.encrypt(&mut d, &b) } else { c.decrypt(&mut d, &b) };
        ensure!(r.is_ok() == (b.len() == bs), "{} bytes for a block of {}: {:?}", b.len(), bs, r);
        count(l, &r);
    }
    must!(c.encrypt(&mut d, &probe), "after {} calls", ops.len());
    eq("after the calls", &d, &want)
}
fn mac_ops(m: &mut dyn Digest, fresh: &mut dyn Digest, ops: &[(u8, Blob)]) -> Result<(), String> {
    let (mut want, mut d) = (vec![], vec![]);
    fresh.write(b"probe");
    fresh.checksum(&mut want);
    for (k, b) in ops { match k % 3 { 0 => m.write(&b.bytes()), 1 => m.checksum(&mut d), _ => m.reset() } }
    m.reset();
    m.write(b"probe");
    m.checksum(&mut d);
    eq("tag after the calls", &d, &want)
}
fn symmetric(c: &SymC) -> Res {
    let mut l = vec![];
    match &c.new {
        Sym::Aes(k) => {
            let r = AES::new(k.bytes());
            ensure!(r.is_ok() == matches!(k.len, 16 | 24 | 32), "AES key of {} bytes", k.len);
            count(&mut l, &r);
            if let Ok(o) = r { block_ops(&o, &AES::new(k.bytes()).unwrap(), 16, &c.ops, &mut l)?; }
            l.push(s("AES"));
        }
        Sym::Sm4(k) => {
            let r = SM4::from_slice(&k.bytes());
            ensure!(r.is_ok() == (k.len == 16), "SM4 key of {} bytes", k.len);
            count(&mut l, &r);
            if let Ok(o) = r { block_ops(&o, &SM4::from_slice(&k.bytes()).unwrap(), 16, &c.ops, &mut l)?; }
            l.push(s("SM4"));
        }
        Sym::Zuc(k, iv) => {
            let r = ZUC::from_slice(&k.bytes(), &iv.bytes());
            ensure!(r.is_ok() == (k.len == 16 && iv.len == 16), "ZUC with {} and {} bytes", k.len, iv.len);
            count(&mut l, &r);
            let (good, g2) = ([7u8; 16], [9u8; 16]);
            let mut z = ZUC::from_slice(&good, &g2).unwrap();
            let mut f = ZUC::from_slice(&good, &g2).unwrap();
            for (x, b) in &c.ops {
                let b = b.bytes();
                match x % 3 {
                    0 => { let (p, q) = (z.next(), f.next()); ensure!(p == q, "keystream changed"); }
                    1 => { let r = z.set_slice(&b, &g2); ensure!(r.is_ok() == (b.len() == 16), "set_slice with a key of {} bytes", b.len()); if r.is_ok() { must!(f.set_slice(&b, &g2), "set_slice"); } count(&mut l, &r); }
                    _ => { let r = z.set_slice(&good, &b); ensure!(r.is_ok() == (b.len() == 16), "set_slice with an iv of {} bytes", b.len()); if r.is_ok() { must!(f.set_slice(&good, &b), "set_slice"); } count(&mut l, &r); }
                }
            }
            ensure!(z.zuc() == f.zuc(), "keystream changed by refused keys");
            l.push(s("ZUC"));
        }
        Sym::Eea(k, n, b) => {
            let r = ZUCCipher::from_slice(*n, *b, n & 1 == 0, &k.bytes());
            ensure!(r.is_ok() == (k.len == 16), "key of {} bytes", k.len);
            count(&mut l, &r);
            if let Ok(o) = r {
                let mut d = vec![];
                for (x, b) in &c.ops { let r = if x & 1 == 0 { o.encrypt(&mut d, &b.bytes()) } else { o.decrypt(&mut d, &b.bytes()) }; must!(r, "stream cipher"); ensure!(d.len() == b.len, "{} bytes for {}", d.len(), b.len); }
            }
            l.push(s("EEA3"));
        }
        Sym::Eia(k, n, b) => {
            let r = ZUCMac::from_slice(*n, *b, n & 1 == 0, &k.bytes());
            ensure!(r.is_ok() == (k.len == 16), "key of {} bytes", k.len);
            count(&mut l, &r);
            if let Ok(mut o) = r { mac_ops(&mut o, &mut ZUCMac::from_slice(*n, *b, n & 1 == 0, &k.bytes()).unwrap(), &c.ops)?; }
            l.push(s("EIA3"));
        }
        Sym::Hmac(k, h) => {
            let r = HMAC::new(k.bytes(), BoxD(h.make(false)));
            count(&mut l, &r);
            if let Ok(mut o) = r { mac_ops(&mut o, &mut HMAC::new(k.bytes(), BoxD(h.make(false))).unwrap(), &c.ops)?; }
            l.push(s("HMAC"));
        }
        Sym::Cmac(bs, fail) => {
            let o = Odd::new(*bs);
            if *fail { *o.fail.borrow_mut() = Some((0, 1)); }
            let r = CMAC::new(o.clone());
            if *fail || bs.is_none() { ensure!(r.is_err(), "CMAC accepted a failing cipher or one without blocks"); }
            count(&mut l, &r);
            *o.fail.borrow_mut() = None;
            if let Ok(mut m) = r { mac_ops(&mut m, &mut CMAC::new(o).unwrap(), &c.ops)?; }
            l.push(s("CMAC"));
        }
        Sym::Keccak(b, nr, rate) => {
            let r = Keccak::new(*b, *nr);
            ensure!(r.is_ok() == matches!(b, 25 | 50 | 100 | 200 | 400 | 800 | 1600), "Keccak of width {}", b);
            count(&mut l, &r);
            if let Ok(mut k) = r {
                let mut d = vec![];
                for (_, m) in c.ops.iter().take(3) {
                    let r = k.permutation(&m.bytes(), &mut d);
                    ensure!(r.is_ok() == (m.len >= (b + 7) / 8), "permutation of {} bytes at width {}", m.len, b);
                    count(&mut l, &r);
                }
                let (mut x, mut y) = (vec![], vec![]);
                let probe = Sm64(6).bytes((b + 7) / 8);
                must!(k.permutation(&probe, &mut x), "permutation");
                must!(Keccak::new(*b, *nr).unwrap().permutation(&probe, &mut y), "permutation");
                eq("permutation after the calls", &x, &y)?;
                let r = k.sponge(*rate);
                ensure!(r.is_ok() == (*rate > 0 && rate < b), "rate {} at width {}", rate, b);
                count(&mut l, &r);
            }
            l.push(s("Keccak"));
        }
        Sym::Sha512t(t) => {
            let (a, b) = (SHA512T::new(*t), SHA::sha512t(*t));
            ensure!(a.is_some() == b.is_some(), "SHA-512/{}: the two constructors disagree", t);
            if *t > 0 && *t < 512 && *t != 384 { ensure!(a.is_some(), "SHA-512/{} refused", t); }
            if *t > 512 { ensure!(a.is_none(), "SHA-512/{} accepted", t); }
            l.push(s(if a.is_some() { "accepted" } else { "refused" }));
            if let (Some(mut a), Some(mut b)) = (a, b) {
                mac_ops(&mut a, &mut SHA512T::new(*t).unwrap(), &c.ops)?;
                mac_ops(&mut b, &mut SHA512T::new(*t).unwrap(), &c.ops)?;
            }
            l.push(s("SHA-512/t"));
        }
        Sym::Hash(h) => { mac_ops(&mut BoxD(h.make(false)), &mut BoxD(h.make(true)), &c.ops)?; l.push(s("hash")); }
    }
    done(l)
}
fn sym() -> BoxedStrategy<SymC> {
    let key = || blob(prop_oneof![3 => prop_oneof![Just(16usize), Just(24), Just(32)], 2 => 0..70usize]);
    let k16 = || blob(prop_oneof![3 => Just(16usize), 2 => 0..40usize]);
    let new = prop_oneof![
        key().prop_map(Sym::Aes), k16().prop_map(Sym::Sm4), (k16(), k16()).prop_map(|(a, b)| Sym::Zuc(a, b)),
        (k16(), any::<u32>(), any::<u8>()).prop_map(|(a, b, c)| Sym::Eea(a, b, c)), (k16(), any::<u32>(), any::<u8>()).prop_map(|(a, b, c)| Sym::Eia(a, b, c)),
        (blob(0..300usize), odd_hash()).prop_map(|(a, b)| Sym::Hmac(a, b)),
        (prop_oneof![1 => Just(None), 5 => (1..70usize).prop_map(Some), 1 => Just(Some(256))], prop::bool::weighted(0.2)).prop_map(|(a, b)| Sym::Cmac(a, b)),
        (prop_oneof![4 => prop::sample::select(vec![25usize, 50, 100, 200, 400, 800, 1600]), 1 => 0..1700usize, 1 => any::<usize>()], 0..60u32, prop_oneof![5 => 0..1700usize, 1 => any::<usize>()]).prop_map(|(a, b, c)| Sym::Keccak(a, b, c)),
        prop_oneof![4 => 0..520usize, 2 => 500..2100usize, 1 => any::<usize>()].prop_map(Sym::Sha512t), odd_hash().prop_map(Sym::Hash),
    ];
    (new, prop::collection::vec((any::<u8>(), any_blob(16)), 0..8)).prop_map(|(new, ops)| SymC { new, ops }).boxed()
}

// ---------------------------------------------------------------- modes
#[derive(Clone, Debug, Serialize, Deserialize)]
enum MOp { Enc(Blob), Dec(Blob), SetIv(Blob), NewIv(Option<Blob>), Fail(usize, usize), Ctr(Blob, usize) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp { Write(Blob), Finish, Reset, Enc(Blob), Dec(Blob), Fail(usize, usize) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Modes { bs: Option<usize>, mode: u8, seg: usize, pad: Option<usize>, iv: Option<Blob>, wide: usize, ops: Vec<MOp>, stream: Option<(bool, Vec<SOp>)> }
#[derive(Clone)]
struct IvO(Rc<RefCell<Option<Vec<u8>>>>);
impl InitialVec<Odd> for IvO {
    fn initial_vec(&mut self, iv: &mut Vec<u8>) -> Result<(), CryptoError> {
        match &*self.0.borrow() { Some(v) => { *iv = v.clone(); Ok(()) } None => { iv.push(3); Err(CryptoError::new(CryptoErrorKind::RandError, "no initial vector")) } }
    }
}
#[derive(Clone)]
struct PadO(Option<DefaultPadding<Odd>>);
impl Padding for PadO {
    fn padding(&self, b: &mut Vec<u8>) { if let Some(p) = &self.0 { p.padding(b) } }
    fn unpadding(&self, b: &mut Vec<u8>) -> Result<usize, CryptoError> { match &self.0 { Some(p) => p.unpadding(b), None => Ok(b.len()) } }
}
trait Obj {
    fn enc(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError>;
    fn dec(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError>;
    fn set_iv(&mut self, iv: Vec<u8>) -> Option<Result<(), CryptoError>>;
    fn new_iv(&mut self) -> Option<Result<(), CryptoError>>;
    fn ctr(&mut self, c: DefaultCounter) -> Option<Result<(), CryptoError>>;
    fn stream(&self, enc: bool) -> Box<dyn Stm>;
}
trait Stm {
    fn write(&mut self, m: &[u8]) -> Result<(), CryptoError>;
    fn finish(&mut self) -> Result<(), CryptoError>;
    fn reset(&mut self);
    fn enc(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError>;
    fn dec(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError>;
    fn drain(&mut self) -> Vec<u8>;
}
struct St<T>(T, Vec<u8>);
macro_rules! stm { ($($t:ty),*) => { $(impl Stm for St<$t> {
    fn write(&mut self, m: &[u8]) -> Result<(), CryptoError> { self.0.write(m)?.draw_off(&mut self.1); Ok(()) }
    fn finish(&mut self) -> Result<(), CryptoError> { self.0.finish()?.draw_off(&mut self.1); Ok(()) }
    fn reset(&mut self) { self.0.reset(); self.1.clear(); }
    fn enc(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError> { self.0.encrypt(d, m) }
    fn dec(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError> { self.0.decrypt(d, m) }
    fn drain(&mut self) -> Vec<u8> { std::mem::take(&mut self.1) }
})* }; }
stm!(ECBEncrypt<Odd, PadO>, ECBDecrypt<Odd, PadO>, CBCEncrypt<Odd, PadO, IvO>, CBCDecrypt<Odd, PadO, IvO>, CFBEncrypt<Odd, PadO, IvO>, CFBDecrypt<Odd, PadO, IvO>, OFBEncrypt<Odd, IvO>, OFBDecrypt<Odd, IvO>, CTREncrypt<Odd, DefaultCounter>, CTRDecrypt<Odd, DefaultCounter>);
macro_rules! obj { ($t:ty, $set:expr, $new:expr, $ctr:expr) => { impl Obj for $t {
    fn enc(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError> { self.encrypt(d, m) }
    fn dec(&self, d: &mut Vec<u8>, m: &[u8]) -> Result<usize, CryptoError> { self.decrypt(d, m) }
    fn set_iv(&mut self, iv: Vec<u8>) -> Option<Result<(), CryptoError>> { let f: fn(&mut $t, Vec<u8>) -> Option<Result<(), CryptoError>> = $set; f(self, iv) }
    fn new_iv(&mut self) -> Option<Result<(), CryptoError>> { let f: fn(&mut $t) -> Option<Result<(), CryptoError>> = $new; f(self) }
    fn ctr(&mut self, c: DefaultCounter) -> Option<Result<(), CryptoError>> { let f: fn(&mut $t, DefaultCounter) -> Option<Result<(), CryptoError>> = $ctr; f(self, c) }
    fn stream(&self, enc: bool) -> Box<dyn Stm> { if enc { Box::new(St(self.clone().encrypt_stream(), vec![])) } else { Box::new(St(self.clone().decrypt_stream(), vec![])) } }
} }; }
obj!(ECB<Odd, PadO>, |_, _| None, |_| None, |_, _| None);
obj!(CBC<Odd, PadO, IvO>, |o, iv| Some(o.set_iv(iv)), |o| Some(o.update_iv().map(|_| ())), |_, _| None);
obj!(CFB<Odd, PadO, IvO>, |o, iv| Some(o.set_iv(iv)), |o| Some(o.update_iv().map(|_| ())), |_, _| None);
obj!(OFB<Odd, IvO>, |o, iv| Some(o.set_iv(iv)), |o| Some(o.update_iv().map(|_| ())), |_, _| None);
obj!(CTR<Odd, DefaultCounter>, |_, _| None, |_| None, |o, c| Some(o.set_counter(c)));

fn modes(c: &Modes) -> Res {
    let bs = c.bs.unwrap_or(1);
    let cipher = Odd::new(c.bs);
    let src = Rc::new(RefCell::new(c.iv.as_ref().map(|b| b.bytes())));
    let start = c.iv.as_ref().map(|b| b.bytes());
    let (b0, w0, m0) = (c.bs, c.wide, c.mode);
    let (seg, pad) = (if c.bs.is_none() { c.seg % 4096 } else { c.seg }, c.pad);
    let make = move |iv: Option<Vec<u8>>, src: Rc<RefCell<Option<Vec<u8>>>>, cipher: &Odd| -> Result<Box<dyn Obj>, CryptoError> {
        let k = cipher.clone();
        let p = PadO(pad.map(|n| DefaultPadding::new(&Odd::new(if n == 0 { b0 } else { Some(n) }))));
        *src.borrow_mut() = iv.clone();
        let i = IvO(src);
        Ok(match m0 % 5 {
            0 => Box::new(ECB::new(k, p)),
            1 => Box::new(CBC::new(k, p, i)?),
            2 => Box::new(CFB::new(k, p, i, seg)?),
            3 => Box::new(OFB::new(k, i)?),
            _ => Box::new(CTR::new(k, DefaultCounter::new(iv.unwrap_or_default(), w0)?)?),
        })
    };
    let mut l = vec![s(["ECB", "CBC", "CFB", "OFB", "CTR"][c.mode as usize % 5])];
    let r = make(start.clone(), src.clone(), &cipher);
    count(&mut l, &r);
    let mut o = match r { Err(_) => return done(l), Ok(o) => o };
    let arm = |at: usize, n: usize| { *cipher.calls.borrow_mut() = 0; *cipher.fail.borrow_mut() = Some((at, n)); };
    let disarm = || { *cipher.calls.borrow_mut() = 0; *cipher.fail.borrow_mut() = None; };
    // where the object is expected to be
    let mut iv = start.clone();
    let mut width = c.wide;
    let mut d = vec![1, 2, 3];
    for op in &c.ops {
        match op {
            MOp::Enc(m) => { let r = o.enc(&mut d, &m.bytes()); if let Ok(n) = r { ensure!(n == d.len(), "{} reported for {} bytes", n, d.len()); } count(&mut l, &r); }
            MOp::Dec(m) => { let r = o.dec(&mut d, &m.bytes()); if let Ok(n) = r { ensure!(n == d.len(), "{} reported for {} bytes", n, d.len()); } count(&mut l, &r); }
            MOp::SetIv(v) => if let Some(r) = o.set_iv(v.bytes()) { count(&mut l, &r); if c.bs.is_some() { ensure!(r.is_ok() == (v.len == bs), "set_iv of {} bytes for blocks of {}", v.len, bs); } if r.is_ok() { iv = Some(v.bytes()); } },
            MOp::NewIv(v) => { *src.borrow_mut() = v.as_ref().map(|b| b.bytes()); if let Some(r) = o.new_iv() { count(&mut l, &r); if c.bs.is_some() { ensure!(r.is_ok() == v.as_ref().map_or(false, |v| v.len == bs), "update_iv with {:?} bytes for blocks of {}: {:?}", v.as_ref().map(|v| v.len), bs, r); } if r.is_ok() { iv = v.as_ref().map(|b| b.bytes()); } } }
            MOp::Fail(at, n) => { arm(*at, *n); l.push(s("failing cipher")); }
            MOp::Ctr(v, w) => if let Ok(x) = DefaultCounter::new(v.bytes(), *w) { if let Some(r) = o.ctr(x) { count(&mut l, &r); if r.is_ok() { iv = Some(v.bytes()); width = *w; } } },
        }
    }
    disarm();
    if c.mode % 5 == 4 { must!(o.ctr(must!(DefaultCounter::new(iv.clone().unwrap_or_default(), width), "DefaultCounter::new")).unwrap(), "set_counter"); }
    let f = if c.mode % 5 == 4 { let mut x = must!(make(start.clone(), src.clone(), &cipher), "fresh object"); must!(x.ctr(must!(DefaultCounter::new(iv.clone().unwrap_or_default(), width), "DefaultCounter::new")).unwrap(), "set_counter"); x } else { must!(make(iv.clone(), src.clone(), &cipher), "fresh object") };
    let probe = Sm64(1).bytes(4 * bs);
    let same = |a: Result<usize, CryptoError>, x: &[u8], b: Result<usize, CryptoError>, y: &[u8], what: &str| -> Result<(), String> {
        ensure!(a.is_ok() == b.is_ok(), "{}: {:?}, a fresh object {:?}", what, a, b);
        if a.is_ok() { eq(what, x, y)?; }
        Ok(())
    };
    let (mut x, mut y) = (vec![], vec![]);
    let (a, b) = (o.enc(&mut x, &probe), f.enc(&mut y, &probe));
    same(a, &x, b, &y, "encryption after the calls")?;
    let (a, b) = (o.dec(&mut x, &probe), f.dec(&mut y, &probe));
    same(a, &x, b, &y, "decryption after the calls")?;
    if let Some((enc, ops)) = &c.stream {
        let mut t = o.stream(*enc);
        for op in ops {
            match op {
                SOp::Write(m) => { let r = t.write(&m.bytes()); count(&mut l, &r); }
                SOp::Finish => { let r = t.finish(); count(&mut l, &r); }
                SOp::Reset => t.reset(),
                SOp::Enc(m) => { let r = t.enc(&mut d, &m.bytes()); count(&mut l, &r); }
                SOp::Dec(m) => { let r = t.dec(&mut d, &m.bytes()); count(&mut l, &r); }
                SOp::Fail(a, n) => { arm(*a, *n); l.push(s("failing cipher")); }
            }
        }
        disarm();
        t.reset();
        t.drain();
        let mut u = f.stream(*enc);
        for part in [&probe[..bs], &probe[bs..]] { let (a, b) = (t.write(part), u.write(part)); ensure!(a.is_ok() == b.is_ok(), "stream write after a reset: {:?}, fresh {:?}", a, b); }
        let (a, b) = (t.finish(), u.finish());
        ensure!(a.is_ok() == b.is_ok(), "stream finish after a reset: {:?}, fresh {:?}", a, b);
        eq("stream after a reset", &t.drain(), &u.drain())?;
        l.push(s("stream"));
    }
    done(l)
}
fn modes_case() -> BoxedStrategy<Modes> {
    (prop_oneof![1 => Just(None), 6 => (1..33usize).prop_map(Some), 3 => Just(Some(8usize))], 0..5u8).prop_flat_map(|(bs, mode)| {
        let n = bs.unwrap_or(1);
        let iv = move || blob(prop_oneof![6 => Just(n), 1 => 0..n + 4]);
        let fail = || (0..6usize, prop_oneof![1..3usize, Just(1000usize)]);
        let seg = prop_oneof![6 => (1..=n).prop_map(|s| 8 * s), 1 => 0..300usize, 1 => any::<usize>()];
        let pad = prop_oneof![3 => Just(None), 4 => Just(Some(0usize)), 1 => (1..40usize).prop_map(Some)];
        let wide = prop_oneof![5 => (0..60usize).prop_map(move |x| 8 * n + x), 1 => 0..400usize];
        let op = prop_oneof![4 => any_blob(3 * n).prop_map(MOp::Enc), 4 => any_blob(3 * n).prop_map(MOp::Dec), 2 => iv().prop_map(MOp::SetIv), 2 => prop::option::weighted(0.8, iv()).prop_map(MOp::NewIv), 1 => fail().prop_map(|(a, b)| MOp::Fail(a, b)), 2 => (blob(0..n + 6), 0..8 * n + 60).prop_map(|(a, b)| MOp::Ctr(a, b))];
        let sop = prop_oneof![5 => any_blob(2 * n).prop_map(SOp::Write), 3 => Just(SOp::Finish), 1 => Just(SOp::Reset), 1 => any_blob(2 * n).prop_map(SOp::Enc), 1 => any_blob(2 * n).prop_map(SOp::Dec), 1 => fail().prop_map(|(a, b)| SOp::Fail(a, b))];
        (Just(bs), Just(mode), seg, pad, prop::option::weighted(0.95, iv()), wide, prop::collection::vec(op, 0..8), prop::option::of((any::<bool>(), prop::collection::vec(sop, 0..8))))
    }).prop_map(|(bs, mode, seg, pad, iv, wide, ops, stream)| Modes { bs, mode, seg, pad, iv, wide, ops, stream }).boxed()
}

// ---------------------------------------------------------------- RSA
#[derive(Clone, Debug, Serialize, Deserialize)]
enum ROp { Enc(Blob), Dec(Blob), DecOwn(u32), Sign(Blob), Verify(Blob, Blob), VerifyOwn(u32), Label(Blob) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum RKey { Own(bool), Import(Int, Int, u16) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rsa { scheme: u8, hash: Hash, key: RKey, bits: usize, salt: Option<u64>, blind: bool, checked: bool, ops: Vec<ROp> }
enum Scheme { O(OAEP<BoxD, Rnd>), K(PKCS1<rcrypto::sha::SHA256, Rnd>), P(PSS<BoxD, Rnd>) }
fn rsa_ops(c: &Rsa) -> Res {
    fuel(20_000);
    let mut l = vec![s(["OAEP", "PKCS1", "PSS"][c.scheme as usize % 3])];
    let k = key(c.bits, 2, 1)?;
    let (kp, private) = match &c.key {
        RKey::Own(true) => (KeyPair::from(k.key.clone()), true),
        RKey::Own(false) => (KeyPair::from(k.public()?), false),
        RKey::Import(n, e, bits) => {
            let m = Bn::pow2(*bits as usize);
            let (n, e) = (n.get(&m), e.get(&Bn::from_u64(65538)));
            let r = PublicKey::from_bigint(&n, &e);
            count(&mut l, &r);
            l.push(s("import"));
            match r { Ok(p) => (KeyPair::from(p), false), Err(_) => return done(l) }
        }
    };
    let rnd = Rnd::seeded(7);
    let h = BoxD(c.hash.make(false));
    let salt = c.salt.map(|x| x as usize);
    let r = match (c.scheme % 3, c.checked) {
        (0, true) => OAEP::new(h, rnd, kp, vec![5], c.blind).map(Scheme::O),
        (0, false) => OAEP::new_uncheck(h, rnd, kp, vec![5], c.blind).map(Scheme::O),
        (1, true) => PKCS1::new(rcrypto::sha::SHA256::new(), rnd, kp, c.blind).map(Scheme::K),
        (1, false) => PKCS1::new_uncheck(rcrypto::sha::SHA256::new(), rnd, kp, c.blind).map(Scheme::K),
        (_, true) => PSS::new(h, rnd, kp, salt, c.blind).map(Scheme::P),
        (_, false) => PSS::new_uncheck(h, rnd, kp, salt, c.blind).map(Scheme::P),
    };
    count(&mut l, &r);
    let mut o = match r { Err(_) => return done(l), Ok(o) => o };
    let mut d = vec![1];
    let mut sc = rsa::SignatureContent::new();
    let (mut lastc, mut lasts) = (vec![], vec![]);
    let flip = |v: &[u8], f: u32| { let mut v = v.to_vec(); if !v.is_empty() { let i = f as usize / 8 % v.len(); v[i] ^= 1 << (f % 8); } v };
    for op in &c.ops {
        fuel(20_000);
        match (op, &mut o) {
            (ROp::Enc(m), x) => { let r = match x { Scheme::O(x) => x.encrypt(&mut d, &m.bytes()), Scheme::K(x) => x.encrypt(&mut d, &m.bytes()), _ => continue }; if r.is_ok() { lastc = d.clone(); } count(&mut l, &r); }
            (ROp::Dec(m), x) => { let r = match x { Scheme::O(x) => x.decrypt(&mut d, &m.bytes()), Scheme::K(x) => x.decrypt(&mut d, &m.bytes()), _ => continue }; count(&mut l, &r); }
            (ROp::DecOwn(f), x) => { let m = flip(&lastc, *f); let r = match x { Scheme::O(x) => x.decrypt(&mut d, &m), Scheme::K(x) => x.decrypt(&mut d, &m), _ => continue }; count(&mut l, &r); }
            (ROp::Sign(m), x) => { let r = match x { Scheme::K(x) => x.sign(&mut sc, &m.bytes()), Scheme::P(x) => x.sign(&mut sc, &m.bytes()), _ => continue }; if r.is_ok() { lasts = sc.as_slice().to_vec(); } count(&mut l, &r); }
            (ROp::Verify(g, m), x) => { let g = rsa::SignatureContent::from(g.bytes()); let r = match x { Scheme::K(x) => x.verify(&g, &m.bytes()), Scheme::P(x) => x.verify(&g, &m.bytes()), _ => continue }; count(&mut l, &r); }
            (ROp::VerifyOwn(f), x) => { let g = rsa::SignatureContent::from(flip(&lasts, *f)); let m = [1u8; 32]; let r = match x { Scheme::K(x) => x.verify(&g, &m), Scheme::P(x) => x.verify(&g, &m), _ => continue }; count(&mut l, &r); }
            (ROp::Label(b), Scheme::O(x)) => { x.set_label(b.bytes()); x.set_label(vec![5]); }
            _ => {}
        }
    }
    // the object still does its work
    fuel(20_000);
    if !matches!(c.key, RKey::Import(..)) {
        match &mut o {
            Scheme::O(x) => {
                must!(x.encrypt(&mut d, b""), "OAEP encryption after the calls");
                let em = k.dec(&Bn::from_be(&d)).to_be_len(k.k());
                let h = c.hash;
                ensure!(rr::oaep_decode(&move |b: &[u8]| h.reference(b), h.bytes(), k.k(), &[5], &em) == Some(vec![]), "OAEP ciphertext after the calls");
                if private { let t = d.clone(); must!(x.decrypt(&mut d, &t), "OAEP decryption after the calls"); ensure!(d.is_empty(), "OAEP decryption after the calls gave {}", hex(&d)); }
                l.push(s("works after"));
            }
            Scheme::K(x) => {
                let m: &[u8] = if k.k() > 11 { b"q" } else { b"" };
                must!(x.encrypt(&mut d, m), "PKCS1 encryption after the calls");
                if private { let t = d.clone(); must!(x.decrypt(&mut d, &t), "PKCS1 decryption after the calls"); ensure!(d == m, "PKCS1 decryption after the calls gave {}", hex(&d)); }
                l.push(s("works after"));
            }
            Scheme::P(x) => if private {
                let mh = c.hash.reference(b"m");
                must!(x.sign(&mut sc, &mh), "PSS signing after the calls");
                must!(x.verify(&sc, &mh), "PSS verification after the calls");
                l.push(s("works after"));
            },
        }
    }
    done(l)
}
fn rsa_case() -> BoxedStrategy<Rsa> {
    let op = || prop_oneof![3 => any_blob(40).prop_map(ROp::Enc), 3 => any_blob(64).prop_map(ROp::Dec), 2 => any::<u32>().prop_map(ROp::DecOwn), 3 => any_blob(32).prop_map(ROp::Sign), 3 => (any_blob(64), any_blob(32)).prop_map(|(a, b)| ROp::Verify(a, b)), 2 => any::<u32>().prop_map(ROp::VerifyOwn), 1 => any_blob(3).prop_map(ROp::Label)];
    let k = prop_oneof![6 => any::<bool>().prop_map(RKey::Own), 3 => (int(), int(), prop_oneof![2 => 0..200u16, 3 => 200..700u16]).prop_map(|(n, e, b)| RKey::Import(n, e, b))];
    let salt = prop_oneof![3 => Just(None), 5 => (0..40u64).prop_map(Some), 1 => any::<u64>().prop_map(Some), 1 => (0..6u64).prop_map(|d| Some(u64::MAX - d))];
    (0..3u8, odd_hash(), k, prop_oneof![3 => (0usize..40).prop_map(|x| 512 + x), 2 => (8usize..130).prop_map(|x| 8 * x + 1), 1 => 20usize..300], salt, any::<bool>(), any::<bool>(), prop::collection::vec(op(), 0..6))
        .prop_map(|(scheme, hash, key, bits, salt, blind, checked, ops)| Rsa { scheme, hash, key, bits: bits.max(40), salt, blind, checked, ops }).boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Raw { Dec(Int, bool, bool), Gen(usize, usize, usize), Auto(u8, usize, Hash, Option<u64>), Bytes(Blob, Blob) }
fn raw(c: &Raw) -> Res {
    fuel(FUEL);
    let mut l = vec![];
    match c {
        Raw::Dec(x, check, blind) => {
            let k = key(96, 3, 1)?;
            let v = x.get(&k.n);
            let mut rnd = Rnd::seeded(3);
            let rd = if *blind { Some(&mut rnd) } else { None };
            let r = if *check { k.key.decrypt_and_check(&v, rd) } else { k.key.decrypt(&v, rd) };
            let fits = bn(&v).map_or(false, |v| v < k.n);
            ensure!(r.is_ok() == fits, "decryption of {} modulo {}: {:?}", show(&v), k.n.to_hex(), r.map(|x| show(&x)));
            count(&mut l, &r);
            let t = big(&Bn::from_u64(99));
            let r = must!(k.key.decrypt::<Rnd>(&t, None), "decryption afterwards");
            ensure!(bn(&r) == Some(k.dec(&Bn::from_u64(99))), "decryption afterwards gave {}", show(&r));
            l.push(s("raw decryption"));
        }
        Raw::Gen(primes, bits, rounds) => {
            let mut rnd = Rnd::seeded(11);
            let r = PrivateKey::generate_multi_prime_key(*primes, *bits, *rounds, &mut rnd);
            if *primes < 2 { ensure!(r.is_err(), "a key of {} primes", primes); }
            count(&mut l, &r);
            l.push(s("key generation"));
        }
        Raw::Auto(k, bits, h, salt) => {
            let h = BoxD(h.make(false));
            let rnd = Rnd::seeded(13);
            match k % 3 { 0 => count(&mut l, &OAEP::auto_generate_key(*bits, 3, h, rnd, vec![], false)), 1 => count(&mut l, &PKCS1::auto_generate_key(*bits, 3, h, rnd, true)), _ => count(&mut l, &PSS::auto_generate_key(*bits, 3, h, rnd, salt.map(|x| x as usize), true)) };
            l.push(s("scheme key generation"));
        }
        Raw::Bytes(n, e) => {
            let (n, e) = (n.bytes(), e.bytes());
            let rev = |v: &[u8]| { let mut v = v.to_vec(); v.reverse(); v };
            let (a, b) = (PublicKey::from_be_bytes(&n, &e), PublicKey::from_le_bytes(&rev(&n), &rev(&e)));
            let (x, y) = (Bn::from_be(&n), Bn::from_be(&e));
            let fine = y >= Bn::from_u64(3) && y < x;
            ensure!(a.is_ok() == fine && b.is_ok() == fine, "import of {} and {}: {} {}", hex(&n), hex(&e), a.is_ok(), b.is_ok());
            count(&mut l, &a);
            l.push(s("byte import"));
        }
    }
    done(l)
}
fn raw_case() -> BoxedStrategy<Raw> {
    prop_oneof![
        4 => (int(), any::<bool>(), any::<bool>()).prop_map(|(a, b, c)| Raw::Dec(a, b, c)),
        3 => (prop_oneof![5 => 0usize..6, 1 => any::<usize>()], prop_oneof![3 => 0usize..80, 1 => 80usize..140], 0usize..5).prop_map(|(a, b, c)| Raw::Gen(a, b, c)),
        2 => (0..3u8, 0usize..200, odd_hash(), prop::option::of(prop_oneof![3 => 0..40u64, 1 => any::<u64>()])).prop_map(|(a, b, c, d)| Raw::Auto(a, b, c, d)),
        3 => (blob(0..40usize), blob(0..40usize)).prop_map(|(a, b)| Raw::Bytes(a, b)),
    ].boxed()
}

// ---------------------------------------------------------------- DSA
static PARAMS: Mutex<BTreeMap<usize, Arc<refimpl::dsa::Params>>> = Mutex::new(BTreeMap::new());
fn params(q: usize) -> Arc<refimpl::dsa::Params> { PARAMS.lock().unwrap().entry(q).or_insert_with(|| Arc::new(refimpl::dsa::Params::generate(q + 72, q, &mut Sm64(q as u64)))).clone() }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum GOp { Sign(Blob), Verify(Int, Int, Blob), Own(u8, u16), NoKey }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dsa { qbits: usize, hash: Hash, p: Option<Int>, q: Option<Int>, g: Option<Int>, y: Option<Int>, x: Option<Int>, ops: Vec<GOp> }
/// signatures whose bytes were changed after signing
fn mangle(v: &mut Vec<u8>, how: u8, f: u16) {
    match how % 6 {
        0 => if !v.is_empty() { let i = f as usize / 8 % v.len(); v[i] ^= 1 << (f % 8); },
        1 => { let n = v.len(); v.truncate(f as usize % (n + 1)); }
        2 => v.clear(),
        3 => v.extend(std::iter::repeat(f as u8).take(f as usize % 50)),
        4 => { let n = v.len(); for b in v[n / 2..].iter_mut() { *b = 0; } }
        _ => {}
    }
}
fn dsa_ops(c: &Dsa) -> Res {
    fuel(FUEL);
    let mut l = vec![];
    let dp = params(c.qbits);
    let x = dp.q.shr(2);
    let y = dp.g.modpow(&x, &dp.p);
    let genuine = [&c.p, &c.q, &c.g, &c.y, &c.x].iter().all(|v| v.is_none());
    let d = dsa::DomainParameters::new_uncheck(&pick(&c.p, &dp.p, &dp.p), &pick(&c.q, &dp.q, &dp.q), &pick(&c.g, &dp.g, &dp.p));
    count(&mut l, &d);
    let d = match d { Ok(d) => d, Err(_) => return done(l) };
    let pk = dsa::PublicKey::new_uncheck(&d, &pick(&c.y, &y, &dp.p));
    count(&mut l, &pk);
    let pk = match pk { Ok(d) => d, Err(_) => return done(l) };
    let sk = dsa::PrivateKey::new_uncheck(&pk, &pick(&c.x, &x, &dp.q));
    count(&mut l, &sk);
    let kp = match sk { Ok(d) => dsa::KeyPair::from(d), Err(_) => dsa::KeyPair::from(pk) };
    let mut o = must!(dsa::DSA::new_uncheck(BoxD(c.hash.make(false)), Rnd::seeded(5), kp), "DSA");
    let mut sc = dsa::SignatureContent::new();
    for op in &c.ops {
        fuel(FUEL);
        match op {
            GOp::Sign(m) => { let r = o.sign(&mut sc, &m.bytes()); count(&mut l, &r); }
            GOp::Verify(r, t, m) => { let g = dsa::SignatureContent::form_bigint(&r.get(&dp.q), &t.get(&dp.q)); let r = o.verify(&g, &m.bytes()); count(&mut l, &r); }
            GOp::Own(how, f) => { let v: &mut Vec<u8> = sc.as_mut(); mangle(v, *how, *f); let r = o.verify(&sc, b"x"); count(&mut l, &r); }
            GOp::NoKey => { sc = dsa::SignatureContent::new(); let r = o.verify(&sc, b"x"); ensure!(r.is_err(), "an empty signature verified"); count(&mut l, &r); }
        }
    }
    fuel(FUEL);
    if genuine {
        must!(o.sign(&mut sc, b"probe"), "signing after the calls");
        must!(o.verify(&sc, b"probe"), "verification after the calls");
        let (r, t) = sc.to_bigint();
        ensure!(dp.verify(&y, &c.hash.reference(b"probe"), &bn(&r).unwrap(), &bn(&t).unwrap()), "the signature after the calls is wrong");
        l.push(s("works after"));
    }
    done(l)
}
fn gops() -> BoxedStrategy<Vec<GOp>> { prop::collection::vec(prop_oneof![3 => any_blob(20).prop_map(GOp::Sign), 3 => (int(), int(), any_blob(20)).prop_map(|(a, b, c)| GOp::Verify(a, b, c)), 3 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| GOp::Own(a, b)), 1 => Just(GOp::NoKey)], 0..6).boxed() }
fn dsa_case() -> BoxedStrategy<Dsa> {
    (prop_oneof![Just(8usize), Just(64), Just(160), Just(256), Just(61)], odd_hash(), prop_oneof![1 => Just((None, None, None, None, None)), 2 => (near(), near(), near(), near(), near())], gops())
        .prop_map(|(qbits, hash, (p, q, g, y, x), ops)| { let genuine = qbits % 8 != 0; Dsa { qbits, hash, p: if genuine && p.is_none() { Some(Int::Nan) } else { p }, q, g, y, x, ops } }).boxed()
}

// ---------------------------------------------------------------- ECDSA
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ec { im: usize, hash: Hash, x: Option<Int>, y: Option<Int>, d: Option<Int>, public: bool, ops: Vec<GOp> }
fn ec_ops(c: &Ec) -> Res {
    fuel(FUEL);
    let mut l = vec![];
    let cv = curve_of(c.im);
    let d = cv.n.shr(1);
    let q = cv.mul_base(&d);
    let (qx, qy) = checks::curves::xy(&q);
    let genuine = c.x.is_none() && c.y.is_none() && c.d.is_none();
    let pk = elliptic::PublicKey::new_uncheck(&pick(&c.x, &qx, &cv.p), &pick(&c.y, &qy, &cv.p));
    let kp = if c.public { elliptic::KeyPair::from(pk) } else { elliptic::KeyPair::from(elliptic::PrivateKey::new_uncheck(pk, &pick(&c.d, &d, &cv.n))) };
    let mut o = must!(ECDSA::new_unchcek(BoxD(c.hash.make(false)), Rnd::seeded(5), BoxC(checks::curves::make(c.im)), kp), "ECDSA");
    let mut sc = ecdsa::SignatureContent::new();
    for op in &c.ops {
        fuel(FUEL);
        match op {
            GOp::Sign(m) => { let r = o.sign(&mut sc, &m.bytes()); if c.public { ensure!(r.is_err(), "signed with a public key"); } count(&mut l, &r); }
            GOp::Verify(r, t, m) => { let g = ecdsa::SignatureContent::form_bigint(&r.get(&cv.n), &t.get(&cv.n)); let r = o.verify(&g, &m.bytes()); count(&mut l, &r); }
            GOp::Own(how, f) => { let v: &mut Vec<u8> = sc.as_mut(); mangle(v, *how, *f); let r = o.verify(&sc, b"x"); count(&mut l, &r); }
            GOp::NoKey => { sc = ecdsa::SignatureContent::new(); let r = o.verify(&sc, b"x"); ensure!(r.is_err(), "an empty signature verified"); count(&mut l, &r); }
        }
    }
    fuel(FUEL);
    if genuine && !c.public {
        must!(o.sign(&mut sc, b"probe"), "signing after the calls");
        must!(o.verify(&sc, b"probe"), "verification after the calls");
        let (r, t) = sc.to_bigint();
        ensure!(cv.ecdsa_verify(&q, &c.hash.reference(b"probe"), &bn(&r).unwrap(), &bn(&t).unwrap()), "the signature after the calls is wrong");
        l.push(s("works after"));
    }
    done(l)
}
fn ec_case() -> BoxedStrategy<Ec> {
    (prop_oneof![5 => Just(4usize), 5 => Just(5usize), 1 => 0usize..IMPLS], odd_hash(), prop_oneof![1 => Just((None, None, None)), 2 => (near(), near(), near())], prop::bool::weighted(0.3), gops()).prop_map(|(im, hash, (x, y, d), public, ops)| Ec { im, hash, x, y, d, public, ops }).boxed()
}

fn main() {
    let mut r = Run::new("C17");
    r.assume("sizes are bounded by what the machine can do: key generation to 140 bits, counters to 500 bits, Keccak to 60 rounds; a call that comes back into the harness's digests, sources or curves hundreds of thousands of times counts as running away");
    r.assume("user-supplied ciphers declare a block of at least one byte or none; after a failure inside a stream or in counter mode the object is compared with a fresh one once it is reset");
    r.sub("symmetric", 150_000, 2_000_000, "constructors with keys of any length, then calls with data of any length; non-trivial: all", sym, symmetric).require(&["AES", "SM4", "ZUC", "EEA3", "EIA3", "HMAC", "CMAC", "Keccak", "SHA-512/t", "hash", "accepted", "refused"], 100);
    r.sub("modes", 300_000, 4_000_000, "modes over ciphers of any block size that fail now and then, with wrong initial vectors, segments, paddings and counters; one-shot and streaming; non-trivial: all", modes_case, modes).require(&["ECB", "CBC", "CFB", "OFB", "CTR", "failing cipher", "stream", "accepted", "refused"], 100);
    r.sub("rsa", 12_000, 150_000, "the RSA schemes with imported or own keys, salts and hashes of any size, and any bytes; non-trivial: all", rsa_case, rsa_ops).require(&["OAEP", "PKCS1", "PSS", "import", "accepted", "refused", "works after"], 100);
    r.sub("raw", 8_000, 100_000, "raw RSA with any integer, key generation with any counts, import of any bytes; non-trivial: all", raw_case, raw).require(&["raw decryption", "key generation", "scheme key generation", "byte import"], 100);
    r.sub("dsa", 12_000, 150_000, "DSA with any numbers as parameters, keys and signatures; non-trivial: all", dsa_case, dsa_ops).require(&["accepted", "refused", "works after"], 100);
    r.sub("ecdsa", 6_000, 80_000, "ECDSA with any numbers as points, keys and signatures; non-trivial: all", ec_case, ec_ops).require(&["accepted", "refused", "works after"], 100);
    r.finish();
}
