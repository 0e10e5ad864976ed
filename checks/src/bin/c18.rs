//! C18: randomness is fresh, used in full, and its failure is reported.
use checks::curves::{curve_of, BoxC, IMPLS};
use checks::modes::*;
use checks::pk::*;
use checks::*;
use rcrypto::cipher_mode::*;
use rcrypto::ecdsa::ECDSA;
use rcrypto::rsa::{KeyPair, PrivateKey, OAEP, PKCS1, PSS};
use rcrypto::{dsa, ecdsa, elliptic, rsa, sha, Cipher, CryptoError, Signature};
use refimpl::rsa as rr;
use rmath::bigint::{BigInt, Nat};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// an operation that draws randomness; what it drew can be recovered from its output
#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    /// initial vectors of a mode
    Iv(Kind, ModeK),
    /// the bits of the hash and of the key beyond the smallest one
    Oaep(Hash, usize, usize),
    Pkcs1(usize, usize),
    Pss(Hash, usize, usize, bool),
    Dsa(usize, Hash),
    Ecdsa(usize, Hash),
    /// the generated key
    RsaKey(usize, usize),
    DsaKey,
    EcKey(usize),
    EcAuto(usize),
    RsaAuto(u8),
    /// blinding: nothing to recover but the result
    Blind(usize),
}
static PARAMS: Mutex<BTreeMap<usize, Arc<refimpl::dsa::Params>>> = Mutex::new(BTreeMap::new());
fn params(q: usize) -> Arc<refimpl::dsa::Params> { PARAMS.lock().unwrap().entry(q).or_insert_with(|| Arc::new(refimpl::dsa::Params::generate(q + 64, q, &mut Sm64(q as u64)))).clone() }

/// curve parameters of the library with a group that is cheap to compute in: the integers modulo the order
struct Cheap(elliptic::CurveParams, Bn);
impl Cheap { fn point(&self, k: &Nat) -> (BigInt, BigInt) { (big(&Bn::from_be(&k.to_be_bytes()).rem(&self.1)), BigInt::from(1u32)) } }
impl elliptic::EllipticCurve for Cheap {
    fn curve_params(&self) -> &elliptic::CurveParams { &self.0 }
    fn is_on_curve(&self, _: &BigInt, _: &BigInt) -> bool { true }
    fn add(&self, x1: &BigInt, y1: &BigInt, _: &BigInt, _: &BigInt) -> (BigInt, BigInt) { (x1.clone(), y1.clone()) }
    fn double(&self, x: &BigInt, y: &BigInt) -> (BigInt, BigInt) { (x.clone(), y.clone()) }
    fn scalar(&self, _: &BigInt, _: &BigInt, k: &Nat) -> (BigInt, BigInt) { self.point(k) }
    fn scalar_base_point(&self, k: &Nat) -> (BigInt, BigInt) { self.point(k) }
}
/// implementations from this number on are `Cheap`
const CHEAP: usize = 10;
fn cv_of(im: usize) -> &'static refimpl::ec::Curve { if im >= CHEAP { refimpl::ec::Curve::get(im - CHEAP) } else { curve_of(im) } }

/// performs the operation with the source it was made with; the outer error is a violation, the
/// inner one a refusal
type Op = Box<dyn FnMut() -> Result<Result<Vec<u8>, CryptoError>, String>>;
type Made = Result<Op, CryptoError>;

macro_rules! mode { ($t:ident, $c:expr, $($a:expr),*) => {{
    match $t::new($($a),*) { Err(e) => Err(e), Ok(mut m) => {
        let mut first = true;
        Ok(Box::new(move || {
            let iv = if std::mem::take(&mut first) { m.cur_iv() } else { match m.update_iv() { Ok(v) => v.clone(), Err(e) => return Ok(Err(e)) } };
            ensure!(m.cur_iv() == iv, "the initial vector in use is not the new one");
            ensure!(iv.len() == $c, "initial vector of {} bytes for blocks of {}", iv.len(), $c);
            Ok(Ok(iv))
        }) as Op)
    } }
}}; }

fn make(w: &What, rng: Rnd) -> Result<Made, String> {
    let h = |x: &Hash| BoxD(x.make(false));
    Ok(match w {
        What::Iv(kind, mode) => {
            let c = lib_cipher(*kind, &Sm64(5).bytes(kind.key_len()), false);
            let iv: DefaultInitialVec<AnyC, Rnd> = DefaultInitialVec::new(&c, rng);
            let p = any_pad(&c, true);
            let bs = kind.bs();
            match mode {
                ModeK::Cbc => mode!(CBC, bs, c, p, iv),
                ModeK::Cfb(s) => mode!(CFB, bs, c, p, iv, 8 * s),
                _ => mode!(OFB, bs, c, iv),
            }
        }
        What::Oaep(hash, extra, m) => {
            let hl = hash.bytes();
            let k = key((8 * (2 * hl + 3 + m) + extra).max(64), 2, 1)?;
            let o = must!(OAEP::new_uncheck(h(hash), rng, KeyPair::from(k.public()?), vec![1, 2], false), "OAEP");
            let (hash, m) = (*hash, *m);
            Ok(Box::new(move || {
                let mut out = vec![9];
                if let Err(e) = o.encrypt(&mut out, &vec![7; m]) { return Ok(Err(e)); }
                let em = k.dec(&Bn::from_be(&out)).to_be_len(k.k());
                let f = move |x: &[u8]| hash.reference(x);
                ensure!(rr::oaep_decode(&f, hl, k.k(), &[1, 2], &em) == Some(vec![7; m]), "OAEP: the ciphertext does not decrypt");
                let mask = rr::mgf1(&f, &em[1 + hl..], hl);
                Ok(Ok(em[1..1 + hl].iter().zip(mask).map(|(a, b)| a ^ b).collect()))
            }))
        }
        What::Pkcs1(extra, m) => {
            let k = key(8 * (12 + m) + extra, 2, 1)?;
            let o = must!(PKCS1::new_uncheck(sha::SHA1::new(), rng, KeyPair::from(k.public()?), false), "PKCS1");
            let m = *m;
            Ok(Box::new(move || {
                let mut out = vec![9];
                if let Err(e) = o.encrypt(&mut out, &vec![7; m]) { return Ok(Err(e)); }
                let em = k.dec(&Bn::from_be(&out)).to_be_len(k.k());
                let ps = em[2..k.k() - m - 1].to_vec();
                ensure!(em[..2] == [0, 2] && em[k.k() - m - 1] == 0 && em[k.k() - m..] == vec![7; m][..], "PKCS1: malformed block");
                ensure!(ps.iter().all(|x| *x != 0), "PKCS1: a zero byte in the padding");
                Ok(Ok(ps))
            }))
        }
        What::Pss(hash, extra, salt, blind) => {
            let hl = hash.bytes();
            let k = key((8 * (hl + salt + 2) + extra).max(64), 2, 1)?;
            let mut o = must!(PSS::new_uncheck(h(hash), rng, KeyPair::from(k.key.clone()), Some(*salt), *blind), "PSS");
            let (hash, salt) = (*hash, *salt);
            Ok(Box::new(move || {
                let mut sc = rsa::SignatureContent::new();
                let mh = hash.reference(b"m");
                if let Err(e) = o.sign(&mut sc, &mh) { return Ok(Err(e)); }
                let v: &[u8] = sc.as_ref();
                let bits = k.n.bits() - 1;
                let el = (bits + 7) / 8;
                let em = k.enc(&Bn::from_be(v)).to_be_len(el);
                let f = move |x: &[u8]| hash.reference(x);
                let mask = rr::mgf1(&f, &em[el - hl - 1..el - 1], el - hl - 1);
                let db: Vec<u8> = em[..el - hl - 1].iter().zip(mask).map(|(a, b)| a ^ b).collect();
                Ok(Ok(db[db.len() - salt..].to_vec()))
            }))
        }
        What::Dsa(qbits, hash) => {
            let dp = params(*qbits);
            let x = dp.q.shr(1);
            let y = dp.g.modpow(&x, &dp.p);
            let d = must!(dsa::DomainParameters::new_uncheck(&big(&dp.p), &big(&dp.q), &big(&dp.g)), "parameters");
            let sk = must!(dsa::PrivateKey::new_uncheck(&must!(dsa::PublicKey::new_uncheck(&d, &big(&y)), "public key"), &big(&x)), "private key");
            let mut o = must!(dsa::DSA::new_uncheck(h(hash), rng, dsa::KeyPair::from(sk)), "DSA");
            let hash = *hash;
            Ok(Box::new(move || {
                let mut sc = dsa::SignatureContent::new();
                if let Err(e) = o.sign(&mut sc, b"message") { return Ok(Err(e)); }
                let (r, t) = sc.to_bigint();
                let (r, t) = (bn(&r).unwrap(), bn(&t).unwrap());
                let z = refimpl::dsa::hash_to_int(&dp.q, &hash.reference(b"message")).rem(&dp.q);
                let k = t.modinv(&dp.q).unwrap().mulmod(&z.addmod(&x.mulmod(&r, &dp.q), &dp.q), &dp.q);
                ensure!(dp.g.modpow(&k, &dp.p).rem(&dp.q) == r, "DSA: the signature is not valid");
                Ok(Ok(k.to_be_len((dp.q.bits() + 7) / 8)))
            }))
        }
        What::Ecdsa(im, hash) => {
            let cv = cv_of(*im);
            let d = cv.n.shr(1);
            let q = if *im >= CHEAP { (big(&d), BigInt::from(1u32)) } else { checks::curves::bigs(&cv.mul_base(&d)) };
            let sk = elliptic::PrivateKey::new_uncheck(elliptic::PublicKey::new_uncheck(&q.0, &q.1), &big(&d));
            let mut o = must!(ECDSA::new_unchcek(h(hash), rng, BoxC(if *im >= CHEAP { Box::new(Cheap(checks::curves::params(*im - CHEAP), cv.n.clone())) } else { checks::curves::make(*im) }), elliptic::KeyPair::from(sk)), "ECDSA");
            let (hash, im) = (*hash, *im);
            Ok(Box::new(move || {
                let mut sc = ecdsa::SignatureContent::new();
                if let Err(e) = o.sign(&mut sc, b"message") { return Ok(Err(e)); }
                let (r, t) = sc.to_bigint();
                let (r, t) = (bn(&r).unwrap(), bn(&t).unwrap());
                let z = cv.hash_to_int(&hash.reference(b"message")).rem(&cv.n);
                let k = t.modinv(&cv.n).unwrap().mulmod(&z.addmod(&d.mulmod(&r, &cv.n), &cv.n), &cv.n);
                ensure!(if im >= CHEAP { k == r } else { checks::curves::xy(&cv.mul_base(&k)).0.rem(&cv.n) == r }, "ECDSA: the signature is not valid");
                Ok(Ok(k.to_be_len((cv.n.bits() + 7) / 8)))
            }))
        }
        What::RsaKey(bits, primes) => { let (bits, primes) = (*bits, *primes); Ok(Box::new(move || Ok(PrivateKey::generate_multi_prime_key(primes, bits, 4, &mut rng.clone()).map(|k| format!("{}", k).into_bytes())))) }
        What::DsaKey => Ok(Box::new(move || Ok(dsa::DSA::<sha::SHA1, Rnd>::l1024_n160_key(&mut rng.clone()).map(|k| format!("{}", k).into_bytes())))),
        What::EcKey(im) => { let c = checks::curves::make(*im); Ok(Box::new(move || Ok(c.curve_params().generate_key(&mut rng.clone()).map(|k| format!("{}", k).into_bytes())))) }
        What::EcAuto(im) if *im >= CHEAP => { let im = *im; let cv = cv_of(im); Ok(Box::new(move || Ok(match ECDSA::auto_generate_key(sha::SHA256::new(), rng.clone(), Cheap(checks::curves::params(im - CHEAP), cv.n.clone())) { Err(e) => Err(e), Ok(o) => {
            let d = printed(&format!("{}", o.public_key()))[0].clone();
            ensure!(!d.is_zero() && d < cv.n, "generated key {} out of range", d.to_hex());
            Ok(d.to_be_len((cv.n.bits() + 7) / 8))
        } }))) }
        What::EcAuto(im) => { let im = *im; Ok(Box::new(move || Ok(ECDSA::auto_generate_key(sha::SHA256::new(), rng.clone(), BoxC(checks::curves::make(im))).map(|k| format!("{}", k.public_key()).into_bytes())))) }
        What::RsaAuto(k) => { let k = *k; Ok(Box::new(move || { let f = |n: &rsa::PublicKey| format!("{}", n).into_bytes(); Ok(match k { 0 => OAEP::auto_generate_key(400, 4, sha::SHA1::new(), rng.clone(), vec![], false).map(|o| f(o.public_key())), 1 => PKCS1::auto_generate_key(400, 4, sha::SHA1::new(), rng.clone(), false).map(|o| f(o.public_key())), _ => PSS::auto_generate_key(400, 4, sha::SHA1::new(), rng.clone(), Some(4), false).map(|o| f(o.public_key())) }) })) }
        What::Blind(bits) => {
            let k = key(*bits, 2, 1)?;
            let c = Bn::from_u64(0x1234_5678_9abc);
            let want = k.dec(&c);
            let bc = big(&c);
            Ok(Box::new(move || {
                let r: Result<BigInt, CryptoError> = k.key.decrypt(&bc, Some(&mut rng.clone()));
                match r { Err(e) => Ok(Err(e)), Ok(m) => { ensure!(bn(&m) == Some(want.clone()), "blinded decryption is wrong"); Ok(Ok(vec![])) } }
            }))
        }
    })
}
/// bytes of randomness the operation needs, those of whole words taken first
fn need(w: &What) -> usize {
    match w {
        What::Iv(k, _) => k.bs(),
        What::Oaep(h, ..) => h.bytes(),
        What::Pkcs1(e, m) => (8 * (12 + m) + e + 7) / 8 - m - 3,
        What::Pss(_, _, s, _) => *s,
        What::Dsa(q, _) => q / 8,
        // half the length of the order suffices for the strength of the curve
        What::Ecdsa(im, _) => cv_of(*im).bits / 16,
        _ => 0,
    }
}
fn name(w: &What) -> &'static str { match w { What::Iv(..) => "initial vector", What::Oaep(..) => "OAEP seed", What::Pkcs1(..) => "PKCS1 padding", What::Pss(..) => "PSS salt", What::Dsa(..) => "DSA nonce", What::Ecdsa(..) => "ECDSA nonce", What::RsaKey(..) => "RSA key", What::DsaKey => "DSA key", What::EcKey(_) => "EC key", What::EcAuto(_) => "EC key of a signer", What::RsaAuto(_) => "RSA key of a scheme", What::Blind(_) => "blinding" } }
const VALUES: [&str; 6] = ["initial vector", "OAEP seed", "PKCS1 padding", "PSS salt", "DSA nonce", "ECDSA nonce"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fresh { w: What, seed: u64, n: usize }
/// one object, many operations: nothing repeats and every bit varies
fn fresh(c: &Fresh) -> Res {
    let mut o = must!(make(&c.w, Rnd::seeded(c.seed))?, "{:?}", c.w);
    let mut seen = BTreeSet::new();
    let (mut or, mut and): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    for i in 0..c.n {
        let v = must!(o()?, "operation {}", i);
        if or.is_empty() { or = v.clone(); and = v.clone(); }
        ensure!(v.len() == or.len(), "operation {}: {} random bytes, {} before", i, v.len(), or.len());
        for (j, x) in v.iter().enumerate() { or[j] |= x; and[j] &= x; }
        if v.len() >= 8 { ensure!(seen.insert(v.clone()), "operation {}: {} repeated: {}", i, name(&c.w), hex(&v)); }
    }
    ensure!(or.len() >= need(&c.w), "{} of {} bytes instead of {}", name(&c.w), or.len(), need(&c.w));
    // the top of a nonce depends on the order
    let from = match &c.w { What::Dsa(..) => 1, What::Ecdsa(im, _) if *im < CHEAP && cv_of(*im).bits == 521 => 1, _ => 0 };
    let top = match &c.w { What::Ecdsa(im, _) | What::EcAuto(im) if cv_of(*im).bits == 521 => 1, _ => 0xff };
    if c.n >= 60 {
        for j in from..or.len() { ensure!(or[j] == if j == 0 { top } else { 0xff } && and[j] == 0, "{}: bits {:02x} of byte {} never change over {} operations", name(&c.w), !(or[j] & !and[j]), j, c.n); }
    } else {
        for j in from..or.len() { ensure!(or[j] != and[j], "{}: byte {} never changes over {} operations", name(&c.w), j, c.n); }
    }
    okls(true, vec![s(name(&c.w))])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flip { w: What, seed: u64, word: usize, bit: u32 }
/// every bit the source delivers matters
fn flip(c: &Flip) -> Res {
    let n = need(&c.w) / 4;
    if n == 0 { return okls(false, vec![]); }
    let mut g = Sm64(c.seed);
    let a: Vec<u32> = (0..400).map(|_| g.next() as u32).collect();
    let mut b = a.clone();
    b[c.word % n] ^= 1 << (c.bit % 32);
    let run = |script: Vec<u32>| -> Result<(Vec<u8>, usize), String> { let rng = Rnd::new(script, 3); let mut o = must!(make(&c.w, rng.clone())?, "{:?}", c.w); Ok((must!(o()?, "{}", name(&c.w)), rng.calls())) };
    let (x, y, z) = (run(a.clone())?, run(b)?, run(a)?);
    // a candidate above the order is thrown away
    if matches!(c.w, What::Dsa(..)) && x.1 > n { return okls(false, vec![s(name(&c.w))]); }
    let (x, y, z) = (x.0, y.0, z.0);
    ensure!(x != y, "{}: bit {} of word {} of the source does not matter", name(&c.w), c.bit % 32, c.word % n);
    ensure!(x == z, "{}: the same source gave {} and {}", name(&c.w), hex(&x), hex(&z));
    okls(true, vec![s(name(&c.w))])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fails { w: What, seed: u64, at: usize, n: usize, ops: usize }
/// a source failing at some call
fn fails(c: &Fails) -> Res {
    let mut g = Sm64(c.seed);
    // long enough never to reach the tail in the short operations
    let a: Vec<u32> = (0..6000).map(|_| g.next() as u32).collect();
    // the answers up to the operation during which the source failed first, or the first refusal
    let run = |rng: Rnd| -> Result<(Vec<Option<Vec<u8>>>, usize), String> {
        let mut out = vec![];
        match make(&c.w, rng.clone())? {
            Err(_) => out.push(None),
            Ok(mut o) => {
                while out.len() < c.ops {
                    let r = o()?.ok();
                    let stop = r.is_none();
                    out.push(r);
                    if stop || rng.failed() > 0 { break; }
                }
                if rng.failed() > 0 && c.n > 1000 && need(&c.w) > 0 { ensure!(o()?.is_err(), "{}: no error although the source fails for good", name(&c.w)); }
            }
        }
        Ok((out, rng.calls()))
    };
    let (good, calls) = run(Rnd::new(a.clone(), 3))?;
    ensure!(good.iter().all(|x| x.is_some()), "{} refused with a working source", name(&c.w));
    let mut l = vec![s(name(&c.w))];
    if calls == 0 { return okls(false, l); }
    let at = c.at % calls;
    let rng = Rnd::failing(a.clone(), 3, at, c.n);
    let (got, _) = run(rng.clone())?;
    ensure!(rng.failed() > 0, "{}: {} calls of a working source, yet call {} was not made", name(&c.w), calls, at);
    if got.iter().any(|x| x.is_none()) { l.push(s("reported")); }
    // a retried call takes the words behind the failing ones
    let mut b = a.clone();
    let end = at.saturating_add(c.n).min(b.len());
    if at < end { b.drain(at..end); }
    let (skip, _) = if c.n < 100 { run(Rnd::new(b, 3))? } else { (vec![], 0) };
    for (i, x) in got.iter().enumerate() {
        if let Some(v) = x {
            ensure!(good.get(i) == Some(&Some(v.clone())) || skip.get(i) == Some(&Some(v.clone())), "{}: operation {} went on although the source failed at call {} of {}: {}", name(&c.w), i, at, calls, hex(v));
        }
    }
    if c.n > 1000 && at < calls.min(need(&c.w) / 4) { ensure!(got.iter().any(|x| x.is_none()), "{}: no error although the source failed for good at call {}", name(&c.w), at); }
    if c.n > 1000 { l.push(s("failing for good")); } else { l.push(s("failing for a time")); }
    okls(true, l)
}
/// an object whose operation failed works again when the source does
fn recovers(c: &Fails) -> Res {
    let rng = Rnd::seeded(c.seed);
    let mut o = must!(make(&c.w, rng.clone())?, "{:?}", c.w);
    must!(o()?, "{}", name(&c.w));
    rng.set_fail(Some((c.at % (need(&c.w) / 4).max(1), usize::MAX / 2)));
    let mut l = vec![s(name(&c.w))];
    for _ in 0..c.ops { ensure!(o()?.is_err() || need(&c.w) < 4, "{}: no error although the source fails", name(&c.w)); rng.set_fail(Some((0, usize::MAX / 2))); }
    rng.set_fail(None);
    let (a, b) = (must!(o()?, "{} after the failure", name(&c.w)), must!(o()?, "{} after the failure", name(&c.w)));
    if a.len() >= 8 { ensure!(a != b, "{} repeated after a failure", name(&c.w)); l.push(s("distinct")); }
    okls(true, l)
}

/// a cipher noting the blocks it encrypts
#[derive(Clone)]
struct Note(usize, Rc<RefCell<Vec<Vec<u8>>>>);
impl Cipher for Note {
    type Output = usize;
    fn block_size(&self) -> Option<usize> { Some(self.0) }
    fn encrypt(&self, d: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> { self.1.borrow_mut().push(b.to_vec()); d.clear(); d.extend(b.iter().map(|x| x.rotate_left(3) ^ 0x5a)); Ok(d.len()) }
    fn decrypt(&self, d: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> { d.clear(); d.extend(b.iter().map(|x| (x ^ 0x5a).rotate_right(3))); Ok(d.len()) }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum CtrOp { Enc(usize), Dec(usize), Set(Blob), BadSet }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ctr { bs: usize, iv: Blob, wide: usize, ops: Vec<CtrOp>, stream: bool }
fn counter(c: &Ctr) -> Res {
    let log = Rc::new(RefCell::new(vec![]));
    let ctr = |iv: &Blob| DefaultCounter::new(iv.bytes(), 8 * c.bs + 8 * c.wide);
    let iv = Blob { len: iv_len(c), pat: c.iv.pat.clone() };
    let o = must!(CTR::new(Note(c.bs, log.clone()), must!(ctr(&iv), "DefaultCounter::new")), "CTR::new");
    let mut l = vec![];
    let mut blocks = 0;
    let unique = |log: &Rc<RefCell<Vec<Vec<u8>>>>| -> Result<(), String> { let v = log.borrow(); let s: BTreeSet<&Vec<u8>> = v.iter().collect(); ensure!(s.len() == v.len(), "a counter block was used twice in {} blocks", v.len()); Ok(()) };
    let mut d = vec![];
    if c.stream {
        let mut e = o.encrypt_stream();
        for op in &c.ops {
            match op {
                CtrOp::Enc(n) => { must!(e.write(&vec![1; *n]).map(|_| ()), "write"); blocks += n.div_ceil(c.bs); }
                CtrOp::Dec(_) => { must!(e.finish().map(|_| ()), "finish"); l.push(s("stream finished")); }
                _ => { unique(&log)?; log.borrow_mut().clear(); e.reset(); l.push(s("reset")); }
            }
        }
        unique(&log)?;
    } else {
        let mut o = o;
        for op in &c.ops {
            match op {
                CtrOp::Enc(n) => { must!(o.encrypt(&mut d, &vec![1; *n]), "encrypt"); blocks += n.div_ceil(c.bs); }
                CtrOp::Dec(n) => { must!(o.decrypt(&mut d, &vec![1; *n]), "decrypt"); blocks += n.div_ceil(c.bs); }
                CtrOp::Set(iv) => { unique(&log)?; log.borrow_mut().clear(); let iv = Blob { len: iv.len.min(c.bs + c.wide), pat: iv.pat.clone() }; must!(o.set_counter(must!(ctr(&iv), "DefaultCounter::new")), "set_counter"); l.push(s("counter set")); }
                // a counter too narrow is refused and the old one goes on
                CtrOp::BadSet => { ensure!(o.set_counter(must!(DefaultCounter::new(vec![], 8 * (c.bs - 1)), "DefaultCounter::new")).is_err(), "a counter of {} bytes accepted for blocks of {}", c.bs - 1, c.bs); l.push(s("counter refused")); }
            }
        }
        unique(&log)?;
    }
    l.sort();
    l.dedup();
    okls(blocks > 1, l)
}
fn iv_len(c: &Ctr) -> usize { c.iv.len.min(c.bs + c.wide) }

fn hashes() -> BoxedStrategy<Hash> { prop_oneof![3 => md_hash(), 1 => sha3_hash()].boxed() }
fn value(ec: u32) -> BoxedStrategy<What> {
    prop_oneof![
        4 => (any_kind(), prop_oneof![Just(ModeK::Cbc), Just(ModeK::Ofb), Just(ModeK::Cfb(1)), Just(ModeK::Cfb(4))]).prop_map(|(k, m)| What::Iv(k, if let ModeK::Cfb(s) = m { ModeK::Cfb(if k.bs() % s == 0 { s } else { 1 }) } else { m })),
        3 => (hashes(), 0usize..9, 0usize..6).prop_map(|(a, b, c)| What::Oaep(a, b, c)),
        3 => (0usize..200, 0usize..6).prop_map(|(a, b)| What::Pkcs1(a, b)),
        3 => (hashes(), 0usize..9, prop_oneof![3 => 1usize..40, 1 => 40usize..70], any::<bool>()).prop_map(|(a, b, c, d)| What::Pss(a, b, c, d)),
        3 => (prop_oneof![Just(64usize), Just(96), Just(128), Just(160), Just(224), Just(256)], hashes()).prop_map(|(a, b)| What::Dsa(a, b)),
        ec => (prop_oneof![5 => Just(4usize), 5 => Just(5usize), 1 => 0usize..IMPLS], hashes()).prop_map(|(a, b)| What::Ecdsa(a, b)),
    ].boxed()
}
fn main() {
    let mut r = Run::new("C18");
    r.assume("the values drawn are recovered from the outputs with the private keys by the references; nonces of ECDSA are derived from half as many bits as the order has, as the library documents by its construction, and a call that delivers no word may be repeated");
    r.sub("fresh", 600, 10_000, "64 operations on one object: values pairwise distinct, every bit takes both values; non-trivial: all", || (value(1), any::<u64>()).prop_map(|(w, seed)| { let n = if matches!(w, What::Ecdsa(im, _) if im < 4) { 8 } else { 64 }; Fresh { w, seed, n } }), fresh).require(&VALUES, 10);
    r.sub("nonces", 400, 6_000, "160 signatures or generated keys on each curve's parameters over a group that is cheap to compute in: values pairwise distinct, every bit takes both values; non-trivial: all",
        || (CHEAP..CHEAP + 4, hashes(), any::<u64>(), any::<bool>()).prop_map(|(im, h, seed, key)| Fresh { w: if key { What::EcAuto(im) } else { What::Ecdsa(im, h) }, seed, n: 160 }), fresh).require(&["ECDSA nonce", "EC key of a signer"], 10);
    r.sub("nonce_flip", 30_000, 600_000, "the same with two sources that differ in one bit of a word the signature needs; non-trivial: all",
        || (CHEAP..CHEAP + 4, hashes(), any::<u64>(), any::<usize>(), any::<u32>()).prop_map(|(im, h, seed, word, bit)| Flip { w: What::Ecdsa(im, h), seed, word, bit }), flip);
    r.sub("flip", 8_000, 100_000, "two sources that differ in one bit of a word the operation needs; non-trivial: at least one whole word is needed", || (value(2), any::<u64>(), any::<usize>(), any::<u32>()).prop_map(|(w, seed, word, bit)| Flip { w, seed, word, bit }), flip).require(&VALUES, 100);
    let fail = |w: BoxedStrategy<What>| (w, any::<u64>(), prop_oneof![2 => Just(0usize), 3 => any::<usize>(), 1 => 0usize..8], prop_oneof![2 => 1usize..4, 1 => Just(usize::MAX / 2)], 1usize..4).prop_map(|(w, seed, at, n, ops)| Fails { w, seed, at, n, ops }).boxed();
    r.sub("fails", 10_000, 150_000, "sources failing at a call for a time or for good: an error, or the output of a source that worked; non-trivial: the operation draws words", move || fail(value(1)), fails).require(&VALUES, 100).require(&["reported", "failing for good", "failing for a time"], 100);
    r.sub("recovers", 4_000, 60_000, "operations refused for want of randomness, then a working source again on the same object; non-trivial: all", move || fail(value(1)), recovers).require(&VALUES, 50);
    r.sub("keys", 1_500, 20_000, "key generation, signers and schemes generating their own keys, and blinding with failing sources; non-trivial: the operation draws words",
        move || fail(prop_oneof![4 => (prop_oneof![40usize..130, 130usize..300], 2usize..4).prop_map(|(b, p)| What::RsaKey(b.max(40 * p), p)), 3 => (0usize..IMPLS).prop_map(What::EcKey), 3 => (0usize..IMPLS).prop_map(What::EcAuto), 2 => (0u8..3).prop_map(What::RsaAuto), 3 => (64usize..200).prop_map(What::Blind)].boxed()), fails)
        .require(&["RSA key", "EC key", "EC key of a signer", "RSA key of a scheme", "blinding", "reported", "failing for good", "failing for a time"], 50);
    r.sub("dsa_keys", 24, 400, "DSA key generation with failing sources; non-trivial: all", move || fail(Just(What::DsaKey).boxed()).prop_map(|mut c| { c.ops = 1; c }), fails);
    r.sub("counter", 60_000, 1_000_000, "counter-mode histories over a cipher that notes its inputs: no block twice until the counter is set or the stream reset; non-trivial: two blocks or more",
        || (4usize..20, blob(0..24usize), 0usize..4, prop::collection::vec(prop_oneof![5 => (0usize..80).prop_map(CtrOp::Enc), 2 => (0usize..80).prop_map(CtrOp::Dec), 1 => blob(0..24usize).prop_map(CtrOp::Set), 1 => Just(CtrOp::BadSet)], 1..10), any::<bool>()).prop_map(|(bs, iv, wide, ops, stream)| Ctr { bs, iv, wide, ops, stream }), counter).require(&["stream finished", "counter set", "counter refused", "reset"], 100);
    r.finish();
}
