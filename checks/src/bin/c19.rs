//! C19: keys, signature values and scheme objects report what they were made from; copies are faithful.
use checks::curves::*;
use checks::pk::*;
use checks::*;
use rcrypto::rsa::{KeyPair as RsaPair, PrivateKey as RsaPrivate, PublicKey as RsaPublic, OAEP, PKCS1, PSS};
use rcrypto::{dsa, ecdsa, elliptic, rsa, Cipher, CryptoError, CryptoErrorKind, Digest, Signature};
use refimpl::ec::Curve;
use rmath::bigint::BigInt;
use rmath::rand::{Iter, IterSource, RandError, Seed, Source};

/// a random source without shared state: a clone goes on by itself
#[derive(Clone)]
struct Own(Sm64, usize);
impl Own {
    fn new(seed: u64) -> Own { Own(Sm64(seed), 0) }
    /// how often it was asked, and what it delivers next
    fn state(&self) -> (usize, u64) { (self.1, self.0.clone().next()) }
}
impl Source<u32> for Own {
    fn gen(&mut self) -> Result<u32, RandError> { burn(); self.1 += 1; Ok(self.0.next() as u32) }
    fn reset<Sd: Seed<u32>>(&mut self, _sd: &Sd) -> Result<(), RandError> { Ok(()) }
}
impl IterSource<u32> for Own {
    fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) }
}

fn numbers(what: &str, t: String, want: &[&Bn]) -> Result<(), String> {
    let v = printed(&t);
    ensure!(v.len() == want.len() && v.iter().zip(want).all(|(a, b)| a == *b), "{}: {} instead of {:?}", what, t, want.iter().map(|x| x.to_hex()).collect::<Vec<_>>());
    Ok(())
}
/// printed in both ways
macro_rules! shows { ($what:expr, $x:expr, $($n:expr),*) => { numbers(&format!("{} printed", $what), format!("{}", $x), &[$($n),*])?; numbers(&format!("{} printed for debugging", $what), format!("{:?}", $x), &[$($n),*])?; } }
/// the hash an object hands out is fresh and its own
fn hands_out(what: &str, h: &Hash, mut a: BoxD, mut b: BoxD, m: &[u8]) -> Result<(), String> {
    ensure!(a.bits_len() == h.bits(), "{}: the hash is of {} bits", what, a.bits_len());
    let mut out = vec![9; 3];
    a.write(&[0x55; 77]);
    b.write(m);
    b.checksum(&mut out);
    eq(&format!("{}: hash handed out", what), &out, &h.reference(m))?;
    Ok(())
}
fn alter(x: &mut BigInt, how: u8) {
    match how % 4 { 0 => *x += BigInt::from(1u32), 1 => *x -= BigInt::from(1u32), 2 => *x <<= 1, _ => *x *= BigInt::from(3u32) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RsaNum { n: Blob, e: Blob, zn: usize, ze: usize, m: Num, how: u8, alter: u8 }
fn rsa_public(c: &RsaNum) -> Res {
    let (n, e) = (Bn::from_be(&c.n.bytes()), Bn::from_be(&c.e.bytes()));
    let mut l = vec![];
    // leading zeros do not count
    let lead = |x: &Bn, z: usize| { let mut v = vec![0; z]; v.extend(x.to_be()); if v.is_empty() { v.push(0); } v };
    let (nb, eb) = (lead(&n, c.zn), lead(&e, c.ze));
    let (mut bn_, mut be) = (big(&n), big(&e));
    let key = match c.how % 4 {
        0 => RsaPublic::from_be_bytes(&nb, &eb),
        1 => RsaPublic::from_le_bytes(&nb.iter().rev().cloned().collect::<Vec<_>>(), &eb.iter().rev().cloned().collect::<Vec<_>>()),
        2 => RsaPublic::from_bigint(&bn_, &be),
        _ => RsaPublic::from_nat(&nat(&n), &nat(&e)),
    };
    l.push(s(["big-endian bytes", "little-endian bytes", "integers", "naturals"][c.how as usize % 4]));
    if c.zn > 0 && c.how % 4 < 2 { l.push(s("leading zeros")); }
    let good = e >= Bn::from_u64(3) && e < n;
    let key = match key { Ok(k) => { ensure!(good, "modulus {} and exponent {} accepted", n.to_hex(), e.to_hex()); k } Err(x) => { ensure!(!good, "modulus {} and exponent {}: {:?}", n.to_hex(), e.to_hex(), x); return okls(false, vec![s("refused")]); } };
    let m = c.m.get(&n).rem(&n);
    let want = m.modpow(&e, &n);
    let r = key.encrypt(&big(&m));
    ensure!(bn(&r) == Some(want.clone()), "{} encrypts to {}", m.to_hex(), show(&r));
    let copy = key.clone();
    let judge = |what: &str, k: &RsaPublic| -> Result<(), String> {
        shows!(what, k, &n, &e);
        ensure!(k.modulus_len() == (n.bits() + 7) / 8, "{}: modulus of {} bytes instead of {} bits", what, k.modulus_len(), n.bits());
        Ok(())
    };
    judge("key", &key)?;
    if c.how % 4 == 2 {
        alter(&mut bn_, c.alter);
        alter(&mut be, c.alter / 4);
        l.push(s("caller's numbers changed"));
    }
    judge("clone", &copy)?;
    judge("key", &key)?;
    drop(key);
    judge("clone without its original", &copy)?;
    let r = copy.encrypt(&big(&m));
    ensure!(bn(&r) == Some(want), "the clone encrypts {} to {}", m.to_hex(), show(&r));
    okls(true, l)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RsaCase { bits: usize, primes: usize, kseed: u64, hash: Hash, family: bool, public: bool, checked: bool, scheme: u8, salt: usize, label: Blob, m: Blob, seed: u64, blind: bool, twice: bool }
fn rsa_object(c: &RsaCase) -> Res {
    let key = key(c.bits, c.primes, c.kseed)?;
    let (n, e, d, k) = (&key.n, &key.e, &key.d, key.k());
    let mut l = vec![s(if c.public { "public key" } else { "private key" })];
    let copy: RsaPrivate = if c.twice { key.key.clone().clone() } else { key.key.clone() };
    shows!("private key", copy, d, n, e);
    shows!("its public key", copy.public_key(), n, e);
    ensure!(copy.modulus_len() == k, "modulus_len {} of the private key instead of {}", copy.modulus_len(), k);
    must!(copy.is_valid(), "the clone of a valid key");
    let secret = Bn::random_below(n, &mut Sm64(c.seed));
    let back = must!(copy.decrypt(&big(&key.enc(&secret)), if c.blind { Some(Own::new(c.seed)) } else { None }.as_mut()), "decryption with the clone");
    ensure!(bn(&back) == Some(secret.clone()), "the clone decrypts to {} instead of {}", show(&back), secret.to_hex());
    let kp = if c.public { RsaPair::from(copy.public_key().clone()) } else { RsaPair::from(copy) };
    let (hl, m) = (c.hash.bytes(), c.m.bytes());
    let h = BoxD(c.hash.make(c.family));
    let rd = Own::new(c.seed);
    let st = rd.state();
    let nothing = |a: (usize, u64), b: (usize, u64)| -> Result<(), String> { ensure!(a == b, "the source handed out has served {} words and not {}, or goes on differently", b.0, a.0); Ok(()) };
    macro_rules! common { ($o:expr, $what:expr) => {
        ensure!($o.digest_len() == hl, "{}: digest_len {} instead of {}", $what, $o.digest_len(), hl);
        ensure!($o.modulus_len() == k, "{}: modulus_len {} instead of {}", $what, $o.modulus_len(), k);
        shows!(format!("public key of {}", $what), $o.public_key(), n, e);
        hands_out($what, &c.hash, $o.digest_func(), $o.digest_func(), &m)?;
    }; }
    match c.scheme % 3 {
        0 => {
            l.push(s("OAEP"));
            let fits = k >= 2 * hl + 2 && hl > 0;
            let lab = c.label.bytes();
            let made = if c.checked { OAEP::new(h, rd, kp, lab.clone(), c.blind) } else { OAEP::new_uncheck(h, rd, kp, lab.clone(), c.blind) };
            let o = match made { Ok(o) => { ensure!(fits, "OAEP over {} bytes with a hash of {} accepted", k, hl); o } Err(e) => { ensure!(!fits, "OAEP over {} bytes with a hash of {}: {:?}", k, hl, e); return okls(false, vec![s("refused")]); } };
            common!(o, "OAEP");
            ensure!(o.max_message_len() == k - 2 * hl - 2, "OAEP: max_message_len {} with {} bytes and a hash of {}", o.max_message_len(), k, hl);
            nothing(st, o.rand_source().state())?;
            let mut ct = vec![];
            let long = vec![0x5a; o.max_message_len()];
            must!(o.encrypt(&mut ct, &long), "OAEP of the longest message");
            let dec = refimpl::rsa::oaep_decode(&|x: &[u8]| c.hash.reference(x), hl, k, &lab, &key.dec(&Bn::from_be(&ct)).to_be_len(k));
            ensure!(dec.as_deref() == Some(&long[..]), "OAEP: the longest message does not decode");
            ensure!(o.encrypt(&mut ct, &vec![1; o.max_message_len() + 1]).is_err(), "OAEP: one byte more than the largest message accepted");
            common!(o, "OAEP after use");
            let mut a = o.rand_source();
            let at = a.state();
            ensure!(at.0 >= st.0, "OAEP: the source handed out has gone back");
            for _ in 0..9 { let _ = a.gen(); }
            nothing(at, o.rand_source().state())?;
        }
        1 => {
            l.push(s("PKCS1"));
            let made = if c.checked { PKCS1::new(h, rd, kp, c.blind) } else { PKCS1::new_uncheck(h, rd, kp, c.blind) };
            let o = match made { Ok(o) => o, Err(e) => { ensure!(k < 11, "PKCS1 over {} bytes: {:?}", k, e); return okls(false, vec![s("refused")]); } };
            common!(o, "PKCS1");
            ensure!(o.encrypt_max_message_len() == k.saturating_sub(11), "PKCS1: encrypt_max_message_len {} with {} bytes", o.encrypt_max_message_len(), k);
            ensure!(o.sign_max_message_len() == usize::MAX, "PKCS1: sign_max_message_len {}", o.sign_max_message_len());
            nothing(st, o.rand_source().state())?;
            if k >= 11 {
                let mut ct = vec![];
                let long = vec![0x5a; o.encrypt_max_message_len()];
                must!(o.encrypt(&mut ct, &long), "PKCS1 of the longest message");
                let em = key.dec(&Bn::from_be(&ct)).to_be_len(k);
                ensure!(em[..2] == [0, 2] && em[10] == 0 && em[11..] == long[..], "PKCS1: the longest message gives the block {}", hex(&em));
                ensure!(o.encrypt(&mut ct, &vec![1; long.len() + 1]).is_err(), "PKCS1: one byte more than the largest message accepted");
            }
            common!(o, "PKCS1 after use");
            let mut a = o.rand_source();
            let at = a.state();
            for _ in 0..9 { let _ = a.gen(); }
            nothing(at, o.rand_source().state())?;
        }
        _ => {
            l.push(s("PSS"));
            let em = (n.bits() + 6) / 8;
            let arg = match c.salt { 0 => None, 1 => Some(0), x => Some(x - 1) };
            let want = match c.salt { 0 => hl, 1 => em.saturating_sub(2 + hl), x => x - 1 };
            let fits = hl > 0 && em >= hl + want + 2;
            let made = if c.checked { PSS::new(h, rd, kp, arg, c.blind) } else { PSS::new_uncheck(h, rd, kp, arg, c.blind) };
            let mut o = match made { Ok(o) => { ensure!(fits, "PSS over {} bytes with a hash of {} and salt {:?} accepted", em, hl, arg); o } Err(e) => { ensure!(!fits, "PSS over {} bytes with a hash of {} and salt {:?}: {:?}", em, hl, arg, e); return okls(false, vec![s("refused")]); } };
            common!(o, "PSS");
            ensure!(o.salt_len() == want, "PSS: salt_len {} for {:?}", o.salt_len(), arg);
            ensure!(o.max_message_len() == usize::MAX, "PSS: max_message_len {}", o.max_message_len());
            nothing(st, o.rand_source().state())?;
            let mut sc = rsa::SignatureContent::new();
            ensure!(o.sign(&mut sc, &m).is_ok() != c.public, "PSS: signing with the public key {}", c.public);
            common!(o, "PSS after use");
            ensure!(o.salt_len() == want, "PSS: salt_len {} after use", o.salt_len());
            let mut a = o.rand_source();
            let at = a.state();
            for _ in 0..9 { let _ = a.gen(); }
            nothing(at, o.rand_source().state())?;
        }
    }
    okls(true, l)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DsaCase { p: Blob, q: usize, g: Num, y: Num, x: Num, hash: Hash, family: bool, public: bool, m: Blob, seed: u64, alter: u8 }
fn dsa_object(c: &DsaCase) -> Res {
    let pb = { let mut v = c.p.bytes(); v[0] |= 0x80; let n = v.len(); v[n - 1] |= 1; v };
    let (p, q) = (Bn::from_be(&pb), { let mut v = Sm64(c.seed).bytes(c.q); v[0] |= 0x80; v[c.q - 1] |= 1; Bn::from_be(&v) });
    let one = Bn::one();
    let into = |n: &Num, m: &Bn| n.get(m).rem(&m.sub(&one)).add(&one);
    let (g, y, x) = (into(&c.g, &p), into(&c.y, &p), into(&c.x, &q));
    let (mut bp, mut bq, mut bg, mut by, mut bx) = (big(&p), big(&q), big(&g), big(&y), big(&x));
    // sizes are judged by the domain of another property; here only what was accepted counts
    let dp = match dsa::DomainParameters::new_uncheck(&bp, &bq, &bg) { Ok(d) => d, Err(_) => return okls(false, vec![s("refused")]) };
    let mut l = vec![s(if c.public { "public key" } else { "private key" })];
    shows!("parameters", dp, &p, &q, &g);
    let pk = must!(dsa::PublicKey::new_uncheck(&dp, &by), "PublicKey::new_uncheck");
    let sk = must!(dsa::PrivateKey::new_uncheck(&pk, &bx), "PrivateKey::new_uncheck");
    for (i, b) in [&mut bp, &mut bq, &mut bg, &mut by, &mut bx].into_iter().enumerate() { alter(b, c.alter >> i); }
    l.push(s("caller's numbers changed"));
    let copies = (dp.clone(), pk.clone(), sk.clone());
    drop(dp);
    macro_rules! judge { ($what:expr, $dp:expr, $pk:expr, $sk:expr) => {
        shows!(format!("{} parameters", $what), $dp, &p, &q, &g);
        shows!(format!("{} public key", $what), $pk, &y, &p, &q, &g);
        shows!(format!("{} private key", $what), $sk, &x, &y, &p, &q, &g);
        shows!(format!("public key of the {} private key", $what), $sk.public_key(), &y, &p, &q, &g);
        shows!(format!("parameters of the {} private key", $what), $sk.domain_parameters(), &p, &q, &g);
        shows!(format!("parameters of the {} public key", $what), $pk.domain_parameters(), &p, &q, &g);
    }; }
    judge!("cloned", copies.0, copies.1, copies.2);
    let kp = if c.public { dsa::KeyPair::from(pk) } else { dsa::KeyPair::from(sk) };
    drop(copies);
    let o = must!(dsa::DSA::new_uncheck(BoxD(c.hash.make(c.family)), Own::new(c.seed), kp), "DSA::new_uncheck");
    let m = c.m.bytes();
    let kp = o.key_pair();
    shows!("public key of the pair", kp.public_key(), &y, &p, &q, &g);
    shows!("parameters of the pair", kp.domain_parameters(), &p, &q, &g);
    ensure!(kp.private_key().is_some() != c.public, "a pair made from a {} key", l[0]);
    if let Some(k) = kp.private_key() { judge!("pair's", kp.domain_parameters(), kp.public_key(), k); }
    hands_out("DSA", &c.hash, o.digest_func(), o.digest_func(), &m)?;
    let mut a = o.rand_source();
    ensure!(a.state() == Own::new(c.seed).state(), "the source handed out has been used");
    let _ = a.gen();
    ensure!(o.rand_source().state() == Own::new(c.seed).state(), "the source of the signer moved with the one handed out");
    okls(true, l)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EcCase { im: usize, d: Num, other: bool, hash: Hash, family: bool, public: bool, m: Blob, seed: u64, alter: u8, k: Scal, auto: bool }
fn curve_is(what: &str, c: &dyn elliptic::EllipticCurve, cv: &Curve, k: &Bn) -> Result<(), String> {
    let pr = c.curve_params();
    ensure!(pr.field_bits_size() == cv.bits, "{}: field of {} bits", what, pr.field_bits_size());
    ensure!(pr.name() == format!("P-{}", cv.bits), "{}: called {}", what, pr.name());
    same(&format!("{}: multiple {} of the base point", what, k.to_hex()), &c.scalar_base_point(&nat(k)), &cv.mul_base(k))?;
    let (gx, gy) = bigs(&cv.g());
    ensure!(c.is_on_curve(&gx, &gy), "{}: the base point is not on the curve", what);
    Ok(())
}
fn ec_with<C: elliptic::EllipticCurve + Clone>(c: &EcCase, curve: C) -> Res {
    let cv = curve_of(c.im);
    let n1 = cv.n.sub(&Bn::one());
    let d = c.d.get(&n1).rem(&n1).add(&Bn::one());
    let k = c.k.get(&cv.n);
    let mut l = vec![s(NAMES[c.im]), s(if c.public { "public key" } else { "private key" })];
    // the key types hold any two numbers
    let (qx, qy) = if c.other { let mut g = Sm64(c.seed); (Bn::random_below(&cv.p, &mut g), Bn::random_below(&cv.p, &mut g)) } else { xy(&cv.mul_base(&d)) };
    let (mut bx, mut by, mut bd) = (big(&qx), big(&qy), big(&d));
    let pk = elliptic::PublicKey::new_uncheck(&bx, &by);
    let sk = elliptic::PrivateKey::new_uncheck(pk.clone(), &bd);
    for (i, b) in [&mut bx, &mut by, &mut bd].into_iter().enumerate() { alter(b, c.alter >> i); }
    l.push(s("caller's numbers changed"));
    let copy = sk.clone();
    shows!("public key", pk, &qx, &qy);
    shows!("cloned public key", pk.clone(), &qx, &qy);
    shows!("private key", sk, &d, &qx, &qy);
    shows!("public key of the private key", sk.public_key(), &qx, &qy);
    let kp = if c.public { elliptic::KeyPair::from(pk) } else { elliptic::KeyPair::from(sk) };
    shows!("cloned private key", copy, &d, &qx, &qy);
    shows!("public key of the cloned private key", copy.public_key(), &qx, &qy);
    shows!("public key of the pair", kp.public_key(), &qx, &qy);
    ensure!(kp.private_key().is_some() != c.public, "a pair made from a {} key", l[1]);
    if let Some(k) = kp.private_key() { shows!("private key of the pair", k, &d, &qx, &qy); }
    let twin = curve.clone();
    curve_is("curve", &curve, cv, &k)?;
    let m = c.m.bytes();
    let h = BoxD(c.hash.make(c.family));
    let rd = Own::new(c.seed);
    let o = must!(ecdsa::ECDSA::new_unchcek(h, rd, curve, kp), "ECDSA::new_unchcek");
    shows!("public key of the signer", o.public_key(), &qx, &qy);
    curve_is("cloned curve", &twin, cv, &k)?;
    curve_is("curve handed out", &o.curve(), cv, &k)?;
    hands_out("ECDSA", &c.hash, o.digest_func(), o.digest_func(), &m)?;
    let mut a = o.rand_source();
    ensure!(a.state() == Own::new(c.seed).state(), "the source handed out has been used");
    let _ = a.gen();
    ensure!(o.rand_source().state() == Own::new(c.seed).state(), "the source of the signer moved with the one handed out");
    if c.auto {
        // a signer that made its own key reports the key it signs with
        let mut o = must!(ecdsa::ECDSA::auto_generate_key(BoxD(c.hash.make(c.family)), Own::new(c.seed), twin), "auto_generate_key");
        let v = printed(&format!("{}", o.public_key()));
        ensure!(v.len() == 2 && cv.on_curve(&v[0], &v[1]), "the public key {} is not on the curve", o.public_key());
        ensure!(o.rand_source().state().0 > 0, "the source of a generated key was not used");
        let mut sc = ecdsa::SignatureContent::new();
        must!(o.sign(&mut sc, &m), "signing");
        let (r, t) = sc.to_bigint();
        let (r, t) = (bn(&r).unwrap_or(Bn::zero()), bn(&t).unwrap_or(Bn::zero()));
        ensure!(cv.ecdsa_verify(&Some((v[0].clone(), v[1].clone())), &c.hash.reference(&m), &r, &t), "the signer's own signature does not verify under the public key {} it reports", o.public_key());
        l.push(s("key of its own"));
    }
    okls(true, l)
}
fn ec_object(c: &EcCase) -> Res {
    match c.im { 4 => ec_with(c, must!(elliptic::CurveP224::new(), "CurveP224::new")), 5 => ec_with(c, must!(elliptic::CurveP256::new(), "CurveP256::new")), i => ec_with(c, params(i)) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act { Set(Num, Num), New(Num, Num), Read }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Content { acts: Vec<Act>, bytes: Blob, write: Vec<(usize, u8)>, cap: usize, bits: usize, alter: u8 }
fn contents(c: &Content) -> Res {
    let top = Bn::pow2(c.bits);
    // the pair of numbers
    let mut sc = if c.cap % 2 == 0 { dsa::SignatureContent::new() } else { dsa::SignatureContent::with_capacity(c.cap) };
    let mut now: Option<(Bn, Bn)> = None;
    let mut l = vec![];
    for (i, a) in c.acts.iter().enumerate() {
        match a {
            Act::Set(r, t) => { let (r, t) = (r.get(&top), t.get(&top)); sc.set(big(&r), big(&t)); now = Some((r, t)); l.push(s("set")); }
            Act::New(r, t) => {
                let (r, t) = (r.get(&top), t.get(&top));
                let (mut br, mut bt) = (big(&r), big(&t));
                sc = dsa::SignatureContent::form_bigint(&br, &bt);
                alter(&mut br, c.alter);
                alter(&mut bt, c.alter / 4);
                now = Some((r, t));
                l.push(s("made"));
            }
            Act::Read => { l.push(s("read")); }
        }
        let (r, t) = sc.to_bigint();
        if let Some((wr, wt)) = &now {
            ensure!(bn(&r) == Some(wr.clone()) && bn(&t) == Some(wt.clone()), "step {}: {} {} instead of {} {}", i, show(&r), show(&t), wr.to_hex(), wt.to_hex());
            let a: &[u8] = sc.as_ref();
            let v: &Vec<u8> = sc.as_ref();
            ensure!(a == &v[..], "step {}: two views of the content differ", i);
            // the bytes are the two numbers, one after the other
            let join: Vec<u8> = [if wr.is_zero() { vec![] } else { wr.to_be() }, if wt.is_zero() { vec![] } else { wt.to_be() }].concat();
            let strip: Vec<u8> = a.iter().cloned().filter(|x| *x != 0).collect();
            ensure!(strip == join.iter().cloned().filter(|x| *x != 0).collect::<Vec<_>>(), "step {}: bytes {} for {} {}", i, hex(a), wr.to_hex(), wt.to_hex());
        }
    }
    // the plain bytes
    let b = c.bytes.bytes();
    let mut x = if c.cap % 3 == 0 { rsa::SignatureContent::from(b.clone()) } else { rsa::SignatureContent::from(b.as_slice()) };
    let mut want = b.clone();
    for (j, (at, v)) in c.write.iter().enumerate() {
        if want.is_empty() { break; }
        let y = x.clone();
        let at = at % want.len();
        match j % 3 { 0 => x.as_mut_slice()[at] = *v, 1 => { let w: &mut Vec<u8> = x.as_mut(); w[at] = *v } _ => { let w: &mut [u8] = x.as_mut(); w[at] = *v } }
        eq("clone of a signature", y.as_slice(), &want)?;
        want[at] = *v;
        eq("signature", x.as_slice(), &want)?;
        let (p, q): (&[u8], &Vec<u8>) = (x.as_ref(), x.as_ref());
        eq("signature as bytes", p, &want)?;
        eq("signature as a vector", q, &want)?;
    }
    eq("signature", x.as_slice(), &want)?;
    let w: &mut Vec<u8> = x.as_mut();
    w.clear();
    ensure!(x.as_slice().is_empty() && rsa::SignatureContent::new().as_slice().is_empty() && rsa::SignatureContent::with_capacity(c.cap).as_slice().is_empty(), "an empty signature has bytes");
    // errors
    let kinds = [CryptoErrorKind::InvalidParameter, CryptoErrorKind::NotSupportUsage, CryptoErrorKind::RandError, CryptoErrorKind::UnpaddingNotMatch, CryptoErrorKind::InvalidPublicKey, CryptoErrorKind::InvalidPrivateKey, CryptoErrorKind::VerificationFailed, CryptoErrorKind::OuterErr, CryptoErrorKind::InnerErr];
    let (kind, text) = (kinds[c.cap % kinds.len()], hex(&b));
    let e = CryptoError::new(kind, text.clone());
    ensure!(e.kind() == kind && format!("{}", e).contains(&text) && format!("{:?}", e).contains(&text), "the error {} made from {:?} and {}", e, kind, text);
    ensure!(kinds.iter().filter(|k| format!("{:?}", k) == format!("{:?}", kind)).count() == 1, "two kinds of error print as {:?}", kind);
    okls(true, l)
}

fn hashes() -> BoxedStrategy<Hash> { prop_oneof![3 => md_hash(), 2 => sha3_hash(), 2 => (prop_oneof![Just(128usize), Just(256)], 1usize..700, any::<bool>()).prop_map(|(sec, out, raw)| Hash::Shake { sec, out, raw })].boxed() }
fn main() {
    let mut r = Run::new("C19");
    r.assume("numbers are read from the printed form of a key, the only public way; the layout of that text other than the numbers and their order is free");
    r.sub("rsa_public", 100_000, 1_000_000, "public keys from bytes of either order with leading zeros, from integers and naturals; printed, measured, cloned and used while the caller changes its numbers; non-trivial: accepted",
        || (blob(prop_oneof![12 => 1usize..40, 4 => 40usize..140, 1 => 140usize..300]), blob(prop_oneof![20 => 1usize..5, 1 => 5usize..30]), prop_oneof![2 => Just(0usize), 1 => 1usize..9], prop_oneof![2 => Just(0usize), 1 => 1usize..9], num(), any::<u8>(), any::<u8>())
            .prop_map(|(n, e, zn, ze, m, how, alter)| RsaNum { n, e, zn, ze, m, how, alter }), rsa_public).require(&["big-endian bytes", "little-endian bytes", "integers", "naturals", "leading zeros", "caller's numbers changed"], 200);
    r.sub("rsa_objects", 60_000, 500_000, "OAEP, PKCS1 and PSS over keys of many sizes and prime counts, hashes, labels and salt lengths: reported lengths, limits, public key, hash and source before and after use; non-trivial: constructed",
        || ((prop_oneof![4 => (0usize..13).prop_map(|i| [88, 96, 121, 127, 128, 129, 250, 256, 257, 384, 511, 512, 513][i]), 1 => Just(768usize), 1 => Just(1023usize)], prop_oneof![3 => Just(2usize), 1 => Just(3usize)], 0u64..2, hashes(), any::<bool>(), any::<bool>(), any::<bool>()),
            (any::<u8>(), prop_oneof![1 => Just(0usize), 1 => Just(1usize), 3 => 2usize..40, 1 => 40usize..130], blob(0..40usize), blob(0..200usize), any::<u64>(), any::<bool>(), any::<bool>()))
            .prop_map(|((bits, primes, kseed, hash, family, public, checked), (scheme, salt, label, m, seed, blind, twice))| RsaCase { bits, primes, kseed, hash, family, public, checked, scheme, salt, label, m, seed, blind, twice }), rsa_object)
        .require(&["OAEP", "PKCS1", "PSS", "refused", "public key", "private key"], 500);
    r.sub("dsa_objects", 150_000, 1_500_000, "domain parameters, keys, clones and key pairs of DSA over arbitrary numbers, and the signer made from them; non-trivial: accepted",
        || ((blob(2usize..50), 1usize..33, num(), num(), num(), hashes()), (any::<bool>(), any::<bool>(), blob(0..100usize), any::<u64>(), any::<u8>()))
            .prop_map(|((p, q, g, y, x, hash), (family, public, m, seed, alter))| DsaCase { p: Blob { len: p.len + q, pat: p.pat }, q, g, y, x, hash, family, public, m, seed, alter }), dsa_object).require(&["public key", "private key", "caller's numbers changed"], 200);
    r.sub("ec_objects", 500, 6_000, "keys, clones and key pairs on every implementation of every curve, curves and their clones, and the signer made from them; non-trivial: all",
        || ((0usize..IMPLS, num(), any::<bool>(), hashes(), any::<bool>(), any::<bool>()), (blob(0..100usize), any::<u64>(), any::<u8>(), scal(), prop::bool::weighted(0.3)))
            .prop_map(|((im, d, other, hash, family, public), (m, seed, alter, k, auto))| EcCase { im, d, other, hash, family, public, m, seed, alter, k, auto }), ec_object).require(&NAMES, 10).require(&["public key", "private key", "key of its own"], 50);
    r.sub("contents", 600_000, 6_000_000, "signature values: numbers and bytes set, read back, viewed and cloned in any order; errors and their kinds; non-trivial: all",
        || (prop::collection::vec(prop_oneof![2 => (wide_num(), wide_num()).prop_map(|(a, b)| Act::Set(a, b)), 2 => (wide_num(), wide_num()).prop_map(|(a, b)| Act::New(a, b)), 1 => Just(Act::Read)], 1..6), blob(0..80usize), prop::collection::vec((any::<usize>(), any::<u8>()), 0..6), 0usize..300, 1usize..600, any::<u8>())
            .prop_map(|(acts, bytes, write, cap, bits, alter)| Content { acts, bytes, write, cap, bits, alter }), contents).require(&["set", "made", "read"], 1000);
    r.finish();
}
