//! C15: EC keys, ECDSA signing and verification against an independent FIPS 186-4 implementation.
use checks::curves::*;
use checks::pk::*;
use checks::*;
use rcrypto::ecdsa::{SignatureContent, ECDSA};
use rcrypto::elliptic::{CurveParams, EllipticCurve, KeyPair, PrivateKey, PublicKey};
use rcrypto::{Digest, Signature};
use refimpl::ec::{Curve, Pt};
use rmath::bigint::{BigInt, Nat};
use std::cell::RefCell;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sg { Good(Num), AddR(i8), AddS(i8), RPlusN, SPlusN, SNeg, RNeg, Swap, Any(Num, Num), OtherKey, Untruncated, Forged(Num, Num), ZeroS(Num), Scaled(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Sign(Blob, bool), Verify(Blob, Option<Blob>, Sg, bool) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { im: usize, hash: Hash, family: bool, d: Num, ops: Vec<Op>, rng: u64, script: Vec<u32>, public: bool, dirty: Blob, alias: bool }

fn add(x: &Bn, d: i8) -> Bn { let u = Bn::from_u64(d.unsigned_abs() as u64); if d < 0 { if *x >= u { x.sub(&u) } else { Bn::zero() } } else { x.add(&u) } }
/// into 1..n-1
fn range(cv: &Curve, x: &Num) -> Bn { let n1 = cv.n.sub(&Bn::one()); x.get(&n1).rem(&n1).add(&Bn::one()) }
fn content(sc: &SignatureContent) -> Result<(Bn, Bn), String> {
    let (r, t) = sc.to_bigint();
    match (bn(&r), bn(&t)) { (Some(a), Some(b)) => Ok((a, b)), _ => Err(format!("components {} {}", show(&r), show(&t))) }
}
fn signed(cv: &Curve, q: &Pt, hm: &[u8], sc: &SignatureContent) -> Result<(), String> {
    let (r, t) = content(sc)?;
    ensure!(!r.is_zero() && !t.is_zero() && r < cv.n && t < cv.n, "components {} {} out of range", r.to_hex(), t.to_hex());
    ensure!(cv.ecdsa_verify(q, hm, &r, &t), "the signature {} {} does not verify in the reference", r.to_hex(), t.to_hex());
    Ok(())
}
type E = ECDSA<BoxD, Rnd, BoxC>;
fn verified(o: &mut E, sc: &SignatureContent, m: &[u8], want: bool, l: &mut Vec<String>, what: &str) -> Result<(), String> {
    match (o.verify(sc, m), want) {
        (Ok(()), true) => l.push(s("accepted")),
        (Err(_), false) => l.push(s("rejected")),
        (Err(e), true) => fail!("{}: valid signature {:x?} refused: {:?}", what, content(sc).map(|(a, b)| (a.to_hex(), b.to_hex())), e),
        (Ok(()), false) => fail!("{}: invalid signature {:x?} accepted", what, content(sc).map(|(a, b)| (a.to_hex(), b.to_hex()))),
    }
    Ok(())
}
fn run(c: &Case) -> Res {
    let one = Bn::one();
    let cv = curve_of(c.im);
    let n = &cv.n;
    let d = range(cv, &c.d);
    let q = cv.mul_base(&d);
    let ((mut qx, mut qy), mut bd) = (bigs(&q), big(&d));
    let pk = PublicKey::new_uncheck(&qx, &qy);
    let sk = PrivateKey::new_uncheck(PublicKey::new_uncheck(&qx, &qy), &bd);
    let kp = if c.public { KeyPair::from(pk.clone()) } else { KeyPair::from(sk.clone()) };
    let mut h = BoxD(c.hash.make(c.family));
    h.write(&c.dirty.bytes());
    let mut o: E = must!(ECDSA::new_unchcek(h, Rnd::new(c.script.clone(), c.rng), BoxC(make(c.im)), kp), "ECDSA::new_unchcek");
    let mut l = vec![s(NAMES[c.im]), s(if c.hash.bits() > cv.n.bits() { "hash longer than the order" } else { "hash not longer than the order" })];
    if c.alias {
        for b in [&mut qx, &mut qy, &mut bd] { *b += BigInt::from(2u32); }
        l.push(s("caller's numbers changed"));
    }
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Sign(m, twice) => {
                let m = m.bytes();
                let hm = c.hash.reference(&m);
                let mut sc = if i % 2 == 0 { SignatureContent::new() } else { SignatureContent::form_bigint(&big(&d), &big(n)) };
                let r = o.sign(&mut sc, &m);
                if c.public { ensure!(r.is_err(), "op {}: signed with a public key", i); l.push(s("public key only")); continue; }
                must!(r, "op {}: signing", i);
                signed(cv, &q, &hm, &sc).map_err(|e| format!("op {}: {}", i, e))?;
                if *twice { verified(&mut o, &sc, &m, true, &mut l, &format!("op {}", i))?; }
                l.push(s("signed"));
            }
            Op::Verify(m, other, sg, set) => {
                let m = m.bytes();
                let hm = c.hash.reference(&m);
                let offered = other.as_ref().map_or(m.clone(), |x| x.bytes());
                let good = |k: &Num, hm: &[u8], x: &Bn| {
                    let mut k = range(cv, k);
                    loop { if let Some(v) = cv.ecdsa_sign(x, &k, hm) { return v; } k = k.rem(&n.sub(&one)).add(&one); }
                };
                let k0 = Num::Pow(c.rng as u32 % 4096, c.rng >> 13);
                let (r, t) = match sg {
                    Sg::Good(k) => { l.push(s("made by the reference")); good(k, &hm, &d) }
                    Sg::AddR(e) => { let (r, t) = good(&k0, &hm, &d); l.push(s("first component altered")); (add(&r, *e), t) }
                    Sg::AddS(e) => { let (r, t) = good(&k0, &hm, &d); l.push(s("second component altered")); (r, add(&t, *e)) }
                    Sg::RPlusN => { let (r, t) = good(&k0, &hm, &d); l.push(s("first component plus n")); (r.add(n), t) }
                    Sg::SPlusN => { let (r, t) = good(&k0, &hm, &d); l.push(s("second component plus n")); (r, t.add(n)) }
                    Sg::SNeg => { let (r, t) = good(&k0, &hm, &d); l.push(s("second component negated")); (r, n.sub(&t)) }
                    Sg::RNeg => { let (r, t) = good(&k0, &hm, &d); l.push(s("first component negated")); (n.sub(&r), t) }
                    Sg::Swap => { let (r, t) = good(&k0, &hm, &d); l.push(s("swapped")); (t, r) }
                    Sg::Any(a, b) => { let (a, b) = (a.get(n), b.get(n)); if a.is_zero() { l.push(s("first component zero")); } if b.is_zero() { l.push(s("second component zero")); } (a, b) }
                    Sg::OtherKey => { l.push(s("other key")); good(&k0, &hm, &d.rem(&n.sub(&one)).add(&one)) }
                    Sg::Untruncated => {
                        let z = Bn::from_be(&hm).rem(n);
                        if hm.len() * 8 > n.bits() { l.push(s("hash not truncated")); }
                        // leading zeros make it exactly as long as the order
                        let len = (n.bits() + 7) / 8;
                        good(&k0, &z.shl(8 * len - n.bits()).to_be_len(len), &d)
                    }
                    Sg::Forged(a, b) => {
                        let (a, b) = (range(cv, a), range(cv, b));
                        let r = xy(&cv.comb(&a, &b, &q)).0.rem(n);
                        let t = r.mulmod(&b.modinv(n).unwrap(), n);
                        l.push(s("made without the private key"));
                        (r, t)
                    }
                    Sg::ZeroS(k) => { l.push(s("second component zero")); (xy(&cv.mul_base(&range(cv, k))).0.rem(n), Bn::zero()) }
                    Sg::Scaled(k) => { let (r, t) = good(&k0, &hm, &d); let k = Bn::from_u64(*k as u64); l.push(s("both components scaled")); (r.mulmod(&k, n), t.mulmod(&k, n)) }
                };
                let want = cv.ecdsa_verify(&q, &c.hash.reference(&offered), &r, &t);
                let sc = if *set { let mut v = SignatureContent::form_bigint(&big(&t), &big(n)); v.set(big(&r), big(&t)); v } else { SignatureContent::form_bigint(&big(&r), &big(&t)) };
                ensure!(content(&sc)? == (r.clone(), t.clone()), "op {}: content of {} {} is {:?}", i, r.to_hex(), t.to_hex(), content(&sc));
                verified(&mut o, &sc, &offered, want, &mut l, &format!("op {}", i))?;
                if offered != m { l.push(s("other message")); }
            }
        }
    }
    ensure!(printed(&format!("{}", sk)) == [d.clone(), xy(&q).0, xy(&q).1], "key changed: {}", sk);
    ensure!(printed(&format!("{}", o.public_key())) == [xy(&q).0, xy(&q).1], "key of the object changed: {}", o.public_key());
    l.sort();
    l.dedup();
    okls(true, l)
}

/// the point the verification equation arrives at is chosen, the public key follows from it
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Want { Point(Point), AboveOrder(u64), Inf, Equal }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Offer { Exact, XItself, Plus, Minus }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chosen { im: usize, hash: Hash, msg: Blob, to: Want, s: Num, r: Num, offer: Offer }
fn chosen(c: &Chosen) -> Res {
    let cv = curve_of(c.im);
    let n = &cv.n;
    let m = c.msg.bytes();
    let hm = c.hash.reference(&m);
    let e = refimpl::ec::Curve::hash_to_int(cv, &hm).rem(n);
    let t = range(cv, &c.s);
    let mut l = vec![s(NAMES[c.im])];
    let (q, r, x) = match &c.to {
        Want::Inf | Want::Equal => {
            let r = range(cv, &c.r);
            let f = cv.mul_base(&e.mulmod(&r.modinv(n).unwrap(), n));
            l.push(s(if matches!(c.to, Want::Inf) { "sum at infinity" } else { "sum of equal points" }));
            let q = if matches!(c.to, Want::Inf) { cv.neg(&f) } else { f };
            if matches!(c.to, Want::Inf) { (q, r, Bn::zero()) } else { let p = cv.mul_base(&e.addmod(&e, n).mulmod(&t.modinv(n).unwrap(), n)); let x = xy(&p).0; (q, r, x) }
        }
        w => {
            let p = match w { Want::Point(p) => p.get(cv), Want::AboveOrder(k) => { l.push(s("coordinate above the order")); Some(cv.point_from_x(&n.add(&Bn::from_u64(*k)), k % 2 == 0)) } _ => unreachable!() };
            let x = xy(&p).0;
            let r = x.rem(n);
            let Some(ri) = r.modinv(n) else { return okls(false, l) };
            // Q = (s R - e G) / r
            (cv.mul(&cv.add(&cv.mul(&p, &t), &cv.neg(&cv.mul_base(&e))), &ri), r, x)
        }
    };
    if q.is_none() { return okls(false, l); }
    let (r, t) = match c.offer { Offer::Exact => (r, t), Offer::XItself => { l.push(s("coordinate not reduced")); (x, t) } Offer::Plus => (r.addmod(&Bn::one(), n), t), Offer::Minus => (r, n.sub(&t)) };
    let want = cv.ecdsa_verify(&q, &hm, &r, &t);
    let (qx, qy) = bigs(&q);
    let mut o: E = must!(ECDSA::new_unchcek(BoxD(c.hash.make(false)), Rnd::seeded(1), BoxC(make(c.im)), KeyPair::from(PublicKey::new_uncheck(&qx, &qy))), "ECDSA::new_unchcek");
    verified(&mut o, &SignatureContent::form_bigint(&big(&r), &big(&t)), &m, want, &mut l, &format!("key ({}, {})", show(&qx), show(&qy)))?;
    okls(true, l)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gen { im: usize, targets: Vec<Num>, raw: Vec<u32>, seed: u64, msg: Blob, auto: bool }
fn generate(c: &Gen) -> Res {
    let cv = curve_of(c.im);
    let n = &cv.n;
    let len = (n.bits() + 7) / 8;
    let mut l = vec![s(NAMES[c.im])];
    // words that make the source offer the wanted numbers one after the other
    let mut script = c.raw.clone();
    for t in &c.targets {
        let v = t.get(n).rem(&Bn::pow2(8 * len));
        let b = if c.auto {
            // the signer reduces a number of eight bytes more than the field
            let w = cv.p.bits() / 8 + 8;
            let mut b = v.to_be_len(w);
            b.resize((w + 3) / 4 * 4, 0);
            b
        } else {
            let mut b = v.to_be_len(len);
            b[1] ^= 0x42;
            b.resize((len + 3) / 4 * 4, 0);
            b
        };
        script.extend(b.chunks(4).map(|w| u32::from_be_bytes([w[0], w[1], w[2], w[3]])));
        if v.is_zero() { l.push(s("zero offered")); }
        if v >= *n { l.push(s("number above the order offered")); }
        if v < *n && v.add(&Bn::from_u64(3)) >= *n { l.push(s("number just below the order offered")); }
    }
    let m = c.msg.bytes();
    let hm = Hash::Sha256.reference(&m);
    let rng = Rnd::new(script, c.seed);
    let curve = make(c.im);
    let (q, mut o): (Pt, E) = if c.auto {
        let o: E = must!(ECDSA::auto_generate_key(BoxD(Hash::Sha256.make(false)), rng, BoxC(curve)), "auto_generate_key");
        let v = printed(&format!("{}", o.public_key()));
        ensure!(v.len() == 2 && cv.on_curve(&v[0], &v[1]), "the public key {} is not on the curve", o.public_key());
        l.push(s("by the signer"));
        (Some((v[0].clone(), v[1].clone())), o)
    } else {
        let k = must!(curve.curve_params().generate_key(&mut rng.clone()), "generate_key");
        let v = printed(&format!("{}", k));
        ensure!(v.len() == 3, "printed key {}", k);
        ensure!(!v[0].is_zero() && v[0] < *n, "private key {} out of range", v[0].to_hex());
        let q = cv.mul_base(&v[0]);
        ensure!((v[1].clone(), v[2].clone()) == xy(&q), "private key {} with public key {} {}", v[0].to_hex(), v[1].to_hex(), v[2].to_hex());
        ensure!(printed(&format!("{}", k.public_key())) == v[1..], "public key of the private key {}", k.public_key());
        l.push(s("by the curve"));
        (q, must!(ECDSA::new_unchcek(BoxD(Hash::Sha256.make(false)), rng, BoxC(curve), KeyPair::from(k)), "ECDSA::new_unchcek"))
    };
    let mut sc = SignatureContent::new();
    must!(o.sign(&mut sc, &m), "signing");
    signed(cv, &q, &hm, &sc)?;
    okls(true, l)
}

/// a group provided by the caller: the coordinate of every multiple of the base point is chosen
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Coordinate { Zero, Order, ZeroS, Beyond(u64), Any(Num) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Given { curve: usize, hash: Hash, d: Num, msgs: Vec<(Blob, Vec<Coordinate>)>, seed: u64 }
struct Group { params: CurveParams, n: Bn, p: Bn, d: Bn, todo: RefCell<(Bn, Vec<Coordinate>)>, log: RefCell<Vec<(Bn, Bn)>> }
impl Group {
    fn point(&self, k: &Nat) -> (BigInt, BigInt) {
        burn();
        let k = Bn::from_be(&k.to_be_bytes()).rem(&self.n);
        let known = self.log.borrow().iter().find(|(j, _)| *j == k).map(|(_, x)| x.clone());
        if let Some(x) = known { return (big(&x), BigInt::from(1u32)); }
        let (e, next) = { let mut t = self.todo.borrow_mut(); let c = t.1.pop(); (t.0.clone(), c) };
        let x = match next {
            Some(Coordinate::Zero) => Bn::zero(),
            Some(Coordinate::Order) => self.n.clone(),
            Some(Coordinate::ZeroS) => self.n.sub(&e.rem(&self.n)).mulmod(&self.d.modinv(&self.n).unwrap(), &self.n),
            Some(Coordinate::Beyond(j)) => self.n.add(&Bn::from_u64(j)),
            Some(Coordinate::Any(x)) => x.get(&self.p).rem(&self.p),
            None => k.mulmod(&k, &self.p).add(&Bn::one()).rem(&self.p),
        };
        self.log.borrow_mut().push((k, x.clone()));
        (big(&x), BigInt::from(1u32))
    }
}
impl EllipticCurve for &Group {
    fn curve_params(&self) -> &CurveParams { &self.params }
    fn is_on_curve(&self, _: &BigInt, _: &BigInt) -> bool { true }
    fn add(&self, x1: &BigInt, y1: &BigInt, _: &BigInt, _: &BigInt) -> (BigInt, BigInt) { (x1.clone(), y1.clone()) }
    fn double(&self, x: &BigInt, y: &BigInt) -> (BigInt, BigInt) { (x.clone(), y.clone()) }
    fn scalar(&self, _: &BigInt, _: &BigInt, k: &Nat) -> (BigInt, BigInt) { self.point(k) }
    fn scalar_base_point(&self, k: &Nat) -> (BigInt, BigInt) { self.point(k) }
}
fn given(c: &Given) -> Res {
    fuel(20_000);
    let cv = Curve::get(c.curve);
    let n = &cv.n;
    let d = range(cv, &c.d);
    let g = Group { params: params(c.curve), n: n.clone(), p: cv.p.clone(), d: d.clone(), todo: RefCell::new((Bn::zero(), vec![])), log: RefCell::new(vec![]) };
    let (qx, qy) = bigs(&cv.g());
    let key = PrivateKey::new_uncheck(PublicKey::new_uncheck(&qx, &qy), &big(&d));
    let mut o = must!(ECDSA::new_unchcek(BoxD(c.hash.make(false)), Rnd::seeded(c.seed), &g, KeyPair::from(key)), "ECDSA::new_unchcek");
    let bits = c.hash.bits();
    let mut l = vec![s(NAMES[c.curve]), s(if bits > n.bits() && (bits + 7) / 8 == (n.bits() + 7) / 8 { "hash ends in the last byte of the order" } else if bits > n.bits() { "hash longer than the order" } else { "hash not longer than the order" })];
    if n.bits() % 8 != 0 && bits > n.bits() { l.push(s("hash cut inside a byte")); }
    for (i, (m, script)) in c.msgs.iter().enumerate() {
        let m = m.bytes();
        let e = Curve::hash_to_int(cv, &c.hash.reference(&m));
        *g.todo.borrow_mut() = (e.clone(), script.iter().rev().cloned().collect());
        g.log.borrow_mut().clear();
        for t in script { l.push(s(match t { Coordinate::Zero => "coordinate zero", Coordinate::Order => "coordinate equal to the order", Coordinate::ZeroS => "second component would be zero", Coordinate::Beyond(_) => "coordinate above the order", Coordinate::Any(_) => "any coordinate" })); }
        let mut sc = SignatureContent::new();
        must!(o.sign(&mut sc, &m), "message {}: signing", i);
        let (r, t) = content(&sc)?;
        ensure!(!r.is_zero() && !t.is_zero() && r < *n && t < *n, "message {}: components {} {} out of range", i, r.to_hex(), t.to_hex());
        let want = e.rem(n).addmod(&d.mulmod(&r, n), n);
        ensure!(g.log.borrow().iter().any(|(k, x)| x.rem(n) == r && t.mulmod(k, n) == want), "message {}: {} {} is no signature for any of the points {:x?}", i, r.to_hex(), t.to_hex(), g.log.borrow().iter().map(|(k, x)| (k.to_hex(), x.to_hex())).collect::<Vec<_>>());
    }
    fuel(u64::MAX);
    l.sort();
    l.dedup();
    okls(true, l)
}

fn hashes() -> BoxedStrategy<Hash> { prop_oneof![3 => md_hash(), 1 => sha3_hash(), 2 => (prop_oneof![Just(128usize), Just(256)], prop_oneof![2 => 1usize..70, 1 => 200usize..600, 1 => 500usize..1100], any::<bool>()).prop_map(|(sec, out, raw)| Hash::Shake { sec, out, raw })].boxed() }
fn msg() -> BoxedStrategy<Blob> { blob(prop_oneof![60 => 0..80usize, 20 => lens(64, 300), 1 => 300..9_000usize]) }
fn case(im: BoxedStrategy<usize>, verify: bool, max: usize) -> BoxedStrategy<Case> {
    let sg = prop_oneof![
        5 => num().prop_map(Sg::Good), 1 => (1i8..4).prop_map(Sg::AddR), 1 => (-3i8..0).prop_map(Sg::AddS), 1 => Just(Sg::RPlusN), 1 => Just(Sg::SPlusN), 1 => Just(Sg::SNeg), 1 => Just(Sg::RNeg), 1 => Just(Sg::Swap),
        3 => (wide_num(), wide_num()).prop_map(|(a, b)| Sg::Any(a, b)), 1 => Just(Sg::OtherKey), 2 => Just(Sg::Untruncated), 1 => (num(), num()).prop_map(|(a, b)| Sg::Forged(a, b)), 1 => num().prop_map(Sg::ZeroS), 1 => (2u8..9).prop_map(Sg::Scaled),
    ];
    let op = if verify { prop_oneof![1 => (msg(), Just(true)).prop_map(|(a, b)| Op::Sign(a, b)), 7 => (msg(), prop::option::weighted(0.1, msg()), sg, any::<bool>()).prop_map(|(a, b, c, d)| Op::Verify(a, b, c, d))].boxed() } else { (msg(), Just(false)).prop_map(|(a, b)| Op::Sign(a, b)).boxed() };
    ((im, hashes(), any::<bool>(), num(), prop::collection::vec(op, 1..max)),
     (any::<u64>(), prop_oneof![2 => Just(vec![]), 1 => (1usize..24).prop_map(|n| vec![0; n]), 1 => prop::collection::vec(prop_oneof![2 => Just(0u32), 1 => Just(u32::MAX), 1 => any::<u32>()], 0..24)], prop::bool::weighted(0.05), blob(0..20usize), prop::bool::weighted(0.3)))
        .prop_map(|((im, hash, family, d, ops), (rng, script, public, dirty, alias))| Case { im, hash, family, d, ops, rng, script, public, dirty, alias }).boxed()
}
fn main() {
    let mut r = Run::new("C15");
    r.assume("reference ECDSA follows FIPS 186-4 (checked against OpenSSL in tools/validate_refs.py); the content of a signature carries magnitudes only; public keys other than points of the curve and private keys outside 1..n-1 are outside the statement");
    fn ims() -> BoxedStrategy<usize> { prop_oneof![6 => Just(4usize), 6 => Just(5usize), 1 => Just(0usize), 1 => Just(1usize), 2 => Just(2usize), 1 => Just(3usize)].boxed() }
    r.sub("sign", 3_000, 100_000, "signatures over every implementation and hash, checked by the reference; non-trivial: all", || case(ims(), false, 4), run).require(&["signed", "public key only", "hash longer than the order", "hash not longer than the order", "caller's numbers changed"], 50).require(&NAMES, 10);
    r.sub("verify", 2_200, 25_000, "histories of signing and of verifying valid, deformed and arbitrary components; non-trivial: all", || case(ims(), true, 3), run)
        .require(&["made by the reference", "first component altered", "second component altered", "first component plus n", "second component plus n", "second component negated", "swapped", "second component zero", "other key", "hash not truncated", "made without the private key", "accepted", "rejected", "other message"], 10);
    r.sub("chosen", 1_500, 10_000, "public keys chosen so that the verification arrives at a given point: with extreme coordinates, with a coordinate above the order, at infinity, through a doubling; non-trivial: the key is a point",
        || (ims(), hashes(), msg(), prop_oneof![4 => point().prop_map(Want::Point), 3 => (0u64..5000).prop_map(Want::AboveOrder), 1 => Just(Want::Inf), 1 => Just(Want::Equal)], num(), num(), prop_oneof![3 => Just(Offer::Exact), 2 => Just(Offer::XItself), 1 => Just(Offer::Plus), 1 => Just(Offer::Minus)])
            .prop_map(|(im, hash, msg, to, s, r, offer)| Chosen { im, hash, msg, to, s, r, offer }), chosen).require(&["coordinate above the order", "sum at infinity", "sum of equal points", "coordinate not reduced", "accepted", "rejected"], 10);
    r.sub("given", 40_000, 200_000, "signing over a group provided by the caller whose points have chosen coordinates, so that first or second components of zero come up, and hashes of all lengths around the order; non-trivial: all",
        || (0usize..4, prop_oneof![1 => hashes(), 2 => (prop_oneof![Just(128usize), Just(256)], prop_oneof![1 => 200usize..280, 1 => 370usize..400, 3 => 510usize..540, 1 => 1usize..1200]).prop_map(|(sec, out)| Hash::Shake { sec, out, raw: false })], num(),
            prop::collection::vec((msg(), prop::collection::vec(prop_oneof![1 => Just(Coordinate::Zero), 1 => Just(Coordinate::Order), 2 => Just(Coordinate::ZeroS), 1 => (0u64..5000).prop_map(Coordinate::Beyond), 1 => wide_num().prop_map(Coordinate::Any)], 0..4)), 1..4), any::<u64>())
            .prop_map(|(curve, hash, d, msgs, seed)| Given { curve, hash, d, msgs, seed }), given)
        .require(&["coordinate zero", "coordinate equal to the order", "second component would be zero", "coordinate above the order", "hash cut inside a byte", "hash ends in the last byte of the order"], 100);
    r.sub("generate", 1_000, 50_000, "keys generated by the curve and by the signer from sources offering zero, the order and its neighbours; a signature made with each; non-trivial: all",
        || (0usize..IMPLS, prop::collection::vec(prop_oneof![2 => wide_num(), 1 => Just(Num::Small(0)), 1 => (0u64..3).prop_map(Num::Above), 1 => (1u64..4).prop_map(Num::Below)], 0..4), prop_oneof![2 => Just(vec![]), 1 => (1usize..24).prop_map(|n| vec![0u32; n])], any::<u64>(), blob(0..40usize), prop::bool::weighted(0.3))
            .prop_map(|(im, targets, raw, seed, msg, auto)| Gen { im, targets, raw, seed, msg, auto }), generate).require(&["zero offered", "number above the order offered", "number just below the order offered", "by the signer", "by the curve"], 50);
    r.finish();
}
