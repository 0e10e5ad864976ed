//! C13: DSA keys, signing and verification against an independent FIPS 186-4 implementation.
use checks::pk::*;
use checks::*;
use rcrypto::dsa::{DomainParameters, KeyPair, PrivateKey, PublicKey, SignatureContent, DSA};
use rcrypto::{sha, Digest, Signature};
use refimpl::dsa::{hash_to_int, Params};
use rmath::bigint::BigInt;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

static PARAMS: Mutex<BTreeMap<(usize, usize, u64), Arc<Params>>> = Mutex::new(BTreeMap::new());
/// made once for all threads
fn params(p: usize, q: usize, seed: u64) -> Arc<Params> {
    PARAMS.lock().unwrap().entry((p, q, seed)).or_insert_with(|| Arc::new(Params::generate(p, q, &mut Sm64(seed ^ (p * 1000 + q) as u64)))).clone()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sg {
    Good(Num),
    AddR(i8),
    AddS(i8),
    RPlusQ,
    SPlusQ,
    SNeg,
    RNeg,
    Swap,
    /// the power of the generator not reduced modulo q
    RFull(Num),
    Any(Num, Num),
    OtherKey,
    /// made for a hash cut at another place
    Untruncated,
    /// components that make both sides of the equation agree for a message of our choice being unknown
    Forged(Num, Num),
    /// nonce for which the second component vanishes
    ZeroS(Num),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Sign(Blob), Verify(Blob, Option<Blob>, Sg, bool) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { hash: Hash, family: bool, pbits: usize, qbits: usize, seed: u64, x: Num, ops: Vec<Op>, rng: u64, script: Vec<u32>, public: bool, dirty: Blob, alias: bool }

fn add(x: &Bn, d: i8) -> Bn { let u = Bn::from_u64(d.unsigned_abs() as u64); if d < 0 { if *x >= u { x.sub(&u) } else { Bn::zero() } } else { x.add(&u) } }

fn run(c: &Case) -> Res {
    let one = Bn::one();
    let dp = params(c.pbits, c.qbits, c.seed);
    let (p, q, g) = (&dp.p, &dp.q, &dp.g);
    let range = |x: &Num| { let q1 = q.sub(&one); x.get(&q1).rem(&q1).add(&one) };
    let x = range(&c.x);
    let y = g.modpow(&x, p);
    let (mut bp, mut bq, mut bg, mut by, mut bx) = (big(p), big(q), big(g), big(&y), big(&x));
    let d = must!(DomainParameters::new_uncheck(&bp, &bq, &bg), "DomainParameters::new_uncheck");
    let pk = must!(PublicKey::new_uncheck(&d, &by), "PublicKey::new_uncheck");
    let sk = must!(PrivateKey::new_uncheck(&pk, &bx), "PrivateKey::new_uncheck");
    let kp = if c.public { KeyPair::from(pk.clone()) } else { KeyPair::from(sk.clone()) };
    let mut h = BoxD(c.hash.make(c.family));
    h.write(&c.dirty.bytes());
    let mut o = must!(DSA::new_uncheck(h, Rnd::new(c.script.clone(), c.rng), kp), "DSA::new_uncheck");
    let mut l = vec![s(if c.hash.bits() > c.qbits { "hash longer than q" } else { "hash not longer than q" })];
    if c.alias {
        // the numbers the key was made from are the caller's again
        for b in [&mut bp, &mut bq, &mut bg, &mut by, &mut bx] { *b += BigInt::from(2u32); }
        l.push(s("caller's numbers changed"));
    }
    let whole = q.bits() % 8 == 0;
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Sign(m) => {
                let m = m.bytes();
                let hm = c.hash.reference(&m);
                let mut sc = if i % 2 == 0 { SignatureContent::new() } else { SignatureContent::form_bigint(&big(&x), &big(&y)) };
                let r = o.sign(&mut sc, &m);
                if c.public { ensure!(r.is_err(), "op {}: signed with a public key", i); l.push(s("public key only")); continue; }
                if !whole && r.is_err() { l.push(s("q not of whole bytes refused")); continue; }
                must!(r, "op {}: signing", i);
                let (r, sv) = sc.to_bigint();
                let (r, sv) = match (bn(&r), bn(&sv)) { (Some(a), Some(b)) => (a, b), _ => fail!("op {}: components {} {}", i, show(&r), show(&sv)) };
                ensure!(!r.is_zero() && !sv.is_zero() && r < *q && sv < *q, "op {}: components {} {} out of range", i, r.to_hex(), sv.to_hex());
                ensure!(dp.verify(&y, &hm, &r, &sv), "op {}: the signature {} {} does not verify in the reference", i, r.to_hex(), sv.to_hex());
                must!(o.verify(&sc, &m), "op {}: own signature", i);
                if hash_to_int(q, &hm).rem(q).is_zero() { l.push(s("signed a hash of zero")); }
                l.push(s("signed"));
            }
            Op::Verify(m, other, sg, set) => {
                let m = m.bytes();
                let hm = c.hash.reference(&m);
                let offered = other.as_ref().map_or(m.clone(), |x| x.bytes());
                let good = |k: &Num, hm: &[u8], x: &Bn| {
                    let mut k = range(k);
                    loop { if let Some(v) = dp.sign(x, &k, hm) { return v; } k = k.rem(&q.sub(&one)).add(&one); }
                };
                let k0 = Num::Small(c.rng);
                let (r, sv) = match sg {
                    Sg::Good(k) => { l.push(s("made by the reference")); good(k, &hm, &x) }
                    Sg::AddR(d) => { let (r, t) = good(&k0, &hm, &x); l.push(s("first component altered")); (add(&r, *d), t) }
                    Sg::AddS(d) => { let (r, t) = good(&k0, &hm, &x); l.push(s("second component altered")); (r, add(&t, *d)) }
                    Sg::RPlusQ => { let (r, t) = good(&k0, &hm, &x); l.push(s("first component plus q")); (r.add(q), t) }
                    Sg::SPlusQ => { let (r, t) = good(&k0, &hm, &x); l.push(s("second component plus q")); (r, t.add(q)) }
                    Sg::SNeg => { let (r, t) = good(&k0, &hm, &x); l.push(s("second component negated")); (r, q.sub(&t)) }
                    Sg::RNeg => { let (r, t) = good(&k0, &hm, &x); (q.sub(&r), t) }
                    Sg::Swap => { let (r, t) = good(&k0, &hm, &x); l.push(s("swapped")); (t, r) }
                    Sg::RFull(k) => { let k = range(k); let (_, t) = good(&Num::Small(1), &hm, &x); l.push(s("first component not reduced")); (g.modpow(&k, p), t) }
                    Sg::Any(a, b) => { let (a, b) = (a.get(q), b.get(q)); if a.is_zero() { l.push(s("first component zero")); } if b.is_zero() { l.push(s("second component zero")); } (a, b) }
                    Sg::OtherKey => { l.push(s("other key")); good(&k0, &hm, &x.rem(&q.sub(&one)).add(&one)) }
                    Sg::Untruncated => {
                        // what a signer without truncation would make
                        let z = Bn::from_be(&hm).rem(q);
                        if hm.len() * 8 > q.bits() { l.push(s("hash not truncated")); }
                        good(&k0, &z.to_be_len((q.bits() + 7) / 8), &x)
                    }
                    Sg::Forged(a, b) => {
                        let (a, b) = (range(a), range(b));
                        let r = g.modpow(&a, p).mulmod(&y.modpow(&b, p), p).rem(q);
                        let t = r.mulmod(&b.modinv(q).unwrap(), q);
                        l.push(s("made without the private key"));
                        (r, t)
                    }
                    Sg::ZeroS(k) => { let r = g.modpow(&range(k), p).rem(q); l.push(s("second component zero")); (r, Bn::zero()) }
                };
                let want = dp.verify(&y, &c.hash.reference(&offered), &r, &sv);
                let sc = if *set { let mut v = SignatureContent::form_bigint(&big(&sv), &big(&y)); v.set(big(&r), big(&sv)); v } else { SignatureContent::form_bigint(&big(&r), &big(&sv)) };
                let (r2, s2) = sc.to_bigint();
                ensure!(bn(&r2) == Some(r.clone()) && bn(&s2) == Some(sv.clone()), "op {}: content of {} {} is {} {}", i, r.to_hex(), sv.to_hex(), show(&r2), show(&s2));
                match (o.verify(&sc, &offered), want) {
                    (Ok(()), true) => l.push(s("accepted")),
                    (Err(_), false) => l.push(s("rejected")),
                    (Err(_), true) if !whole => l.push(s("q not of whole bytes refused")),
                    (Err(e), true) => fail!("op {}: valid signature {} {} refused: {:?}", i, r.to_hex(), sv.to_hex(), e),
                    (Ok(()), false) => fail!("op {}: invalid signature {} {} accepted (q {})", i, r.to_hex(), sv.to_hex(), q.to_hex()),
                }
                if offered != m { l.push(s("other message")); }
            }
        }
    }
    // the printed key still has the numbers it was made from
    let v = printed(&format!("{}", sk));
    ensure!(v == [x.clone(), y.clone(), p.clone(), q.clone(), g.clone()], "key changed: {}", sk);
    if let Some(k) = o.key_pair().private_key() { ensure!(printed(&format!("{}", k)) == v, "key of the object changed: {}", k); }
    l.sort();
    l.dedup();
    okls(true, l)
}

fn case(sizes: BoxedStrategy<(usize, usize)>, hash: BoxedStrategy<Hash>, seeds: u64, n: usize) -> BoxedStrategy<Case> {
    let sg = prop_oneof![
        5 => num().prop_map(Sg::Good), 1 => (1i8..4).prop_map(Sg::AddR), 1 => (-3i8..0).prop_map(Sg::AddR), 1 => (1i8..4).prop_map(Sg::AddS), 1 => (-3i8..0).prop_map(Sg::AddS),
        1 => Just(Sg::RPlusQ), 1 => Just(Sg::SPlusQ), 1 => Just(Sg::SNeg), 1 => Just(Sg::RNeg), 1 => Just(Sg::Swap), 1 => num().prop_map(Sg::RFull), 4 => (wide_num(), wide_num()).prop_map(|(a, b)| Sg::Any(a, b)),
        1 => Just(Sg::OtherKey), 2 => Just(Sg::Untruncated), 1 => (num(), num()).prop_map(|(a, b)| Sg::Forged(a, b)), 1 => num().prop_map(Sg::ZeroS),
    ];
    let msg = || blob(prop_oneof![60 => 0..80usize, 20 => lens(64, 300), 1 => 300..9_000usize]);
    let op = prop_oneof![2 => msg().prop_map(Op::Sign), 7 => (msg(), prop::option::weighted(0.1, msg()), sg, any::<bool>()).prop_map(|(a, b, c, d)| Op::Verify(a, b, c, d))];
    ((hash, any::<bool>(), sizes, 0..seeds, num(), prop::collection::vec(op, 1..n)),
     (any::<u64>(), prop_oneof![2 => Just(vec![]), 1 => (1usize..24).prop_map(|n| vec![0; n]), 1 => prop::collection::vec(prop_oneof![2 => Just(0u32), 1 => Just(u32::MAX), 1 => any::<u32>()], 0..24)], prop::bool::weighted(0.05), blob(0..20usize), prop::bool::weighted(0.3)))
        .prop_map(|((hash, family, (pbits, qbits), seed, x, ops), (rng, script, public, dirty, alias))| Case { hash, family, pbits, qbits, seed, x, ops, rng, script, public, dirty, alias }).boxed()
}
fn any_hash() -> BoxedStrategy<Hash> { prop_oneof![2 => md_hash(), 1 => sha3_hash(), 3 => (prop_oneof![Just(128usize), Just(256)], prop_oneof![3 => 1usize..40, 1 => 40usize..600], any::<bool>()).prop_map(|(sec, out, raw)| Hash::Shake { sec, out, raw })].boxed() }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gen { kind: u8, seed: u64, msg: Blob }
type D1 = DSA<sha::SHA1, Rnd>;
fn keys(kind: u8, rd: &mut Rnd) -> Result<PrivateKey, String> {
    Ok(must!(match kind { 0 => D1::l1024_n160_key(rd), 1 => D1::l2048_n224_key(rd), 2 => D1::l2048_n256_key(rd), _ => D1::l3072_n256_key(rd) }, "generating key {}", kind))
}
fn valid(kind: u8, key: &PrivateKey) -> Result<(Params, Bn, Bn), String> {
    let one = Bn::one();
    let (lb, nb) = [(1024, 160), (2048, 224), (2048, 256), (3072, 256)][kind as usize];
    let v = printed(&format!("{}", key));
    ensure!(v.len() == 5, "printed key {}", key);
    let (x, y, p, q, g) = (&v[0], &v[1], &v[2], &v[3], &v[4]);
    ensure!(p.bits() == lb && q.bits() == nb, "sizes {} {} instead of {} {}", p.bits(), q.bits(), lb, nb);
    ensure!(p.is_prime() && q.is_prime(), "not prime: p {} q {}", p.to_hex(), q.to_hex());
    ensure!(p.sub(&one).rem(q).is_zero(), "q does not divide p - 1");
    ensure!(*g > one && g < p && g.modpow(q, p).is_one(), "the generator {} is not of order q", g.to_hex());
    ensure!(!x.is_zero() && x < q, "private key {} out of range", x.to_hex());
    ensure!(*y == g.modpow(x, p), "the public key does not match");
    Ok((Params { p: p.clone(), q: q.clone(), g: g.clone() }, x.clone(), y.clone()))
}
fn generated(c: &Gen) -> Res {
    let rng = Rnd::seeded(c.seed);
    rng.record();
    let key = keys(c.kind, &mut rng.clone())?;
    let (dp, x, y) = valid(c.kind, &key)?;
    let log = rng.taken();
    let m = c.msg.bytes();
    let mut o = must!(DSA::new_uncheck(sha::SHA512::new(), Rnd::seeded(c.seed + 1), KeyPair::from(key)), "DSA::new_uncheck");
    let mut sc = SignatureContent::new();
    must!(o.sign(&mut sc, &m), "signing");
    must!(o.verify(&sc, &m), "verifying");
    let (r, sv) = sc.to_bigint();
    let (r, sv) = (bn(&r).unwrap(), bn(&sv).unwrap());
    ensure!(dp.verify(&y, &Hash::Sha512.reference(&m), &r, &sv), "the signature does not verify in the reference");
    let mut l = vec![format!("key {}", c.kind)];
    if c.kind == 0 {
        // the words of the private key come last; with zeros in their place another one must be drawn
        let n = 5;
        if words(&x, n) == log[log.len() - n..] {
            for pat in [0u32, u32::MAX] {
                let mut script = log.clone();
                let at = script.len() - n;
                for w in script[at..].iter_mut() { *w = pat; }
                let key = keys(0, &mut Rnd::new(script, c.seed ^ 99))?;
                valid(0, &key)?;
            }
            l.push(s("key drawn as zero"));
        }
    }
    // the same numbers through the signer that makes its own key
    if c.seed % 4 == 0 {
        let rd = Rnd::seeded(c.seed);
        let h = sha::SHA256::new();
        let mut o = must!(match c.kind { 0 => DSA::new_with_l1024_n160(h, rd), 1 => DSA::new_with_l2048_n224(h, rd), 2 => DSA::new_with_l2048_n256(h, rd), _ => DSA::new_with_l3072_n256(h, rd) }, "signer with a key {} of its own", c.kind);
        let (dp, _, y) = valid(c.kind, o.key_pair().private_key().unwrap())?;
        let mut sc = SignatureContent::new();
        must!(o.sign(&mut sc, &m), "signing with a key of its own");
        must!(o.verify(&sc, &m), "verifying with a key of its own");
        let (r, sv) = sc.to_bigint();
        ensure!(dp.verify(&y, &Hash::Sha256.reference(&m), &bn(&r).unwrap(), &bn(&sv).unwrap()), "the signature of the signer does not verify in the reference");
        l.push(s("signer's own key"));
    }
    okls(true, l)
}

fn main() {
    let mut r = Run::new("C13");
    r.assume("reference DSA follows FIPS 186-4 (checked in tools/validate_refs.py); the content of a signature carries magnitudes only, so negative components do not exist");
    let labels = ["made by the reference", "first component altered", "second component altered", "first component plus q", "second component plus q", "second component negated", "swapped", "first component not reduced", "first component zero", "second component zero", "other key", "hash not truncated", "made without the private key", "accepted", "rejected", "signed", "public key only", "caller's numbers changed", "other message", "hash longer than q", "hash not longer than q"];
    r.sub("tiny", 150_000, 2_000_000, "q of 8 to 32 bits, p of up to 80 bits, any hash, histories of signing and verifying valid, deformed and arbitrary components; non-trivial: all",
        || case((prop_oneof![3 => Just(8usize), 2 => Just(16usize), 1 => Just(24usize), 1 => Just(32usize)], 8usize..40).prop_map(|(q, d)| (q + d, q)).boxed(), any_hash(), 3, 8), run).require(&labels, 100);
    r.sub("odd_q", 10_000, 100_000, "q with a bit length that is no multiple of eight: refused, or treated as the standard says; non-trivial: all",
        || case((9usize..64, 8usize..40).prop_filter_map("whole", |(q, d)| if q % 8 == 0 { None } else { Some((q + d, q)) }).boxed(), any_hash(), 1, 5), run);
    r.sub("medium", 20_000, 300_000, "q of 40 to 256 bits, p of up to 512 bits; non-trivial: all",
        || case((5usize..33, 0usize..4).prop_map(|(q, d)| (8 * q + 32 + 64 * d, 8 * q)).boxed(), any_hash(), 1, 6), run).require(&["hash not truncated", "accepted", "rejected", "signed", "hash longer than q", "hash not longer than q"], 100);
    r.sub("standard", 400, 6_000, "1024/160, 2048/224 and 2048/256 parameters; non-trivial: all",
        || case(prop_oneof![4 => Just((1024usize, 160usize)), 1 => Just((2048, 224)), 1 => Just((2048, 256))].boxed(), any_hash(), 1, 4), run);
    r.sub("generate", 100, 1_500, "generated 1024/160 keys, also with the private key drawn as zero; non-trivial: all",
        || (any::<u64>(), blob(0..100usize)).prop_map(|(seed, msg)| Gen { kind: 0, seed, msg }), generated);
    r.sub("generate_large", 16, 200, "generated 2048/224 and 2048/256 keys; non-trivial: all",
        || (1u8..3, any::<u64>(), blob(0..100usize)).prop_map(|(kind, seed, msg)| Gen { kind, seed, msg }), generated);
    r.sub("generate_3072", 2, 24, "generated 3072/256 keys; non-trivial: all",
        || (any::<u64>(), blob(0..100usize)).prop_map(|(seed, msg)| Gen { kind: 3, seed, msg }), generated);
    r.finish();
}
