//! C10: RSA key generation, the raw operation and public key import.
use checks::pk::*;
use checks::*;
use rcrypto::rsa::{PrivateKey, PublicKey};
use rmath::bigint::{BigInt, Nat};

/// how the primes offered to the generator are chosen
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Pick { Any(u64), Same(u8), E(u64), Low(u64), High(u64) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gen { bits: usize, primes: usize, rounds: usize, picks: Vec<Pick>, seed: u64, two: bool }

/// as many primes as there are picks, of the sizes the generator asks for in turn
fn offered(c: &Gen) -> Vec<(Bn, usize)> {
    let mut out: Vec<(Bn, usize)> = vec![];
    let e = Bn::from_u64(65537);
    for (j, p) in c.picks.iter().enumerate() {
        let i = j % c.primes;
        let total = c.bits + if c.primes >= 7 { (c.primes - 2) / 5 } else { 0 };
        let used: usize = out[j - i..].iter().map(|x| x.1).sum();
        let bits = (total - used) / (c.primes - i);
        let top = Bn::pow2(bits - 1).add(&Bn::pow2(bits - 2));
        let low = top.clone();
        let mut rng;
        let start = match p {
            Pick::Any(x) => { rng = Sm64(*x); low.add(&Bn::random_below(&Bn::pow2(bits - 2), &mut rng)) }
            Pick::E(x) => { rng = Sm64(*x); low.add(&Bn::random_below(&Bn::pow2(bits - 2), &mut rng)) }
            Pick::Low(x) => low.add(&Bn::from_u64(x % 64)),
            Pick::High(x) => Bn::pow2(bits).sub(&Bn::from_u64(1 + x % 64)),
            Pick::Same(k) => {
                if i > 0 {
                    let q = &out[j - i + *k as usize % i];
                    if q.1 == bits { out.push(q.clone()); continue; }
                }
                low.clone()
            }
        };
        let one = Bn::one();
        let down = matches!(p, Pick::High(_));
        let step = if matches!(p, Pick::E(_)) && bits > 20 { e.shl(1) } else { Bn::from_u64(2) };
        let mut x = if matches!(p, Pick::E(_)) && bits > 20 { start.sub(&start.rem(&step)).add(&one) } else if start.is_odd() { start } else { start.add(&one) };
        let lim = 4000;
        for _ in 0..lim {
            if x.is_prime() { break; }
            x = if down { x.sub(&step) } else { x.add(&step) };
            if x.bits() != bits || x < top { x = top.add(&one); }
        }
        out.push((x, bits));
    }
    out
}

fn script(c: &Gen) -> Vec<u32> {
    let mut w = vec![];
    for (p, bits) in offered(c) {
        let len = (bits + 31) / 32;
        w.extend(words(&p, len));
        // witnesses below the prime for the primality test
        for r in 0..=c.rounds {
            let mut rng = Sm64(r as u64 + 99);
            let mut b: Vec<u32> = (0..len).map(|_| rng.next() as u32).collect();
            if len == 1 { b[0] = 2 + r as u32 % 2; } else { b[len - 1] = 1; b[len - 2] &= 0x7fff_ffff; }
            w.extend(b);
        }
    }
    w
}

fn check_key(k: PrivateKey, bits: usize, primes: usize) -> Result<Key, String> {
    let r = k.is_valid();
    let k = Key::new(k)?;
    ensure!(k.n.bits() == bits, "modulus of {} bits instead of {}", k.n.bits(), bits);
    ensure!(k.primes.len() == primes, "{} prime factors instead of {}", k.primes.len(), primes);
    for w in k.primes.windows(2) { ensure!(w[0] != w[1], "the prime factor {} is repeated", w[0].to_hex()); }
    let one = Bn::one();
    let ed = k.e.mul(&k.d);
    for p in &k.primes {
        let t = p.sub(&one);
        ensure!(ed.rem(&t) == one.rem(&t), "e*d is not 1 modulo {}-1", p.to_hex());
    }
    ensure!(k.e >= Bn::from_u64(3), "public exponent {}", k.e.to_hex());
    if let Err(e) = r { fail!("is_valid refuses a valid key: {:?}", e); }
    ensure!(k.key.modulus_len() == (bits + 7) / 8 && k.key.public_key().modulus_len() == (bits + 7) / 8, "modulus length");
    Ok(k)
}

/// random words for one key; up to 8000 are needed at these sizes
const KEYGEN: u64 = 400_000;
fn keygen(c: &Gen) -> Res {
    fuel(KEYGEN);
    let mut rng = Rnd::new(script(c), c.seed);
    let r = if c.two && c.primes == 2 { PrivateKey::generate_key(c.bits, c.rounds, &mut rng) } else { PrivateKey::generate_multi_prime_key(c.primes, c.bits, c.rounds, &mut rng) };
    let k = must!(r, "key of {} bits with {} primes", c.bits, c.primes);
    let k = check_key(k, c.bits, c.primes)?;
    // a few residues through the key
    let mut g = Sm64(c.seed);
    for i in 0..4 {
        let m = match i { 0 => k.primes[0].clone(), 1 => k.n.sub(&Bn::one()), _ => Bn::random_below(&k.n, &mut g) };
        let ct = k.key.public_key().encrypt(&big(&m));
        ensure!(bn(&ct) == Some(k.enc(&m)), "encryption of {} with a fresh key", m.to_hex());
        let back = must!(k.key.decrypt::<Rnd>(&ct, None), "decryption");
        ensure!(bn(&back) == Some(m.clone()), "decryption with a fresh key: got {} want {}", show(&back), m.to_hex());
    }
    let off = offered(c);
    let mut l = vec![format!("{} primes", c.primes), s(if c.bits < 64 { "below 64 bits" } else { "64 bits and above" })];
    if off.windows(2).any(|w| w[0] == w[1]) { l.push(s("offered a prime twice in a row")); }
    if c.primes > 2 && off.len() >= 3 && off[0] == off[2] && off[0] != off[1] { l.push(s("offered a prime twice apart")); }
    if off.iter().any(|p| p.0.rem(&Bn::from_u64(65537)).is_one()) { l.push(s("offered p = 1 mod e")); }
    if !off.is_empty() && off.iter().take(c.primes).all(|p| k.primes.contains(&p.0)) { l.push(s("offered primes taken")); }
    okls(true, l)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadGen { primes: usize, bits: usize, seed: u64 }
fn keygen_small(c: &BadGen) -> Res {
    fuel(KEYGEN);
    let mut rng = Rnd::seeded(c.seed);
    match PrivateKey::generate_multi_prime_key(c.primes, c.bits, 4, &mut rng) {
        Ok(k) => { ensure!(c.primes >= 2, "a key with {} primes", c.primes); check_key(k, c.bits, c.primes)?; okl(true, "key") }
        Err(_) => okl(true, "refused"),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum M { N(Num), MultP(u8, u8), NearP(u8, u8), Root(u8, u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Blind { No, Seed(u64), R(Num), P(u8, u16) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Enc(M), Dec(M, Blind, bool), Out(u8, Num, bool, bool), Clone }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw { bits: usize, primes: usize, seed: u64, ops: Vec<Op> }

fn value(k: &Key, m: &M) -> Bn {
    let np = k.primes.len();
    match m {
        M::N(x) => x.get(&k.n).rem(&k.n),
        M::MultP(i, j) => k.primes[*i as usize % np].mul(&Bn::from_u64(*j as u64)).rem(&k.n),
        M::NearP(i, j) => { let p = &k.primes[*i as usize % np]; p.add(&Bn::from_u64(*j as u64 % 16)).sub(&Bn::from_u64(8.min(p.low_u64()))).rem(&k.n) }
        // 0, 1 or -1 modulo each of the primes
        M::Root(a, b) => {
            let (mut m, mut r) = (Bn::zero(), Bn::one());
            for (i, p) in k.primes.iter().enumerate() {
                let t = match (*a as u32 | (*b as u32) << 8) >> (2 * i) & 3 { 0 => Bn::zero(), 1 => Bn::one(), 2 => p.sub(&Bn::one()), _ => Bn::from_u64(2).rem(p) };
                let h = t.submod(&m.rem(p), p).mulmod(&r.rem(p).modinv(p).unwrap(), p);
                m = m.add(&r.mul(&h));
                r = r.mul(p);
            }
            m
        }
    }
}

fn raw(c: &Raw) -> Res {
    let k = key(c.bits, c.primes, c.seed)?;
    let mut own: Option<PrivateKey> = None;
    let mut l = vec![format!("{} primes", c.primes)];
    for (i, op) in c.ops.iter().enumerate() {
        let pk = own.as_ref().unwrap_or(&k.key);
        match op {
            Op::Enc(m) => {
                let m = value(&k, m);
                let x = big(&m);
                let ct = pk.public_key().encrypt(&x);
                ensure!(bn(&ct) == Some(k.enc(&m)), "op {}: encrypt({}) = {}", i, m.to_hex(), show(&ct));
                ensure!(bn(&x) == Some(m), "op {}: encrypt changed its argument", i);
            }
            Op::Dec(m, blind, check) => {
                let m = value(&k, m);
                let want = k.dec(&m);
                let x = big(&m);
                let nw = (k.n.bits() + 31) / 32;
                let mut rng = match blind {
                    Blind::No => None,
                    Blind::Seed(s) => Some(Rnd::seeded(*s)),
                    Blind::R(r) => Some(Rnd::new(words(&r.get(&k.n).rem(&k.n), nw), 3)),
                    Blind::P(a, b) => { l.push(s("blinding factor shares a prime")); Some(Rnd::new(words(&k.primes[*a as usize % c.primes].mul(&Bn::from_u64(*b as u64)).rem(&k.n), nw), 4)) }
                };
                if rng.is_some() { l.push(s("blinded")); }
                let r = if *check { pk.decrypt_and_check(&x, rng.as_mut()) } else { pk.decrypt(&x, rng.as_mut()) };
                let got = must!(r, "op {}: decrypt({})", i, m.to_hex());
                ensure!(bn(&got) == Some(want.clone()), "op {}: decrypt({}) = {} want {}", i, m.to_hex(), show(&got), want.to_hex());
                ensure!(bn(&x) == Some(m), "op {}: decrypt changed its argument", i);
            }
            Op::Out(kind, m, blind, check) => {
                let m = m.get(&k.n);
                let x: BigInt = match kind % 5 {
                    0 => big(&k.n),
                    1 => big(&k.n.add(&m)),
                    2 => neg(&m.add(&Bn::one())),
                    3 => nan(),
                    _ => big(&k.n.mul(&m.add(&Bn::one()))),
                };
                let mut rng = if *blind { Some(Rnd::seeded(5)) } else { None };
                let r = if *check { pk.decrypt_and_check(&x, rng.as_mut()) } else { pk.decrypt(&x, rng.as_mut()) };
                if let Ok(v) = r { fail!("op {}: decrypt({}) out of range gave {}", i, show(&x), show(&v)); }
                l.push(format!("out of range {}", kind % 5));
            }
            Op::Clone => { let d = pk.clone(); own = Some(d); l.push(s("cloned")); }
        }
    }
    l.sort();
    l.dedup();
    okls(!c.ops.is_empty(), l)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Import { nlen: Blob, n: Option<Num>, e: Option<Num>, nneg: bool, eneg: bool, how: u8, pad: u8, m: Num }
fn import(c: &Import) -> Res {
    let base = Bn::from_be(&c.nlen.bytes()).add(&Bn::from_u64(8));
    let n = match &c.n { Some(x) => Some(x.get(&base)), None => None };
    let e = c.e.as_ref().map(|x| x.get(n.as_ref().filter(|x| !x.is_zero()).unwrap_or(&base)));
    let bytes = |x: &Option<Bn>| match x { None => vec![], Some(b) => { let mut v = vec![0; c.pad as usize % 5]; v.extend(b.to_be()); if v.is_empty() { v.push(0) }; v } };
    let (mut nb, mut eb) = (bytes(&n), bytes(&e));
    let mut good = match (&n, &e) { (Some(n), Some(e)) => e < n && *e >= Bn::from_u64(3), _ => false };
    let how = c.how % 4;
    let r = match how {
        0 => PublicKey::from_be_bytes(&nb, &eb),
        1 => { nb.reverse(); eb.reverse(); PublicKey::from_le_bytes(&nb, &eb) }
        2 => {
            let (mut a, mut b) = (Nat::from_be_bytes(&nb), Nat::from_be_bytes(&eb));
            let r = PublicKey::from_nat(&a, &b);
            // what happens to the caller's numbers afterwards does not concern the key
            if n.is_some() { a += 2u32; }
            if e.is_some() { b += 2u32; }
            r
        }
        _ => {
            let sign = |v: &[u8], neg: bool| { let x = BigInt::from_be_bytes(v); if neg && !v.is_empty() { BigInt::from(0u32) - x } else { x } };
            let (mut a, mut b) = (sign(&nb, c.nneg), sign(&eb, c.eneg));
            good = good && !c.nneg && !c.eneg;
            let r = PublicKey::from_bigint(&a, &b);
            if n.is_some() { a += BigInt::from(2u32); }
            if e.is_some() { b += BigInt::from(2u32); }
            r
        }
    };
    let what = format!("n={} e={}", n.as_ref().map_or(s("none"), |x| x.to_hex()), e.as_ref().map_or(s("none"), |x| x.to_hex()));
    match r {
        Err(_) => { ensure!(!good, "import {} refused {}", how, what); okl(true, "refused") }
        Ok(k) => {
            ensure!(good, "import {} accepted {}", how, what);
            let (n, e) = (n.unwrap(), e.unwrap());
            ensure!(k.modulus_len() == (n.bits() + 7) / 8, "modulus_len {} for {}", k.modulus_len(), what);
            let m = c.m.get(&n).rem(&n);
            let r = k.encrypt(&big(&m));
            ensure!(bn(&r) == Some(m.modpow(&e, &n)), "encrypt({}) under {} gave {}", m.to_hex(), what, show(&r));
            let d = k.clone();
            ensure!(bn(&d.encrypt(&big(&m))) == bn(&r), "clone differs under {}", what);
            okl(true, if n.is_odd() { "accepted" } else { "accepted, even modulus" })
        }
    }
}

fn pick() -> BoxedStrategy<Pick> {
    prop_oneof![3 => any::<u64>().prop_map(Pick::Any), 3 => any::<u8>().prop_map(Pick::Same), 2 => any::<u64>().prop_map(Pick::E), 1 => any::<u64>().prop_map(Pick::Low), 1 => any::<u64>().prop_map(Pick::High)].boxed()
}
fn gen_case(bits: BoxedStrategy<usize>, maxp: usize) -> BoxedStrategy<Gen> {
    (bits, 2..=maxp, 1usize..6, any::<u64>(), any::<bool>()).prop_flat_map(|(bits, primes, rounds, seed, two)| {
        let primes = primes.min(bits / 12).max(2);
        prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec(pick(), primes..=3 * primes)].prop_map(move |picks| Gen { bits, primes, rounds, picks, seed, two })
    }).boxed()
}
fn m() -> BoxedStrategy<M> {
    prop_oneof![5 => num().prop_map(M::N), 2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| M::MultP(a, b)), 1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| M::NearP(a, b)), 2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| M::Root(a, b))].boxed()
}
fn op() -> BoxedStrategy<Op> {
    let blind = || prop_oneof![4 => Just(Blind::No), 3 => any::<u64>().prop_map(Blind::Seed), 1 => num().prop_map(Blind::R), 1 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Blind::P(a, b))];
    prop_oneof![3 => m().prop_map(Op::Enc), 7 => (m(), blind(), any::<bool>()).prop_map(|(a, b, c)| Op::Dec(a, b, c)), 1 => (any::<u8>(), num(), any::<bool>(), any::<bool>()).prop_map(|(a, b, c, d)| Op::Out(a, b, c, d)), 1 => Just(Op::Clone)].boxed()
}
fn raw_case(bits: BoxedStrategy<usize>, maxp: usize, seeds: u64, ops: usize) -> BoxedStrategy<Raw> {
    (bits, 2..=maxp, 0..seeds, prop::collection::vec(op(), 1..ops)).prop_map(|(bits, p, seed, ops)| Raw { bits, primes: p.min(bits / 12).max(2), seed, ops }).boxed()
}

fn main() {
    let mut r = Run::new("C10");
    r.assume("factor() recovers the primes from n, e and d (probabilistic, failure below 2^-100); primality by Miller-Rabin with fixed bases in the reference");
    r.sub("keygen_small", 60_000, 1_000_000, "two to five primes, 24 to 96 bits, random and steered primes (repeated, e dividing p-1, extreme); non-trivial: all",
        || gen_case((24usize..97).boxed(), 5), keygen).require(&["offered a prime twice in a row", "offered a prime twice apart", "offered p = 1 mod e"], 100);
    r.sub("keygen", 6_000, 40_000, "two to eight primes, 97 to 512 bits; non-trivial: all",
        || gen_case((97usize..513).boxed(), 8), keygen).require(&["offered a prime twice in a row", "offered a prime twice apart", "offered p = 1 mod e"], 20);
    r.sub("keygen_large", 16, 200, "two or three primes, 768 to 1100 bits; non-trivial: all",
        || gen_case((768usize..1101).boxed(), 3), keygen);
    r.sub("keygen_any", 40_000, 400_000, "any prime count 0..12 and any size 0..96 bits, whether possible or not; non-trivial: all",
        || (0usize..12, 0usize..97, any::<u64>()).prop_map(|(primes, bits, seed)| BadGen { primes, bits, seed }), keygen_small).require(&["key", "refused"], 100);
    r.sub("raw_small", 150_000, 3_000_000, "keys of 16 to 96 bits, residues (also multiples of the primes), blinding factors, out of range integers, clones; non-trivial: all",
        || raw_case((20usize..97).boxed(), 5, 8, 12), raw).require(&["blinded", "blinding factor shares a prime", "out of range 0", "out of range 1", "out of range 2", "out of range 3", "out of range 4", "cloned"], 100);
    r.sub("raw", 20_000, 300_000, "keys of 97 to 520 bits; non-trivial: all",
        || raw_case((0usize..48).prop_map(|x| 97 + x * 9).boxed(), 5, 2, 8), raw).require(&["blinded", "blinding factor shares a prime", "out of range 0", "cloned"], 50);
    r.sub("raw_large", 300, 4_000, "keys of 1024 to 2048 bits; non-trivial: all",
        || raw_case(prop_oneof![3 => Just(1024usize), 1 => Just(1536usize), 1 => Just(2048usize)].boxed(), 3, 1, 6), raw);
    r.sub("import", 250_000, 5_000_000, "public keys from bytes, naturals and integers: missing, tiny, too large, negative and ordinary components; non-trivial: all",
        || (blob(prop_oneof![3 => 1..5usize, 3 => 1..40usize, 1 => 40..140usize]), prop::option::weighted(0.93, wide_num()), prop::option::weighted(0.93, prop_oneof![3 => num(), 1 => wide_num(), 2 => (0u64..10).prop_map(Num::Small), 3 => (0u64..100_000).prop_map(Num::Small)]), prop::bool::weighted(0.15), prop::bool::weighted(0.15), any::<u8>(), any::<u8>(), num())
            .prop_map(|(nlen, n, e, nneg, eneg, how, pad, m)| Import { nlen, n, e, nneg, eneg, how, pad, m }), import).require(&["accepted", "refused", "accepted, even modulus"], 300);
    r.finish();
}
