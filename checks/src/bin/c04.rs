//! C04: histories of operations over every hash, XOF and MAC object against the model
//! "value of a fresh object fed with the current message".
use checks::*;
use checks::curves::BoxC;
use checks::pk::*;
use rcrypto::rsa::{KeyPair, OAEP, PKCS1, PSS};
use rcrypto::{dsa, ecdsa, elliptic, rsa, Cipher, Digest, Signature, ZUCMac, CMAC, HMAC};
use refimpl::keccak::bits_of;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Hash { hash: Hash, family: bool },
    Hmac { hash: Hash, key: Blob },
    Cmac { kind: Kind, key: Blob },
    Zuc { count: u32, bearer: u8, dir: bool, ck: Blob },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write(Blob),
    Empty,
    Bit(u8),
    Sum(usize),
    /// the checksum asked for this many times
    Again(u8),
    Reset,
    Clone,
    SetLen(usize),
    SetKey(Blob),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { what: What, ops: Vec<(u8, Op)> }

enum Obj { Hash(Box<dyn Dig>), Hmac(HMAC<BoxD>), Cmac(CMAC<AnyC>), Zuc(ZUCMac) }
impl Obj {
    fn d(&mut self) -> &mut dyn Digest {
        match self { Obj::Hash(h) => h.d(), Obj::Hmac(h) => h, Obj::Cmac(h) => h, Obj::Zuc(h) => h }
    }
    fn r(&self) -> &dyn Digest {
        match self { Obj::Hash(h) => h.r(), Obj::Hmac(h) => h, Obj::Cmac(h) => h, Obj::Zuc(h) => h }
    }
    fn dup(&self) -> Option<Obj> {
        match self { Obj::Hash(h) => Some(Obj::Hash(h.dup())), Obj::Hmac(h) => Some(Obj::Hmac(h.clone())), Obj::Cmac(_) => None, Obj::Zuc(h) => Some(Obj::Zuc(h.clone())) }
    }
}

#[derive(Clone)]
struct Model { what: What, bits: Vec<bool>, bytes: Vec<u8>, odd: bool, summed: bool }
impl Model {
    fn begin(&mut self) { if self.summed { self.clear(); } }
    fn clear(&mut self) { self.bits.clear(); self.bytes.clear(); self.odd = false; self.summed = false; }
    fn value(&self) -> Vec<u8> {
        match &self.what {
            What::Hash { hash, .. } => if self.odd { hash.reference_bits(&self.bits) } else { hash.reference(&self.bytes) },
            What::Hmac { hash, key } => refimpl::mac::hmac(&|m| hash.reference(m), hash.block(), &key.bytes(), &self.bytes),
            What::Cmac { kind, key } => refimpl::mac::cmac(&*ref_cipher(*kind, &key.bytes()), &self.bytes),
            What::Zuc { count, bearer, dir, ck } => refimpl::zuc::eia3(*count, *bearer, *dir, &ck.bytes(), &self.bytes),
        }
    }
    fn bits_len(&self) -> usize {
        match &self.what { What::Hash { hash, .. } | What::Hmac { hash, .. } => hash.bits(), What::Cmac { kind, .. } => 8 * kind.bs(), What::Zuc { .. } => 32 }
    }
}

fn make(w: &What) -> Result<Obj, String> {
    Ok(match w {
        What::Hash { hash, family } => Obj::Hash(hash.make(*family)),
        What::Hmac { hash, key } => Obj::Hmac(must!(HMAC::new(key.bytes(), BoxD(hash.make(false))), "HMAC::new")),
        What::Cmac { kind, key } => Obj::Cmac(must!(CMAC::new(lib_cipher(*kind, &key.bytes(), false)), "CMAC::new")),
        What::Zuc { count, bearer, dir, ck } => Obj::Zuc(ZUCMac::new(*count, *bearer, *dir, arr(&ck.bytes()))),
    })
}

fn name(w: &What) -> String {
    match w { What::Hash { hash, .. } => hash.name(), What::Hmac { hash, .. } => format!("HMAC-{}", hash.name()), What::Cmac { kind, .. } => format!("CMAC-{}", kind.name()), What::Zuc { .. } => s("EIA3") }
}

fn run(c: &Case) -> Res {
    let mut objs = vec![(make(&c.what)?, Model { what: c.what.clone(), bits: vec![], bytes: vec![], odd: false, summed: false })];
    let mut labels = vec![];
    let mut reused = false;
    let mut trace = String::new();
    let sum = |o: &mut Obj, m: &mut Model, dst: usize, trace: &str| -> Result<(), String> {
        let mut out = vec![0x5A; dst];
        o.d().checksum(&mut out);
        eq(&format!("{} after {}: checksum of a {}-byte message", name(&m.what), trace, m.bytes.len()), &out, &m.value())?;
        m.summed = true;
        ensure!(o.r().bits_len() == m.bits_len(), "{}: bits_len {} instead of {}", name(&m.what), o.r().bits_len(), m.bits_len());
        Ok(())
    };
    for (i, (who, op)) in c.ops.iter().enumerate() {
        let k = *who as usize % objs.len();
        let n = objs.len();
        let (o, m) = &mut objs[k];
        if i < 60 { trace.push_str(&format!(" {}:{}", k, match op { Op::Write(b) => format!("write({})", b.len), Op::SetKey(b) => format!("key({})", b.len), x => format!("{:?}", x) })); }
        match op {
            Op::Write(b) => {
                let b = b.bytes();
                o.d().write(&b);
                if !b.is_empty() {
                    if m.summed { reused = true; }
                    m.begin();
                    m.bytes.extend_from_slice(&b);
                    if let What::Hash { hash: Hash::Sha3(_), .. } = m.what { m.bits.extend(bits_of(&b, 8 * b.len())); }
                }
            }
            Op::Empty => { o.d().write(&[]); if m.summed { labels.push("empty write after checksum"); } }
            Op::Bit(b) => if let Obj::Hash(h) = o {
                if h.bit(*b) {
                    if m.summed { reused = true; labels.push("bit after checksum"); }
                    m.begin();
                    m.bits.push(b & 1 == 1);
                    m.odd = true;
                }
            },
            Op::Sum(dst) => { if m.summed { labels.push("repeated checksum"); } sum(o, m, *dst, &trace)? }
            Op::Again(n) => for _ in 0..*n { sum(o, m, 3, &trace)? },
            Op::Reset => { o.d().reset(); m.clear(); labels.push("reset"); }
            Op::Clone => if n < 4 {
                if let Some(d) = o.dup() { let m = m.clone(); labels.push(if m.summed { "clone after checksum" } else { "clone mid-message" }); objs.push((d, m)); }
            },
            Op::SetLen(l) => if let Obj::Hash(h) = o {
                if h.set_len(*l) {
                    if let What::Hash { hash: Hash::Shake { out, .. }, .. } = &mut m.what { *out = *l; }
                    m.clear();
                    labels.push("set length");
                }
            },
            Op::SetKey(k) => if let Obj::Hmac(h) = o {
                h.set_key(k.bytes());
                if let What::Hmac { key, .. } = &mut m.what { *key = k.clone(); }
                m.clear();
                labels.push("set key");
            },
        }
    }
    for (o, m) in objs.iter_mut() { sum(o, m, 0, &trace)?; sum(o, m, 7, &trace)?; }
    if reused { labels.push("write after checksum"); }
    if objs.len() > 1 { labels.push("several objects"); }
    labels.sort();
    labels.dedup();
    let mut l: Vec<String> = labels.iter().map(|x| s(x)).collect();
    l.push(name(&c.what));
    okls(c.ops.len() > 1, l)
}

fn what() -> BoxedStrategy<What> {
    let hash = || prop_oneof![8 => md_hash(), 4 => sha3_hash(), 3 => shake_hash()].prop_map(|h| match h { Hash::Shake { sec, out, raw } => Hash::Shake { sec, out: out % 1800, raw }, h => h });
    prop_oneof![
        15 => (hash(), any::<bool>()).prop_map(|(hash, family)| What::Hash { hash, family }),
        5 => (prop_oneof![5 => md_hash(), 1 => sha3_hash()], key()).prop_map(|(hash, key)| What::Hmac { hash, key }),
        5 => (prop_oneof![3 => real_kind(), 1 => prop_oneof![Just(4usize), Just(6), Just(12), Just(32)].prop_map(Kind::Toy)], pat()).prop_map(|(kind, pat)| What::Cmac { kind, key: Blob { len: kind.key_len(), pat } }),
        4 => (any::<u32>(), 0u8..32, any::<bool>(), blob_n(16)).prop_map(|(count, bearer, dir, ck)| What::Zuc { count, bearer, dir, ck }),
    ].boxed()
}
fn key() -> BoxedStrategy<Blob> { blob(prop_oneof![0..40usize, 60..70usize, 100..150usize, 0..300usize]) }
fn op(write: BoxedStrategy<usize>) -> BoxedStrategy<(u8, Op)> {
    (any::<u8>(), prop_oneof![
        10 => blob(write).prop_map(Op::Write),
        3 => Just(Op::Empty),
        2 => any::<u8>().prop_map(Op::Bit),
        7 => (0usize..70).prop_map(Op::Sum),
        1 => (2u8..5).prop_map(Op::Again),
        2 => Just(Op::Reset),
        2 => Just(Op::Clone),
        1 => prop_oneof![0usize..600, 0usize..3000].prop_map(Op::SetLen),
        1 => key().prop_map(Op::SetKey),
    ]).boxed()
}

/// the hash object that a scheme hands out, after the scheme and before it were used
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lent { scheme: u8, hash: Hash, before: Blob, uses: Vec<Blob>, msg: Blob, cuts: Vec<usize> }
fn lent(c: &Lent) -> Res {
    let bits = 8 * (2 * c.hash.bytes() + 10);
    let mut h = BoxD(c.hash.make(false));
    h.write(&c.before.bytes());
    let fresh = |mut d: BoxD, what: &str| -> Result<(), String> {
        let m = c.msg.bytes();
        let mut out = vec![];
        if m.len() % 2 == 0 { d.checksum(&mut out); eq(&format!("{}: the hash object handed out, nothing written", what), &out, &c.hash.reference(&[]))?; }
        for w in split(&m, &c.cuts) { d.write(w); }
        d.checksum(&mut out);
        eq(&format!("{}: the hash object handed out, {} bytes", what, m.len()), &out, &c.hash.reference(&m))
    };
    // a clone the scheme hands out is the caller's: writing to it does not reach the scheme
    macro_rules! scheme { ($name:expr, $o:ident, $use:expr) => {{
        fresh($o.digest_func(), $name)?;
        for m in &c.uses { let m = m.bytes(); $use(&mut $o, &m)?; fresh($o.digest_func(), $name)?; }
        $name
    }}; }
    let l = match c.scheme % 4 {
        0 => {
            let k = checks::pk::key(bits, 2, 3)?;
            let mut o = must!(OAEP::new_uncheck(h, Rnd::seeded(1), KeyPair::from(k.key.clone()), vec![4, 5], false), "OAEP");
            scheme!("OAEP", o, |o: &mut OAEP<BoxD, Rnd>, m: &[u8]| -> Result<(), String> {
                let (mut ct, mut back) = (vec![], vec![]);
                let m = &m[..m.len().min(3)];
                must!(o.encrypt(&mut ct, m), "OAEP encryption");
                must!(o.decrypt(&mut back, &ct), "OAEP decryption");
                ensure!(back == m, "OAEP round trip");
                Ok(())
            })
        }
        1 => {
            let k = checks::pk::key(bits, 2, 3)?;
            let mut o = must!(PSS::new_uncheck(h, Rnd::seeded(1), KeyPair::from(k.key.clone()), Some(2), false), "PSS");
            scheme!("PSS", o, |o: &mut PSS<BoxD, Rnd>, m: &[u8]| -> Result<(), String> {
                let mut sg = rsa::SignatureContent::new();
                must!(o.sign(&mut sg, m), "PSS signing");
                must!(o.verify(&sg, m), "PSS verification");
                Ok(())
            })
        }
        2 => {
            let dp = refimpl::dsa::Params::generate(64, 32, &mut Sm64(9));
            let x = Bn::from_u64(77);
            let y = dp.g.modpow(&x, &dp.p);
            let d = must!(dsa::DomainParameters::new_uncheck(&big(&dp.p), &big(&dp.q), &big(&dp.g)), "parameters");
            let sk = must!(dsa::PrivateKey::new_uncheck(&must!(dsa::PublicKey::new_uncheck(&d, &big(&y)), "public key"), &big(&x)), "private key");
            let mut o = must!(dsa::DSA::new_uncheck(h, Rnd::seeded(2), dsa::KeyPair::from(sk)), "DSA");
            scheme!("DSA", o, |o: &mut dsa::DSA<BoxD, Rnd>, m: &[u8]| -> Result<(), String> {
                let mut sg = dsa::SignatureContent::new();
                must!(o.sign(&mut sg, m), "DSA signing");
                must!(o.verify(&sg, m), "DSA verification");
                Ok(())
            })
        }
        _ => {
            let cv = checks::curves::curve_of(4);
            let d = Bn::from_u64(991);
            let (qx, qy) = checks::curves::bigs(&cv.mul_base(&d));
            let sk = elliptic::PrivateKey::new_uncheck(elliptic::PublicKey::new_uncheck(&qx, &qy), &big(&d));
            let mut o = must!(ecdsa::ECDSA::new_unchcek(h, Rnd::seeded(2), BoxC(checks::curves::make(4)), elliptic::KeyPair::from(sk)), "ECDSA");
            scheme!("ECDSA", o, |o: &mut ecdsa::ECDSA<BoxD, Rnd, BoxC>, m: &[u8]| -> Result<(), String> {
                let mut sg = ecdsa::SignatureContent::new();
                must!(o.sign(&mut sg, m), "ECDSA signing");
                must!(o.verify(&sg, m), "ECDSA verification");
                Ok(())
            })
        }
    };
    // PKCS#1 takes the library's own types
    if c.scheme % 4 == 0 {
        let k = checks::pk::key(600, 2, 3)?;
        let mut h = rcrypto::sha::SHA256::new();
        h.write(&c.before.bytes());
        let mut o = must!(PKCS1::new_uncheck(h, Rnd::seeded(1), KeyPair::from(k.key.clone()), false), "PKCS1");
        let mut sg = rsa::SignatureContent::new();
        for m in &c.uses { let m = m.bytes(); must!(o.sign(&mut sg, &m), "PKCS1 signing"); must!(o.verify(&sg, &m), "PKCS1 verification"); }
        let (mut d, m, mut out) = (o.digest_func(), c.msg.bytes(), vec![]);
        for w in split(&m, &c.cuts) { d.write(w); }
        d.checksum(&mut out);
        eq("PKCS1: the hash object handed out", &out, &Hash::Sha256.reference(&m))?;
    }
    okls(true, vec![s(l), s(if c.uses.is_empty() { "not used" } else { "used" })])
}

fn main() {
    let mut r = Run::new("C04");
    r.assume("the value of a fresh object is that of the independent reference (decided by C02, C03, C05, C09)");
    r.sub("history", 650_000, 8_000_000, "up to 25 operations (write, empty write, bit write, checksum, reset, clone, set length, set key) over up to 4 objects, each checksum compared; non-trivial: more than one operation",
        || (what(), prop::collection::vec(op(prop_oneof![3 => 0..20usize, 3 => lens(64, 200), 1 => lens(128, 400)].boxed()), 0..25)).prop_map(|(what, ops)| Case { what, ops }), run)
        .require(&["write after checksum", "empty write after checksum", "repeated checksum", "clone after checksum", "clone mid-message", "set key", "set length", "bit after checksum", "EIA3", "Md5", "Sm3", "Sha512t"], 300);
    r.sub("long_history", 4_000, 60_000, "200 to 700 operations on short data, to meet counters and buffers that only go wrong late; non-trivial: all",
        || (what(), prop::collection::vec(op(prop_oneof![3 => 0..10usize, 1 => 0..140usize].boxed()), 200..700)).prop_map(|(what, ops)| Case { what, ops }), run);
    r.sub("many_checksums", 2_000, 20_000, "a short message, then the checksum up to 255 times in a row, then more operations; non-trivial: all",
        || (what(), blob(0..150usize), any::<u8>(), prop::collection::vec(op((0..80usize).boxed()), 1..6))
            .prop_map(|(what, b, n, mut ops)| { ops.insert(0, (0, Op::Again(n))); ops.insert(0, (0, Op::Write(b))); Case { what, ops } }), run);
    r.sub("long_data", 500, 8_000, "up to 8 operations with writes of up to 70 KB; non-trivial: all",
        || (what(), prop::collection::vec(op(prop_oneof![2 => 0..200usize, 1 => 65_400..65_700usize, 1 => 0..70_000usize].boxed()), 2..9)).prop_map(|(what, ops)| Case { what, ops }), run);
    r.sub("lent", 3_000, 60_000, "the hash objects handed out by the RSA, DSA and ECDSA schemes before and after use are fresh ones; non-trivial: all",
        || (any::<u8>(), prop_oneof![2 => md_hash(), 1 => sha3_hash()], blob(0..150usize), prop::collection::vec(blob(0..40usize), 0..3), blob(0..300usize), cuts(64))
            .prop_map(|(scheme, hash, before, uses, msg, cuts)| Lent { scheme, hash: match hash { Hash::Sha512t(t) => Hash::Sha512t((t + 7) / 8 * 8).clone(), h => h }, before, uses, msg, cuts })
            .prop_map(|mut c| { if let Hash::Sha512t(t) = c.hash { if t == 384 || t >= 512 || t < 8 { c.hash = Hash::Sha512t(200); } } c }), lent)
        .require(&["OAEP", "PSS", "DSA", "ECDSA", "used", "not used"], 100);
    r.finish();
}
