//! C05: HMAC and CMAC over every primitive, user-supplied ones too.
use checks::*;
use rcrypto::{Cipher, CryptoError, Digest, CMAC, HMAC};
use refimpl::mac;

/// a user-supplied hash of any block and digest length: a mixing sponge over 8-byte words
#[derive(Clone)]
struct ToyD { block: Option<usize>, out: usize, buf: Vec<u8>, done: bool }
fn toy_hash(out: usize, m: &[u8]) -> Vec<u8> {
    let mut h = m.len() as u64 ^ 0x1234_5678_9abc;
    for b in m { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); h ^= h >> 31; }
    Sm64(h).bytes(out)
}
impl Digest for ToyD {
    fn block_size(&self) -> Option<usize> { self.block }
    fn bits_len(&self) -> usize { 8 * self.out }
    fn write(&mut self, m: &[u8]) { if self.done && !m.is_empty() { self.reset(); } self.buf.extend_from_slice(m); }
    fn checksum(&mut self, o: &mut Vec<u8>) { self.done = true; *o = toy_hash(self.out, &self.buf); }
    fn reset(&mut self) { self.buf.clear(); self.done = false; }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Prim { Lib(Hash), Toy { block: usize, out: usize } }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step { key: Blob, msg: Blob, cuts: Vec<usize>, abandon: Option<Blob> }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hm { prim: Prim, dirty: bool, steps: Vec<Step>, clone: bool }

fn hmac_on<D: Digest + Clone>(d: D, block: usize, reference: &dyn Fn(&[u8]) -> Vec<u8>, c: &Hm) -> Res {
    let mut d = d;
    if c.dirty { d.write(b"left over"); }
    let mut h: Option<HMAC<D>> = None;
    let mut labels = vec![];
    let mut last = None;
    for (i, st) in c.steps.iter().enumerate() {
        let (key, msg) = (st.key.bytes(), st.msg.bytes());
        match h.as_mut() {
            None => h = Some(must!(HMAC::new(key.clone(), d.clone()), "HMAC::new")),
            Some(x) => x.set_key(key.clone()),
        }
        let x = h.as_mut().unwrap();
        for p in split(&msg, &st.cuts) { x.write(p); }
        let mut out = vec![9; i];
        x.checksum(&mut out);
        eq(&format!("HMAC step {} key {} bytes (block {}), message {} bytes", i, key.len(), block, msg.len()), &out, &mac::hmac(reference, block, &key, &msg))?;
        if (msg.len() + i) % 3 == 0 {
            let first = out.clone();
            x.checksum(&mut out);
            eq("the same HMAC asked for again", &out, &first)?;
            labels.push(s("asked again"));
        }
        labels.push(s(if key.is_empty() { "empty key" } else if key.len() < block { "short key" } else if key.len() == block { "block-sized key" } else { "long key" }));
        // the next key may arrive in the middle of a message
        if let Some(a) = &st.abandon { x.write(&a.bytes()); labels.push(s("rekey mid-message")); last = None; } else { last = Some((key, msg)); }
        if c.clone { let y = x.clone(); h = Some(y); }
    }
    if let (Some(x), Some((key, msg))) = (h.as_mut(), last) {
        x.reset();
        x.write(&msg);
        let mut out = vec![];
        x.checksum(&mut out);
        eq("HMAC of the same message after reset", &out, &mac::hmac(reference, block, &key, &msg))?;
    }
    labels.sort();
    labels.dedup();
    labels.push(match c.prim { Prim::Lib(h) => h.name(), Prim::Toy { .. } => s("user hash") });
    okls(true, labels)
}
fn hm(c: &Hm) -> Res {
    match c.prim {
        Prim::Lib(h) => hmac_on(BoxD(h.make(c.dirty)), h.block(), &|m| h.reference(m), c),
        Prim::Toy { block, out } => hmac_on(ToyD { block: Some(block), out, buf: vec![], done: false }, block, &|m| toy_hash(out, m), c),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cm { kind: Kind, key: Blob, alt: bool, msgs: Vec<(Blob, Vec<usize>)>, reset: bool }
fn cm(c: &Cm) -> Res {
    let key = c.key.bytes();
    let lc = lib_cipher(c.kind, &key, c.alt);
    ensure!(CMAC::is_support(&lc), "block size {} declared unsupported", c.kind.bs());
    let mut m = must!(CMAC::new(lc), "CMAC::new for block size {}", c.kind.bs());
    ensure!(m.bits_len() == 8 * c.kind.bs() && m.block_size() == Some(c.kind.bs()), "CMAC reports {} bits, block {:?}", m.bits_len(), m.block_size());
    let rc = ref_cipher(c.kind, &key);
    let mut labels = vec![s(c.kind.name()), format!("block {}", c.kind.bs())];
    for (i, (msg, cuts)) in c.msgs.iter().enumerate() {
        let msg = msg.bytes();
        for p in split(&msg, cuts) { m.write(p); }
        // an empty message after another one needs the reset; otherwise the old MAC stands
        if msg.is_empty() && i > 0 { m.reset(); }
        let mut out = vec![3; i * 5];
        m.checksum(&mut out);
        eq(&format!("CMAC-{} message {} of {} bytes", c.kind.name(), i, msg.len()), &out, &mac::cmac(&*rc, &msg))?;
        if (msg.len() + i) % 3 == 0 {
            let first = out.clone();
            m.checksum(&mut out);
            eq("the same CMAC asked for again", &out, &first)?;
        }
        labels.push(s(if msg.is_empty() { "empty message" } else if msg.len() % c.kind.bs() == 0 { "whole blocks" } else { "partial block" }));
        if c.reset { m.reset(); }
    }
    let z = rc.enc(&vec![0; c.kind.bs()]);
    labels.push(format!("subkey carries {}{}", z[0] >> 7, (z[0] >> 6) & 1));
    labels.sort();
    labels.dedup();
    okls(true, labels)
}

/// a cipher that reports any block size, or none
#[derive(Clone)]
struct Odd(Option<usize>);
impl Cipher for Odd {
    type Output = usize;
    fn block_size(&self) -> Option<usize> { self.0 }
    fn encrypt(&self, d: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> { d.clear(); d.extend_from_slice(b); Ok(d.len()) }
    fn decrypt(&self, d: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> { self.encrypt(d, b) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refuse { block: Option<usize>, out: usize, key: Blob }
fn refuse(c: &Refuse) -> Res {
    let want = c.block.map_or(false, |b| mac::rb(b).is_some());
    let o = Odd(c.block);
    ensure!(CMAC::is_support(&o) == want, "CMAC: block size {:?} declared supported: {}", c.block, !want);
    ensure!(CMAC::new(o).is_ok() == want, "CMAC: block size {:?} accepted: {}", c.block, !want);
    let want_h = c.block.map_or(false, |b| c.out <= b);
    let r = HMAC::new(c.key.bytes(), ToyD { block: c.block, out: c.out, buf: vec![], done: false });
    ensure!(r.is_ok() == want_h, "HMAC: hash of block {:?} and {} bytes of digest accepted: {}", c.block, c.out, r.is_ok());
    for h in [Hash::Shake { sec: 128, out: c.out * 8, raw: false }, Hash::Shake { sec: 256, out: c.out * 8, raw: true }] {
        ensure!(HMAC::new(c.key.bytes(), BoxD(h.make(false))).is_err(), "HMAC accepted {:?}", h);
    }
    okls(!want, vec![s(if want { "CMAC accepts" } else { "CMAC refuses" }), s(if want_h { "HMAC accepts" } else { "HMAC refuses" })])
}

fn hkey(block: usize) -> BoxedStrategy<Blob> {
    blob(prop_oneof![2 => 0..=block, 2 => (0usize..5).prop_map(move |d| (block + d).saturating_sub(2)), 1 => 0..(3 * block + 3), 1 => Just(0usize), 1 => Just(block), 1 => prop_oneof![9 => 0..(9 * block), 1 => 200..9_000usize]])
}
fn msg(block: usize) -> BoxedStrategy<Blob> { blob(lens(block, 5 * block + 10)) }

const SIZES: [usize; 16] = [4, 6, 8, 12, 16, 20, 24, 28, 32, 40, 48, 56, 64, 96, 128, 256];

fn main() {
    let mut r = Run::new("C05");
    r.assume("reference HMAC and CMAC agree with OpenSSL on random keys and messages (tools/validate_refs.py); reduction constants are the minimum-weight irreducible polynomials");
    let prim = || prop_oneof![10 => md_hash().prop_map(Prim::Lib), 3 => sha3_hash().prop_map(Prim::Lib), 4 => (1usize..200, 0usize..200).prop_map(|(block, o)| Prim::Toy { block, out: 1 + o % block })];
    r.sub("hmac", 500_000, 10_000_000, "all hashes and user-supplied ones, 1..5 keys per object (new, then set_key, also in mid-message) of every length class, messages in splits; non-trivial: all",
        move || (prim(), any::<bool>(), any::<bool>()).prop_flat_map(|(prim, dirty, clone)| {
            let b = match prim { Prim::Lib(h) => h.block(), Prim::Toy { block, .. } => block };
            (Just(prim), Just(dirty), Just(clone), prop::collection::vec((hkey(b), msg(b), cuts(b), prop_oneof![3 => Just(None), 1 => msg(b).prop_map(Some)]).prop_map(|(key, msg, cuts, abandon)| Step { key, msg, cuts, abandon }), 1..5))
        }).prop_map(|(prim, dirty, clone, steps)| Hm { prim, dirty, steps, clone }), hm)
        .require(&["empty key", "short key", "block-sized key", "long key", "rekey mid-message", "user hash", "Md5", "Sm3", "Sha3-512"], 500);
    r.sub("cmac", 300_000, 5_000_000, "all ciphers and user-supplied ones of all 16 supported block sizes, several messages per object, splits; non-trivial: all",
        || (prop_oneof![3 => real_kind(), 3 => prop::sample::select(&SIZES[..]).prop_map(Kind::Toy)]).prop_flat_map(|kind| {
            let b = kind.bs();
            (Just(kind), blob_n(kind.key_len()), any::<bool>(), prop::collection::vec((msg(b), cuts(b)), 1..4), any::<bool>())
        }).prop_map(|(kind, key, alt, msgs, reset)| Cm { kind, key, alt, msgs, reset }), cm)
        .require(&["subkey carries 11", "subkey carries 10", "subkey carries 01", "subkey carries 00", "empty message", "whole blocks", "partial block", "block 4", "block 6", "block 256", "block 96", "block 40"], 300);
    r.sub("unsuitable", 60_000, 600_000, "block sizes 0..400 or none, digests longer than the block, extendable-output functions; non-trivial: refused by CMAC",
        || (prop_oneof![1 => Just(None), 8 => (0usize..400).prop_map(Some), 4 => prop::sample::select(&SIZES[..]).prop_map(Some)], 1usize..300, blob(0..300usize))
            .prop_map(|(block, out, key)| Refuse { block, out, key }), refuse).require(&["CMAC accepts", "CMAC refuses", "HMAC accepts", "HMAC refuses"], 300);
    r.sub("long", 300, 3000, "messages of up to 200 KB; non-trivial: all",
        || (prop_oneof![md_hash(), sha3_hash()], any::<bool>()).prop_flat_map(|(h, dirty)| (Just(h), Just(dirty), hkey(h.block()), blob(2000..200_000usize), prop::collection::vec(0..50_000usize, 0..6)))
            .prop_map(|(h, dirty, key, msg, cuts)| Hm { prim: Prim::Lib(h), dirty, clone: false, steps: vec![Step { key, msg, cuts, abandon: None }] }), hm);
    r.sub("long_cmac", 120, 1500, "CMAC of messages of a little more than 65536 blocks, then of a short one; non-trivial: all",
        || (real_kind(), any::<bool>()).prop_flat_map(|(kind, alt)| { let b = kind.bs(); (Just(kind), Just(alt), blob_n(kind.key_len()), blob((65_530 * b)..(65_600 * b)), prop::collection::vec(0..5_000 * b, 0..6), msg(b)) })
            .prop_map(|(kind, alt, key, m, cuts, next)| Cm { kind, key, alt, msgs: vec![(m, cuts), (next, vec![])], reset: false }), cm);
    r.finish();
}
