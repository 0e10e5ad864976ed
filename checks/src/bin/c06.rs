//! C06: one-shot modes of operation against SP 800-38A on reference ciphers.
use checks::modes::*;
use checks::*;
use checks::pk::Rnd;
use rcrypto::cipher_mode::{DefaultInitialVec, DefaultPadding, EmptyPadding, EncryptStream, Padding, CBC, CFB, ECB, OFB};
use rcrypto::{Cipher, CryptoError, CryptoErrorKind};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Enc(Msg),
    /// decrypt what the reference encrypts
    Dec(Msg),
    /// encrypt, then decrypt with a clone, as a caller would
    Trip(Msg),
    SetIv(Pat),
    UpdateIv(Pat),
    Clone,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { spec: Spec, ops: Vec<Op>, dirty: usize }

fn run(c: &Case) -> Res {
    let sp = &c.spec;
    let (bs, mode, pad, rc) = (sp.bs(), sp.mode(), sp.rpad(), sp.rc());
    let LibMode { mut m, src } = sp.make()?;
    ensure!(m.block_size() == Some(bs), "block size {:?}", m.block_size());
    let mut iv = sp.iv.bytes();
    let mut ctr = 0u64;
    let mut labels = vec![s(sp.short())];
    let mut done = 0;
    let used = |n: usize| if sp.mode == ModeK::Ctr { ((n + bs - 1) / bs) as u64 } else { 0 };
    for (i, op) in c.ops.iter().enumerate() {
        let at = format!("{} call {}", sp.name(), i);
        let mut out = vec![0xEE; c.dirty];
        match op {
            Op::Enc(msg) => {
                let p = msg.bytes();
                let want = rm::encrypt(&*rc, &mode, pad, &iv, ctr, &p);
                let got = m.encrypt(&mut out, &p);
                match (got, want) {
                    (Ok(n), Some(w)) => {
                        eq(&format!("{} encrypt {} bytes", at, p.len()), &out, &w)?;
                        ensure!(n == out.len(), "{} encrypt: reported {} of {} bytes", at, n, out.len());
                        if !sp.pad { ensure!(out.len() == p.len(), "{}: {} bytes from {}", at, out.len(), p.len()); }
                        done += 1;
                    }
                    (Err(_), None) => labels.push(s("refused length")),
                    (Ok(_), None) => fail!("{} encrypt: {} bytes do not fill the units of {} and were accepted", at, p.len(), sp.unit()),
                    (Err(e), Some(_)) => fail!("{} encrypt {} bytes: {:?}", at, p.len(), e),
                }
                ctr += used(p.len());
            }
            Op::Dec(msg) => {
                let p = msg.bytes();
                if let Some(ct) = rm::encrypt(&*rc, &mode, pad, &iv, ctr, &p) {
                    let n = must!(m.decrypt(&mut out, &ct), "{} decrypt of {} bytes", at, ct.len());
                    eq(&format!("{} decrypt {} bytes", at, ct.len()), &out, &p)?;
                    ensure!(n == out.len(), "{} decrypt: reported {} of {} bytes", at, n, out.len());
                    ctr += used(ct.len());
                    done += 1;
                }
            }
            Op::Trip(msg) => {
                let mut p = msg.bytes();
                if !sp.pad { p.truncate(p.len() - p.len() % sp.unit()); }
                // a CTR clone starts again at the initial counter
                let (a, b) = (m.dup(), m.dup());
                let mut ct = vec![];
                must!(a.encrypt(&mut ct, &p), "{} encrypt", at);
                must!(b.decrypt(&mut out, &ct), "{} decrypt of its own ciphertext", at);
                eq(&format!("{} round trip", at), &out, &p)?;
                done += 1;
            }
            Op::SetIv(p) => {
                if let (M::Ctr(x), v) = (&mut m, Blob { len: sp.iv.len, pat: p.clone() }.bytes()) {
                    must!(x.set_counter(sp.counter(&v)?), "{} set_counter", at);
                    iv = v;
                    ctr = 0;
                    labels.push(s("set counter"));
                } else {
                    let v = Blob { len: bs, pat: p.clone() }.bytes();
                    if let Some(r) = m.set_iv(v.clone()) {
                        must!(r, "{} set_iv", at);
                        iv = v;
                        labels.push(s("set iv"));
                    }
                }
            }
            Op::UpdateIv(p) => {
                let v = Blob { len: bs, pat: p.clone() }.bytes();
                *src.borrow_mut() = Some(v.clone());
                if let Some(r) = m.update_iv() {
                    let r = must!(r, "{} update_iv", at);
                    eq("updated IV", &r, &v)?;
                    iv = v;
                    labels.push(s("update iv"));
                }
            }
            Op::Clone => { m = m.dup(); ctr = 0; }
        }
        if let Some(v) = m.cur_iv() { eq(&format!("{} current IV", at), &v, &iv)?; }
    }
    if let (ModeK::Ctr, true) = (sp.mode, done > 0) {
        let v = sp.iv.bytes();
        let tot: u64 = ctr;
        if v.len() == bs && tot > 0 && v[bs - 1] as u64 + tot > 256 { labels.push(s("counter carry")); }
        if v.iter().take(bs.min(v.len()) - if v.is_empty() { 0 } else { 1 }).all(|b| *b == 0xff) && v.len() == bs && v[bs - 1] as u64 + tot > 256 { labels.push(s("counter wrap")); }
        if sp.wide > 0 { labels.push(s("wide counter")); }
    }
    if sp.pad { labels.push(s("padded")); }
    labels.sort();
    labels.dedup();
    okls(done > 0, labels)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PadCase { kind: Kind, msg: Msg }
fn padding(c: &PadCase) -> Res {
    let k = lib_cipher(c.kind, &vec![7; c.kind.key_len()], false);
    let bs = c.kind.bs();
    let m = c.msg.bytes();
    let p = DefaultPadding::new(&k);
    let mut b = m.clone();
    p.padding(&mut b);
    let mut want = m.clone();
    rm::pad_tail(&mut want, bs);
    eq(&format!("padding {} bytes to blocks of {}", m.len(), bs), &b, &want)?;
    let n = must!(p.unpadding(&mut b), "unpadding its own padding");
    eq("unpadded", &b, &m)?;
    ensure!(n == m.len(), "unpadding reported {} of {} bytes", n, m.len());
    // any bytes at all: unpadding agrees with the definition and leaves the content alone when it refuses
    let mut b = m.clone();
    let r = p.unpadding(&mut b);
    match (r, rm::unpad(&m, bs)) {
        (Ok(n), Some(w)) => { eq("unpadding", &b, &w)?; ensure!(n == w.len(), "unpadding reported {} of {}", n, w.len()); }
        (Err(_), None) => eq("content after refused unpadding", &b, &m)?,
        (Ok(_), None) => fail!("unpadding accepted {} which does not end in a padding", hex(&m)),
        (Err(_), Some(_)) => fail!("unpadding refused {}", hex(&m)),
    }
    let e = EmptyPadding::new();
    let mut b = m.clone();
    e.padding(&mut b);
    eq("EmptyPadding", &b, &m)?;
    ensure!(e.unpadding(&mut b).ok() == Some(m.len()) && b == m, "EmptyPadding changed the data");
    okl(true, if rm::unpad(&m, bs).is_some() { "ends in a padding" } else { "no padding at the end" })
}

/// the modes with the library's own source of initial vectors
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Own { kind: Kind, key: Blob, mode: ModeK, pad: bool, seed: u64, msgs: Vec<Msg> }
macro_rules! own { ($c:expr, $m:expr, $mode:expr, $pad:expr) => {{
    let mut m = $m;
    let rc = ref_cipher($c.kind, &$c.key.bytes());
    let mut iv = m.cur_iv();
    for (i, msg) in $c.msgs.iter().enumerate() {
        ensure!(iv.len() == $c.kind.bs(), "initial vector of {} bytes for blocks of {}", iv.len(), $c.kind.bs());
        let p = msg.bytes();
        let mut out = vec![];
        match (m.encrypt(&mut out, &p), rm::encrypt(&*rc, &$mode, $pad, &iv, 0, &p)) {
            (Ok(_), Some(w)) => {
                eq(&format!("{} encrypt message {} of {} bytes under its own initial vector", $c.kind.name(), i, p.len()), &out, &w)?;
                let mut back = vec![];
                must!(m.clone().decrypt(&mut back, &out), "decryption under its own initial vector");
                eq("decrypted", &back, &p)?;
            }
            (Err(_), None) => {}
            (Ok(_), None) => fail!("encrypt: {} bytes do not fill the units and were accepted", p.len()),
            (Err(e), Some(_)) => fail!("encrypt {} bytes under its own initial vector: {:?}", p.len(), e),
        }
        ensure!(m.cur_iv() == iv, "the initial vector changed with an encryption");
        let new = must!(m.update_iv(), "update_iv").clone();
        ensure!(m.cur_iv() == new, "the initial vector in use is not the new one");
        iv = new;
    }
}}; }
fn own(c: &Own) -> Res {
    let k = lib_cipher(c.kind, &c.key.bytes(), false);
    let iv: DefaultInitialVec<AnyC, Rnd> = DefaultInitialVec::new(&k, Rnd::seeded(c.seed));
    let (p, pad) = (any_pad(&k, c.pad), if c.pad { rm::Pad::OneZeros } else { rm::Pad::None });
    let l = match c.mode {
        ModeK::Cbc => { own!(c, must!(CBC::new(k, p, iv), "CBC::new"), rm::Mode::Cbc, pad); "CBC" }
        ModeK::Cfb(s) => { own!(c, must!(CFB::new(k, p, iv, 8 * s), "CFB::new"), rm::Mode::Cfb(s), pad); "CFB" }
        _ => { own!(c, must!(OFB::new(k, iv), "OFB::new"), rm::Mode::Ofb, rm::Pad::None); "OFB" }
    };
    okls(true, vec![s(l), s(if c.kind.bs() % 4 == 0 { "block of whole words" } else { "block of part words" })])
}

/// a padding made by the caller: a mark and zeros up to a whole unit, and some more units of zeros
#[derive(Clone)]
struct Marked { unit: usize, more: usize }
impl Padding for Marked {
    fn padding(&self, b: &mut Vec<u8>) { b.push(0xa5); while b.len() % self.unit != 0 { b.push(0); } b.resize(b.len() + self.unit * self.more, 0); }
    fn unpadding(&self, b: &mut Vec<u8>) -> Result<usize, CryptoError> {
        let end = b.iter().rposition(|&x| x != 0);
        match end { Some(i) if b[i] == 0xa5 => { b.truncate(i); Ok(i) } _ => Err(CryptoError::new(CryptoErrorKind::UnpaddingNotMatch, "no mark")) }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Given { spec: Spec, more: usize, msgs: Vec<Msg>, cut: usize }
fn given_padding(c: &Given) -> Res {
    let sp = &c.spec;
    let p = Marked { unit: sp.unit(), more: c.more };
    let k = lib_cipher(sp.kind, &sp.key.bytes(), false);
    let iv = IvSrc(Rc::new(RefCell::new(Some(sp.iv.bytes()))));
    let rc = sp.rc();
    macro_rules! go { ($m:expr) => {{
        let m = $m;
        let mut st = m.clone().encrypt_stream();
        for msg in &c.msgs {
            let plain = msg.bytes();
            let mut padded = plain.clone();
            p.padding(&mut padded);
            let want = match rm::encrypt(&*rc, &sp.mode(), rm::Pad::None, &sp.iv.bytes(), 0, &padded) { Some(w) => w, None => fail!("the padded message does not fill the units") };
            let mut out = vec![7];
            let n = must!(m.encrypt(&mut out, &plain), "encryption");
            eq(&format!("{}, {} bytes and {} more units of padding", sp.name(), plain.len(), c.more), &out, &want)?;
            ensure!(n == out.len(), "{} bytes reported, {} given", n, out.len());
            let mut back = vec![7];
            let n = must!(m.decrypt(&mut back, &out), "decryption");
            eq("decrypted", &back, &plain)?;
            ensure!(n == back.len(), "{} bytes reported, {} given", n, back.len());
            let cut = c.cut.min(plain.len());
            let mut got = vec![];
            must!(st.write(&plain[..cut]), "write").draw_off(&mut got);
            must!(st.write(&plain[cut..]), "write").draw_off(&mut got);
            must!(st.finish(), "finish").draw_off(&mut got);
            eq("through the stream", &got, &want)?;
        }
    }}; }
    match sp.mode {
        ModeK::Ecb => go!(ECB::new(k, p.clone())),
        ModeK::Cbc => go!(must!(CBC::new(k, p.clone(), iv), "CBC::new")),
        ModeK::Cfb(x) => go!(must!(CFB::new(k, p.clone(), iv, 8 * x), "CFB::new")),
        _ => return okls(false, vec![]),
    }
    okls(true, vec![s(sp.short()), s(if c.more > 0 { "more than one unit" } else { "one unit" })])
}

fn op(bs: usize) -> BoxedStrategy<Op> {
    prop_oneof![5 => message(bs).prop_map(Op::Enc), 4 => message(bs).prop_map(Op::Dec), 2 => message(bs).prop_map(Op::Trip), 2 => pat().prop_map(Op::SetIv), 1 => pat().prop_map(Op::UpdateIv), 1 => Just(Op::Clone)].boxed()
}

fn main() {
    let mut r = Run::new("C06");
    r.assume("reference modes agree with OpenSSL for ECB, CBC, CFB8, CFB, OFB and CTR (tools/validate_refs.py); reference ciphers as in C01");
    r.sub("one_shot", 4_500_000, 40_000_000, "mode x cipher x padding x segment x IV/counter, 1..6 calls per object; non-trivial: at least one encryption or decryption succeeded",
        || spec().prop_flat_map(|spec| { let b = spec.bs(); (Just(spec), prop::collection::vec(op(b), 1..7), prop_oneof![Just(0usize), 0..40usize]) }).prop_map(|(spec, ops, dirty)| Case { spec, ops, dirty }), run)
        .require(&["ECB", "CBC", "CFB", "OFB", "CTR", "counter carry", "counter wrap", "wide counter", "set iv", "set counter", "update iv", "padded", "refused length"], 300);
    r.sub("long", 6_000, 60_000, "messages of 300 to 1200 blocks (second counter byte carries); non-trivial: as above",
        || spec().prop_flat_map(|spec| { let b = spec.bs(); (Just(spec), prop::collection::vec(blob((300 * b)..(1200 * b)).prop_map(|body| Msg { body, tail: vec![] }), 1..3), any::<bool>()) })
            .prop_map(|(spec, ms, d)| { let u = spec.unit(); let ops = ms.into_iter().map(|mut m| { if !spec.pad { m.body.len -= m.body.len % u; } if d { Op::Dec(m) } else { Op::Enc(m) } }).collect(); Case { spec, ops, dirty: 0 } }), run);
    r.sub("very_long", 200, 3_000, "messages of a little more than 65536 blocks or segments (third counter byte carries); non-trivial: as above",
        || spec().prop_filter("small blocks", |s| s.bs() <= 16).prop_flat_map(|spec| { let u = match spec.mode { ModeK::Cfb(s) => s, _ => spec.bs() }; (Just(spec), blob((65_530 * u)..(66_100 * u)), any::<bool>()) })
            .prop_map(|(spec, mut body, d)| { if !spec.pad { body.len -= body.len % spec.unit(); } let m = Msg { body, tail: vec![] }; Case { spec, ops: vec![if d { Op::Dec(m) } else { Op::Enc(m) }], dirty: 0 } }), run);
    r.sub("padding", 500_000, 3_000_000, "DefaultPadding and EmptyPadding directly, messages that end like paddings too; non-trivial: all",
        || any_kind().prop_flat_map(|kind| (Just(kind), message(kind.bs()))).prop_map(|(kind, msg)| PadCase { kind, msg }), padding)
        .require(&["ends in a padding"], 300);
    r.sub("default_iv", 200_000, 3_000_000, "CBC, CFB and OFB over ciphers of any block size with the library's own source of initial vectors; non-trivial: all",
        || (any_kind(), any::<bool>()).prop_flat_map(|(kind, pad)| (Just(kind), Just(pad), blob_n(kind.key_len()), mode_k(kind.bs(), pad), any::<u64>(), prop::collection::vec(message(kind.bs()), 1..4)))
            .prop_map(|(kind, pad, key, mode, seed, msgs)| Own { kind, key, mode: if matches!(mode, ModeK::Ecb) { ModeK::Cbc } else if matches!(mode, ModeK::Ctr) { ModeK::Ofb } else { mode }, pad: pad && !matches!(mode, ModeK::Ofb | ModeK::Ctr), seed, msgs }), own)
        .require(&["CBC", "CFB", "OFB", "block of whole words", "block of part words"], 1000);
    r.sub("given_padding", 150_000, 3_000_000, "ECB, CBC and CFB with a padding of one or several units made by the caller, one-shot and through an encrypting stream; non-trivial: a mode with padding",
        || spec().prop_flat_map(|spec| { let b = spec.bs(); (Just(spec), prop_oneof![1 => Just(0usize), 2 => 1..5usize], prop::collection::vec(message(b), 1..4), 0..(8 * b)) }).prop_map(|(spec, more, msgs, cut)| Given { spec, more, msgs, cut }), given_padding)
        .require(&["ECB", "CBC", "CFB", "one unit", "more than one unit"], 1000);
    r.finish();
}
