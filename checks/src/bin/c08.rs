//! C08: malformed ciphertexts, paddings and parameters are refused, and only those.
use checks::modes::*;
use checks::*;
use rcrypto::cipher_mode::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
    None,
    /// cut this many bytes off
    Cut(usize),
    Extend(Blob),
    /// change byte (modulo the length) by this
    Flip(usize, u8),
    Random,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ct { spec: Spec, plain: Msg, fill: bool, damage: Damage, probe: Msg, pieces: Vec<(usize, bool)>, dirty: usize }

/// the object gives the right answers still
fn works(sp: &Spec, m: &M, iv: &[u8], ctr: u64, probe: &[u8], at: &str) -> Result<(), String> {
    let mut p = probe.to_vec();
    if !sp.pad { p.truncate(p.len() - p.len() % sp.unit()); }
    let mut o = vec![];
    must!(m.encrypt(&mut o, &p), "{}: encrypting afterwards", at);
    let want = rm::encrypt(&*sp.rc(), &sp.mode(), sp.rpad(), iv, ctr, &p).unwrap();
    eq(&format!("{}: encrypting afterwards", at), &o, &want)?;
    if sp.mode != ModeK::Ctr {
        must!(m.decrypt(&mut o, &want), "{}: decrypting afterwards", at);
        eq(&format!("{}: decrypting afterwards", at), &o, &p)?;
    }
    Ok(())
}

fn ciphertext(c: &Ct) -> Res {
    let sp = &c.spec;
    let (bs, mode, pad, rc, iv) = (sp.bs(), sp.mode(), sp.rpad(), sp.rc(), sp.iv.bytes());
    let LibMode { m, .. } = sp.make()?;
    // any plaintext, whole units, encrypted without padding: every shape of padding occurs
    let mut p = c.plain.bytes();
    if c.fill { while p.len() % sp.unit() != 0 { p.insert(0, 0x61); } }
    let mut ct = match rm::encrypt(&*rc, &mode, rm::Pad::None, &iv, 0, &p) { Some(x) => x, None => p.clone() };
    match &c.damage {
        Damage::None => (),
        Damage::Cut(n) => { let l = ct.len().saturating_sub(*n); ct.truncate(l); }
        Damage::Extend(b) => ct.extend(b.bytes()),
        Damage::Flip(i, x) => if !ct.is_empty() { let l = ct.len(); ct[i % l] ^= x; },
        Damage::Random => { let l = ct.len(); ct = Sm64(l as u64 * 77 + c.dirty as u64).bytes(l); }
    }
    let at = format!("{} ciphertext of {} bytes", sp.name(), ct.len());
    let want = rm::decrypt(&*rc, &mode, pad, &iv, 0, &ct);
    let mut out = vec![0xA5; c.dirty];
    let got = m.decrypt(&mut out, &ct);
    match (&got, &want) {
        (Ok(n), Some(w)) => { eq(&at, &out, w)?; ensure!(*n == out.len(), "{}: reported {} of {}", at, n, out.len()); }
        (Err(_), None) => (),
        (Ok(_), None) => fail!("{}: accepted, plaintext {:?}", at, rm::decrypt_raw(&*rc, &mode, &iv, 0, &ct).map(|r| hex(&r))),
        (Err(e), Some(w)) => fail!("{}: refused ({:?}) although it decrypts to {}", at, e, hex(w)),
    }
    let spent = if sp.mode == ModeK::Ctr { ((ct.len() + bs - 1) / bs) as u64 } else { 0 };
    works(sp, &m, &iv, spent, &c.probe.bytes(), &at)?;
    // the same bytes through a stream
    let LibMode { m, .. } = sp.make()?;
    let mut st = m.dec_stream();
    let mut out = vec![];
    let mut k = 0;
    for (n, draw) in &c.pieces {
        let e = (k + n).min(ct.len());
        must!(st.write(&ct[k..e], if *draw { Some(&mut out) } else { None }), "{}: stream write", at);
        k = e;
    }
    must!(st.write(&ct[k..], None), "{}: stream write", at);
    match (st.finish(Some(&mut out)), &want) {
        (Ok(_), Some(w)) => eq(&format!("{} through a stream", at), &out, w)?,
        (Err(_), None) => (),
        (Ok(_), None) => fail!("{}: the stream accepted it", at),
        (Err(e), Some(_)) => fail!("{}: the stream refused it: {:?}", at, e),
    }
    let mut l = vec![s(sp.short()), s(if want.is_some() { "well-formed" } else { "refused" })];
    if want.is_none() && ct.len() % sp.unit() == 0 { l.push(s("bad padding")); }
    if want.is_none() && ct.len() % sp.unit() != 0 { l.push(s("bad length")); }
    okls(want.is_none(), l)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lens { spec: Spec, msg: Msg, probe: Msg, pieces: Vec<usize> }
fn no_padding(c: &Lens) -> Res {
    let sp = &c.spec;
    let iv = sp.iv.bytes();
    let LibMode { m, .. } = sp.make()?;
    let d = c.msg.bytes();
    let fits = d.len() % sp.unit() == 0;
    let mut o = vec![];
    ensure!(m.encrypt(&mut o, &d).is_ok() == fits, "{}: encrypting {} bytes, refused: {}", sp.name(), d.len(), fits);
    ensure!(m.decrypt(&mut o, &d).is_ok() == fits, "{}: decrypting {} bytes, refused: {}", sp.name(), d.len(), fits);
    works(sp, &m, &iv, 0, &c.probe.bytes(), &sp.name())?;
    for enc in [true, false] {
        let LibMode { m, .. } = sp.make()?;
        let mut st = if enc { m.enc_stream() } else { m.dec_stream() };
        for p in split(&d, &c.pieces) { must!(st.write(p, None), "{} stream write", sp.name()); }
        let mut o = vec![];
        ensure!(st.finish(Some(&mut o)).is_ok() == fits, "{}: {} stream of {} bytes, refused: {}", sp.name(), if enc { "encrypting" } else { "decrypting" }, d.len(), fits);
        st.reset();
        let mut p = c.probe.bytes();
        p.truncate(p.len() - p.len() % sp.unit());
        must!(st.write(&p, None), "{} stream write", sp.name());
        let mut o = vec![];
        must!(st.finish(Some(&mut o)), "{} stream after a reset", sp.name());
        let want = if enc { rm::encrypt(&*sp.rc(), &sp.mode(), rm::Pad::None, &iv, 0, &p) } else { rm::decrypt_raw(&*sp.rc(), &sp.mode(), &iv, 0, &p) };
        eq(&format!("{} stream after a reset", sp.name()), &o, &want.unwrap())?;
    }
    okls(!fits, vec![s(sp.short()), s(if fits { "fits" } else { "does not fit" })])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad { NewIv(usize), SetIv(usize), UpdateIv(usize), UpdateFails, NewFails, NewCounter(usize, usize), SetCounter(usize, usize), Segment(usize) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Param { spec: Spec, bad: Vec<Bad>, probe: Msg }

fn parameters(c: &Param) -> Res {
    let sp = &c.spec;
    let bs = sp.bs();
    let mut iv = sp.iv.bytes();
    let LibMode { mut m, src } = sp.make()?;
    let (mut refused, mut ctr) = (0, 0u64);
    let spent = if sp.mode == ModeK::Ctr { ((c.probe.bytes().len() + bs - 1) / bs) as u64 } else { 0 };
    let mut labels = vec![s(sp.short())];
    // a new object of this mode with that initial vector; None when the mode takes none
    let fresh = |v: Option<Vec<u8>>, seg: Option<usize>| -> Option<bool> {
        let k = lib_cipher(sp.kind, &sp.key.bytes(), false);
        let p = any_pad(&k, sp.pad);
        let i = IvSrc(Rc::new(RefCell::new(v)));
        match sp.mode {
            ModeK::Cbc => Some(CBC::new(k, p, i).is_ok()),
            ModeK::Cfb(x) => Some(CFB::new(k, p, i, seg.unwrap_or(8 * x)).is_ok()),
            ModeK::Ofb => Some(OFB::new(k, i).is_ok()),
            _ => None,
        }
    };
    for b in &c.bad {
        let at = format!("{} {:?}", sp.name(), b);
        // Some(accepted, should be accepted)
        let r: Option<(bool, bool)> = match b {
            Bad::NewIv(n) => fresh(Some(vec![5; *n]), None).map(|x| (x, *n == bs)),
            Bad::NewFails => fresh(None, None).map(|x| (x, false)),
            Bad::SetIv(n) => m.set_iv(vec![0x39; *n]).map(|x| { let a = x.is_ok(); if a { iv = vec![0x39; *n]; } (a, *n == bs) }),
            Bad::UpdateIv(n) => { *src.borrow_mut() = Some(vec![0x17; *n]); m.update_iv().map(|x| { let a = x.is_ok(); if a { iv = vec![0x17; *n]; } (a, *n == bs) }) }
            Bad::UpdateFails => { *src.borrow_mut() = None; m.update_iv().map(|x| (x.is_ok(), false)) }
            Bad::Segment(sg) => if let ModeK::Cfb(_) = sp.mode {
                let whole = sg % 8 == 0 && *sg >= 8 && sg / 8 <= bs;
                // what the padding leaves has to consist of whole segments
                let fills = whole && (!sp.pad || bs % (sg / 8) == 0);
                if whole && !fills { labels.push(s("segment does not fit the padding")); }
                fresh(Some(vec![5; bs]), Some(*sg)).map(|x| (x, fills))
            } else { None },
            Bad::NewCounter(n, bits) => { let d = DefaultCounter::new(vec![1; *n], *bits); Some((d.is_ok(), *n <= bits / 8 + (bits % 8 != 0) as usize)) }
            Bad::SetCounter(n, bits) => if let M::Ctr(x) = &mut m {
                match DefaultCounter::new(vec![0xfe; (*n).min(bits / 8)], *bits) {
                    Err(_) => fail!("{}: counter refused", at),
                    Ok(d) => {
                        let r = CTR::new(lib_cipher(sp.kind, &sp.key.bytes(), false), d.clone()).is_ok();
                        ensure!(r == (*bits >= 8 * bs), "{}: CTR::new with a counter of {} bits accepted: {}", at, bits, r);
                        let a = x.set_counter(d).is_ok();
                        if a { iv = vec![0xfe; (*n).min(bits / 8)]; ctr = 0; }
                        Some((a, *bits >= 8 * bs))
                    }
                }
            } else { None },
        };
        if let Some((got, want)) = r {
            ensure!(got == want, "{}: accepted: {}, should be: {}", at, got, want);
            if !want { refused += 1; labels.push(s(format!("{:?}", b).split('(').next().unwrap())); }
            works(sp, &m, &iv, ctr, &c.probe.bytes(), &at)?;
            ctr += spent;
            if let Some(v) = m.cur_iv() { eq(&format!("{}: current IV", at), &v, &iv)?; }
        }
    }
    labels.sort();
    labels.dedup();
    okls(refused > 0, labels)
}

fn pspec(padded: bool) -> BoxedStrategy<Spec> {
    (any_kind(), Just(padded)).prop_flat_map(|(kind, pad)| {
        let segs: Vec<usize> = (1..=kind.bs()).filter(|s| !pad || kind.bs() % s == 0).collect();
        (Just(kind), Just(pad), blob_n(kind.key_len()), blob_n(kind.bs()), prop_oneof![Just(ModeK::Ecb), Just(ModeK::Cbc), prop::sample::select(segs).prop_map(ModeK::Cfb)])
    }).prop_map(|(kind, pad, key, iv, mode)| Spec { kind, key, mode, pad, iv, wide: 0 }).boxed()
}
fn lens_near(bs: usize) -> BoxedStrategy<usize> { prop_oneof![2 => 0..(3 * bs + 2), 2 => Just(bs), 1 => Just(bs + 1), 1 => Just(bs - 1), 1 => Just(0usize)].boxed() }

fn main() {
    let mut r = Run::new("C08");
    r.assume("well-formedness is computed from the reference decryption: a 1 bit followed by fewer 0 bits than one block holds");
    r.sub("ciphertext", 4_000_000, 24_000_000, "ciphertexts of arbitrary plaintexts (every padding shape), cut, extended, altered or random, one-shot and through a stream; accepted iff well-formed; non-trivial: must be refused",
        || prop_oneof![4 => pspec(true), 1 => spec()].prop_flat_map(|spec| {
            let bs = spec.bs();
            let shaped = (blob(prop_oneof![0..(4 * bs), lens(bs, 5 * bs)]), prop_oneof![
                2 => (0..2 * bs + 2).prop_map(|n| { let mut v = vec![0x80]; v.resize(1 + n, 0); v }),
                2 => (any::<u8>(), 0..2 * bs + 2).prop_map(|(b, n)| { let mut v = vec![b]; v.resize(1 + n, 0); v }),
                1 => (0..2 * bs + 2).prop_map(|n| vec![0; n]),
                1 => (0..bs + 2, any::<u8>(), 0..bs).prop_map(|(n, b, k)| { let mut v = vec![0x80]; v.resize(1 + n, 0); v.push(b); let l = v.len(); v.resize(l + k, 0); v }),
                1 => (0u32..8, 0..bs).prop_map(|(b, n)| { let mut v = vec![1u8 << b]; v.resize(1 + n, 0); v }),
                1 => Just(vec![]),
            ]).prop_map(|(body, tail)| Msg { body, tail });
            let dmg = prop_oneof![6 => Just(Damage::None), 1 => (1..2 * bs + 2).prop_map(Damage::Cut), 1 => blob(1..bs + 2).prop_map(Damage::Extend), 2 => (any::<usize>(), 1u8..=255).prop_map(|(a, b)| Damage::Flip(a, b)), 1 => Just(Damage::Random)];
            (Just(spec), shaped, prop::bool::weighted(0.85), dmg, message(bs), prop::collection::vec((0..2 * bs + 2, any::<bool>()), 0..6), 0..40usize)
        }).prop_map(|(spec, plain, fill, damage, probe, pieces, dirty)| Ct { spec, plain, fill, damage, probe, pieces, dirty }), ciphertext)
        .require(&["ECB", "CBC", "CFB", "well-formed", "bad padding", "bad length"], 1000);
    r.sub("no_padding", 800_000, 4_000_000, "data of every length without padding in ECB, CBC and CFB, one-shot and stream, both directions; non-trivial: must be refused",
        || pspec(false).prop_flat_map(|spec| { let bs = spec.bs(); (Just(spec), message(bs), message(bs), cuts(bs)) }).prop_map(|(spec, msg, probe, pieces)| Lens { spec, msg, probe, pieces }), no_padding)
        .require(&["fits", "does not fit", "CFB"], 300);
    r.sub("parameters", 1_500_000, 8_000_000, "IV lengths, failing IV sources, segment sizes and counter widths, accepted iff admissible, the object working as before after each; non-trivial: something had to be refused",
        || spec().prop_flat_map(|spec| {
            let bs = spec.bs();
            let bad = prop_oneof![
                lens_near(bs).prop_map(Bad::NewIv), lens_near(bs).prop_map(Bad::SetIv), lens_near(bs).prop_map(Bad::UpdateIv), Just(Bad::UpdateFails), Just(Bad::NewFails),
                (0..40usize, 0..300usize).prop_map(|(a, b)| Bad::NewCounter(a, b)), (lens_near(bs), lens_near(8 * bs)).prop_map(|(a, b)| Bad::SetCounter(a, b)),
                prop_oneof![3 => 0..(8 * bs + 20), 1 => (0..bs + 4).prop_map(|x| 8 * x), 1 => any::<usize>(), 1 => (0usize..9).prop_map(|d| usize::MAX - d)].prop_map(Bad::Segment)
            ];
            (Just(spec), prop::collection::vec(bad, 1..7), message(bs))
        }).prop_map(|(spec, bad, probe)| Param { spec, bad, probe }), parameters)
        .require(&["NewIv", "SetIv", "UpdateIv", "UpdateFails", "NewFails", "NewCounter", "SetCounter", "Segment", "segment does not fit the padding"], 300);
    r.finish();
}
