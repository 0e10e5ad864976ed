//! C03: SHA-3, SHAKE, Keccak-p and the sponge against an independent implementation of FIPS 202.
use checks::*;
use rcrypto::{sha3, Digest, Keccak, KeccakSponge};
use refimpl::keccak::{bits_of, bytes_of, permute_bits, sponge as ref_sponge};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes { hash: Hash, family: bool, msg: Blob, cuts: Vec<usize>, dst: usize }

fn run_bytes(c: &Bytes) -> Res {
    let m = c.msg.bytes();
    let mut h = c.hash.make(c.family);
    ensure!(h.r().bits_len() == c.hash.bits(), "{:?} reports {} bits", c.hash, h.r().bits_len());
    match c.hash {
        Hash::Sha3(_) => ensure!(h.r().block_size() == Some(c.hash.block()), "{:?} block size {:?}", c.hash, h.r().block_size()),
        _ => ensure!(h.r().block_size().is_none(), "{:?} block size {:?}", c.hash, h.r().block_size()),
    }
    let parts = split(&m, &c.cuts);
    for p in &parts { h.d().write(p); }
    let mut out = vec![0x77; c.dst];
    h.d().checksum(&mut out);
    eq(&format!("{:?} of {} bytes in {} writes", c.hash, m.len(), parts.len()), &out, &c.hash.reference(&m))?;
    let mut l = vec![c.hash.name()];
    if let Hash::Shake { raw, out, sec } = c.hash {
        let says = if sec == 128 { let h = sha3::Shake128::new(out); (if raw { h.to_raw_shake() } else { h }).is_raw_shake() } else { let h = sha3::Shake256::new(out); (if raw { h.to_raw_shake() } else { h }).is_raw_shake() };
        ensure!(says == raw, "{:?} reports is_raw_shake {}", c.hash, says);
        if raw { l.push(s("raw")); }
        if raw && c.family { l.push(s("converted twice")); }
        if out > 8 * c.hash.block() { l.push(s("multi-block output")); }
        if out % 8 != 0 { l.push(s("partial byte output")); }
    }
    if m.len() >= c.hash.block() { l.push(s("multi-block message")); }
    okls(!m.is_empty(), l)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum W { Bit(u8), Bytes(Blob), Bits(u16, u64) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BitCase { hash: Hash, family: bool, writes: Vec<W> }

fn run_bits(c: &BitCase) -> Res {
    let mut h = c.hash.make(c.family);
    let mut m = vec![];
    for w in &c.writes {
        match w {
            W::Bit(b) => { h.bit(*b); m.push(b & 1 == 1); }
            W::Bytes(b) => { let b = b.bytes(); h.d().write(&b); m.extend(bits_of(&b, 8 * b.len())); }
            W::Bits(n, seed) => { let mut r = Sm64(*seed); for _ in 0..*n { let b = r.next() as u8; h.bit(b); m.push(b & 1 == 1); } }
        }
    }
    let mut out = vec![];
    h.d().checksum(&mut out);
    eq(&format!("{:?} of {} bits", c.hash, m.len()), &out, &c.hash.reference_bits(&m))?;
    okl(!m.is_empty(), if m.len() % 8 != 0 { "partial byte message" } else { "whole bytes" })
}

const WIDTHS: [usize; 7] = [25, 50, 100, 200, 400, 800, 1600];

fn mk_keccak(b: usize, nr: u32, named: bool) -> Result<Keccak, String> {
    Ok(match (b, named) {
        (25, true) => Keccak::keccak_25(nr), (50, true) => Keccak::keccak_50(nr), (100, true) => Keccak::keccak_100(nr), (200, true) => Keccak::keccak_200(nr),
        (400, true) => Keccak::keccak_400(nr), (800, true) => Keccak::keccak_800(nr), (1600, true) => Keccak::keccak_1600(nr),
        _ => must!(Keccak::new(b, nr), "Keccak::new({}, {})", b, nr),
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Perm { b: usize, nr: u32, named: bool, inputs: Vec<Blob>, extra: usize, dst: usize, clone: bool }

fn perm(c: &Perm) -> Res {
    let mut k = mk_keccak(c.b, c.nr, c.named)?;
    ensure!(k.widths() == c.b, "width {} reported as {}", c.b, k.widths());
    let need = (c.b + 7) / 8;
    for (i, inp) in c.inputs.iter().enumerate() {
        let mut d = Blob { len: need, pat: inp.pat.clone() }.bytes();
        let want = bytes_of(&permute_bits(&bits_of(&d, c.b), c.b, c.nr));
        d.extend(vec![0xC3; c.extra]);
        let mut out = vec![1; c.dst];
        let n = must!(k.permutation(&d, &mut out), "permutation");
        ensure!(n == c.b, "permutation reported {} bits", n);
        eq(&format!("Keccak-p[{},{}] call {}", c.b, c.nr, i), &out, &want)?;
        // too short an input is refused and leaves the object working
        ensure!(k.permutation(&d[..need - 1], &mut out).is_err(), "{} bytes accepted by width {}", need - 1, c.b);
        if c.clone { k = k.clone(); }
    }
    okls(c.nr > 0, vec![format!("width {}", c.b), s(if c.nr as usize > 12 + 2 * (c.b / 25).trailing_zeros() as usize { "more than the standard rounds" } else { "rounds" })])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sponge { b: usize, nr: u32, rate: usize, via: bool, msgs: Vec<(Blob, usize, usize)> }

fn sponge(c: &Sponge) -> Res {
    let k = mk_keccak(c.b, c.nr, false)?;
    let mut sp = must!(if c.via { k.sponge(c.rate) } else { KeccakSponge::new(k, c.rate) }, "rate {}", c.rate);
    for (m, bits, out) in &c.msgs {
        let mut m = m.clone();
        let bits = (*bits).min(10 * c.rate);
        m.len = m.len.max((bits + 7) / 8);
        let d = m.bytes();
        let out_bits = (*out).min(10 * c.rate);
        let mut o = vec![];
        sp.sponge(&d, bits, out_bits, &mut o);
        eq(&format!("sponge[{},{}] rate {} message {} bits output {} bits", c.b, c.nr, c.rate, bits, out_bits), &o, &bytes_of(&ref_sponge(&bits_of(&d, bits), c.b, c.nr, c.rate, out_bits)))?;
    }
    okls(c.nr > 0, vec![format!("width {}", c.b)])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad { b: usize, nr: u32, rate: usize, via: bool }

fn main() {
    let mut r = Run::new("C03");
    r.assume("reference SHA-3/SHAKE agree with hashlib; reference Keccak-p agrees with the published zero-state vectors of widths 200 and 1600 (tools/validate_refs.py)");
    r.sub("sha3", 200_000, 800_000, "SHA3-224/256/384/512, any length to 700 bytes, split writes; non-trivial: message not empty",
        || (sha3_hash(), any::<bool>(), blob(prop_oneof![lens(72, 500), lens(104, 500), lens(136, 700), lens(144, 700)]), cuts(72), prop_oneof![Just(0usize), 0..80usize])
            .prop_map(|(hash, family, msg, cuts, dst)| Bytes { hash, family, msg, cuts, dst }), run_bytes).require(&["multi-block message"], 100);
    r.sub("shake", 200_000, 800_000, "SHAKE/RawSHAKE with any output length 0..5000 bits; non-trivial: message not empty",
        || (shake_hash(), any::<bool>(), blob(prop_oneof![lens(136, 500), lens(168, 500)]), cuts(100), prop_oneof![Just(0usize), 0..80usize])
            .prop_map(|(hash, family, msg, cuts, dst)| Bytes { hash, family, msg, cuts, dst }), run_bytes).require(&["raw", "converted twice", "multi-block output", "partial byte output", "Shake128", "Shake256"], 100);
    r.sub("long_messages", 160, 2_000, "messages of 8 KB to 70 KB through every function; non-trivial: message not empty",
        || (prop_oneof![sha3_hash(), shake_hash()], any::<bool>(), blob(prop_oneof![1 => 8_000..70_000usize, 2 => 65_400..66_000usize]), prop::collection::vec(0..20_000usize, 0..8))
            .prop_map(|(hash, family, msg, cuts)| Bytes { hash, family, msg, cuts, dst: 0 }), run_bytes);
    r.sub("long_outputs", 160, 2_000, "SHAKE outputs of up to 75 KB; non-trivial: message not empty",
        || (prop_oneof![Just(128usize), Just(256)], prop_oneof![1 => 5_000..600_000usize, 2 => 65_000..67_000usize, 2 => 523_000..527_000usize], any::<bool>(), blob(0..400usize))
            .prop_map(|(sec, out, raw, msg)| Bytes { hash: Hash::Shake { sec, out, raw }, family: false, msg, cuts: vec![], dst: 0 }), run_bytes);
    r.sub("bit_writes", 120_000, 400_000, "bit writes (only the least bit counts) mixed with byte writes; non-trivial: message not empty",
        || (sha3_hash(), any::<bool>(), prop::collection::vec(prop_oneof![4 => any::<u8>().prop_map(W::Bit), 2 => blob(0..40usize).prop_map(W::Bytes), 2 => (0u16..1300, any::<u64>()).prop_map(|(a, b)| W::Bits(a, b))], 0..10))
            .prop_map(|(hash, family, writes)| BitCase { hash, family, writes }), run_bits).require(&["partial byte message"], 100);
    r.sub("permutation", 100_000, 400_000, "Keccak-p[b,nr] of all seven widths and 0..300 rounds, several calls per object, longer inputs; too short ones refused; non-trivial: at least one round",
        || (prop::sample::select(&WIDTHS[..]), prop_oneof![6 => 0u32..30, 1 => 0u32..300, 2 => (0u32..7).prop_map(|l| 12 + 2 * l)], any::<bool>(), prop::collection::vec(blob(Just(0usize)), 1..4), prop_oneof![Just(0usize), 0..20usize], 0..10usize, any::<bool>())
            .prop_map(|(b, nr, named, inputs, extra, dst, clone)| Perm { b, nr, named, inputs, extra, dst, clone }), perm).require(&["more than the standard rounds", "width 25", "width 1600"], 100);
    r.sub("sponge", 120_000, 400_000, "sponge of every width, round count 0..30, rate 1..width-1, message and output bit lengths to ten blocks, several messages per object; non-trivial: at least one round",
        || prop::sample::select(&WIDTHS[..]).prop_flat_map(|b| (Just(b), prop_oneof![0u32..30, (0u32..7).prop_map(|l| 12 + 2 * l)], prop_oneof![1..b, Just(1usize), Just(b - 1), Just(b / 2)], any::<bool>(),
            prop::collection::vec((blob(0..30usize), prop_oneof![0..60usize, 0..3 * b], prop_oneof![0..60usize, 0..3 * b]), 1..3)))
            .prop_map(|(b, nr, rate, via, msgs)| Sponge { b, nr, rate, via, msgs }), sponge).require(&["width 25", "width 1600"], 100);
    r.sub("parameters", 60_000, 200_000, "widths and rates that are not admissible are refused, admissible ones accepted; non-trivial: refused",
        || (prop_oneof![2 => 0usize..1700, 3 => prop::sample::select(&WIDTHS[..])], 0u32..30, prop_oneof![2 => 0usize..1700, 1 => Just(0usize), 2 => prop::sample::select(&WIDTHS[..]), 1 => any::<usize>()], any::<bool>())
            .prop_map(|(b, nr, rate, via)| Bad { b, nr, rate, via }),
        |c| {
            let k = Keccak::new(c.b, c.nr);
            ensure!(k.is_ok() == WIDTHS.contains(&c.b), "width {} accepted: {}", c.b, k.is_ok());
            if let Ok(k) = k {
                let want = c.rate > 0 && c.rate < c.b;
                // an inadmissible rate may be as large as one likes, so ask before building anything from it
                let got = if c.via { k.sponge(c.rate).is_ok() } else { KeccakSponge::new(k, c.rate).is_ok() };
                ensure!(got == want, "width {} rate {} accepted: {}", c.b, c.rate, got);
                return ok(!want);
            }
            ok(true)
        });
    let _ = |d: &dyn Digest| d.bits_len();
    r.finish();
}
