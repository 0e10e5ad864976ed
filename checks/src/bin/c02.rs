//! C02: MD5, SHA-1, SHA-2, SM3 against independent implementations, over message splits.
use checks::*;
use refimpl::hash::Stream;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { hash: Hash, family: bool, named: bool, msg: Blob, cuts: Vec<usize>, dst: usize }

fn run(c: &Case) -> Res {
    let m = c.msg.bytes();
    let mut h = if c.named { c.hash.make_named(c.family).unwrap_or_else(|| c.hash.make(c.family)) } else { c.hash.make(c.family) };
    ensure!(h.r().bits_len() == c.hash.bits(), "{}: reports {} bits", c.hash.name(), h.r().bits_len());
    ensure!(h.r().block_size() == Some(c.hash.block()), "{}: block size {:?}", c.hash.name(), h.r().block_size());
    let parts = split(&m, &c.cuts);
    for p in &parts { h.d().write(p); }
    let mut out = vec![0x77; c.dst];
    h.d().checksum(&mut out);
    eq(&format!("{:?} of {} bytes in {} writes", c.hash, m.len(), parts.len()), &out, &c.hash.reference(&m))?;
    ensure!(out.len() == (h.r().bits_len() + 7) / 8, "{:?}: {} bytes returned, {} bits reported", c.hash, out.len(), h.r().bits_len());
    let mut l = vec![c.hash.name()];
    if parts.len() > 1 { l.push(s("split")); }
    okls(!m.is_empty(), l)
}

/// long messages: `full` writes of a chunk, then a tail
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long { hash: Hash, family: bool, chunk: Blob, total: u64 }

fn long(c: &Long) -> Res {
    let chunk = c.chunk.bytes();
    let mut h = c.hash.make(c.family);
    let mut r = Stream::new(c.hash.alg().unwrap());
    let mut left = c.total;
    while left > 0 {
        let n = left.min(chunk.len() as u64) as usize;
        h.d().write(&chunk[..n]);
        r.update(&chunk[..n]);
        left -= n as u64;
    }
    let mut out = vec![];
    h.d().checksum(&mut out);
    eq(&format!("{:?} of {} bytes", c.hash, c.total), &out, &r.finish())?;
    okl(true, &c.hash.name())
}

fn main() {
    let mut r = Run::new("C02");
    let portable = r.part().is_some();
    if !portable {
        if let Ok(p) = std::env::var("VERIF_PEER") { r.peer("portable", &p); }
    }
    r.assume("reference hashes agree with hashlib/OpenSSL on random messages of 0..300 and larger lengths (tools/validate_refs.py)");
    let hash = || if std::env::args().any(|a| a == "--part") { prop_oneof![3 => Just(Hash::Md5).boxed(), 1 => md_hash()].boxed() } else { md_hash() };
    let k = if portable { 4 } else { 1 };
    r.sub("split", 6_000_000 / k, 16_000_000 / k, "message of random/edge content and any length to 2000 bytes cut into writes (also empty ones); non-trivial: message not empty",
        move || (hash(), any::<bool>(), any::<bool>(), blob(prop_oneof![4 => lens(64, 600), 3 => lens(128, 1200), 1 => 0..2000usize]), cuts(64), prop_oneof![Just(0usize), 0..150usize])
            .prop_map(|(hash, family, named, msg, cuts, dst)| Case { hash, family, named, msg, cuts, dst }), run)
        .require(&["split", "Md5"], 1000);
    r.sub("sha512t", 300_000 / k, 2_000_000 / k, "every t in 1..511 except 384, bits beyond t zero; non-trivial: message not empty",
        || (any_t().prop_map(Hash::Sha512t), any::<bool>(), any::<bool>(), blob(lens(128, 700)), cuts(128), 0..100usize)
            .prop_map(|(hash, family, named, msg, cuts, dst)| Case { hash, family, named, msg, cuts, dst }), run);
    r.sub("medium", 3200 / k, 16_000 / k, "messages of 2 KB to 1 MB (lengths near powers of two too) in large writes; non-trivial: all",
        move || (hash(), any::<bool>(), blob(prop_oneof![1..5000usize, 1..300_000usize, Just(65536usize)]),
            prop_oneof![2_000u64..1_000_000, (11u32..20, 0u64..9).prop_map(|(k, d)| (1u64 << k) + d - 4)])
            .prop_map(|(hash, family, chunk, total)| Long { hash, family, chunk, total }), long);
    // lengths where 32-bit bit counters and 32-bit byte counters would wrap
    let top = if r.thorough() { 33u32 } else { 29 };
    let all = [("md5", Hash::Md5), ("sha1", Hash::Sha1), ("sha256", Hash::Sha256), ("sha384", Hash::Sha384), ("sha512", Hash::Sha512), ("sm3", Hash::Sm3)];
    for (name, hash) in all {
        if portable && hash != Hash::Md5 { continue; }
        r.sub(&format!("huge_{}", name), 2, 6, "messages longer than 2^32 bits (thorough: also 2^32 bytes and more); non-trivial: all",
            move || (any::<bool>(), blob(60_000usize..200_000), prop_oneof![2 => Just(29u32), 1 => (29u32..=top)], 0u64..300)
                .prop_map(move |(family, chunk, k, d)| Long { hash, family, chunk, total: (1u64 << k) + d }), long);
    }
    r.finish();
}
