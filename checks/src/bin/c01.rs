//! C01: block ciphers against independent implementations of the standards.
use checks::*;
use rcrypto::{Cipher, AES, SM4};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Single { kind: Kind, key: Pat, rel: u8, block: Pat, dst: usize, alt: bool }

/// Triple-DES keys with equal parts are their own class
fn key_of(kind: Kind, key: &Pat, rel: u8) -> Vec<u8> {
    let mut k = Blob { len: kind.key_len(), pat: key.clone() }.bytes();
    if kind == Kind::Tdes {
        let (a, b) = (k[..8].to_vec(), k[8..16].to_vec());
        match rel {
            1 => k[8..16].copy_from_slice(&a),
            2 => k[16..].copy_from_slice(&b),
            3 => k[16..].copy_from_slice(&a),
            4 => { k[8..16].copy_from_slice(&a); k[16..].copy_from_slice(&a) }
            _ => {}
        }
    }
    k
}

fn single(c: &Single) -> Res {
    let key = key_of(c.kind, &c.key, c.rel);
    let (lc, rc) = (lib_cipher(c.kind, &key, c.alt), ref_cipher(c.kind, &key));
    let bs = c.kind.bs();
    ensure!(lc.block_size() == Some(bs), "{} block_size {:?}", c.kind.name(), lc.block_size());
    let b = Blob { len: bs, pat: c.block.clone() }.bytes();
    let mut dst = vec![0xA5u8; c.dst];
    let n = must!(lc.encrypt(&mut dst, &b), "encrypt");
    let want = rc.enc(&b);
    eq(&format!("{} encrypt", c.kind.name()), &dst, &want)?;
    ensure!(n == bs, "{} encrypt reported {} bytes", c.kind.name(), n);
    let n = must!(lc.decrypt(&mut dst, &want), "decrypt");
    eq(&format!("{} decrypt(encrypt)", c.kind.name()), &dst, &b)?;
    ensure!(n == bs, "{} decrypt reported {} bytes", c.kind.name(), n);
    let mut dst = vec![0x5Au8; c.dst];
    must!(lc.decrypt(&mut dst, &b), "decrypt");
    eq(&format!("{} decrypt", c.kind.name()), &dst, &rc.dec(&b))?;
    okl(key.iter().any(|&x| x != 0), c.kind.name())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Enc(Pat), Dec(Pat), Bad(bool, Blob), Clone, Next, Chain(bool, u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist { kind: Kind, key: Pat, rel: u8, key2: Pat, ops: Vec<Op>, repeat: u16 }

fn hist(h: &Hist) -> Res {
    let key = key_of(h.kind, &h.key, h.rel);
    let key2 = key_of(h.kind, &h.key2, 0);
    let bs = h.kind.bs();
    let refs = [ref_cipher(h.kind, &key), ref_cipher(h.kind, &key2)];
    // two unrelated objects and their clones, all sharing one output buffer
    let mut objs = vec![(lib_cipher(h.kind, &key, false), 0usize), (lib_cipher(h.kind, &key2, true), 1)];
    let mut cur = 0;
    let mut dst = vec![];
    let mut labels = vec![s(h.kind.name())];
    let mut calls = 0;
    for rep in 0..=h.repeat {
        for (i, op) in h.ops.iter().enumerate() {
            let (c, k) = (&objs[cur].0, objs[cur].1);
            match op {
                Op::Enc(p) | Op::Dec(p) => {
                    let mut b = Blob { len: bs, pat: p.clone() }.bytes();
                    for (j, x) in rep.to_be_bytes().iter().enumerate() { b[j] ^= x; }
                    let e = matches!(op, Op::Enc(_));
                    let n = must!(if e { c.encrypt(&mut dst, &b) } else { c.decrypt(&mut dst, &b) }, "op {}", i);
                    let want = if e { refs[k].enc(&b) } else { refs[k].dec(&b) };
                    eq(&format!("{} round {} op {} {}", h.kind.name(), rep, i, if e { "encrypt" } else { "decrypt" }), &dst, &want)?;
                    ensure!(n == bs, "reported {} bytes", n);
                    calls += 1;
                }
                Op::Bad(e, b) => {
                    let b = b.bytes();
                    if b.len() == bs { continue; }
                    let mut d2 = dst.clone();
                    let r = if *e { c.encrypt(&mut d2, &b) } else { c.decrypt(&mut d2, &b) };
                    ensure!(r.is_err(), "{} took a block of {} bytes", h.kind.name(), b.len());
                    if rep == 0 { labels.push(s("bad block")); }
                }
                Op::Clone => if objs.len() < 6 { let n = (objs[cur].0.clone(), k); objs.push(n); if rep == 0 { labels.push(s("clone")); } },
                Op::Next => cur = (cur + 1) % objs.len(),
                Op::Chain(e, n) => {
                    // feed the output back in
                    let mut b = vec![*n; bs];
                    let mut w = b.clone();
                    for _ in 0..*n {
                        must!(if *e { c.encrypt(&mut dst, &b) } else { c.decrypt(&mut dst, &b) }, "chain");
                        b = dst.clone();
                        w = if *e { refs[k].enc(&w) } else { refs[k].dec(&w) };
                        calls += 1;
                    }
                    eq("chained calls", &b, &w)?;
                }
            }
        }
    }
    okls(calls >= 2, labels)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeyLen { sm4: bool, key: Blob }

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        5 => pat().prop_map(Op::Enc), 5 => pat().prop_map(Op::Dec),
        2 => (any::<bool>(), blob(prop_oneof![0..40usize, 0..300usize])).prop_map(|(a, b)| Op::Bad(a, b)),
        2 => Just(Op::Clone), 3 => Just(Op::Next), 1 => (any::<bool>(), any::<u8>()).prop_map(|(a, b)| Op::Chain(a, b)),
    ].boxed()
}

fn main() {
    let mut r = Run::new("C01");
    if r.part().is_none() {
        if let Ok(p) = std::env::var("VERIF_PEER") { r.peer("portable", &p); }
    }
    r.assume("reference ciphers agree with OpenSSL on random keys and blocks (tools/validate_refs.py)");
    r.sub("single", 8_000_000, 20_000_000, "random/edge key and block, all six ciphers; both directions compared with the reference; non-trivial: key not all zero",
        || (real_kind(), pat(), 0u8..8, pat(), prop_oneof![Just(0usize), 0..40usize], any::<bool>()).prop_map(|(kind, key, rel, block, dst, alt)| Single { kind, key, rel, block, dst, alt }),
        single).require(&["AES-128", "AES-192", "AES-256", "DES", "TDES", "SM4"], 1000);
    r.sub("history", 500_000, 1_000_000, "sequences of encrypt/decrypt/wrong-length/clone calls over two keys and their clones sharing one buffer; non-trivial: at least two successful calls",
        || (real_kind(), pat(), 0u8..8, pat(), prop::collection::vec(op(), 1..14), Just(0u16)).prop_map(|(kind, key, rel, key2, ops, repeat)| Hist { kind, key, rel, key2, ops, repeat }),
        hist).require(&["clone", "bad block"], 100);
    r.sub("long_history", 8_000, 20_000, "the same sequences repeated hundreds of times on the same objects; non-trivial: at least two successful calls",
        || (real_kind(), pat(), 0u8..8, pat(), prop::collection::vec(op(), 2..8), 50u16..500).prop_map(|(kind, key, rel, key2, ops, repeat)| Hist { kind, key, rel, key2, ops, repeat }),
        hist);
    r.sub("key_length", 100_000, 200_000, "key slices of every length for AES and SM4: refused unless a standard length; non-trivial: length refused",
        || (any::<bool>(), blob(prop_oneof![6 => 0..70usize, 1 => 0..2000usize])).prop_map(|(sm4, key)| KeyLen { sm4, key }),
        |k| {
            let b = k.key.bytes();
            let n = b.len();
            let (got, want) = if k.sm4 { (SM4::from_slice(&b).is_ok(), n == 16) } else { (AES::new(b).is_ok(), n == 16 || n == 24 || n == 32) };
            ensure!(got == want, "key of {} bytes accepted: {}", n, got);
            ok(!want)
        });
    r.finish();
}
