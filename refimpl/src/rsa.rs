//! Reference RSA encodings of RFC 8017.
use crate::bn::Bn;

pub type H<'a> = &'a dyn Fn(&[u8]) -> Vec<u8>;

pub fn mgf1(h: H, seed: &[u8], len: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut c = 0u32;
    while out.len() < len {
        let mut s = seed.to_vec();
        s.extend_from_slice(&c.to_be_bytes());
        out.extend(h(&s));
        c += 1;
    }
    out.truncate(len);
    out
}
fn xor(a: &mut [u8], b: &[u8]) { for (x, y) in a.iter_mut().zip(b) { *x ^= y; } }

/// EME-OAEP from its parts: DB is given, so malformed blocks can be built as well
pub fn oaep_block(h: H, first: u8, seed: &[u8], db: &[u8]) -> Vec<u8> {
    let mut mdb = db.to_vec();
    xor(&mut mdb, &mgf1(h, seed, db.len()));
    let mut ms = seed.to_vec();
    xor(&mut ms, &mgf1(h, &mdb, seed.len()));
    let mut em = vec![first];
    em.extend(ms);
    em.extend(mdb);
    em
}
pub fn oaep_encode(h: H, hlen: usize, k: usize, label: &[u8], msg: &[u8], seed: &[u8]) -> Option<Vec<u8>> {
    if k < 2 * hlen + 2 || msg.len() > k - 2 * hlen - 2 { return None; }
    let mut db = h(label);
    db.resize(k - hlen - 1 - msg.len() - 1, 0);
    db.push(1);
    db.extend_from_slice(msg);
    Some(oaep_block(h, 0, seed, &db))
}
pub fn oaep_decode(h: H, hlen: usize, k: usize, label: &[u8], em: &[u8]) -> Option<Vec<u8>> {
    if em.len() != k || k < 2 * hlen + 2 || em[0] != 0 { return None; }
    let mut seed = em[1..1 + hlen].to_vec();
    let mut db = em[1 + hlen..].to_vec();
    let m = mgf1(h, &db, hlen);
    xor(&mut seed, &m);
    let m = mgf1(h, &seed, db.len());
    xor(&mut db, &m);
    if db[..hlen] != h(label)[..] { return None; }
    let rest = &db[hlen..];
    let i = rest.iter().position(|&x| x != 0)?;
    if rest[i] != 1 { return None; }
    Some(rest[i + 1..].to_vec())
}
pub fn pkcs1_decode(k: usize, em: &[u8]) -> Option<Vec<u8>> {
    if em.len() != k || k < 11 || em[0] != 0 || em[1] != 2 { return None; }
    let i = em[2..].iter().position(|&x| x == 0)?;
    if i < 8 { return None; }
    Some(em[2 + i + 1..].to_vec())
}
pub fn pkcs1_sig_block(k: usize, prefix: &[u8], hash: &[u8]) -> Option<Vec<u8>> {
    let tlen = prefix.len() + hash.len();
    if k < tlen + 11 { return None; }
    let mut em = vec![0, 1];
    em.resize(k - tlen - 1, 0xff);
    em.push(0);
    em.extend_from_slice(prefix);
    em.extend_from_slice(hash);
    Some(em)
}
/// DER DigestInfo prefixes of RFC 8017
pub fn digest_prefix(name: &str) -> Vec<u8> {
    crate::unhex(match name {
        "md5" => "3020300c06082a864886f70d020505000410",
        "sha1" => "3021300906052b0e03021a05000414",
        "sha224" => "302d300d06096086480165030402040500041c",
        "sha256" => "3031300d060960864801650304020105000420",
        "sha384" => "3041300d060960864801650304020205000430",
        "sha512" => "3051300d060960864801650304020305000440",
        _ => panic!(),
    })
}
/// EMSA-PSS-ENCODE with an explicit salt; embits = modBits - 1
pub fn pss_encode(h: H, hlen: usize, embits: usize, mhash: &[u8], salt: &[u8]) -> Option<Vec<u8>> {
    let emlen = (embits + 7) / 8;
    if emlen < hlen + salt.len() + 2 { return None; }
    let mut m = vec![0u8; 8];
    m.extend_from_slice(mhash);
    m.extend_from_slice(salt);
    let hh = h(&m);
    let mut db = vec![0u8; emlen - salt.len() - hlen - 2];
    db.push(1);
    db.extend_from_slice(salt);
    Some(pss_block(h, embits, &db, &hh, 0xbc))
}
/// the masked block from DB, H and the trailer (malformed ones possible)
pub fn pss_block(h: H, embits: usize, db: &[u8], hh: &[u8], trailer: u8) -> Vec<u8> {
    let emlen = (embits + 7) / 8;
    let mut db = db.to_vec();
    let m = mgf1(h, hh, db.len());
    xor(&mut db, &m);
    let z = 8 * emlen - embits;
    db[0] &= (0xffu16 >> z) as u8;
    db.extend_from_slice(hh);
    db.push(trailer);
    db
}
/// EMSA-PSS-VERIFY; em is the encoded message of emlen bytes
pub fn pss_verify(h: H, hlen: usize, embits: usize, mhash: &[u8], slen: usize, em: &[u8]) -> bool {
    let emlen = (embits + 7) / 8;
    if em.len() != emlen || emlen < hlen + slen + 2 || em[emlen - 1] != 0xbc { return false; }
    let z = 8 * emlen - embits;
    let mut db = em[..emlen - hlen - 1].to_vec();
    let hh = &em[emlen - hlen - 1..emlen - 1];
    if z > 0 && db[0] >> (8 - z) != 0 { return false; }
    let m = mgf1(h, hh, db.len());
    xor(&mut db, &m);
    db[0] &= (0xffu16 >> z) as u8;
    let ps = emlen - hlen - slen - 2;
    if db[..ps].iter().any(|&x| x != 0) || db[ps] != 1 { return false; }
    let mut m = vec![0u8; 8];
    m.extend_from_slice(mhash);
    m.extend_from_slice(&db[ps + 1..]);
    h(&m) == hh
}

/// factor n given e*d = 1 mod lambda; returns the prime factors (two-prime or multi-prime)
pub fn factor(n: &Bn, e: &Bn, d: &Bn, rng: &mut crate::Sm64) -> Option<Vec<Bn>> {
    let one = Bn::one();
    let mut k = e.mul(d).sub(&one);
    if k.is_zero() { return None; }
    let mut t = 0;
    while !k.is_odd() { k = k.shr(1); t += 1; }
    let mut todo = vec![n.clone()];
    let mut done = vec![];
    while let Some(m) = todo.pop() {
        if m.is_prime() { done.push(m); continue; }
        let r = m.root(2);
        if r.mul(&r) == m { todo.push(r.clone()); todo.push(r); continue; }
        let mut found = None;
        'a: for _ in 0..128 {
            let g = Bn::random_below(&m, rng);
            if g.is_zero() || g.is_one() { continue; }
            let mut x = g.modpow(&k, &m);
            for _ in 0..=t {
                let y = x.mulmod(&x, &m);
                if y.is_one() && !x.is_one() && x != m.sub(&one) {
                    found = Some(x.sub(&one).gcd(&m));
                    break 'a;
                }
                x = y;
            }
        }
        let f = found?;
        if f.is_one() || f == m { return None; }
        todo.push(m.divrem(&f).0);
        todo.push(f);
    }
    done.sort();
    Some(done)
}
