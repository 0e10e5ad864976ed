//! Reference modes of operation (SP 800-38A) on top of a reference cipher.
use crate::block::RefCipher;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pad { None, OneZeros }

/// minimal 10* padding of the tail to a multiple of bs
pub fn pad_tail(tail: &mut Vec<u8>, bs: usize) {
    tail.push(0x80);
    while tail.len() % bs != 0 { tail.push(0); }
}
/// inverse; None when malformed (marker must lie in the last bs bytes)
pub fn unpad(v: &[u8], bs: usize) -> Option<Vec<u8>> {
    for i in 0..bs.min(v.len()) {
        let e = v[v.len() - 1 - i];
        if e == 0x80 { return Some(v[..v.len() - 1 - i].to_vec()); }
        if e != 0 { return None; }
    }
    None
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Mode { Ecb, Cbc, Cfb(usize), Ofb, Ctr }

fn xor(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b).map(|(x, y)| x ^ y).collect() }

/// plaintext after padding; None when the mode cannot take the length
fn padded(mode: &Mode, pad: Pad, bs: usize, m: &[u8]) -> Option<Vec<u8>> {
    let unit = match mode { Mode::Ecb | Mode::Cbc => bs, Mode::Cfb(s) => *s, _ => return Some(m.to_vec()) };
    let cut = m.len() - m.len() % unit;
    match pad {
        Pad::None => if cut == m.len() { Some(m.to_vec()) } else { None },
        Pad::OneZeros => {
            let mut t = m[cut..].to_vec();
            pad_tail(&mut t, bs);
            let mut v = m[..cut].to_vec();
            v.extend(t);
            Some(v)
        }
    }
}

/// counter block number i after the initial counter (big-endian, wrapping in the block)
pub fn counter_block(init: &[u8], i: u64, bs: usize) -> Vec<u8> {
    let mut v = vec![0u8; init.len().max(bs)];
    let off = v.len() - init.len();
    v[off..].copy_from_slice(init);
    let mut c = i as u128;
    for b in v.iter_mut().rev() {
        c += *b as u128;
        *b = c as u8;
        c >>= 8;
    }
    v[v.len() - bs..].to_vec()
}

/// ctr_start: index of the first counter block to use
pub fn encrypt(c: &dyn RefCipher, mode: &Mode, pad: Pad, iv: &[u8], ctr_start: u64, m: &[u8]) -> Option<Vec<u8>> {
    let bs = c.bs();
    let p = padded(mode, pad, bs, m)?;
    let mut out = vec![];
    match mode {
        Mode::Ecb => for b in p.chunks(bs) { out.extend(c.enc(b)); },
        Mode::Cbc => {
            let mut prev = iv.to_vec();
            for b in p.chunks(bs) { prev = c.enc(&xor(b, &prev)); out.extend_from_slice(&prev); }
        }
        Mode::Cfb(s) => {
            let mut sr = iv.to_vec();
            for b in p.chunks(*s) {
                let o = c.enc(&sr);
                let ct = xor(b, &o);
                sr.drain(..*s);
                sr.extend_from_slice(&ct);
                out.extend(ct);
            }
        }
        Mode::Ofb => {
            let mut o = iv.to_vec();
            for b in p.chunks(bs) { o = c.enc(&o); out.extend(xor(b, &o)); }
        }
        Mode::Ctr => {
            for (i, b) in p.chunks(bs).enumerate() {
                out.extend(xor(b, &c.enc(&counter_block(iv, ctr_start + i as u64, bs))));
            }
        }
    }
    Some(out)
}

/// plaintext before unpadding; None when the length is not admissible
pub fn decrypt_raw(c: &dyn RefCipher, mode: &Mode, iv: &[u8], ctr_start: u64, m: &[u8]) -> Option<Vec<u8>> {
    let bs = c.bs();
    let unit = match mode { Mode::Ecb | Mode::Cbc => bs, Mode::Cfb(s) => *s, _ => 1 };
    if m.len() % unit != 0 { return None; }
    let mut out = vec![];
    match mode {
        Mode::Ecb => for b in m.chunks(bs) { out.extend(c.dec(b)); },
        Mode::Cbc => {
            let mut prev = iv.to_vec();
            for b in m.chunks(bs) { out.extend(xor(&c.dec(b), &prev)); prev = b.to_vec(); }
        }
        Mode::Cfb(s) => {
            let mut sr = iv.to_vec();
            for b in m.chunks(*s) {
                out.extend(xor(b, &c.enc(&sr)));
                sr.drain(..*s);
                sr.extend_from_slice(b);
            }
        }
        _ => return encrypt(c, mode, Pad::None, iv, ctr_start, m),
    }
    Some(out)
}

pub fn decrypt(c: &dyn RefCipher, mode: &Mode, pad: Pad, iv: &[u8], ctr_start: u64, m: &[u8]) -> Option<Vec<u8>> {
    let raw = decrypt_raw(c, mode, iv, ctr_start, m)?;
    match (mode, pad) {
        (Mode::Ofb, _) | (Mode::Ctr, _) | (_, Pad::None) => Some(raw),
        _ => unpad(&raw, c.bs()),
    }
}
