//! Reference DSA (FIPS 186-4).
use crate::bn::Bn;

#[derive(Clone, Debug)]
pub struct Params { pub p: Bn, pub q: Bn, pub g: Bn }

pub fn hash_to_int(q: &Bn, h: &[u8]) -> Bn {
    let z = Bn::from_be(h);
    let nb = q.bits();
    if h.len() * 8 > nb { z.shr(h.len() * 8 - nb) } else { z }
}

impl Params {
    /// random parameters of the given sizes
    pub fn generate(pbits: usize, qbits: usize, rng: &mut crate::Sm64) -> Params {
        let one = Bn::one();
        let (p, q) = 'both: loop {
            let q = Bn::random_prime(qbits, rng);
            for _ in 0..8 * pbits {
                let mut x = Bn::from_be(&rng.bytes((pbits + 7) / 8)).rem(&Bn::pow2(pbits));
                x.set_bit(pbits - 1);
                let c = x.rem(&q.shl(1));
                if x.add(&one) < c { continue; }
                let p = x.add(&one).sub(&c);
                if p.bits() == pbits && p.is_prime() { break 'both (p, q); }
            }
        };
        let e = p.sub(&one).divrem(&q).0;
        let mut h = Bn::from_u64(2);
        let g = loop {
            let g = h.modpow(&e, &p);
            if !g.is_one() && !g.is_zero() { break g; }
            h = h.add(&one);
        };
        Params { p, q, g }
    }
    pub fn verify(&self, y: &Bn, h: &[u8], r: &Bn, s: &Bn) -> bool {
        if r.is_zero() || s.is_zero() || *r >= self.q || *s >= self.q { return false; }
        let w = match s.modinv(&self.q) { Some(w) => w, None => return false };
        let u1 = hash_to_int(&self.q, h).mulmod(&w, &self.q);
        let u2 = r.mulmod(&w, &self.q);
        self.g.modpow(&u1, &self.p).mulmod(&y.modpow(&u2, &self.p), &self.p).rem(&self.q) == *r
    }
    pub fn sign(&self, x: &Bn, k: &Bn, h: &[u8]) -> Option<(Bn, Bn)> {
        let r = self.g.modpow(k, &self.p).rem(&self.q);
        let s = k.modinv(&self.q)?.mulmod(&hash_to_int(&self.q, h).add(&r.mul(x)), &self.q);
        if r.is_zero() || s.is_zero() { None } else { Some((r, s)) }
    }
}
