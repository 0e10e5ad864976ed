//! Reference short-Weierstrass curves with a = -3, complete projective formulas
//! (Renes, Costello, Batina 2015, algorithm 4) in Montgomery form.
use crate::bn::{Bn, Mont};

pub struct Curve { pub name: &'static str, pub bits: usize, pub p: Bn, pub n: Bn, pub b: Bn, pub gx: Bn, pub gy: Bn, f: Mont, bm: Vec<u64> }

/// affine point, None = infinity
pub type Pt = Option<(Bn, Bn)>;

#[derive(Clone)]
struct Proj { x: Vec<u64>, y: Vec<u64>, z: Vec<u64> }

impl Curve {
    fn mk(name: &'static str, bits: usize, p: Bn, n: &str, b: &str, gx: &str, gy: &str) -> Curve {
        let f = Mont::new(&p);
        let b = Bn::from_hex(b);
        let bm = f.to(&b);
        Curve { name, bits, p, n: Bn::from_hex(n), b, gx: Bn::from_hex(gx), gy: Bn::from_hex(gy), f, bm }
    }
    pub fn p224() -> Curve {
        Curve::mk("P-224", 224, Bn::pow2(224).sub(&Bn::pow2(96)).add(&Bn::one()),
            "ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d",
            "b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4",
            "b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21",
            "bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34")
    }
    pub fn p256() -> Curve {
        Curve::mk("P-256", 256, Bn::pow2(256).sub(&Bn::pow2(224)).add(&Bn::pow2(192)).add(&Bn::pow2(96)).sub(&Bn::one()),
            "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
            "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
            "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
            "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")
    }
    pub fn p384() -> Curve {
        Curve::mk("P-384", 384, Bn::pow2(384).sub(&Bn::pow2(128)).sub(&Bn::pow2(96)).add(&Bn::pow2(32)).sub(&Bn::one()),
            "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
            "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
            "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
            "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f")
    }
    pub fn p521() -> Curve {
        Curve::mk("P-521", 521, Bn::pow2(521).sub(&Bn::one()),
            "01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409",
            "0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00",
            "00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66",
            "011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650")
    }
    pub fn get(i: usize) -> &'static Curve {
        static S: std::sync::OnceLock<Vec<Curve>> = std::sync::OnceLock::new();
        &S.get_or_init(|| vec![Curve::p224(), Curve::p256(), Curve::p384(), Curve::p521()])[i]
    }
    pub fn g(&self) -> Pt { Some((self.gx.clone(), self.gy.clone())) }
    pub fn on_curve(&self, x: &Bn, y: &Bn) -> bool {
        if *x >= self.p || *y >= self.p { return false; }
        y.mulmod(y, &self.p) == self.rhs(x)
    }
    /// x^3 - 3x + b mod p
    pub fn rhs(&self, x: &Bn) -> Bn {
        let p = &self.p;
        x.mulmod(x, p).mulmod(x, p).submod(&x.mul(&Bn::from_u64(3)), p).addmod(&self.b, p)
    }
    /// a square root modulo p if one exists
    pub fn sqrt(&self, a: &Bn) -> Option<Bn> {
        let p = &self.p;
        let a = a.rem(p);
        if a.is_zero() { return Some(a); }
        let one = Bn::one();
        // Tonelli-Shanks
        let mut q = p.sub(&one);
        let mut s = 0;
        while !q.is_odd() { q = q.shr(1); s += 1; }
        let half = p.sub(&one).shr(1);
        if !a.modpow(&half, p).is_one() { return None; }
        if s == 1 { return Some(a.modpow(&p.add(&one).shr(2), p)); }
        let mut z = Bn::from_u64(2);
        while z.modpow(&half, p).is_one() { z = z.add(&one); }
        let mut m = s;
        let mut c = z.modpow(&q, p);
        let mut t = a.modpow(&q, p);
        let mut r = a.modpow(&q.add(&one).shr(1), p);
        while !t.is_one() {
            let mut i = 0;
            let mut x = t.clone();
            while !x.is_one() { x = x.mulmod(&x, p); i += 1; }
            let mut b = c.clone();
            for _ in 0..(m - i - 1) { b = b.mulmod(&b, p); }
            m = i;
            c = b.mulmod(&b, p);
            t = t.mulmod(&c, p);
            r = r.mulmod(&b, p);
        }
        Some(r)
    }
    /// the first point with x >= start (y parity chosen)
    pub fn point_from_x(&self, start: &Bn, odd: bool) -> (Bn, Bn) {
        let mut x = start.rem(&self.p);
        loop {
            if let Some(y) = self.sqrt(&self.rhs(&x)) {
                let y = if y.is_odd() == odd || y.is_zero() { y } else { self.p.sub(&y) };
                return (x, y);
            }
            x = x.add(&Bn::one()).rem(&self.p);
        }
    }
    /// a root of t^3 - 3t + b - y^2, if there is exactly one or there are three
    pub fn x_from_y(&self, y: &Bn) -> Option<Bn> {
        let p = &self.p;
        let c = self.b.submod(&y.mulmod(y, p), p);
        let three = Bn::from_u64(3);
        // polynomials of degree at most two modulo the cubic; t^3 = 3t - c
        let mul = |a: &[Bn; 3], d: &[Bn; 3]| -> [Bn; 3] {
            let m = |i: usize, j: usize| a[i].mul(&d[j]);
            let e4 = m(2, 2).rem(p);
            let e3 = m(1, 2).add(&m(2, 1)).rem(p);
            let r0 = m(0, 0).rem(p).submod(&e3.mulmod(&c, p), p);
            let r1 = m(0, 1).add(&m(1, 0)).add(&e3.mul(&three)).rem(p).submod(&e4.mulmod(&c, p), p);
            let r2 = m(0, 2).add(&m(1, 1)).add(&m(2, 0)).add(&e4.mul(&three)).rem(p);
            [r0, r1, r2]
        };
        let pow = |b: [Bn; 3], e: &Bn| {
            let mut r = [Bn::one(), Bn::zero(), Bn::zero()];
            for i in (0..e.bits()).rev() { r = mul(&r, &r); if e.bit(i) { r = mul(&r, &b); } }
            r
        };
        // the greatest common divisor of the cubic and a polynomial of degree at most two, monic
        let gcd = |g: &[Bn; 3]| -> Vec<Bn> {
            let mut a = vec![c.clone(), Bn::zero().submod(&three, p), Bn::zero(), Bn::one()];
            let mut d = g.to_vec();
            let trim = |v: &mut Vec<Bn>| while v.last().map_or(false, |x| x.is_zero()) { v.pop(); };
            trim(&mut d);
            while !d.is_empty() {
                let li = d.last().unwrap().modinv(p).unwrap();
                while a.len() >= d.len() {
                    let q = a.last().unwrap().mulmod(&li, p);
                    let off = a.len() - d.len();
                    for i in 0..d.len() { a[off + i] = a[off + i].submod(&q.mulmod(&d[i], p), p); }
                    a.pop();
                    trim(&mut a);
                    if a.is_empty() { break; }
                }
                std::mem::swap(&mut a, &mut d);
            }
            let li = a.last().unwrap().modinv(p).unwrap();
            a.iter().map(|x| x.mulmod(&li, p)).collect()
        };
        let t = [Bn::zero(), Bn::one(), Bn::zero()];
        let mut h = pow(t, p);
        h[1] = h[1].submod(&Bn::one(), p);
        let g = gcd(&h);
        let neg = |x: &Bn| Bn::zero().submod(x, p);
        match g.len() {
            2 => Some(neg(&g[0])),
            4 => {
                let e = p.sub(&Bn::one()).shr(1);
                for k in 1..200u64 {
                    let mut u = pow([Bn::from_u64(k), Bn::one(), Bn::zero()], &e);
                    u[0] = u[0].submod(&Bn::one(), p);
                    let g = gcd(&u);
                    if g.len() == 2 { return Some(neg(&g[0])); }
                    // the three roots add up to zero
                    if g.len() == 3 { return Some(g[1].clone()); }
                }
                None
            }
            _ => None,
        }
    }
    /// the first point with y >= start
    pub fn point_from_y(&self, start: &Bn) -> (Bn, Bn) {
        let mut y = start.rem(&self.p);
        loop {
            if let Some(x) = self.x_from_y(&y) { return (x, y); }
            y = y.add(&Bn::one()).rem(&self.p);
        }
    }
    fn inf(&self) -> Proj { Proj { x: self.f.zero(), y: self.f.one(), z: self.f.zero() } }
    fn lift(&self, p: &Pt) -> Proj {
        match p {
            None => self.inf(),
            Some((x, y)) => Proj { x: self.f.to(x), y: self.f.to(y), z: self.f.one() },
        }
    }
    fn lower(&self, p: &Proj) -> Pt {
        if Mont::is_zero(&p.z) { return None; }
        let zi = self.f.powm(&p.z, &self.p.sub(&Bn::from_u64(2)));
        Some((self.f.from(&self.f.mul(&p.x, &zi)), self.f.from(&self.f.mul(&p.y, &zi))))
    }
    fn padd(&self, p: &Proj, q: &Proj) -> Proj {
        let f = &self.f;
        let mut t0 = f.mul(&p.x, &q.x);
        let mut t1 = f.mul(&p.y, &q.y);
        let mut t2 = f.mul(&p.z, &q.z);
        let mut t3 = f.add(&p.x, &p.y);
        let mut t4 = f.add(&q.x, &q.y);
        t3 = f.mul(&t3, &t4);
        t4 = f.add(&t0, &t1);
        t3 = f.sub(&t3, &t4);
        t4 = f.add(&p.y, &p.z);
        let mut x3 = f.add(&q.y, &q.z);
        t4 = f.mul(&t4, &x3);
        x3 = f.add(&t1, &t2);
        t4 = f.sub(&t4, &x3);
        x3 = f.add(&p.x, &p.z);
        let mut y3 = f.add(&q.x, &q.z);
        x3 = f.mul(&x3, &y3);
        y3 = f.add(&t0, &t2);
        y3 = f.sub(&x3, &y3);
        let mut z3 = f.mul(&self.bm, &t2);
        x3 = f.sub(&y3, &z3);
        z3 = f.add(&x3, &x3);
        x3 = f.add(&x3, &z3);
        z3 = f.sub(&t1, &x3);
        x3 = f.add(&t1, &x3);
        y3 = f.mul(&self.bm, &y3);
        t1 = f.add(&t2, &t2);
        t2 = f.add(&t1, &t2);
        y3 = f.sub(&y3, &t2);
        y3 = f.sub(&y3, &t0);
        t1 = f.add(&y3, &y3);
        y3 = f.add(&t1, &y3);
        t1 = f.add(&t0, &t0);
        t0 = f.add(&t1, &t0);
        t0 = f.sub(&t0, &t2);
        t1 = f.mul(&t4, &y3);
        t2 = f.mul(&t0, &y3);
        y3 = f.mul(&x3, &z3);
        y3 = f.add(&y3, &t2);
        x3 = f.mul(&t3, &x3);
        x3 = f.sub(&x3, &t1);
        z3 = f.mul(&t4, &z3);
        t1 = f.mul(&t3, &t0);
        z3 = f.add(&z3, &t1);
        Proj { x: x3, y: y3, z: z3 }
    }
    pub fn add(&self, p: &Pt, q: &Pt) -> Pt { self.lower(&self.padd(&self.lift(p), &self.lift(q))) }
    pub fn neg(&self, p: &Pt) -> Pt {
        p.as_ref().map(|(x, y)| (x.clone(), if y.is_zero() { y.clone() } else { self.p.sub(y) }))
    }
    fn pmul(&self, p: &Proj, k: &Bn) -> Proj {
        let mut r = self.inf();
        for i in (0..k.bits()).rev() {
            r = self.padd(&r, &r);
            if k.bit(i) { r = self.padd(&r, p); }
        }
        r
    }
    pub fn mul(&self, p: &Pt, k: &Bn) -> Pt { self.lower(&self.pmul(&self.lift(p), k)) }
    pub fn mul_base(&self, k: &Bn) -> Pt { self.mul(&self.g(), k) }
    /// u1*G + u2*Q
    pub fn comb(&self, u1: &Bn, u2: &Bn, q: &Pt) -> Pt {
        let a = self.pmul(&self.lift(&self.g()), u1);
        let b = self.pmul(&self.lift(q), u2);
        self.lower(&self.padd(&a, &b))
    }
    /// leftmost min(bits of n, hash bits) bits of the hash
    pub fn hash_to_int(&self, h: &[u8]) -> Bn {
        let z = Bn::from_be(h);
        let nb = self.n.bits();
        if h.len() * 8 > nb { z.shr(h.len() * 8 - nb) } else { z }
    }
    pub fn ecdsa_verify(&self, q: &Pt, h: &[u8], r: &Bn, s: &Bn) -> bool {
        let n = &self.n;
        if r.is_zero() || s.is_zero() || r >= n || s >= n { return false; }
        let e = self.hash_to_int(h);
        let w = s.modinv(n).unwrap();
        match self.comb(&e.mulmod(&w, n), &r.mulmod(&w, n), q) {
            None => false,
            Some((x, _)) => x.rem(n) == *r,
        }
    }
    /// sign with an explicit nonce; None when r or s is zero
    pub fn ecdsa_sign(&self, d: &Bn, k: &Bn, h: &[u8]) -> Option<(Bn, Bn)> {
        let n = &self.n;
        let (x, _) = self.mul_base(k)?;
        let r = x.rem(n);
        let s = k.modinv(n)?.mulmod(&self.hash_to_int(h).add(&r.mul(d)), n);
        if r.is_zero() || s.is_zero() { None } else { Some((r, s)) }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn points_with_chosen_coordinates() {
        let mut r = crate::Sm64(1);
        for i in 0..4 {
            let c = Curve::get(i);
            for k in 0..12 {
                let v = if k < 3 { Bn::from_u64(k) } else { Bn::random_below(&c.p, &mut r) };
                let (x, y) = c.point_from_y(&v);
                assert!(c.on_curve(&x, &y) && c.mul(&Some((x, y)), &c.n).is_none());
                let (x, y) = c.point_from_x(&v, k % 2 == 0);
                assert!(c.on_curve(&x, &y));
            }
        }
    }
}
