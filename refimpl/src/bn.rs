//! Unsigned big integers, little-endian u64 limbs, normalised (no leading zero limb).
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Bn(pub Vec<u64>);

impl std::fmt::Debug for Bn {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "0x{}", self.to_hex()) }
}
impl PartialOrd for Bn { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Bn {
    fn cmp(&self, o: &Self) -> Ordering {
        if self.0.len() != o.0.len() { return self.0.len().cmp(&o.0.len()); }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] { return self.0[i].cmp(&o.0[i]); }
        }
        Ordering::Equal
    }
}

impl Bn {
    pub fn zero() -> Bn { Bn(vec![]) }
    pub fn one() -> Bn { Bn(vec![1]) }
    pub fn from_u64(x: u64) -> Bn { let mut r = Bn(vec![x]); r.norm(); r }
    fn norm(&mut self) { while let Some(0) = self.0.last() { self.0.pop(); } }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn is_one(&self) -> bool { self.0.len() == 1 && self.0[0] == 1 }
    pub fn is_odd(&self) -> bool { self.0.first().map_or(false, |x| x & 1 == 1) }
    pub fn low_u64(&self) -> u64 { self.0.first().copied().unwrap_or(0) }
    pub fn bits(&self) -> usize {
        match self.0.last() { None => 0, Some(x) => self.0.len() * 64 - x.leading_zeros() as usize }
    }
    pub fn bit(&self, i: usize) -> bool { self.0.get(i / 64).map_or(false, |x| (x >> (i % 64)) & 1 == 1) }
    pub fn set_bit(&mut self, i: usize) {
        while self.0.len() <= i / 64 { self.0.push(0); }
        self.0[i / 64] |= 1 << (i % 64);
    }
    pub fn pow2(i: usize) -> Bn { let mut r = Bn::zero(); r.set_bit(i); r }
    pub fn from_be(b: &[u8]) -> Bn {
        let mut v = Vec::with_capacity(b.len() / 8 + 1);
        for c in b.rchunks(8) {
            let mut x = 0u64;
            for &e in c { x = (x << 8) | e as u64; }
            v.push(x);
        }
        let mut r = Bn(v); r.norm(); r
    }
    /// minimal big-endian bytes; zero gives an empty vector
    pub fn to_be(&self) -> Vec<u8> {
        let n = (self.bits() + 7) / 8;
        self.to_be_len(n)
    }
    /// big-endian bytes of exactly n bytes (must fit)
    pub fn to_be_len(&self, n: usize) -> Vec<u8> {
        assert!(self.bits() <= n * 8, "to_be_len overflow");
        let mut out = vec![0u8; n];
        for i in 0..n {
            let w = self.0.get(i / 8).copied().unwrap_or(0);
            out[n - 1 - i] = (w >> (8 * (i % 8))) as u8;
        }
        out
    }
    pub fn from_hex(s: &str) -> Bn {
        let s: String = s.trim_start_matches("0x").chars().filter(|c| !c.is_whitespace() && *c != '_').collect();
        let s = if s.len() % 2 == 1 { format!("0{}", s) } else { s };
        Bn::from_be(&crate::unhex(&s))
    }
    pub fn to_hex(&self) -> String {
        if self.is_zero() { return "0".into(); }
        let h = crate::hex(&self.to_be());
        let t = h.trim_start_matches('0');
        t.to_string()
    }
    pub fn from_dec(s: &str) -> Bn {
        let mut r = Bn::zero();
        for c in s.bytes() { r = r.mul(&Bn::from_u64(10)).add(&Bn::from_u64((c - b'0') as u64)); }
        r
    }
    pub fn add(&self, o: &Bn) -> Bn {
        let (a, b) = if self.0.len() >= o.0.len() { (self, o) } else { (o, self) };
        let mut r = Vec::with_capacity(a.0.len() + 1);
        let mut c = 0u128;
        for i in 0..a.0.len() {
            let t = a.0[i] as u128 + b.0.get(i).copied().unwrap_or(0) as u128 + c;
            r.push(t as u64);
            c = t >> 64;
        }
        if c > 0 { r.push(c as u64); }
        Bn(r)
    }
    pub fn sub(&self, o: &Bn) -> Bn {
        assert!(*self >= *o, "bn sub underflow");
        let mut r = Vec::with_capacity(self.0.len());
        let mut br = 0i128;
        for i in 0..self.0.len() {
            let mut t = self.0[i] as i128 - o.0.get(i).copied().unwrap_or(0) as i128 - br;
            if t < 0 { t += 1i128 << 64; br = 1; } else { br = 0; }
            r.push(t as u64);
        }
        let mut r = Bn(r); r.norm(); r
    }
    pub fn mul(&self, o: &Bn) -> Bn {
        if self.is_zero() || o.is_zero() { return Bn::zero(); }
        let mut r = vec![0u64; self.0.len() + o.0.len()];
        for i in 0..self.0.len() {
            let mut c = 0u128;
            for j in 0..o.0.len() {
                let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + o.0.len()] = c as u64;
        }
        let mut r = Bn(r); r.norm(); r
    }
    pub fn shl(&self, n: usize) -> Bn {
        if self.is_zero() { return Bn::zero(); }
        let (w, b) = (n / 64, n % 64);
        let mut r = vec![0u64; w];
        let mut c = 0u64;
        for &x in &self.0 {
            if b == 0 { r.push(x); } else { r.push((x << b) | c); c = x >> (64 - b); }
        }
        if c > 0 { r.push(c); }
        let mut r = Bn(r); r.norm(); r
    }
    pub fn shr(&self, n: usize) -> Bn {
        let (w, b) = (n / 64, n % 64);
        if w >= self.0.len() { return Bn::zero(); }
        let mut r = Vec::with_capacity(self.0.len() - w);
        for i in w..self.0.len() {
            let hi = self.0.get(i + 1).copied().unwrap_or(0);
            r.push(if b == 0 { self.0[i] } else { (self.0[i] >> b) | (hi << (64 - b)) });
        }
        let mut r = Bn(r); r.norm(); r
    }
    /// Knuth algorithm D on 32-bit digits
    pub fn divrem(&self, d: &Bn) -> (Bn, Bn) {
        assert!(!d.is_zero(), "division by zero");
        if *self < *d { return (Bn::zero(), self.clone()); }
        fn split(x: &Bn) -> Vec<u32> {
            let mut v = Vec::with_capacity(x.0.len() * 2);
            for &w in &x.0 { v.push(w as u32); v.push((w >> 32) as u32); }
            while let Some(0) = v.last() { v.pop(); }
            v
        }
        fn join(v: &[u32]) -> Bn {
            let mut r = Vec::with_capacity(v.len() / 2 + 1);
            for c in v.chunks(2) { r.push(c[0] as u64 | ((c.get(1).copied().unwrap_or(0) as u64) << 32)); }
            let mut r = Bn(r); r.norm(); r
        }
        let s = 0usize;
        let _ = s;
        let dv0 = split(d);
        let sh = dv0.last().unwrap().leading_zeros() as usize;
        let v = split(&d.shl(sh));
        let mut u = split(&self.shl(sh));
        let n = v.len();
        if n == 1 {
            let dd = v[0] as u64;
            let mut rem = 0u64;
            let mut q = vec![0u32; u.len()];
            for i in (0..u.len()).rev() {
                let t = (rem << 32) | u[i] as u64;
                q[i] = (t / dd) as u32;
                rem = t % dd;
            }
            return (join(&q), Bn::from_u64(rem).shr(sh));
        }
        u.push(0);
        while u.len() < n + 1 { u.push(0); }
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        let b = 1u64 << 32;
        for j in (0..=m).rev() {
            let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >= b || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >= b { break; }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + carry;
                carry = p >> 32;
                let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
                u[i + j] = t as u32;
                borrow = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i64 - borrow - carry as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = t as u32;
                    c = t >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        (join(&q), join(&u).shr(sh))
    }
    pub fn rem(&self, d: &Bn) -> Bn { self.divrem(d).1 }
    pub fn mulmod(&self, o: &Bn, m: &Bn) -> Bn { self.mul(o).rem(m) }
    pub fn addmod(&self, o: &Bn, m: &Bn) -> Bn { self.add(o).rem(m) }
    /// (self - o) mod m for any self, o
    pub fn submod(&self, o: &Bn, m: &Bn) -> Bn {
        let a = self.rem(m);
        let b = o.rem(m);
        if a >= b { a.sub(&b) } else { a.add(m).sub(&b) }
    }
    pub fn modpow(&self, e: &Bn, m: &Bn) -> Bn {
        assert!(!m.is_zero());
        if m.is_one() { return Bn::zero(); }
        if m.is_odd() { return Mont::new(m).pow(self, e); }
        let mut r = Bn::one();
        let b = self.rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mulmod(&r, m);
            if e.bit(i) { r = r.mulmod(&b, m); }
        }
        r
    }
    pub fn gcd(&self, o: &Bn) -> Bn {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() { let r = a.rem(&b); a = b; b = r; }
        a
    }
    /// inverse modulo m if it exists
    pub fn modinv(&self, m: &Bn) -> Option<Bn> {
        if m.is_one() { return Some(Bn::zero()); }
        let (mut r0, mut r1) = (m.clone(), self.rem(m));
        let (mut t0, mut t1) = (Bn::zero(), Bn::one());
        while !r1.is_zero() {
            let (q, r) = r0.divrem(&r1);
            let t = t0.submod(&q.mulmod(&t1, m), m);
            r0 = r1; r1 = r;
            t0 = t1; t1 = t;
        }
        if r0.is_one() { Some(t0) } else { None }
    }
    /// Miller-Rabin with fixed small bases and extra pseudo-random ones
    pub fn is_prime(&self) -> bool {
        let small = [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71];
        if self.bits() <= 1 { return false; }
        for &p in &small {
            let pb = Bn::from_u64(p);
            if *self == pb { return true; }
            if self.rem(&pb).is_zero() { return false; }
        }
        let one = Bn::one();
        let nm1 = self.sub(&one);
        let mut d = nm1.clone();
        let mut s = 0;
        while !d.is_odd() { d = d.shr(1); s += 1; }
        let mut rng = crate::Sm64(self.low_u64() ^ 0x5bd1e995);
        let mont = Mont::new(self);
        let mut bases: Vec<Bn> = small[..12].iter().map(|&x| Bn::from_u64(x)).collect();
        if self.bits() > 64 {
            for _ in 0..8 { bases.push(Bn::from_be(&rng.bytes((self.bits() + 7) / 8)).rem(self)); }
        }
        'o: for a in bases {
            let a = a.rem(self);
            if a.is_zero() || a.is_one() { continue; }
            let mut x = mont.pow(&a, &d);
            if x.is_one() || x == nm1 { continue; }
            for _ in 1..s {
                x = x.mulmod(&x, self);
                if x == nm1 { continue 'o; }
            }
            return false;
        }
        true
    }
    /// floor of the k-th root
    pub fn root(&self, k: usize) -> Bn {
        let mut r = Bn::zero();
        for i in (0..=self.bits() / k + 1).rev() {
            let mut t = r.clone();
            t.set_bit(i);
            let mut p = Bn::one();
            for _ in 0..k { p = p.mul(&t); }
            if p <= *self { r = t; }
        }
        r
    }
    pub fn random_below(n: &Bn, rng: &mut crate::Sm64) -> Bn {
        Bn::from_be(&rng.bytes((n.bits() + 7) / 8 + 8)).rem(n)
    }
    /// random prime of exactly `bits` bits
    pub fn random_prime(bits: usize, rng: &mut crate::Sm64) -> Bn {
        loop {
            let mut b = Bn::from_be(&rng.bytes((bits + 7) / 8));
            b = b.rem(&Bn::pow2(bits));
            b.set_bit(bits - 1);
            if bits > 1 { b.set_bit(0); }
            if bits == 2 { b = Bn::from_u64(2 + rng.below(2)); }
            if b.is_prime() { return b; }
        }
    }
}

/// Montgomery arithmetic modulo an odd number
#[derive(Clone)]
pub struct Mont { pub m: Bn, k: usize, ninv: u64, r2: Vec<u64>, one: Vec<u64> }

impl Mont {
    pub fn new(m: &Bn) -> Mont {
        assert!(m.is_odd());
        let k = m.0.len();
        let mut inv = 1u64;
        for _ in 0..6 { inv = inv.wrapping_mul(2u64.wrapping_sub(m.0[0].wrapping_mul(inv))); }
        let r2 = Bn::pow2(128 * k).rem(m);
        let one = Bn::pow2(64 * k).rem(m);
        let pad = |b: &Bn| { let mut v = b.0.clone(); v.resize(k, 0); v };
        Mont { m: m.clone(), k, ninv: inv.wrapping_neg(), r2: pad(&r2), one: pad(&one) }
    }
    pub fn limbs(&self) -> usize { self.k }
    pub fn one(&self) -> Vec<u64> { self.one.clone() }
    pub fn zero(&self) -> Vec<u64> { vec![0; self.k] }
    pub fn to(&self, a: &Bn) -> Vec<u64> {
        let mut v = a.rem(&self.m).0;
        v.resize(self.k, 0);
        self.mul(&v, &self.r2)
    }
    pub fn from(&self, a: &[u64]) -> Bn {
        let mut one = vec![0u64; self.k];
        one[0] = 1;
        let mut r = Bn(self.mul(a, &one));
        r.norm();
        r
    }
    fn ge(&self, a: &[u64]) -> bool {
        for i in (0..self.k).rev() {
            if a[i] != self.m.0[i] { return a[i] > self.m.0[i]; }
        }
        true
    }
    fn subm(&self, a: &mut [u64]) {
        let mut br = false;
        for i in 0..self.k {
            let (x, b1) = a[i].overflowing_sub(self.m.0[i]);
            let (x, b2) = x.overflowing_sub(br as u64);
            a[i] = x;
            br = b1 | b2;
        }
    }
    pub fn mul(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        let k = self.k;
        let mut t = vec![0u64; k + 2];
        for i in 0..k {
            let mut c = 0u128;
            for j in 0..k {
                let x = a[i] as u128 * b[j] as u128 + t[j] as u128 + c;
                t[j] = x as u64;
                c = x >> 64;
            }
            let x = t[k] as u128 + c;
            t[k] = x as u64;
            t[k + 1] = (x >> 64) as u64;
            let u = t[0].wrapping_mul(self.ninv);
            let x = u as u128 * self.m.0[0] as u128 + t[0] as u128;
            let mut c = x >> 64;
            for j in 1..k {
                let x = u as u128 * self.m.0[j] as u128 + t[j] as u128 + c;
                t[j - 1] = x as u64;
                c = x >> 64;
            }
            let x = t[k] as u128 + c;
            t[k - 1] = x as u64;
            t[k] = t[k + 1].wrapping_add((x >> 64) as u64);
            t[k + 1] = 0;
        }
        let hi = t[k];
        t.truncate(k);
        if hi != 0 || self.ge(&t) { self.subm(&mut t); }
        t
    }
    pub fn add(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        let mut t = vec![0u64; self.k];
        let mut c = false;
        for i in 0..self.k {
            let (x, c1) = a[i].overflowing_add(b[i]);
            let (x, c2) = x.overflowing_add(c as u64);
            t[i] = x;
            c = c1 | c2;
        }
        if c || self.ge(&t) { self.subm(&mut t); }
        t
    }
    pub fn sub(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        let mut t = vec![0u64; self.k];
        let mut br = false;
        for i in 0..self.k {
            let (x, b1) = a[i].overflowing_sub(b[i]);
            let (x, b2) = x.overflowing_sub(br as u64);
            t[i] = x;
            br = b1 | b2;
        }
        if br {
            let mut c = false;
            for i in 0..self.k {
                let (x, c1) = t[i].overflowing_add(self.m.0[i]);
                let (x, c2) = x.overflowing_add(c as u64);
                t[i] = x;
                c = c1 | c2;
            }
        }
        t
    }
    pub fn is_zero(a: &[u64]) -> bool { a.iter().all(|&x| x == 0) }
    pub fn powm(&self, a: &[u64], e: &Bn) -> Vec<u64> {
        let mut r = self.one();
        for i in (0..e.bits()).rev() {
            r = self.mul(&r, &r);
            if e.bit(i) { r = self.mul(&r, a); }
        }
        r
    }
    pub fn pow(&self, a: &Bn, e: &Bn) -> Bn { self.from(&self.powm(&self.to(a), e)) }
}
