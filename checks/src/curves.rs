//! Curve implementations of the library beside the reference, and generators of points and scalars.
use crate::pk::*;
use crate::*;
use rcrypto::elliptic::{CurveP224, CurveP256, CurveParams, EllipticCurve};
use refimpl::ec::{Curve, Pt};
use rmath::bigint::{BigInt, Nat};

/// the implementations: the four generic ones, the two specialised ones
pub const IMPLS: usize = 6;
pub const NAMES: [&str; IMPLS] = ["P-224 generic", "P-256 generic", "P-384 generic", "P-521 generic", "P-224 special", "P-256 special"];
pub fn curve_of(im: usize) -> &'static Curve { Curve::get(if im >= 4 { im - 4 } else { im }) }
pub fn params(i: usize) -> CurveParams {
    match i { 0 => CurveParams::p224(), 1 => CurveParams::p256(), 2 => CurveParams::p384(), _ => CurveParams::p521() }.expect("curve parameters")
}
pub fn make(im: usize) -> Box<dyn EllipticCurve> {
    match im { 4 => Box::new(CurveP224::new().expect("CurveP224::new")), 5 => Box::new(CurveP256::new().expect("CurveP256::new")), i => Box::new(params(i)) }
}

/// a field element
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Coord {
    N(Num),
    /// limbs of 28 bits from edge values
    L28(u64),
    /// limbs of 29 and 28 bits from edge values, taken as the Montgomery form with R = 2^257
    Mont(u64),
    /// 32-bit words from edge values
    W32(u64),
}
fn limbs(seed: u64, bits: usize, width: impl Fn(usize) -> usize) -> Bn {
    let mut r = Sm64(seed);
    let (mut v, mut at, mut i) = (Bn::zero(), 0, 0);
    // a run of equal limbs is as likely as a change
    let mut kind = r.next();
    while at < bits {
        let w = width(i);
        if r.next() & 1 == 0 { kind = r.next(); }
        let max = (1u64 << w) - 1;
        let x = match kind % 8 { 0 | 1 => 0, 2 | 3 => max, 4 => 1, 5 => max - 1, 6 => 1 << (kind / 8 % w as u64), _ => r.next() & max };
        v = v.add(&Bn::from_u64(x).shl(at));
        at += w;
        i += 1;
    }
    v
}
impl Coord {
    pub fn get(&self, c: &Curve) -> Bn {
        match self {
            Coord::N(n) => n.get(&c.p).rem(&c.p),
            Coord::L28(s) => limbs(*s, c.bits, |_| 28).rem(&c.p),
            Coord::W32(s) => limbs(*s, c.bits, |_| 32).rem(&c.p),
            Coord::Mont(s) => limbs(*s, c.bits, |i| if i % 2 == 0 { 29 } else { 28 }).rem(&c.p).mulmod(&Bn::pow2(257).modinv(&c.p).unwrap(), &c.p),
        }
    }
}
pub fn coord() -> BoxedStrategy<Coord> { prop_oneof![3 => num().prop_map(Coord::N), 2 => any::<u64>().prop_map(Coord::L28), 2 => any::<u64>().prop_map(Coord::Mont), 1 => any::<u64>().prop_map(Coord::W32)].boxed() }

/// a scalar, not reduced
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Scal {
    N(Num),
    /// four-bit windows from edge values
    Nib(u64),
    /// few bits set
    Sparse(Vec<u16>),
    /// n less a sparse number
    Below(Vec<u16>),
    /// k * n + j with k up to this many bytes
    Multiple(Blob, u64),
}
impl Scal {
    pub fn get(&self, n: &Bn) -> Bn {
        let sparse = |v: &Vec<u16>| { let mut x = Bn::zero(); for b in v { x.set_bit(*b as usize % n.bits()); } x };
        match self {
            Scal::N(x) => x.get(n),
            Scal::Nib(s) => { let mut r = Sm64(*s); let mut v = Bn::zero(); for i in 0..(n.bits() + 3) / 4 { let x = r.next(); let d = match x % 8 { 0..=2 => 0, 3 => 15, 4 => 1, 5 => 8, _ => x / 8 % 16 }; v = v.add(&Bn::from_u64(d).shl(4 * i)); } v }
            Scal::Sparse(v) => sparse(v),
            Scal::Below(v) => { let x = sparse(v); if x <= *n { n.sub(&x) } else { x } }
            Scal::Multiple(b, j) => n.mul(&Bn::from_be(&b.bytes())).add(&Bn::from_u64(*j)),
        }
    }
}
pub fn scal() -> BoxedStrategy<Scal> {
    prop_oneof![8 => wide_num().prop_map(Scal::N), 2 => any::<u64>().prop_map(Scal::Nib), 1 => prop::collection::vec(any::<u16>(), 1..4).prop_map(Scal::Sparse), 1 => prop::collection::vec(any::<u16>(), 1..4).prop_map(Scal::Below),
        1 => (blob(0..70usize), 0u64..4).prop_map(|(a, b)| Scal::Multiple(a, b))].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Point { Inf, Base, Mul(Num), X(Coord, bool), Y(Coord) }
impl Point {
    pub fn get(&self, c: &Curve) -> Pt {
        match self {
            Point::Inf => None,
            Point::Base => c.g(),
            Point::Mul(k) => c.mul_base(&k.get(&c.n)),
            Point::X(x, odd) => Some(c.point_from_x(&x.get(c), *odd)),
            Point::Y(y) => Some(c.point_from_y(&y.get(c))),
        }
    }
}
pub fn point() -> BoxedStrategy<Point> { prop_oneof![1 => Just(Point::Inf), 1 => Just(Point::Base), 4 => num().prop_map(Point::Mul), 8 => (coord(), any::<bool>()).prop_map(|(a, b)| Point::X(a, b)), 3 => coord().prop_map(Point::Y)].boxed() }

pub fn xy(p: &Pt) -> (Bn, Bn) { p.clone().unwrap_or((Bn::zero(), Bn::zero())) }
pub fn bigs(p: &Pt) -> (BigInt, BigInt) { let (x, y) = xy(p); (big(&x), big(&y)) }
pub fn same(what: &str, got: &(BigInt, BigInt), want: &Pt) -> Result<(), String> {
    let (x, y) = xy(want);
    ensure!(bn(&got.0) == Some(x.clone()) && bn(&got.1) == Some(y.clone()), "{}: ({}, {}) instead of ({}, {})", what, show(&got.0), show(&got.1), x.to_hex(), y.to_hex());
    Ok(())
}

/// any implementation as a value
pub struct BoxC(pub Box<dyn EllipticCurve>);
impl EllipticCurve for BoxC {
    fn curve_params(&self) -> &CurveParams { self.0.curve_params() }
    fn is_on_curve(&self, x: &BigInt, y: &BigInt) -> bool { self.0.is_on_curve(x, y) }
    fn add(&self, x1: &BigInt, y1: &BigInt, x2: &BigInt, y2: &BigInt) -> (BigInt, BigInt) { self.0.add(x1, y1, x2, y2) }
    fn double(&self, x: &BigInt, y: &BigInt) -> (BigInt, BigInt) { self.0.double(x, y) }
    fn scalar(&self, x: &BigInt, y: &BigInt, k: &Nat) -> (BigInt, BigInt) { self.0.scalar(x, y, k) }
    fn scalar_base_point(&self, k: &Nat) -> (BigInt, BigInt) { burn_by(20_000); self.0.scalar_base_point(k) }
}
