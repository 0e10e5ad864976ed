//! C16: curve membership of every implementation.
use checks::curves::*;
use checks::pk::*;
use checks::*;
use rcrypto::elliptic::EllipticCurve;
use rmath::bigint::BigInt;
use std::cell::RefCell;

thread_local! { static OBJ: RefCell<Vec<Box<dyn EllipticCurve>>> = RefCell::new((0..IMPLS).map(make).collect()); }

/// a change to one coordinate
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ch { Keep, Flip(u16), Plus(u64), Minus(u64), PlusP(u8), PlusPow(u16), Opp, Negative, NegativeOpp, Nan, Set(Coord), Wide(Num), Truncate(u16), LimbCarry(u16, u16), Rev, Shl(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Whole { Keep, Swap, OtherCurve(u8), Twist, SignedTwist }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C { im: usize, p: Point, whole: Whole, x: Ch, y: Ch }

/// a signed number; None is the library's not-a-number
type Sg = Option<(bool, Bn)>;
fn change(c: &Ch, v: &Bn, cv: &refimpl::ec::Curve, width: usize) -> Sg {
    let u = |k: &u64| Bn::from_u64(*k);
    let limb = |i: usize| if width == 28 { i * 28 } else if width == 32 { i * 32 } else { i / 2 * 57 + i % 2 * 29 };
    Some((false, match c {
        Ch::Keep => v.clone(),
        Ch::Flip(b) => { let b = Bn::pow2(*b as usize % (cv.bits + 40)); if v.shr(b.bits() - 1).is_odd() { v.sub(&b) } else { v.add(&b) } }
        Ch::Plus(k) => v.add(&u(k)),
        Ch::Minus(k) => { let k = u(k); if *v >= k { v.sub(&k) } else { return Some((true, k.sub(v))) } }
        Ch::PlusP(k) => v.add(&cv.p.mul(&Bn::from_u64(*k as u64))),
        Ch::PlusPow(k) => v.add(&Bn::pow2(cv.bits + *k as usize % 600)),
        Ch::Opp => Bn::zero().submod(&v.rem(&cv.p), &cv.p),
        Ch::Negative => return Some((true, v.clone())),
        Ch::NegativeOpp => return Some((true, Bn::zero().submod(&v.rem(&cv.p), &cv.p))),
        Ch::Nan => return None,
        Ch::Set(x) => x.get(cv),
        Ch::Wide(n) => n.get(&cv.p),
        Ch::Truncate(k) => v.rem(&Bn::pow2(1 + *k as usize % cv.bits)),
        // the same limbs with a carry lost or invented
        Ch::LimbCarry(i, j) => { let (a, b) = (Bn::pow2(limb(*i as usize % 10)), Bn::pow2(limb(*j as usize % 10))); let t = v.add(&a); if t >= b { t.sub(&b) } else { t } }
        Ch::Rev => { let mut b = v.to_be(); b.reverse(); Bn::from_be(&b) }
        Ch::Shl(k) => v.shl(*k as usize),
    }))
}
fn number(v: &Sg) -> BigInt { match v { None => nan(), Some((s, m)) => if *s && !m.is_zero() { neg(m) } else { big(m) } } }
fn member(c: &C) -> Res {
    let cv = curve_of(c.im);
    let (mut x, mut y) = match c.whole { Whole::OtherCurve(k) => xy(&c.p.get(curve_of(k as usize % 4))), _ => xy(&c.p.get(cv)) };
    match c.whole {
        Whole::Swap => std::mem::swap(&mut x, &mut y),
        // a point of the curve y^2 = x^3 - 3x - b, and of y^2 = x^3 + 3x + b
        Whole::Twist => { let mut t = x.clone(); loop { let r = cv.rhs(&t).submod(&cv.b, &cv.p).submod(&cv.b, &cv.p); if let Some(s) = cv.sqrt(&r) { x = t; y = s; break; } t = t.addmod(&Bn::one(), &cv.p); } }
        Whole::SignedTwist => { let mut t = x.clone(); loop { let r = cv.rhs(&t).addmod(&t.mulmod(&Bn::from_u64(6), &cv.p), &cv.p); if let Some(s) = cv.sqrt(&r) { x = t; y = s; break; } t = t.addmod(&Bn::one(), &cv.p); } }
        _ => {}
    }
    let width = match c.im { 4 => 28, 5 => 29, _ => 32 };
    let (sx, sy) = (change(&c.x, &x, cv, width), change(&c.y, &y, cv, width));
    let in_range = |v: &Sg| match v { Some((s, m)) => (!*s || m.is_zero()) && *m < cv.p, None => false };
    let ranged = in_range(&sx) && in_range(&sy);
    let on = ranged && cv.on_curve(&sx.as_ref().unwrap().1, &sy.as_ref().unwrap().1);
    // reduced modulo p it would be a point
    let shadow = !ranged && match (&sx, &sy) { (Some((a, m)), Some((b, n))) => { let f = |s: bool, v: &Bn| { let r = v.rem(&cv.p); if s { Bn::zero().submod(&r, &cv.p) } else { r } }; cv.on_curve(&f(*a, m), &f(*b, n)) } _ => false };
    OBJ.with(|o| {
        let o = o.borrow();
        let o = o[c.im].as_ref();
        let (bx, by) = (number(&sx), number(&sy));
        for round in 0..2 {
            let r = o.is_on_curve(&bx, &by);
            ensure!(r == on, "{}: ({}, {}) answered {} instead of {}, question {}", NAMES[c.im], show(&bx), show(&by), r, on, round + 1);
        }
        for (v, w) in [(&bx, &sx), (&by, &sy)] { ensure!(show(v) == show(&number(w)), "{}: an argument became {}", NAMES[c.im], show(v)); }
        let mut l = vec![s(NAMES[c.im]), s(if on { "on the curve" } else { "not on the curve" })];
        if shadow { l.push(s("congruent to a point")); }
        if sx.is_none() || sy.is_none() { l.push(s("not a number")); }
        if !ranged { l.push(s("out of range")); }
        okls(true, l)
    })
}
/// how the two sides of the equation differ
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Diff { Window(u16, u16, u64), Outside(u16, u16, u64), Limb(u8, u8, u64), OneBit(u16), Plus(u64), Minus(u64), PlusPow(u16), Field(Coord),
    /// another equation: x^3 times a, x times b, the constant times c, plus x^2 times d
    Terms(i8, i8, i8, i8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct S { im: usize, x: Coord, d: Diff, odd: bool }
fn sides(c: &S) -> Res {
    let cv = curve_of(c.im);
    let bits = cv.bits;
    let xor = |v: &Bn, m: &Bn| { let n = bits / 8 + 2; let (a, b) = (v.to_be_len(n), m.to_be_len(n)); Bn::from_be(&a.iter().zip(&b).map(|(x, y)| x ^ y).collect::<Vec<_>>()).rem(&cv.p) };
    let random = |seed: u64, lo: usize, hi: usize, all: bool| { let mut r = Sm64(seed); let mut m = Bn::zero(); for i in 0..bits { if (i >= lo && i < hi) != all && r.next() & 1 == 1 { m.set_bit(i); } } if m.is_zero() { m.set_bit(lo.min(bits - 1)); } m };
    let order = |a: u16, b: u16| { let (a, b) = (a as usize % bits, b as usize % bits); (a.min(b), a.max(b) + 1) };
    let term = |v: &Bn, k: i8| { let t = v.mulmod(&Bn::from_u64(k.unsigned_abs() as u64), &cv.p); if k < 0 { Bn::zero().submod(&t, &cv.p) } else { t } };
    let mut x = c.x.get(cv);
    let mut l = vec![s(NAMES[c.im])];
    let y = loop {
        let r = cv.rhs(&x);
        let other = match &c.d {
            Diff::Window(a, b, m) => { let (lo, hi) = order(*a, *b); xor(&r, &random(*m, lo, hi, false)) }
            Diff::Outside(a, b, m) => { let (lo, hi) = order(*a, *b); xor(&r, &random(*m, lo, hi, true)) }
            Diff::Limb(w, i, m) => { let w = [28usize, 32, 64, 57, 8][*w as usize % 5]; let lo = w * (*i as usize % (bits / w)); xor(&r, &random(*m, lo, lo + w, false)) }
            Diff::OneBit(b) => xor(&r, &Bn::pow2(*b as usize % bits)),
            Diff::Plus(k) => r.addmod(&Bn::from_u64(*k), &cv.p),
            Diff::Minus(k) => r.submod(&Bn::from_u64(*k), &cv.p),
            Diff::PlusPow(k) => r.addmod(&Bn::pow2(*k as usize % bits), &cv.p),
            Diff::Field(f) => r.addmod(&f.get(cv), &cv.p),
            Diff::Terms(a, b, k, d) => {
                // a constant or a multiple of x^2 may never be a square
                let a = if (*a, *b) == (0, 0) { &1 } else { a };
                let x2 = x.mulmod(&x, &cv.p);
                term(&x2.mulmod(&x, &cv.p), *a).addmod(&term(&x, *b), &cv.p).addmod(&term(&cv.b, *k), &cv.p).addmod(&term(&x2, *d), &cv.p)
            }
        };
        if let Some(y) = cv.sqrt(&other) { break if y.is_odd() == c.odd { y } else { Bn::zero().submod(&y, &cv.p) }; }
        x = x.addmod(&Bn::one(), &cv.p);
    };
    let on = cv.on_curve(&x, &y);
    OBJ.with(|o| {
        let r = o.borrow()[c.im].is_on_curve(&big(&x), &big(&y));
        ensure!(r == on, "{}: ({}, {}) answered {} instead of {}", NAMES[c.im], x.to_hex(), y.to_hex(), r, on);
        l.push(s(match c.d { Diff::Window(..) | Diff::Limb(..) | Diff::OneBit(..) => "sides differ in few bits", Diff::Outside(..) => "sides agree in a window", Diff::Terms(..) => "another equation", _ => "sides differ by a number" }));
        okls(!on, l)
    })
}
fn main() {
    let mut r = Run::new("C16");
    r.assume("(0,0), which stands for the point at infinity, is not a pair satisfying the equation and is answered no");
    let ch = || prop_oneof![6 => Just(Ch::Keep), 3 => any::<u16>().prop_map(Ch::Flip), 1 => (1u64..5).prop_map(Ch::Plus), 1 => any::<u64>().prop_map(Ch::Plus), 1 => (1u64..5).prop_map(Ch::Minus), 2 => (1u8..20).prop_map(Ch::PlusP), 1 => any::<u16>().prop_map(Ch::PlusPow),
        1 => Just(Ch::PlusPow(0)), 2 => Just(Ch::Opp), 2 => Just(Ch::Negative), 1 => Just(Ch::NegativeOpp), 1 => Just(Ch::Nan), 1 => coord().prop_map(Ch::Set), 1 => wide_num().prop_map(Ch::Wide), 1 => any::<u16>().prop_map(Ch::Truncate), 2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Ch::LimbCarry(a, b)), 1 => Just(Ch::Rev), 1 => (1u8..40).prop_map(Ch::Shl)].boxed();
    let whole = || prop_oneof![12 => Just(Whole::Keep), 1 => Just(Whole::Swap), 2 => any::<u8>().prop_map(Whole::OtherCurve), 1 => Just(Whole::Twist), 1 => Just(Whole::SignedTwist)];
    r.sub("points", 100_000, 5_000_000, "points of the curve with coordinates from edge values of the field and of its limbs, the opposite points included; non-trivial: all",
        || (0usize..IMPLS, point(), prop::bool::ANY).prop_map(|(im, p, n)| C { im, p, whole: Whole::Keep, x: Ch::Keep, y: if n { Ch::Opp } else { Ch::Keep } }), member)
        .require(&NAMES, 1000).require(&["on the curve"], 1000);
    r.sub("near", 150_000, 8_000_000, "points changed in one coordinate or both: bits flipped, shifted by multiples of the prime or powers of two, negative, truncated, carries lost, swapped, of other curves and twists, not a number; non-trivial: all",
        move || (0usize..IMPLS, point(), whole(), ch(), ch()).prop_map(|(im, p, whole, x, y)| C { im, p, whole, x, y }), member)
        .require(&NAMES, 1000).require(&["on the curve", "not on the curve", "congruent to a point", "out of range", "not a number"], 1000);
    let diff = || prop_oneof![3 => (any::<u16>(), any::<u16>(), any::<u64>()).prop_map(|(a, b, c)| Diff::Window(a, b, c)), 2 => (any::<u16>(), any::<u16>(), any::<u64>()).prop_map(|(a, b, c)| Diff::Outside(a, b, c)), 5 => (any::<u8>(), any::<u8>(), any::<u64>()).prop_map(|(a, b, c)| Diff::Limb(a, b, c)),
        3 => any::<u16>().prop_map(Diff::OneBit), 1 => (1u64..20).prop_map(Diff::Plus), 1 => (1u64..20).prop_map(Diff::Minus), 1 => any::<u64>().prop_map(Diff::Plus), 2 => any::<u16>().prop_map(Diff::PlusPow), 2 => coord().prop_map(Diff::Field),
        3 => (0i8..3, -5i8..6, -2i8..4, -1i8..2).prop_map(|(a, b, c, d)| Diff::Terms(a, b, c, d))];
    r.sub("sides", 150_000, 3_000_000, "pairs whose two sides of the equation differ in a chosen way only: in a few bits, one limb, by a small number or a power of two, or that satisfy an equation with other coefficients; non-trivial: the pair is not on the curve",
        move || (0usize..IMPLS, coord(), diff(), any::<bool>()).prop_map(|(im, x, d, odd)| S { im, x, d, odd }), sides)
        .require(&NAMES, 1000).require(&["sides differ in few bits", "sides agree in a window", "another equation", "sides differ by a number"], 1000);
    r.finish();
}
