//! C14: curve arithmetic of every implementation against complete formulas.
use checks::curves::*;
use checks::pk::*;
use checks::*;
use rcrypto::elliptic::EllipticCurve;
use refimpl::ec::{Curve, Pt};
use rmath::bigint::BigInt;
use std::cell::RefCell;

thread_local! { static OBJ: RefCell<Vec<Box<dyn EllipticCurve>>> = RefCell::new((0..IMPLS).map(make).collect()); }

/// the second point, chosen in relation to the first
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Second { Free(Point), Same, Neg, Twice, MinusTwice, NearX(i8, bool), NearY(i8), SumIs(Point) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Add { im: usize, p: Point, q: Second, fresh: bool }

fn second(s: &Second, p: &Pt, c: &Curve) -> Pt {
    let near = |v: &Bn, d: i8| { let u = Bn::from_u64(d.unsigned_abs() as u64); if d < 0 { v.submod(&u, &c.p) } else { v.addmod(&u, &c.p) } };
    match s {
        Second::Free(q) => q.get(c),
        Second::Same => p.clone(),
        Second::Neg => c.neg(p),
        Second::Twice => c.add(p, p),
        Second::MinusTwice => c.neg(&c.add(p, p)),
        Second::NearX(d, odd) => Some(c.point_from_x(&near(&xy(p).0, *d), *odd)),
        Second::NearY(d) => Some(c.point_from_y(&near(&xy(p).1, *d))),
        Second::SumIs(r) => c.add(&r.get(c), &c.neg(p)),
    }
}
fn label(c: &Curve, p: &Pt, l: &mut Vec<String>, what: &str) {
    match p {
        None => l.push(format!("{} at infinity", what)),
        Some((x, y)) => {
            let tiny = |v: &Bn| v.bits() < c.bits - 60;
            let top = |v: &Bn| c.p.sub(v).bits() < c.bits - 60;
            if tiny(x) || top(x) { l.push(format!("{} with extreme x", what)); }
            if tiny(y) || top(y) { l.push(format!("{} with extreme y", what)); }
        }
    }
}
fn with<T>(im: usize, fresh: bool, f: impl FnOnce(&dyn EllipticCurve) -> T) -> T {
    if fresh { let o = make(im); f(o.as_ref()) } else { OBJ.with(|v| f(v.borrow()[im].as_ref())) }
}
/// results belong to the caller: changing them changes neither the arguments nor the curve
fn spoil(r: (BigInt, BigInt)) { let (mut x, mut y) = r; x += BigInt::from(5u32); y += BigInt::from(7u32); }

fn add(c: &Add) -> Res {
    let cv = curve_of(c.im);
    let p = c.p.get(cv);
    let q = second(&c.q, &p, cv);
    let mut l = vec![s(NAMES[c.im])];
    with(c.im, c.fresh, |o| {
        let ((px, py), (qx, qy)) = (bigs(&p), bigs(&q));
        let want = cv.add(&p, &q);
        for round in 0..2 {
            let r = o.add(&px, &py, &qx, &qy);
            same("sum", &r, &want)?;
            spoil(r);
            let r = o.add(&qx, &qy, &px, &py);
            same("sum in the other order", &r, &want)?;
            spoil(r);
            let r = o.double(&px, &py);
            same("double", &r, &cv.add(&p, &p))?;
            spoil(r);
            if round == 0 { same("first argument after the operations", &(px.deep_clone(), py.deep_clone()), &p)?; same("second argument after the operations", &(qx.deep_clone(), qy.deep_clone()), &q)?; }
        }
        label(cv, &p, &mut l, "operand");
        label(cv, &q, &mut l, "operand");
        label(cv, &want, &mut l, "result");
        if p == q && p.is_some() { l.push(s("equal points")); }
        if p.is_some() && q == cv.neg(&p) { l.push(s("opposite points")); }
        l.sort();
        l.dedup();
        okls(p.is_some() || q.is_some(), l)
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mul { im: usize, p: Point, k: Scal, image: bool, fresh: bool }
fn mul(c: &Mul) -> Res {
    let cv = curve_of(c.im);
    let k = c.k.get(&cv.n);
    let mut p = c.p.get(cv);
    let mut l = vec![s(NAMES[c.im])];
    // choose the result instead of the operand
    if c.image { if let Some(i) = k.rem(&cv.n).modinv(&cv.n) { p = cv.mul(&p, &i); } }
    with(c.im, c.fresh, |o| {
        let want = cv.mul(&p, &k.rem(&cv.n));
        let (px, py) = bigs(&p);
        let kn = nat(&k);
        let r = o.scalar(&px, &py, &kn);
        same(&format!("{} * ({}, {})", k.to_hex(), show(&px), show(&py)), &r, &want)?;
        spoil(r);
        same("argument after the operation", &(px.deep_clone(), py.deep_clone()), &p)?;
        ensure!(Bn::from_be(&kn.to_be_bytes()) == k, "the scalar changed");
        label(cv, &p, &mut l, "operand");
        label(cv, &want, &mut l, "result");
        if k >= cv.n { l.push(s("scalar not below the order")); }
        if k.rem(&cv.n).is_zero() { l.push(s("scalar divisible by the order")); }
        okls(!k.is_zero(), l)
    })
}
fn base(c: &Mul) -> Res {
    let cv = curve_of(c.im);
    let k = c.k.get(&cv.n);
    let mut l = vec![s(NAMES[c.im])];
    with(c.im, c.fresh, |o| {
        let want = cv.mul_base(&k.rem(&cv.n));
        let kn = nat(&k);
        let r = o.scalar_base_point(&kn);
        same(&format!("{} * G", k.to_hex()), &r, &want)?;
        spoil(r);
        // the parameters handed out do the same arithmetic
        if c.image {
            let r = o.curve_params().clone().scalar_base_point(&kn);
            same(&format!("{} * G in the parameters", k.to_hex()), &r, &want)?;
            l.push(s("through the parameters"));
        }
        ensure!(Bn::from_be(&kn.to_be_bytes()) == k, "the scalar changed");
        if k >= cv.n { l.push(s("scalar not below the order")); }
        if k.rem(&cv.n).is_zero() { l.push(s("scalar divisible by the order")); }
        okls(!k.is_zero(), l)
    })
}

/// a walk on the curve: every step uses the library's own last result
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Walk { im: usize, start: Point, steps: Vec<(u8, Point, u16)> }
fn walk(c: &Walk) -> Res {
    let cv = curve_of(c.im);
    with(c.im, false, |o| {
        let mut w = c.start.get(cv);
        let mut at = bigs(&w);
        for (i, (op, q, k)) in c.steps.iter().enumerate() {
            let q = q.get(cv);
            let (qx, qy) = bigs(&q);
            let (r, want) = match op % 5 {
                0 => (o.add(&at.0, &at.1, &qx, &qy), cv.add(&w, &q)),
                1 => (o.add(&qx, &qy, &at.0, &at.1), cv.add(&w, &q)),
                2 => (o.double(&at.0, &at.1), cv.add(&w, &w)),
                3 => (o.add(&at.0, &at.1, &at.0, &at.1), cv.add(&w, &w)),
                _ => (o.scalar(&at.0, &at.1, &nat(&Bn::from_u64(*k as u64))), cv.mul(&w, &Bn::from_u64(*k as u64))),
            };
            same(&format!("step {}", i), &r, &want)?;
            at = r;
            w = want;
        }
        okls(c.steps.len() > 1, vec![s(NAMES[c.im])])
    })
}

fn constants(im: &usize) -> Res {
    let cv = curve_of(*im);
    let o = make(*im);
    let p = o.curve_params();
    ensure!(p.name() == cv.name, "name {} instead of {}", p.name(), cv.name);
    ensure!(p.field_bits_size() == cv.bits, "{}: field of {} bits instead of {}", cv.name, p.field_bits_size(), cv.bits);
    let one = nat(&Bn::one());
    same("base point", &o.scalar_base_point(&one), &cv.g())?;
    same("base point of the parameters", &p.scalar_base_point(&one), &cv.g())?;
    same("order times base point", &o.scalar_base_point(&nat(&cv.n)), &None)?;
    same("one less", &o.scalar_base_point(&nat(&cv.n.sub(&Bn::one()))), &cv.neg(&cv.g()))?;
    okls(true, vec![s(NAMES[*im])])
}

fn main() {
    let mut r = Run::new("C14");
    r.assume("reference: complete projective formulas in Montgomery arithmetic (checked with affine formulas and OpenSSL in tools/validate_refs.py); off-curve operands are outside the statement");
    fn any_im() -> BoxedStrategy<usize> { prop_oneof![1 => Just(0usize), 1 => Just(1usize), 1 => Just(2usize), 1 => Just(3usize), 6 => Just(4usize), 2 => Just(5usize)].boxed() }
    r.sub("constants", 60, 60, "names, sizes, base points and orders of the six implementations; non-trivial: all", || 0usize..IMPLS, constants).require(&NAMES, 1);
    r.sub("add", 50_000, 2_000_000, "sums in both orders and doubles of pairs of points: free, equal, opposite, doubled, with near coordinates, or with a chosen sum; coordinates from edge values of the field, of 28-bit limbs and of Montgomery limbs; non-trivial: not both at infinity",
        || (any_im(), point(), prop_oneof![6 => point().prop_map(Second::Free), 1 => Just(Second::Same), 1 => Just(Second::Neg), 1 => Just(Second::Twice), 1 => Just(Second::MinusTwice), 2 => (-3i8..4, any::<bool>()).prop_map(|(a, b)| Second::NearX(a, b)), 1 => (-3i8..4).prop_map(Second::NearY), 4 => point().prop_map(Second::SumIs)], prop::bool::weighted(0.05))
            .prop_map(|(im, p, q, fresh)| Add { im, p, q, fresh }), add)
        .require(&["operand at infinity", "result at infinity", "equal points", "opposite points", "operand with extreme x", "operand with extreme y", "result with extreme x", "result with extreme y"], 300);
    let muls = |im: BoxedStrategy<usize>| (im, point(), scal(), prop::bool::weighted(0.4), prop::bool::weighted(0.05)).prop_map(|(im, p, k, image, fresh)| Mul { im, p, k, image, fresh }).boxed();
    let ml = ["operand at infinity", "result at infinity", "operand with extreme x", "result with extreme x", "result with extreme y", "scalar not below the order", "scalar divisible by the order"];
    r.sub("scalar_special", 45_000, 1_000_000, "multiples of points in the specialised implementations: scalars of every shape to beyond the order, operands and results from edge values; non-trivial: scalar not zero", move || muls((4usize..6).boxed()), mul).require(&ml, 100);
    r.sub("scalar_generic", 1_200, 60_000, "multiples of points in the generic implementation; non-trivial: scalar not zero", move || muls((0usize..4).boxed()), mul).require(&ml, 10);
    r.sub("base_special", 40_000, 1_000_000, "multiples of the base point in the specialised implementations; non-trivial: scalar not zero", move || muls((4usize..6).boxed()).prop_map(|mut m| { m.image = m.fresh; m }), base).require(&["scalar not below the order", "scalar divisible by the order", "through the parameters"], 50);
    r.sub("base_generic", 600, 60_000, "multiples of the base point in the generic implementation; non-trivial: scalar not zero", move || muls((0usize..4).boxed()), base).require(&["scalar not below the order", "scalar divisible by the order"], 10);
    r.sub("walk", 6_000, 100_000, "walks in which each operation takes the library's last result; non-trivial: two steps or more",
        move || (any_im(), point(), prop::collection::vec((any::<u8>(), point(), prop_oneof![0u16..8, any::<u16>()]), 1..10)).prop_map(|(im, start, steps)| Walk { im, start, steps }), walk);
    r.finish();
}
