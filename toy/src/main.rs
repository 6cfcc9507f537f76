//! The crate's generic Edwards point code, instantiated over fields small
//! enough to visit every representation of every point. For each toy curve
//! the program explores all reachable extended representations, applies every
//! operation to all of them and prints the transition relation projected to
//! affine points:
//!   `<op> <a> <b> -> <result> <flags>` with points as `x,y`.
//! What the transitions must be is the business of spec/toy.qnt.

use rand::{Rand, Rng};
use safecurves_rust::curve::edwards::{EdwardsCurve, EdwardsExtended};
use safecurves_rust::curve::point::Point;
use safecurves_rust::field::prime_field::PrimeField;
use safecurves_rust::normalize::{Normalize, NormalizeEq};
use safecurves_rust::pack::Pack;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::*;

/// Integers modulo P, lazily normalized: any value in [-P, 2P) may stand for
/// its residue.
#[derive(Copy, Clone, Debug)]
pub struct Toy<const P: i64>(i64);

impl<const P: i64> Toy<P> {
    fn fold(x: i64) -> Self {
        Toy(if x >= 2 * P { x - P } else if x < -P { x + P } else { x })
    }
    fn val(&self) -> i64 { self.0.rem_euclid(P) }
    fn bits() -> usize { (64 - P.leading_zeros()) as usize }
    fn pow(self, mut e: i64) -> Self {
        let (mut r, mut s) = (1i64, self.val());
        while e > 0 {
            if e & 1 == 1 { r = r * s % P; }
            s = s * s % P;
            e >>= 1;
        }
        Toy(r)
    }
}

impl<const P: i64> Add for Toy<P> { type Output = Self; fn add(self, o: Self) -> Self { Toy::fold(self.0 + o.0) } }
impl<const P: i64> Sub for Toy<P> { type Output = Self; fn sub(self, o: Self) -> Self { Toy::fold(self.0 - o.0) } }
impl<const P: i64> Mul for Toy<P> { type Output = Self; fn mul(self, o: Self) -> Self { Toy(self.0 * o.0 % P) } }
impl<const P: i64> Div for Toy<P> { type Output = Self; fn div(self, o: Self) -> Self { self * o.inverted() } }
impl<const P: i64> Neg for Toy<P> { type Output = Self; fn neg(self) -> Self { Toy::fold(-self.0) } }
impl<const P: i64> AddAssign for Toy<P> { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl<const P: i64> SubAssign for Toy<P> { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl<const P: i64> MulAssign for Toy<P> { fn mul_assign(&mut self, o: Self) { *self = *self * o } }
impl<const P: i64> DivAssign for Toy<P> { fn div_assign(&mut self, o: Self) { *self = *self / o } }

macro_rules! small {
    ($($t:ty),*) => { $(
        impl<const P: i64> Add<$t> for Toy<P> { type Output = Self; fn add(self, k: $t) -> Self { Toy((self.0 + k as i64) % P) } }
        impl<const P: i64> Sub<$t> for Toy<P> { type Output = Self; fn sub(self, k: $t) -> Self { Toy((self.0 - k as i64) % P) } }
        impl<const P: i64> Mul<$t> for Toy<P> { type Output = Self; fn mul(self, k: $t) -> Self { Toy(self.0 * k as i64 % P) } }
        impl<const P: i64> AddAssign<$t> for Toy<P> { fn add_assign(&mut self, k: $t) { *self = *self + k } }
        impl<const P: i64> SubAssign<$t> for Toy<P> { fn sub_assign(&mut self, k: $t) { *self = *self - k } }
        impl<const P: i64> MulAssign<$t> for Toy<P> { fn mul_assign(&mut self, k: $t) { *self = *self * k } }
    )* }
}
small!(i32, i16, i8);

impl<const P: i64> Normalize for Toy<P> {
    fn normalize(&mut self) { self.0 = self.val(); }
}
impl<const P: i64> NormalizeEq for Toy<P> {
    fn normalize_self_eq(&mut self, o: &Self) -> bool { self.normalize(); self.0 == o.0 }
    fn normalize_eq(&mut self, o: &mut Self) -> bool { o.normalize(); self.normalize_self_eq(o) }
}
impl<const P: i64> Pack for Toy<P> {
    fn unpack(&mut self, b: &[u8]) { self.0 = b[0] as i64; }
    fn unpacked(b: &[u8]) -> Self { Toy(b[0] as i64) }
    fn pack(&mut self, b: &mut [u8]) { self.normalize(); b[0] = self.0 as u8; }
    fn pack_normalized(&self, b: &mut [u8]) { b[0] = self.0 as u8; }
    fn nbytes() -> i32 { 1 }
}
impl<const P: i64> Rand for Toy<P> {
    fn rand<R: Rng>(rng: &mut R) -> Self { Toy(rng.gen_range(0, P)) }
}
impl<const P: i64> PrimeField for Toy<P> {
    fn nbits() -> usize { Self::bits() }
    fn bit(&mut self, i: usize) -> bool { self.normalize(); self.bit_normalized(i) }
    fn bit_normalized(&self, i: usize) -> bool { (self.0 >> i) & 1 == 1 }
    fn fill(&mut self, bit: bool) { self.0 = -(bit as i64); }
    fn filled(bit: bool) -> Self { Toy(-(bit as i64)) }
    fn normalize_bitand(&mut self, r: &mut Self) { r.normalize(); self.normalize_self_bitand(r) }
    fn normalize_self_bitand(&mut self, r: &Self) { self.normalize(); self.normalized_bitand(r) }
    fn normalized_bitand(&mut self, r: &Self) { self.0 &= r.0 }
    fn normalize_bitor(&mut self, r: &mut Self) { r.normalize(); self.normalize_self_bitor(r) }
    fn normalize_self_bitor(&mut self, r: &Self) { self.normalize(); self.normalized_bitor(r) }
    fn normalized_bitor(&mut self, r: &Self) { self.0 |= r.0 }
    fn zero() -> Self { Toy(0) }
    fn one() -> Self { Toy(1) }
    fn m_one() -> Self { Toy(P - 1) }
    fn modulus() -> Self { Toy(P) }
    fn square(&mut self) { *self = self.squared() }
    fn squared(&self) -> Self { *self * *self }
    fn invert(&mut self) { *self = self.inverted() }
    fn inverted(&self) -> Self { self.pow(P - 2) }
    fn legendre(&self) -> Self { self.pow((P - 1) / 2) }
    fn sqrt(&self) -> Self {
        let v = self.val();
        Toy((0..P).find(|r| r * r % P == v).unwrap_or(0))
    }
    fn small_add_assign(&mut self, k: i32) { *self += k }
    fn small_add(&self, k: i32) -> Self { *self + k }
    fn small_sub_assign(&mut self, k: i32) { *self -= k }
    fn small_sub(&self, k: i32) -> Self { *self - k }
    fn small_mul_assign(&mut self, k: i32) { *self *= k }
    fn small_mul(&self, k: i32) -> Self { *self * k }
}

#[derive(Copy, Clone)]
struct Curve<const P: i64, const D: i64>;
impl<const P: i64, const D: i64> EdwardsCurve for Curve<P, D> {
    type Scalar = Toy<P>;
    fn d_val() -> Toy<P> { Toy(D) }
}

type Pt<const P: i64, const D: i64> = EdwardsExtended<Curve<P, D>>;
type Coords = (i64, i64, i64, i64);

fn coords<const P: i64, const D: i64>(p: &Pt<P, D>) -> Coords {
    let (x, y, z, t) = p.verif_coords();
    (x.val(), y.val(), z.val(), t.val())
}

/// Affine projection and whether the representation is consistent: `ok`, or
/// what is wrong with it.
fn project<const P: i64, const D: i64>(p: &Pt<P, D>) -> (String, &'static str) {
    let (x, y, z, t) = coords(p);
    if z == 0 {
        return ("-".into(), "z=0");
    }
    let zi = Toy::<P>(z).inverted().0;
    let ok = if (t * z - x * y).rem_euclid(P) != 0 { "tz!=xy" } else { "ok" };
    (format!("{},{}", x * zi % P, y * zi % P), ok)
}

fn explore<const P: i64, const D: i64>(name: &str) {
    let mut rel: BTreeMap<(String, String, String), BTreeSet<(String, &'static str)>> = BTreeMap::new();
    let mut states: Vec<Pt<P, D>> = vec![];
    let mut index: HashMap<Coords, usize> = HashMap::new();
    let mut note = |op: &str, a: &str, b: &str, r: &Pt<P, D>| {
        rel.entry((op.into(), a.into(), b.into())).or_insert_with(BTreeSet::new).insert(project(r));
    };
    let mut fresh: Vec<Pt<P, D>> = vec![];
    let z = <Pt<P, D>>::zero();
    note("zero", "", "", &z);
    fresh.push(z);
    for x in 0..P {
        for y in 0..P {
            if (x * x + y * y - 1 - D * (x * x % P) * (y * y % P)).rem_euclid(P) == 0 {
                for (ox, oy) in [(0, 0), (-P, 0), (0, P), (P, -P)].iter() {
                    let mut p = z;
                    p.init(Toy(x + ox), Toy(y + oy));
                    note("init", &format!("{},{}", x, y), "", &p);
                    fresh.push(p);
                }
            }
        }
    }
    let add = |a: &Pt<P, D>, b: &Pt<P, D>, f: usize| -> Pt<P, D> {
        match f % 4 {
            0 => *a + *b,
            1 => a + b,
            2 => { let mut z = *a; z += *b; z }
            _ => { let mut z = *a; z += b; z }
        }
    };
    let mut transitions = 0usize;
    // all reachable representations
    while let Some(p) = fresh.pop() {
        let c = coords(&p);
        if index.contains_key(&c) || project(&p).1 == "z=0" {
            continue;
        }
        index.insert(c, states.len());
        states.push(p);
        fresh.push(p.doubled());
        fresh.push(p.tripled());
        let n = states.len();
        for (i, q) in states[..n].to_vec().iter().enumerate() {
            fresh.push(add(&p, q, i));
            fresh.push(add(q, &p, i + 1));
        }
    }
    let proj: Vec<String> = states.iter().map(|p| project(p).0).collect();
    for (i, p) in states.iter().enumerate() {
        let a = &proj[i];
        let mut x = *p;
        x.double();
        note("double", a, "", &x);
        note("double", a, "", &p.doubled());
        let mut x = *p;
        x.triple();
        note("triple", a, "", &x);
        note("triple", a, "", &p.tripled());
        let mut x = *p;
        x.init(Toy(0), Toy(1));
        note("init", "0,1", "", &x);
        let mut x = *p;
        x.init(Toy(1), Toy(0));
        note("init", "1,0", "", &x);
        transitions += 6;
        for k in 0..P {
            let b = k.to_string();
            let mut x = *p;
            x.scalar_mult_normalized(&Toy(k));
            note("smul", a, &b, &x);
            for o in [-P, 0, P].iter() {
                let mut x = *p;
                let mut s = Toy(k + o);
                x.scalar_mult(&mut s);
                note("smul", a, &b, &x);
                transitions += 1;
            }
        }
        for (j, q) in states.iter().enumerate() {
            let r = add(p, q, i + j);
            transitions += 1;
            note("add", a, &proj[j], &r);
        }
    }
    println!("curve {} {} {} {}", name, states.len(), transitions, rel.len());
    for ((op, a, b), rs) in &rel {
        for (r, f) in rs {
            println!("{} {};{} -> {} {}", op, a, b, r, f);
        }
    }
}

fn main() {
    match std::env::args().nth(1).expect("curve name").as_str() {
        "t13" => explore::<13, 2>("t13"),
        "t17" => explore::<17, 3>("t17"),
        "t23" => explore::<23, 22>("t23"),
        "t29" => explore::<29, 2>("t29"),
        "t31" => explore::<31, 3>("t31"),
        _ => panic!("unknown curve"),
    }
}
