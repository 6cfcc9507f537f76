//! Leakage driver: performs the operations of the specification's behaviours
//! on the real types, each inside a window of observation, with the operands
//! always at the same addresses.
//!
//! Commands are those of the replay driver. For every window a line
//! `<op> <form> <public index> <token>` is written before the line `.` that
//! ends a command; a command that ended in a panic ends in `!`.
use std::hint::black_box;
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn lk_begin();
    fn lk_start();
    fn lk_stop() -> u64;
}

pub type Seen = Vec<(&'static str, i64, i64, u64)>;

#[inline(never)]
fn window<R>(seen: &mut Seen, op: &'static str, form: i64, public: i64, f: impl FnOnce() -> R) -> R {
    unsafe { lk_start() }
    let r = black_box(f());
    let t = unsafe { lk_stop() };
    seen.push((op, form, public, t));
    r
}

pub trait Machine {
    fn step(&mut self, w: &[&str], seen: &mut Seen);
}

macro_rules! field {
    ($name:ident, $module:ident, $T:ident) => {
        pub mod $name {
            use crate::{window, Seen};
            use safecurves_rust::field::$module as m;
            use safecurves_rust::field::$module::$T as T;
            use safecurves_rust::field::prime_field::PrimeField;
            use safecurves_rust::normalize::{Normalize, NormalizeEq};
            use safecurves_rust::pack::Pack;
            use verif_driver::$name::{bin as bin0, lazy, mk, named, small as small0, val, LIMB, NB};
            use std::hint::black_box;
            use std::hint::black_box as bb;

            pub struct M { pub r: [T; 3] }

            impl M { pub fn new() -> M { M { r: [m::ZERO; 3] } } }

            type S<'a> = &'a mut Seen;
            #[inline(never)]
            fn bin_(s: S, o: &str, f: i64, a: &T, b: &T) -> T {
                let (x, y) = (*a, *b);
                let (x, y) = (black_box(&x), black_box(&y));
                match o {
                    "add" => window(s, "add", f, 0, || bin0("add", f, x, y)),
                    "sub" => window(s, "sub", f, 0, || bin0("sub", f, x, y)),
                    "mul" => window(s, "mul", f, 0, || bin0("mul", f, x, y)),
                    _ => window(s, "div", f, 0, || bin0("div", f, x, y)),
                }
            }
            #[inline(never)]
            fn small_(s: S, o: &str, f: i64, a: &T, k: i64) -> T {
                let x = *a;
                let x = black_box(&x);
                let k = black_box(k);
                match o {
                    "sadd" => window(s, "sadd", f, 0, || small0("sadd", f, x, k)),
                    "ssub" => window(s, "ssub", f, 0, || small0("ssub", f, x, k)),
                    _ => window(s, "smul", f, 0, || small0("smul", f, x, k)),
                }
            }
            #[inline(never)]
            fn un_(s: S, o: &str, f: i64, a: &T) -> T {
                let mut x = *a;
                let x = black_box(&mut x);
                match (o, f) {
                    ("neg", _) => window(s, "neg", 0, 0, || -*x),
                    ("square", 0) => window(s, "square", 0, 0, || x.squared()),
                    ("square", _) => window(s, "square", 1, 0, || { x.square(); *x }),
                    ("invert", 0) => window(s, "invert", 0, 0, || x.inverted()),
                    ("invert", _) => window(s, "invert", 1, 0, || { x.invert(); *x }),
                    ("legendre", _) => window(s, "legendre", 0, 0, || x.legendre()),
                    ("sqrt", _) => window(s, "sqrt", 0, 0, || x.sqrt()),
                    _ => window(s, "normalize", 0, 0, || { x.normalize(); *x }),
                }
            }
            #[inline(never)]
            fn pack_(s: S, f: i64, a: &T) -> [u8; NB] {
                let mut x = *a;
                let x = black_box(&mut x);
                let mut b = [0u8; NB];
                let b = black_box(&mut b);
                match f {
                    0 => window(s, "pack", 0, 0, || x.pack(&mut b[..])),
                    1 => { let v = window(s, "pack", 1, 0, || x.packed()); b.copy_from_slice(&v[..]) }
                    _ => { x.normalize(); window(s, "pack", 2, 0, || x.pack_normalized(&mut b[..])) }
                }
                *b
            }
            #[inline(never)]
            fn unpack_(s: S, f: i64, a: &T, bytes: &[u8]) -> T {
                let mut x = *a;
                let x = black_box(&mut x);
                let mut b = [0u8; NB];
                b.copy_from_slice(&bytes[..NB]);
                let b = black_box(&b);
                match f {
                    0 => window(s, "unpack", 0, 0, || T::unpacked(&b[..])),
                    _ => window(s, "unpack", 1, 0, || { x.unpack(&b[..]); *x }),
                }
            }
            #[inline(never)]
            fn eq_(s: S, f: i64, a: &T, b: &T) -> bool {
                let (mut x, mut y) = (*a, *b);
                if f != 0 { y.normalize() }
                let (x, y) = (black_box(&mut x), black_box(&mut y));
                match f {
                    0 => window(s, "eq", 0, 0, || x.normalize_eq(y)),
                    _ => window(s, "eq", 1, 0, || x.normalize_self_eq(y)),
                }
            }
            /// One bit, or all of them (i < 0).
            #[inline(never)]
            fn bit_(s: S, f: i64, a: &T, i: i64) {
                let mut x = *a;
                if f != 0 { x.normalize() }
                let x = black_box(&mut x);
                let mut out = [0u8; NB];
                let out = black_box(&mut out);
                match (f, i < 0) {
                    (0, false) => { window(s, "bit", 0, i, || x.bit(i as usize)); }
                    (_, false) => { window(s, "bit", 1, i, || x.bit_normalized(i as usize)); }
                    (0, true) => window(s, "bits", 0, 0, || for j in 0..T::nbits() { out[j / 8] |= (x.bit(j) as u8) << (j % 8) }),
                    (_, true) => window(s, "bits", 1, 0, || for j in 0..T::nbits() { out[j / 8] |= (x.bit_normalized(j) as u8) << (j % 8) }),
                }
            }
            #[inline(never)]
            fn bitop_(s: S, o: &str, f: i64, a: &T, b: &T) -> T {
                let (mut x, mut y) = (*a, *b);
                if f == 2 { x.normalize() }
                if f != 0 { y.normalize() }
                let (x, y) = (black_box(&mut x), black_box(&mut y));
                match (o, f) {
                    ("band", 0) => window(s, "band", 0, 0, || x.normalize_bitand(y)),
                    ("band", 1) => window(s, "band", 1, 0, || x.normalize_self_bitand(y)),
                    ("band", _) => window(s, "band", 2, 0, || x.normalized_bitand(y)),
                    (_, 0) => window(s, "bor", 0, 0, || x.normalize_bitor(y)),
                    (_, 1) => window(s, "bor", 1, 0, || x.normalize_self_bitor(y)),
                    (_, _) => window(s, "bor", 2, 0, || x.normalized_bitor(y)),
                }
                *x
            }
            #[inline(never)]
            fn fill_(s: S, f: i64, a: &T, k: bool) -> T {
                let mut x = *a;
                let x = black_box(&mut x);
                let k = black_box(k);
                match f {
                    0 => window(s, "fill", 0, 0, || T::filled(k)),
                    _ => window(s, "fill", 1, 0, || { x.fill(k); *x }),
                }
            }
            #[inline(never)]
            fn select_(s: S, f: i64, a: &T, b: &T, k: bool) -> T {
                let (mut x, mut y) = (*a, *b);
                let (x, y) = (black_box(&mut x), black_box(&mut y));
                let k = black_box(k);
                window(s, "select", f, 0, || {
                    let (t, n) = if f == 0 { (T::filled(k), T::filled(!k)) } else {
                        let (mut t, mut n) = (*x, *y); t.fill(k); n.fill(!k); (t, n) };
                    x.normalized_bitand(&t);
                    y.normalized_bitand(&n);
                    x.normalized_bitor(y);
                    *x
                })
            }
            // Every operation is reached from the frame of `step`, with arguments the
            // compiler does not know, so that all windows of a class run the same
            // code at the same stack depth.
            #[inline(always)]
            fn bin(s: S, o: &str, f: i64, a: &T, b: &T) -> T { bin_(s, bb(o), bb(f), a, b) }
            #[inline(always)]
            fn small(s: S, o: &str, f: i64, a: &T, k: i64) -> T { small_(s, bb(o), bb(f), a, bb(k)) }
            #[inline(always)]
            fn un(s: S, o: &str, f: i64, a: &T) -> T { un_(s, bb(o), bb(f), a) }
            #[inline(always)]
            fn pack(s: S, f: i64, a: &T) -> [u8; NB] { pack_(s, bb(f), a) }
            #[inline(always)]
            fn unpack(s: S, f: i64, a: &T, bytes: &[u8]) -> T { unpack_(s, bb(f), a, bytes) }
            #[inline(always)]
            fn eq(s: S, f: i64, a: &T, b: &T) -> bool { eq_(s, bb(f), a, b) }
            #[inline(always)]
            fn bit(s: S, f: i64, a: &T, i: i64) -> () { bit_(s, bb(f), a, bb(i)) }
            #[inline(always)]
            fn bitop(s: S, o: &str, f: i64, a: &T, b: &T) -> T { bitop_(s, bb(o), bb(f), a, b) }
            #[inline(always)]
            fn fill(s: S, f: i64, a: &T, k: bool) -> T { fill_(s, bb(f), a, bb(k)) }
            #[inline(always)]
            fn select(s: S, f: i64, a: &T, b: &T, k: bool) -> T { select_(s, bb(f), a, b, bb(k)) }
            #[inline(always)]
            fn root(s: S, x: &T, k: i32) {
                let mut l = un(s, "legendre", 0, x);
                let mut one = m::ONE;
                if l.normalize_eq(&mut one) { un(s, "sqrt", 0, x); } else { un(s, "sqrt", 0, &(x * k)); }
            }
            fn is_zero(x: &T) -> bool { val(x).bytes().all(|c| c == b'0') }

            impl crate::Machine for M {
                fn step(&mut self, w: &[&str], s: &mut Seen) {
                    let num = |i: usize| -> i64 { w[i].parse::<i64>().expect("TOOL: int") };
                    let reg = |i: usize| -> usize { w[i].parse::<usize>().expect("TOOL: reg") };
                    match w[0] {
                        "load" => { let d = reg(2 - 1); self.r[d] = unpack(s, num(2), &self.r[(d + 1) % 3], &verif_driver::unhex(w[3], NB)); }
                        "unpack" => { let d = reg(2);
                            let bytes: Vec<u8> = w[3].split(',').map(|x| x.parse::<u8>().expect("TOOL: byte")).collect();
                            self.r[d] = unpack(s, num(1) % 2, &self.r[d], &bytes); }
                        "const" => { self.r[reg(1)] = match w[2] {
                            "zero()" => T::zero(), "one()" => T::one(), "m_one()" => T::m_one(), "modulus()" => T::modulus(), c => named(c) }; }
                        "copy" => { self.r[reg(1)] = self.r[reg(2)]; }
                        "add" | "sub" | "mul" | "div" => { self.r[reg(2)] = bin(s, w[0], num(1), &self.r[reg(3)], &self.r[reg(4)]); }
                        "neg" => { self.r[reg(1)] = un(s, "neg", 0, &self.r[reg(2)]); }
                        "sadd" | "ssub" | "smul" => { self.r[reg(2)] = small(s, w[0], num(1), &self.r[reg(3)], num(4)); }
                        "mulxy" => { self.r[reg(2)] = bin(s, "mul", num(1), &mk(w[3]), &mk(w[4])); }
                        "squarev" => { self.r[reg(2)] = un(s, "square", num(1), &mk(w[3])); }
                        "square" | "invert" => { self.r[reg(2)] = un(s, w[0], num(1), &self.r[reg(3)]); }
                        "legendre" => { self.r[reg(1)] = un(s, "legendre", 0, &self.r[reg(2)]); }
                        "sqrtsq" => { let z = un(s, "sqrt", 0, &self.r[reg(2)]); self.r[reg(1)] = un(s, "square", 0, &z); }
                        "sqsqrtsq" => { let z = un(s, "square", 0, &self.r[reg(2)]);
                            let z = un(s, "sqrt", 0, &z); self.r[reg(1)] = un(s, "square", 0, &z); }
                        "invmul" => { let x = self.r[reg(3)]; let y = un(s, "invert", num(1), &x); self.r[reg(2)] = bin(s, "mul", 0, &y, &x); }
                        "divmul" => { let (x, y) = (self.r[reg(3)], self.r[reg(4)]);
                            let q = bin(s, "div", num(1), &x, &y); self.r[reg(2)] = bin(s, "mul", 1, &q, &y); }
                        "legsq" => { let z = &self.r[reg(2)].squared() * (num(3) as i32); self.r[reg(1)] = un(s, "legendre", 0, &z); }
                        "legmul" => { let (x, y) = (self.r[reg(2)], self.r[reg(3)]);
                            for v in [x, y, &x * &y] { un(s, "legendre", 0, &v); }
                            self.r[reg(1)] = m::ONE; }
                        "sqrtany" => { let x = self.r[reg(2)]; root(s, &x, num(3) as i32); self.r[reg(1)] = x; }
                        "addv" | "subv" | "rsubv" | "mulv" | "rmulv" => {
                            let v = mk(w[4]);
                            let (x, y) = if w[0].starts_with('r') { (v, self.r[reg(3)]) } else { (self.r[reg(3)], v) };
                            self.r[reg(2)] = bin(s, &w[0].trim_start_matches('r')[..3], num(1), &x, &y); }
                        "burst" => { let (f, k, n) = (num(2), num(6), num(7));
                            let (mut z, y) = (self.r[reg(4)], self.r[reg(5)]);
                            for _ in 0..n {
                                z = match w[1] {
                                    "add" | "sub" | "mul" => bin(s, w[1], f, &z, &y),
                                    "dbl" => bin(s, "add", f, &z, &z),
                                    "rsub" => bin(s, "sub", f, &y, &z),
                                    "sqr" => un(s, "square", f.min(1), &z),
                                    "neg" => un(s, "neg", 0, &z),
                                    o => small(s, o, if f == 3 { 4 } else { f }, &z, k),
                                };
                            }
                            self.r[reg(3)] = z; }
                        "smallmatrix" => { let x = self.r[reg(3)];
                            for (tens, bits, forms) in [(20, 8, [0, 1, 2, 3].as_slice()), (10, 16, &[0, 1, 2, 3]), (0, 32, &[0, 1, 2, 4, 5, 3])] {
                                let h = 1i64 << (bits - 1);
                                for f in forms {
                                    if w[1] == "ssub" && *f == 3 { continue; }
                                    for k in [-h, 1 - h, -h / 2, -2, -1, 0, 1, 2, h / 2, h - 2, h - 1] { small(s, w[1], tens + f, &x, k); }
                                }
                            } }
                        "probe" => {
                            let (f, a, b, code) = (num(1), reg(2), reg(3), num(4));
                            let (kind, fam, mode) = (code / 256, code / 8 % 32, code % 8);
                            let p = verif_driver::unhex(w[5], NB);
                            let (x, y) = (self.r[a], self.r[b]);
                            let ints = kind >= 17;
                            let n = if ints { 32 } else { verif_driver::family_len(fam, T::nbits(), LIMB) };
                            for i in 0..n {
                                if ints {
                                    let form = if fam < 5 { f } else { f % 4 + 10 * (fam / 5) };
                                    let op = ["sadd", "ssub", "smul"][kind as usize - 17];
                                    let form = if op == "ssub" && form % 10 == 3 { form - 1 } else { form };
                                    let bits = [32, 16, 8][(fam / 5) as usize];
                                    let k = verif_driver::small_family(fam % 5, i);
                                    small(s, op, form, &x, (k << (64 - bits)) >> (64 - bits));
                                    continue;
                                }
                                let v = T::unpacked(&verif_driver::family(fam, i, T::nbits(), LIMB, &p));
                                let g = match mode {
                                    0 => v,
                                    1 => bin0("add", f, &y, &v),
                                    2 => bin0("sub", f, &y, &v),
                                    3 => bin0("add", f, &m::M_ONE, &(&v + &m::ONE)),
                                    _ => bin0("sub", f, &(&v - &m::ONE), &m::M_ONE),
                                };
                                match kind {
                                    0 => { bin(s, "add", f, &x, &g); }
                                    1 => { bin(s, "sub", f, &x, &g); }
                                    2 => { bin(s, "sub", f, &g, &x); }
                                    3 => { bin(s, "mul", f, &x, &g); }
                                    4 => { bin(s, "mul", f, &g, &x); }
                                    5 => { un(s, "square", f % 2, &g); }
                                    6 => { un(s, "neg", 0, &g); }
                                    7 => if !is_zero(&g) { un(s, "invert", f % 2, &g); },
                                    8 => if !is_zero(&g) { bin(s, "div", f, &x, &g); },
                                    9 => if !is_zero(&g) { root(s, &g, verif_driver::nonresidue(&p)) },
                                    10 => { un(s, "legendre", 0, &g); }
                                    11 => { let b = pack(s, f % 3, &g); unpack(s, f % 2, &x, &b); }
                                    12 => { bit(s, f % 2, &g, -1); }
                                    13 => { bitop(s, "band", f % 3, &x, &g); }
                                    14 => { bitop(s, "bor", f % 3, &x, &g); }
                                    15 => { eq(s, f % 2, &x, &g); }
                                    _ => { un(s, "normalize", 0, &g); }
                                }
                            } }
                        "normalize" => { let a = reg(1); self.r[a] = un(s, "normalize", 0, &self.r[a]); }
                        "pack" => { let a = reg(2); pack(s, num(1) % 3, &self.r[a]); self.r[a].normalize(); }
                        "eq" => { eq(s, num(1), &self.r[reg(2)], &self.r[reg(3)]); }
                        "eqbits" => { let x = self.r[reg(2)];
                            let base = { let mut z = x; z.packed() };
                            for i in 0..T::nbits() {
                                let mut b = base.to_vec();
                                b[i / 8] ^= 1 << (i % 8);
                                let mut y = T::unpacked(&b);
                                if y.packed()[..] != b[..] { continue; }     // not below the modulus
                                if num(1) == 0 { eq(s, 0, &x, &y); } else { eq(s, 0, &y, &x); }
                            } }
                        "bit" => { bit(s, num(1), &self.r[reg(2)], num(3)); }
                        "bits" => { bit(s, num(1), &self.r[reg(2)], -1); }
                        "band" | "bor" => { self.r[reg(2)] = bitop(s, w[0], num(1), &self.r[reg(3)], &self.r[reg(4)]); }
                        "mask" => { let d = reg(2); let t = fill(s, num(1), &self.r[d], num(4) != 0);
                            let mut x = self.r[reg(3)]; x.normalized_bitand(&t); self.r[d] = x; }
                        "select" => { self.r[reg(2)] = select(s, num(1), &self.r[reg(3)], &self.r[reg(4)], num(5) != 0); }
                        "hex" | "debug" | "sizes" => {}
                        o => panic!("TOOL: unknown op {}", o),
                    }
                    let _ = lazy;
                }
            }
        }
    };
}

field!(e221_3, mod_e221_3, Mod_e221_3);
field!(e222_117, mod_e222_117, Mod_e222_117);
field!(e251_9, mod_e251_9, Mod_e251_9);
field!(e255_19, mod_e255_19, Mod_e255_19);
field!(e382_105, mod_e382_105, Mod_e382_105);
field!(e383_187, mod_e383_187, Mod_e383_187);
field!(e414_17, mod_e414_17, Mod_e414_17);
field!(e511_187, mod_e511_187, Mod_e511_187);
field!(e521_1, mod_e521_1, Mod_e521_1);

macro_rules! curve {
    ($name:ident, $module:ident, $C:ident, $field:ident) => {
        pub mod $name {
            use crate::{window, Seen};
            use safecurves_rust::curve::edwards::EdwardsExtended;
            use safecurves_rust::curve::point::Point;
            use safecurves_rust::curve::$module::$C as C;
            use verif_driver::$field as f;
            use std::hint::black_box;
            use std::hint::black_box as bb;
            type P = EdwardsExtended<C>;

            pub struct M { pub p: [P; 4] }

            impl M { pub fn new() -> M { M { p: [P::zero(); 4] } } }

            type S<'a> = &'a mut Seen;
            #[inline(never)]
            fn init_(s: S, a: &P, x: f::Elem, y: f::Elem) -> P {
                let mut z = *a;
                let z = black_box(&mut z);
                let (x, y) = (black_box(x), black_box(y));
                window(s, "init", 0, 0, || z.init(x, y));
                *z
            }
            #[inline(never)]
            fn add_(s: S, fm: i64, a: &P, b: &P) -> P {
                let (mut x, y) = (*a, *b);
                let (x, y) = (black_box(&mut x), black_box(&y));
                match fm {
                    0 => window(s, "padd", 0, 0, || *x + *y),
                    1 => window(s, "padd", 1, 0, || &*x + y),
                    2 => window(s, "padd", 2, 0, || { *x += *y; *x }),
                    _ => window(s, "padd", 3, 0, || { *x += y; *x }),
                }
            }
            #[inline(never)]
            fn un_(s: S, o: &str, fm: i64, a: &P) -> P {
                let mut x = *a;
                let x = black_box(&mut x);
                match (o, fm) {
                    ("double", 0) => window(s, "double", 0, 0, || x.doubled()),
                    ("double", _) => window(s, "double", 1, 0, || { x.double(); *x }),
                    (_, 0) => window(s, "triple", 0, 0, || x.tripled()),
                    _ => window(s, "triple", 1, 0, || { x.triple(); *x }),
                }
            }
            #[inline(never)]
            fn mul_(s: S, fm: i64, a: &P, k: f::Elem) -> P {
                let (mut x, mut k) = (*a, k);
                let (x, k) = (black_box(&mut x), black_box(&mut k));
                match fm {
                    0 => window(s, "pmul", 0, 0, || x.scalar_mult_normalized(k)),
                    _ => window(s, "pmul", 1, 0, || x.scalar_mult(k)),
                }
                *x
            }

            #[inline(always)]
            fn init(s: S, a: &P, x: f::Elem, y: f::Elem) -> P { init_(s, a, x, y) }
            #[inline(always)]
            fn add(s: S, fm: i64, a: &P, b: &P) -> P { add_(s, bb(fm), a, b) }
            #[inline(always)]
            fn un(s: S, o: &str, fm: i64, a: &P) -> P { un_(s, bb(o), bb(fm), a) }
            #[inline(always)]
            fn mul(s: S, fm: i64, a: &P, k: f::Elem) -> P { mul_(s, bb(fm), a, k) }

            impl crate::Machine for M {
                fn step(&mut self, w: &[&str], s: &mut Seen) {
                    let num = |i: usize| -> i64 { w[i].parse::<i64>().expect("TOOL: int") };
                    let reg = |i: usize| -> usize { w[i].parse::<usize>().expect("TOOL: reg") };
                    match w[0] {
                        "zero" => { self.p[reg(1)] = P::zero(); }
                        "copy" => { self.p[reg(1)] = self.p[reg(2)]; }
                        "init_xy" => { let d = reg(2); self.p[d] = init(s, &self.p[d], f::lazy(w[3], num(1)), f::lazy(w[4], num(1))); }
                        "add" => { self.p[reg(2)] = add(s, num(1), &self.p[reg(3)], &self.p[reg(4)]); }
                        "double" | "triple" => { self.p[reg(2)] = un(s, w[0], num(1), &self.p[reg(3)]); }
                        "smloose" => { let fm = num(1); mul(s, fm, &self.p[reg(2)], f::lazy(w[3], fm - 1)); }
                        "smprobe" => { let fm = num(1);
                            let p = verif_driver::unhex(w[7], f::NB);
                            let bits = <f::Elem as safecurves_rust::field::prime_field::PrimeField>::nbits();
                            for j in 0..reg(6) {
                                let k = verif_driver::hex(&verif_driver::family(num(3), reg(4) + j * reg(5), bits, bits / 2, &p));
                                mul(s, fm, &self.p[reg(2)], f::lazy(&k, fm - 1));
                            } }
                        o => panic!("TOOL: unknown op {}", o),
                    }
                }
            }
        }
    };
}

curve!(c_e222, e_222, E222, e222_117);
curve!(c_1174, curve1174, Curve1174, e251_9);
curve!(c_e382, e_382, E382, e382_105);
curve!(c_41417, curve41417, Curve41417, e414_17);
curve!(c_e521, e_521, E521, e521_1);

fn machine(name: &str) -> Box<dyn Machine> {
    match name {
        "e221_3" => Box::new(e221_3::M::new()),
        "e222_117" => Box::new(e222_117::M::new()),
        "e251_9" => Box::new(e251_9::M::new()),
        "e255_19" => Box::new(e255_19::M::new()),
        "e382_105" => Box::new(e382_105::M::new()),
        "e383_187" => Box::new(e383_187::M::new()),
        "e414_17" => Box::new(e414_17::M::new()),
        "e511_187" => Box::new(e511_187::M::new()),
        "e521_1" => Box::new(e521_1::M::new()),
        "c_e222" => Box::new(c_e222::M::new()),
        "c_1174" => Box::new(c_1174::M::new()),
        "c_e382" => Box::new(c_e382::M::new()),
        "c_41417" => Box::new(c_41417::M::new()),
        "c_e521" => Box::new(c_e521::M::new()),
        _ => panic!("TOOL: machine {}", name),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    unsafe { lk_begin() }
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = BufWriter::new(stdout.lock());
    let mut m: Option<Box<dyn Machine>> = None;
    let mut seen: Seen = Vec::with_capacity(4096);
    // with `unique`, what was written before is not written again
    let unique = std::env::args().any(|a| a == "unique");
    let mut told = std::collections::HashSet::new();
    for line in stdin.lock().lines() {
        let line = line.expect("read");
        let w: Vec<&str> = line.split_whitespace().collect();
        seen.clear();
        let ok = if w[0] == "machine" {
            m = Some(machine(w[1]));
            true
        } else {
            let mach = m.as_mut().expect("TOOL: no machine");
            catch_unwind(AssertUnwindSafe(|| mach.step(&w, &mut seen))).is_ok()
        };
        for (op, f, k, t) in &seen {
            if unique && !told.insert((*op, *f, *k, *t)) { continue; }
            writeln!(out, "{} {} {} {:x}", op, f, k, t).unwrap();
        }
        writeln!(out, "{}", if ok { "." } else { "!" }).unwrap();
    }
    out.flush().unwrap();
}
