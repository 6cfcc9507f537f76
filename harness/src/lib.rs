//! Replay driver: executes one abstract operation of the specification at a
//! time on the real types of the crate and reports what a caller can observe.
//!
//! Commands are whitespace separated words, one command per line; every
//! number that may be large is big-endian hexadecimal.

/// Default number of registers of a machine (as in the specification).
pub const REGS: usize = 3;

/// Observation: a list of small naturals, comma separated.
pub fn list<T: ToString>(v: &[T]) -> String {
    let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    v.join(",")
}

pub fn hex(bytes_le: &[u8]) -> String {
    let mut s = String::with_capacity(bytes_le.len() * 2);
    for b in bytes_le.iter().rev() {
        s.push_str(&format!("{:02x}", b));
    }
    s
}

/// Big-endian hex -> little-endian bytes of exactly `n` bytes.
pub fn unhex(s: &str, n: usize) -> Vec<u8> {
    let mut out = vec![0u8; n];
    let b = s.as_bytes();
    let mut i = 0;
    for c in b.iter().rev() {
        let v = (*c as char).to_digit(16).expect("TOOL: hex digit") as u8;
        if i / 2 < n {
            out[i / 2] |= v << (4 * (i % 2));
        } else {
            assert!(v == 0, "TOOL: value too wide");
        }
        i += 1;
    }
    out
}

/// A scripted random number generator: hands out the words it was given,
/// cyclically, and counts how many were taken.
pub struct Script {
    pub words: Vec<u32>,
    pub pos: usize,
}

impl rand::Rng for Script {
    fn next_u32(&mut self) -> u32 {
        // After the script has been played twice, continue with a counter so
        // that rejection sampling always ends.
        let n = self.words.len();
        let w = if self.pos < 2 * n {
            self.words[self.pos % n]
        } else {
            (self.pos as u32).wrapping_mul(0x9e37_79b9) ^ 0x5bd1_e995
        };
        self.pos += 1;
        w
    }
}

pub trait Machine {
    /// Execute one command; the answer is the observation word ("-" if none).
    fn step(&mut self, w: &[&str]) -> String;
    /// Observable state: each register's canonical value in hex.
    fn state(&self) -> String;
    /// Debug rendering of the registers (representation, informative only).
    fn repr(&self) -> String;
}

// ---- families of operands (as in the specification), as little-endian bytes

/// a := a + s * 2^i
fn add_bit(a: &mut [i64], i: usize, s: i64) {
    a[i / 8] += s << (i % 8);
}
/// Carry propagation of signed bytes; the value must not be negative.
fn settle(a: &[i64], n: usize) -> Vec<u8> {
    let (mut out, mut c) = (vec![], 0i64);
    for x in a {
        let y = x + c;
        out.push((y & 0xff) as u8);
        c = y >> 8;
    }
    assert!(c == 0 && out[n..].iter().all(|b| *b == 0), "TOOL: family value");
    out.truncate(n);
    out
}
fn below(a: &[u8], p: &[u8]) -> bool {
    a.iter().rev().lt(p.iter().rev())
}
/// A small non-residue: -1 if p = 3 mod 4, else 2.
pub fn nonresidue(p: &[u8]) -> i32 { if p[0] % 4 == 3 { -1 } else { 2 } }
pub fn small_family(fam: i64, i: usize) -> i64 {
    match fam {
        0 => if i < 31 { 1 << i } else { 2147483647 },
        1 => -(1i64 << i),
        2 => (1i64 << i) - 1,
        3 => 1 - (1i64 << i),
        _ => i as i64 - 16,
    }
}
pub fn family_len(fam: i64, bits: usize, limb: usize) -> usize {
    match fam {
        0..=3 | 6 | 7 => bits,
        4 => (bits + 7) / 8,
        5 => (bits + limb / 2 - 1) / (limb / 2),
        10 => 32 * ((bits + limb - 1) / limb),
        11 => 32,
        _ => 64,
    }
}
/// Member i of a family, modulo p.
pub fn family(fam: i64, i: usize, bits: usize, limb: usize, p: &[u8]) -> Vec<u8> {
    let nb = p.len();
    let mut a = vec![0i64; nb + 16];
    match fam {
        0 => add_bit(&mut a, i, 1),
        1 => { add_bit(&mut a, i, 1); a[0] -= 1 }
        2 => { for j in 0..nb { a[j] = p[j] as i64 } add_bit(&mut a, i, -1) }
        3 => { add_bit(&mut a, bits, 1); add_bit(&mut a, i, -1) }
        4 => a[i] = 255,
        5 => { add_bit(&mut a, limb / 2 * (i + 1), 1); add_bit(&mut a, limb / 2 * i, -1) }
        6 => { add_bit(&mut a, i, 1); a[0] += 1 }
        7 => { add_bit(&mut a, i, 1); add_bit(&mut a, (i + limb) % bits, 1) }
        8 => a[0] = i as i64,
        9 => { for j in 0..nb { a[j] = p[j] as i64 } a[0] -= 1 + i as i64 }
        11 => { add_bit(&mut a, bits, 1); for j in 0..nb { a[j] -= p[j] as i64 } a[0] += i as i64 - 16; for j in 0..nb { a[j] += p[j] as i64 } }
        _ => { for j in 0..5 { if i % 32 >> j & 1 == 1 { add_bit(&mut a, limb * (i / 32) + j, 1) } } }
    }
    // at most a few times p
    let mut v = settle(&a, nb + 16);
    let mut q = p.to_vec();
    q.resize(nb + 16, 0);
    let bits = |x: &[u8]| x.iter().rposition(|b| *b != 0).map_or(0, |j| 8 * j + 8 - x[j].leading_zeros() as usize);
    for sh in (0..(bits(&v) + 1).saturating_sub(bits(&q))).rev() {
        let mut t = vec![0i64; nb + 24];
        for (j, b) in q.iter().enumerate() { t[j + sh / 8] += (*b as i64) << (sh % 8) }
        let t = settle(&t, nb + 24);
        v.resize(nb + 24, 0);
        if !below(&v, &t) {
            let e: Vec<i64> = v.iter().zip(&t).map(|(x, y)| *x as i64 - *y as i64).collect();
            v = settle(&e, nb + 24);
        }
    }
    v.truncate(nb);
    v
}

macro_rules! field_machine {
    ($name:ident, $module:ident, $T:ident, $nb:expr, $limb:expr, { $($cn:expr => $cv:ident),* }) => {
        pub mod $name {
            use safecurves_rust::field::$module as m;
            use safecurves_rust::field::$module::$T as T;
            use safecurves_rust::field::prime_field::PrimeField;
            use safecurves_rust::normalize::{Normalize, NormalizeEq};
            use safecurves_rust::pack::Pack;
            use rand::Rand;
            pub const NB: usize = $nb;
            pub const LIMB: usize = $limb;
            pub type Elem = T;

            /// An operation with a small integer; see the forms in field.qnt.
            pub fn small(op: &str, f: i64, xr: &T, k: i64) -> T {
                let x = *xr;
                macro_rules! t { ($ty:ty) => {{
                    assert!(k >= <$ty>::min_value() as i64 && k <= <$ty>::max_value() as i64, "TOOL: small operand range");
                    k as $ty }} }
                macro_rules! forms { ($o:tt, $oa:tt) => { match f {
                    0 => x $o t!(i32),
                    1 => xr $o t!(i32),
                    2 => { let mut z = x; z $oa t!(i32); z }
                    10 => x $o t!(i16),
                    11 => xr $o t!(i16),
                    12 => { let mut z = x; z $oa t!(i16); z }
                    20 => x $o t!(i8),
                    21 => xr $o t!(i8),
                    22 => { let mut z = x; z $oa t!(i8); z }
                    _ => panic!("TOOL: form"),
                } } }
                macro_rules! rev { ($o:tt) => { match f {
                    3 => t!(i32) $o xr,
                    13 => t!(i16) $o xr,
                    _ => t!(i8) $o xr,
                } } }
                match (op, f) {
                    ("sadd", 4) => xr.small_add(t!(i32)),
                    ("sadd", 5) => { let mut z = x; z.small_add_assign(t!(i32)); z }
                    ("ssub", 4) => xr.small_sub(t!(i32)),
                    ("ssub", 5) => { let mut z = x; z.small_sub_assign(t!(i32)); z }
                    ("smul", 4) => xr.small_mul(t!(i32)),
                    ("smul", 5) => { let mut z = x; z.small_mul_assign(t!(i32)); z }
                    ("sadd", 3) | ("sadd", 13) | ("sadd", 23) => rev!(+),
                    ("smul", 3) | ("smul", 13) | ("smul", 23) => rev!(*),
                    ("sadd", _) => forms!(+, +=),
                    ("ssub", _) => forms!(-, -=),
                    _ => forms!(*, *=),
                }
            }

            pub fn val(x: &T) -> String {
                let mut c = x.clone();
                crate::hex(&c.packed())
            }
            pub fn mk(s: &str) -> T {
                T::unpacked(&crate::unhex(s, NB))
            }
            /// The same residue in another lazily normalized representation:
            /// 0 canonical, 1 pending negative carry, 2 pending positive one.
            pub fn lazy(s: &str, form: i64) -> T {
                let x = mk(s);
                match form {
                    1 => { let y = &x + &m::M_ONE; &y - &m::M_ONE }
                    2 => { let mut y = &x + &m::ONE; y.normalize(); &y + &m::M_ONE }
                    _ => x,
                }
            }
            /// A binary operation in one of its four calling forms.
            pub fn bin(o: &str, f: i64, a: &T, b: &T) -> T {
                let (x, y) = (*a, *b);
                macro_rules! forms { ($o:tt, $oa:tt) => { match f {
                    0 => x $o y,
                    1 => a $o b,
                    2 => { let mut z = x; z $oa y; z }
                    3 => { let mut z = x; z $oa b; z }
                    _ => panic!("TOOL: form"),
                } } }
                match o {
                    "add" => forms!(+, +=),
                    "sub" => forms!(-, -=),
                    "mul" => forms!(*, *=),
                    _ => forms!(/, /=),
                }
            }
            /// The root of x, or of k * x divided by k, squared.
            pub fn root_of(x: &T, k: i32) -> T {
                let mut l = x.legendre();
                let mut one = m::ONE;
                if l.normalize_eq(&mut one) {
                    x.sqrt().squared()
                } else {
                    &(x * k).sqrt().squared() / &(&m::ONE * k)
                }
            }
            pub fn named(s: &str) -> T {
                match s {
                    $( $cn => m::$cv, )*
                    _ => panic!("TOOL: no such constant {}", s),
                }
            }

            pub struct M { pub r: Vec<T> }

            impl M { pub fn new(n: usize) -> M { M { r: vec![m::ZERO; n] } } }

            impl crate::Machine for M {
                fn state(&self) -> String {
                    let v: Vec<String> = self.r.iter().map(val).collect();
                    v.join(" ")
                }
                fn repr(&self) -> String {
                    let v: Vec<String> = self.r.iter().map(|x| format!("{:?}", x)).collect();
                    v.join(";")
                }
                fn step(&mut self, w: &[&str]) -> String {
                    let num = |i: usize| -> i64 { w[i].parse::<i64>().expect("TOOL: int") };
                    let reg = |i: usize| -> usize { w[i].parse::<usize>().expect("TOOL: reg") };
                    match w[0] {
                        // load <d> <form> <hex>
                        "load" => {
                            let d = reg(1);
                            let bytes = crate::unhex(w[3], NB);
                            if num(2) == 0 {
                                self.r[d] = T::unpacked(&bytes);
                            } else {
                                let mut x = self.r[(d + 1) % self.r.len()];
                                x.unpack(&bytes);
                                self.r[d] = x;
                            }
                            "-".into()
                        }
                        "const" => {
                            let d = reg(1);
                            self.r[d] = match w[2] {
                                "zero()" => T::zero(),
                                "one()" => T::one(),
                                "m_one()" => T::m_one(),
                                "modulus()" => T::modulus(),
                                s => named(s),
                            };
                            "-".into()
                        }
                        "copy" => { let (d, a) = (reg(1), reg(2)); self.r[d] = self.r[a]; "-".into() }
                        // bin <op> <form> <d> <a> <b>
                        "add" | "sub" | "mul" | "div" => {
                            let (f, d, a, b) = (num(1), reg(2), reg(3), reg(4));
                            let z = bin(w[0], f, &self.r[a], &self.r[b]);
                            self.r[d] = z;
                            "-".into()
                        }
                        "neg" => { let (d, a) = (reg(1), reg(2)); self.r[d] = -self.r[a]; "-".into() }
                        // sadd/ssub/smul <form> <d> <a> <k>
                        "sadd" | "ssub" | "smul" => {
                            let (f, d, a, k) = (num(1), reg(2), reg(3), num(4));
                            self.r[d] = small(w[0], f, &self.r[a], k);
                            "-".into()
                        }
                        // mulxy <form> <d> <x> <y>, squarev <form> <d> <x>
                        "mulxy" => { let z = bin("mul", num(1), &mk(w[3]), &mk(w[4])); self.r[reg(2)] = z; "-".into() }
                        "squarev" => { let mut z = mk(w[3]); if num(1) == 0 { z = z.squared() } else { z.square() } self.r[reg(2)] = z; "-".into() }
                        // every form of an operation with a small integer
                        "smallmatrix" => {
                            let (d, a) = (reg(2), reg(3));
                            let x = self.r[a];
                            let mut acc = m::ZERO;
                            for (tens, bits, forms) in [(20, 8, [0, 1, 2, 3].as_slice()), (10, 16, &[0, 1, 2, 3]), (0, 32, &[0, 1, 2, 4, 5, 3])] {
                                let h = 1i64 << (bits - 1);
                                for f in forms {
                                    if w[1] == "ssub" && *f == 3 { continue; }
                                    for k in [-h, 1 - h, -h / 2, -2, -1, 0, 1, 2, h / 2, h - 2, h - 1] {
                                        acc = &(&acc * 3i32) + &small(w[1], tens + f, &x, k);
                                    }
                                }
                            }
                            acc.normalize();
                            self.r[d] = acc;
                            "-".into()
                        }
                        // unary <form> <d> <a>
                        "square" | "invert" => {
                            let (f, d, a) = (num(1), reg(2), reg(3));
                            let mut x = self.r[a];
                            self.r[d] = match (w[0], f) {
                                ("square", 0) => self.r[a].squared(),
                                ("square", _) => { x.square(); x }
                                (_, 0) => self.r[a].inverted(),
                                _ => { x.invert(); x }
                            };
                            "-".into()
                        }
                        "legendre" => { let (d, a) = (reg(1), reg(2)); self.r[d] = self.r[a].legendre(); "-".into() }
                        "sqrt" => { let (d, a) = (reg(1), reg(2)); self.r[d] = self.r[a].sqrt(); "-".into() }
                        // relational compounds
                        "sqrtsq" => { let (d, a) = (reg(1), reg(2)); let z = self.r[a].sqrt(); self.r[d] = z.squared(); "-".into() }
                        "sqsqrtsq" => { let (d, a) = (reg(1), reg(2)); let z = self.r[a].squared().sqrt(); self.r[d] = z.squared(); "-".into() }
                        "invmul" => { let (f, d, a) = (num(1), reg(2), reg(3));
                            let mut x = self.r[a];
                            let y = if f == 0 { self.r[a].inverted() } else { x.invert(); x };
                            self.r[d] = &y * &self.r[a]; "-".into() }
                        "divmul" => { let (f, d, a, b) = (num(1), reg(2), reg(3), reg(4));
                            let (x, y) = (self.r[a], self.r[b]);
                            let q = match f {
                                0 => x / y,
                                1 => &self.r[a] / &self.r[b],
                                2 => { let mut z = x; z /= y; z }
                                _ => { let mut z = x; z /= &self.r[b]; z }
                            };
                            self.r[d] = &q * &self.r[b]; "-".into() }
                        // legendre of k times the square of a
                        "legsq" => { let (d, a, k) = (reg(1), reg(2), num(3));
                            let z = &self.r[a].squared() * (k as i32);
                            self.r[d] = z.legendre(); "-".into() }
                        // addv/subv/rsubv/mulv/rmulv <form> <d> <a> <hex>
                        "addv" | "subv" | "rsubv" | "mulv" | "rmulv" => {
                            let (f, d, a) = (num(1), reg(2), reg(3));
                            let v = mk(w[4]);
                            let (x, y) = if w[0].starts_with('r') { (v, self.r[a]) } else { (self.r[a], v) };
                            let o = w[0].trim_start_matches('r');
                            self.r[d] = bin(&o[..3], f, &x, &y);
                            "-".into()
                        }
                        // legmul <d> <a> <b>
                        "legmul" => { let (d, a, b) = (reg(1), reg(2), reg(3));
                            let z = &self.r[a] * &self.r[b];
                            self.r[d] = self.r[a].legendre() * self.r[b].legendre() * z.legendre(); "-".into() }
                        // sqrtany <d> <a> <nonresidue>
                        "sqrtany" => { let (d, a, k) = (reg(1), reg(2), num(3) as i32);
                            self.r[d] = root_of(&self.r[a], k);
                            "-".into() }
                        // eqbits <form> <a>: how many single-bit neighbours compare equal
                        "eqbits" => {
                            let (f, a) = (num(1), reg(2));
                            let (mut x, p) = (self.r[a], m::MODULUS);
                            let mut top = vec![0u8; NB]; p.pack_normalized(&mut top);
                            let base = x.packed();
                            let mut equal = 0;
                            for i in 0..T::nbits() {
                                let mut b = base.to_vec();
                                b[i / 8] ^= 1 << (i % 8);
                                if b.iter().rev().cmp(top.iter().rev()) != std::cmp::Ordering::Less { continue; }
                                let mut y = T::unpacked(&b);
                                let mut z = self.r[a];
                                let e = if f == 0 { z.normalize_eq(&mut y) } else { y.normalize_eq(&mut z) };
                                equal += e as u32;
                            }
                            equal.to_string()
                        }
                        "debug" => { let a = reg(1); let _ = format!("{:?}", self.r[a]); "-".into() }
                        // burst/longburst <kind> <form> <d> <a> <b> <k> <n>
                        "burst" | "longburst" => {
                            let (f, d, a, b, k, n) = (num(2), reg(3), reg(4), reg(5), num(6) as i32, num(7));
                            let mut z = self.r[a];
                            let y = self.r[b];
                            for _ in 0..n {
                                z = match w[1] {
                                    "add" => bin("add", f, &z, &y),
                                    "sub" => bin("sub", f, &z, &y),
                                    "dbl" => bin("add", f, &z, &z),
                                    "rsub" => bin("sub", f, &y, &z),
                                    "mul" => bin("mul", f, &z, &y),
                                    "sqr" => if f == 0 { z.squared() } else { let mut t = z; t.square(); t },
                                    "neg" => -z,
                                    "sadd" => match f { 0 => z + k, 1 => &z + k, 2 => { z += k; z } _ => z.small_add(k) },
                                    "ssub" => match f { 0 => z - k, 1 => &z - k, 2 => { z -= k; z } _ => z.small_sub(k) },
                                    "smul" => match f { 0 => z * k, 1 => &z * k, 2 => { z *= k; z } _ => z.small_mul(k) },
                                    o => panic!("TOOL: burst {}", o),
                                };
                            }
                            if w[0] == "longburst" { z.normalize(); }
                            self.r[d] = z;
                            "-".into()
                        }
                        // sweep <form> <d> <a> <b> <code> <p>
                        "sweep" => {
                            let (f, d, a, b, code) = (num(1), reg(2), reg(3), reg(4), num(5));
                            let (kind, fam, mode) = (code / 256, code / 8 % 32, code % 8);
                            let p = crate::unhex(w[6], NB);
                            let (x, y) = (self.r[a], self.r[b]);
                            let ints = kind >= 17;
                            let n = if ints { 32 } else { crate::family_len(fam, T::nbits(), LIMB) };
                            let mut acc = m::ZERO;
                            for i in 0..n {
                                let z = if ints {
                                    let form = if fam < 5 { f } else { f % 4 + 10 * (fam / 5) };
                                    let op = ["sadd", "ssub", "smul"][kind as usize - 17];
                                    let form = if op == "ssub" && form % 10 == 3 { form - 1 } else { form };
                                    let bits = [32, 16, 8][(fam / 5) as usize];
                                    let k = crate::small_family(fam % 5, i);
                                    small(op, form, &x, (k << (64 - bits)) >> (64 - bits))
                                } else {
                                    let v = T::unpacked(&crate::family(fam, i, T::nbits(), LIMB, &p));
                                    let mut g = match mode {
                                        0 => v,
                                        1 => bin("add", f, &y, &v),
                                        2 => bin("sub", f, &y, &v),
                                        // held as p + v, and as v - p
                                        3 => bin("add", f, &m::M_ONE, &(&v + &m::ONE)),
                                        _ => bin("sub", f, &(&v - &m::ONE), &m::M_ONE),
                                    };
                                    let zero = |e: &T| val(e).bytes().all(|c| c == b'0');
                                    match kind {
                                        0 => bin("add", f, &x, &g),
                                        1 => bin("sub", f, &x, &g),
                                        2 => bin("sub", f, &g, &x),
                                        3 => bin("mul", f, &x, &g),
                                        4 => bin("mul", f, &g, &x),
                                        5 => if f % 2 == 0 { g.squared() } else { g.square(); g },
                                        6 => -g,
                                        7 => if zero(&g) { m::ZERO } else { let v = if f % 2 == 0 { g.inverted() } else { let mut h = g; h.invert(); h }; &v * &g },
                                        8 => if zero(&g) { m::ZERO } else { let q = bin("div", f, &x, &g); &q * &g },
                                        9 => if zero(&g) { m::ZERO } else { root_of(&g, crate::nonresidue(&p)) },
                                        10 => if zero(&g) || zero(&x) { m::ZERO } else { x.legendre() * g.legendre() * (x * g).legendre() },
                                        11 => { let mut buf = vec![0u8; NB]; g.pack(&mut buf); let mut u = x; u.unpack(&buf); u }
                                        12 => { let mut buf = vec![0u8; NB];
                                            if f % 2 == 0 { g.normalize(); }
                                            for j in 0..T::nbits() { if if f % 2 == 0 { g.bit_normalized(j) } else { g.bit(j) } { buf[j / 8] |= 1 << (j % 8) } }
                                            T::unpacked(&buf) }
                                        13 => { let (mut s, mut t) = (x, g); s.normalize_bitand(&mut t); s }
                                        14 => { let (mut s, mut t) = (x, g); s.normalize_bitor(&mut t); s }
                                        15 => { let (mut s, mut t) = (x, g);
                                            let e = if f % 2 == 0 { s.normalize_eq(&mut t) } else { t.normalize_eq(&mut s) };
                                            if e { m::ONE } else { m::ZERO } }
                                        16 => { let t = if f % 2 == 0 { format!("{:x}", g) } else { format!("{:X}", g) };
                                            assert!(t.len() == 2 * NB, "width of the text"); mk(&t) }
                                        _ => panic!("TOOL: sweep kind"),
                                    }
                                };
                                acc = &(&acc * 3i32) + &z;
                            }
                            acc.normalize();
                            self.r[d] = acc;
                            "-".into()
                        }
                        "normalize" => { let a = reg(1); self.r[a].normalize(); "-".into() }
                        // pack <form> <a>: the bytes, and the register afterwards;
                        // form 3 hands over a longer buffer
                        "pack" => {
                            let (f, a) = (num(1), reg(2));
                            let pad = if f == 3 { 5 } else { 0 };
                            let mut buf = vec![0xa5u8; NB + pad];
                            match f {
                                0 | 3 => { self.r[a].pack(&mut buf); }
                                1 => { buf = self.r[a].packed().to_vec(); }
                                _ => { self.r[a].normalize(); self.r[a].pack_normalized(&mut buf); }
                            }
                            for b in &buf[NB..] { assert!(*b == 0xa5, "byte beyond the packed length was written"); }
                            crate::list(&buf[..NB])
                        }
                        // unpack <form> <d> <bytes...>
                        "unpack" => {
                            let (f, d) = (num(1), reg(2));
                            let mut bytes: Vec<u8> = w[3].split(',').map(|x| x.parse::<u8>().expect("TOOL: byte")).collect();
                            assert!(bytes.len() == NB, "TOOL: byte count");
                            match f {
                                0 => { self.r[d] = T::unpacked(&bytes); }
                                1 => { let mut x = self.r[d]; x.unpack(&bytes); self.r[d] = x; }
                                _ => { bytes.push(0xff); bytes.push(0x5a); self.r[d] = T::unpacked(&bytes); }
                            }
                            "-".into()
                        }
                        "sizes" => format!("{},{}", T::nbits(), T::nbytes()),
                        "hex" => { let (f, a) = (num(1), reg(2));
                            let t = if f == 0 { format!("{:x}", self.r[a]) } else { format!("{:X}", self.r[a]) };
                            crate::list(t.as_bytes()) }
                        // eq <form> <a> <b>
                        "eq" => {
                            let (f, a, b) = (num(1), reg(2), reg(3));
                            let mut y = self.r[b];
                            let res = if f == 0 {
                                let res = self.r[a].normalize_eq(&mut y);
                                if a != b { self.r[b] = y; }
                                res
                            } else {
                                y.normalize();
                                self.r[a].normalize_self_eq(&y)
                            };
                            (if res { "1" } else { "0" }).into()
                        }
                        // bit <form> <a> <idx>
                        "bit" => {
                            let (f, a, i) = (num(1), reg(2), reg(3));
                            let res = if f == 0 { self.r[a].bit(i) } else {
                                self.r[a].normalize();
                                self.r[a].bit_normalized(i)
                            };
                            (if res { "1" } else { "0" }).into()
                        }
                        // all bits at once, most significant first
                        "bits" => {
                            let (f, a) = (num(1), reg(2));
                            let mut x = self.r[a];
                            if f != 0 { x.normalize(); }
                            let v: Vec<u8> = (0..T::nbits()).map(|i|
                                (if f == 0 { x.bit(i) } else { x.bit_normalized(i) }) as u8).collect();
                            crate::list(&v)
                        }
                        // band/bor <form> <d> <a> <b>
                        "band" | "bor" => {
                            let (f, d, a, b) = (num(1), reg(2), reg(3), reg(4));
                            let (mut x, mut y) = (self.r[a], self.r[b]);
                            let and = w[0] == "band";
                            match f {
                                0 => if and { x.normalize_bitand(&mut y) } else { x.normalize_bitor(&mut y) },
                                1 => { y.normalize();
                                    if and { x.normalize_self_bitand(&y) } else { x.normalize_self_bitor(&y) } }
                                _ => { x.normalize(); y.normalize();
                                    if and { x.normalized_bitand(&y) } else { x.normalized_bitor(&y) } }
                            }
                            self.r[d] = x;
                            "-".into()
                        }
                        // mask <form> <d> <a> <bit>
                        "mask" => {
                            let (f, d, a, k) = (num(1), reg(2), reg(3), num(4) != 0);
                            let mut x = self.r[a];
                            let m = if f == 0 { T::filled(k) } else {
                                let mut m = self.r[d]; m.fill(k); m };
                            x.normalized_bitand(&m);
                            self.r[d] = x;
                            "-".into()
                        }
                        // select <form> <d> <a> <b> <bit>: branchless bit ? a : b
                        "select" => {
                            let (f, d, a, b, k) = (num(1), reg(2), reg(3), reg(4), num(5) != 0);
                            let (mut x, mut y) = (self.r[a], self.r[b]);
                            let (t, n) = if f == 0 { (T::filled(k), T::filled(!k)) } else {
                                let (mut t, mut n) = (x, y); t.fill(k); n.fill(!k); (t, n) };
                            x.normalized_bitand(&t);
                            y.normalized_bitand(&n);
                            x.normalized_bitor(&y);
                            self.r[d] = x;
                            "-".into()
                        }
                        // rand <d> <word> <word> ...: what packing without
                        // normalization says, then whether a second run agrees
                        "rand" => {
                            let d = reg(1);
                            let words: Vec<u32> = w[2..].iter().map(|x| u32::from_str_radix(x, 16).expect("TOOL: word")).collect();
                            let mut s = crate::Script { words: words.clone(), pos: 0 };
                            let x = T::rand(&mut s);
                            let mut s2 = crate::Script { words, pos: 0 };
                            let mut y = T::rand(&mut s2);
                            let mut buf = vec![0u8; NB];
                            x.pack_normalized(&mut buf);
                            let mut x2 = x;
                            let same = x2.normalize_eq(&mut y);
                            self.r[d] = x;
                            format!("{},{}", crate::hex(&buf), same as u8)
                        }
                        o => panic!("TOOL: unknown op {}", o),
                    }
                }
            }
        }
    };
}

field_machine!(e221_3, mod_e221_3, Mod_e221_3, 28, 58, { "ZERO" => ZERO, "ONE" => ONE, "M_ONE" => M_ONE, "MODULUS" => MODULUS,
    "M_HALF" => M_HALF, "M221_BASE_X" => M221_BASE_X, "M221_BASE_Y" => M221_BASE_Y, "M221_ORDER" => M221_ORDER });
field_machine!(e222_117, mod_e222_117, Mod_e222_117, 28, 58, { "ZERO" => ZERO, "ONE" => ONE, "M_ONE" => M_ONE, "MODULUS" => MODULUS,
    "E222_D" => E222_D, "E222_BASE_X" => E222_BASE_X, "E222_BASE_Y" => E222_BASE_Y, "E222_ORDER" => E222_ORDER });
field_machine!(e251_9, mod_e251_9, Mod_e251_9, 32, 56, { "ZERO" => ZERO, "ONE" => ONE, "M_ONE" => M_ONE, "MODULUS" => MODULUS,
    "CURVE1174_D" => CURVE1174_D, "CURVE1174_BASE_X" => CURVE1174_BASE_X, "CURVE1174_BASE_Y" => CURVE1174_BASE_Y,
    "CURVE1174_ORDER" => CURVE1174_ORDER });
field_machine!(e255_19, mod_e255_19, Mod_e255_19, 32, 56, { "ZERO" => ZERO, "ONE" => ONE, "M_ONE" => M_ONE, "MODULUS" => MODULUS,
    "M_HALF" => M_HALF, "CURVE25519_BASE_X" => CURVE25519_BASE_X, "CURVE25519_BASE_Y" => CURVE25519_BASE_Y,
    "CURVE25519_ORDER" => CURVE25519_ORDER });
field_machine!(e382_105, mod_e382_105, Mod_e382_105, 48, 56, { "ZERO" => ZERO, "ONE" => ONE, "M_ONE" => M_ONE, "MODULUS" => MODULUS,
    "E382_D" => E382_D, "E382_BASE_X" => E382_BASE_X, "E382_BASE_Y" => E382_BASE_Y, "E382_ORDER" => E382_ORDER });
field_machine!(e383_187, mod_e383_187, Mod_e383_187, 48, 56, { "ZERO" => ZERO, "ONE" => ONE, "M_ONE" => M_ONE, "MODULUS" => MODULUS,
    "M_HALF" => M_HALF, "M383_BASE_X" => M383_BASE_X, "M383_BASE_Y" => M383_BASE_Y, "M383_ORDER" => M383_ORDER,
    "CURVE383187_BASE_X" => CURVE383187_BASE_X, "CURVE383187_BASE_Y" => CURVE383187_BASE_Y,
    "CURVE383187_ORDER" => CURVE383187_ORDER });
field_machine!(e414_17, mod_e414_17, Mod_e414_17, 52, 56, { "ZERO" => ZERO, "ONE" => ONE, "M_ONE" => M_ONE, "MODULUS" => MODULUS,
    "CURVE41417_D" => CURVE41417_D, "CURVE41417_BASE_X" => CURVE41417_BASE_X, "CURVE41417_BASE_Y" => CURVE41417_BASE_Y,
    "CURVE41417_ORDER" => CURVE41417_ORDER });
field_machine!(e511_187, mod_e511_187, Mod_e511_187, 64, 54, { "ZERO" => ZERO, "ONE" => ONE, "M_ONE" => M_ONE, "MODULUS" => MODULUS,
    "M_HALF" => M_HALF, "M511_BASE_X" => M511_BASE_X, "M511_BASE_Y" => M511_BASE_Y, "M511_ORDER" => M511_ORDER });
field_machine!(e521_1, mod_e521_1, Mod_e521_1, 66, 54, { "ZERO" => ZERO, "ONE" => ONE, "M_ONE" => M_ONE, "MODULUS" => MODULUS,
    "E521_D" => E521_D, "E521_BASE_X" => E521_BASE_X, "E521_BASE_Y" => E521_BASE_Y, "E521_ORDER" => E521_ORDER });

macro_rules! curve_machine {
    ($name:ident, $module:ident, $C:ident, $field:ident) => {
        pub mod $name {
            use safecurves_rust::curve::edwards::EdwardsExtended;
            use safecurves_rust::curve::point::Point;
            use safecurves_rust::curve::$module::$C as C;
            use crate::$field as f;
            type P = EdwardsExtended<C>;

            pub struct M { pub p: Vec<P> }

            impl M { pub fn new(n: usize) -> M { M { p: vec![P::zero(); n] } } }

            impl crate::Machine for M {
                fn state(&self) -> String {
                    let v: Vec<String> = self.p.iter().map(|p| {
                        let (x, y, z, t) = p.verif_coords();
                        format!("{},{},{},{}", f::val(&x), f::val(&y), f::val(&z), f::val(&t))
                    }).collect();
                    v.join(" ")
                }
                fn repr(&self) -> String { String::new() }
                fn step(&mut self, w: &[&str]) -> String {
                    let num = |i: usize| -> i64 { w[i].parse::<i64>().expect("TOOL: int") };
                    let reg = |i: usize| -> usize { w[i].parse::<usize>().expect("TOOL: reg") };
                    match w[0] {
                        "zero" => { let d = reg(1); self.p[d] = P::zero(); }
                        "copy" => { let (d, a) = (reg(1), reg(2)); self.p[d] = self.p[a]; }
                        // init_xy <form> <d> <hexx> <hexy>
                        "init_xy" => { let (fm, d) = (num(1), reg(2));
                            self.p[d].init(f::lazy(w[3], fm), f::lazy(w[4], fm)); }
                        // add <form> <d> <a> <b>
                        "add" => {
                            let (fm, d, a, b) = (num(1), reg(2), reg(3), reg(4));
                            let (x, y) = (self.p[a], self.p[b]);
                            self.p[d] = match fm {
                                0 => x + y,
                                1 => &self.p[a] + &self.p[b],
                                2 => { let mut z = x; z += y; z }
                                _ => { let mut z = x; z += &self.p[b]; z }
                            };
                        }
                        "double" => { let (fm, d, a) = (num(1), reg(2), reg(3)); let mut x = self.p[a];
                            self.p[d] = if fm == 0 { self.p[a].doubled() } else { x.double(); x }; }
                        "triple" => { let (fm, d, a) = (num(1), reg(2), reg(3)); let mut x = self.p[a];
                            self.p[d] = if fm == 0 { self.p[a].tripled() } else { x.triple(); x }; }
                        // smul <form> <d> <a> <hexk>; form 0 is the variant for
                        // normalized scalars, forms 2, 3 hand over a scalar
                        // in a lazily normalized representation
                        "smul" => { let (fm, d, a) = (num(1), reg(2), reg(3));
                            let mut x = self.p[a];
                            let mut k = f::lazy(w[4], fm - 1);
                            if fm == 0 { x.scalar_mult_normalized(&k) } else { x.scalar_mult(&mut k) }
                            if f::val(&k) != f::val(&f::mk(w[4])) { panic!("scalar operand changed"); }
                            self.p[d] = x; }
                        // smsweep <form> <d> <a> <family> <first> <distance> <members> <p>
                        "smsweep" => { let (fm, d, a) = (num(1), reg(2), reg(3));
                            let p = crate::unhex(w[8], f::NB);
                            let bits = <f::Elem as safecurves_rust::field::prime_field::PrimeField>::nbits();
                            let mut acc = P::zero();
                            for j in 0..reg(7) {
                                let s = crate::hex(&crate::family(num(4), reg(5) + j * reg(6), bits, bits / 2, &p));
                                let mut x = self.p[a];
                                let mut k = f::lazy(&s, fm - 1);
                                if fm == 0 { x.scalar_mult_normalized(&k) } else { x.scalar_mult(&mut k) }
                                acc.double();
                                acc += &x;
                            }
                            self.p[d] = acc; }
                        o => panic!("TOOL: unknown op {}", o),
                    }
                    "-".into()
                }
            }
        }
    };
}

#[cfg(verif_hooks)]
curve_machine!(c_e222, e_222, E222, e222_117);
#[cfg(verif_hooks)]
curve_machine!(c_1174, curve1174, Curve1174, e251_9);
#[cfg(verif_hooks)]
curve_machine!(c_e382, e_382, E382, e382_105);
#[cfg(verif_hooks)]
curve_machine!(c_41417, curve41417, Curve41417, e414_17);
#[cfg(verif_hooks)]
curve_machine!(c_e521, e_521, E521, e521_1);

pub fn machine(name: &str, n: usize) -> Option<Box<dyn Machine>> {
    Some(match name {
        "e221_3" => Box::new(e221_3::M::new(n)),
        "e222_117" => Box::new(e222_117::M::new(n)),
        "e251_9" => Box::new(e251_9::M::new(n)),
        "e255_19" => Box::new(e255_19::M::new(n)),
        "e382_105" => Box::new(e382_105::M::new(n)),
        "e383_187" => Box::new(e383_187::M::new(n)),
        "e414_17" => Box::new(e414_17::M::new(n)),
        "e511_187" => Box::new(e511_187::M::new(n)),
        "e521_1" => Box::new(e521_1::M::new(n)),
        #[cfg(verif_hooks)]
        "c_e222" => Box::new(c_e222::M::new(n)),
        #[cfg(verif_hooks)]
        "c_1174" => Box::new(c_1174::M::new(n)),
        #[cfg(verif_hooks)]
        "c_e382" => Box::new(c_e382::M::new(n)),
        #[cfg(verif_hooks)]
        "c_41417" => Box::new(c_41417::M::new(n)),
        #[cfg(verif_hooks)]
        "c_e521" => Box::new(c_e521::M::new(n)),
        _ => return None,
    })
}
