// Proof obligations about the lazy representation, for the symbolic checker:
// from any representation within the bound, after any operation with any
// operand, the result is within the bound again, differs from the intended
// integer by a multiple of p that is exhibited, and normalization yields the
// canonical residue. Products are replaced by an arbitrary integer of the
// range products can take, which makes every obligation linear.
module lazyproof {
  const N: int
  const C: int
  const W: int
  const L: int
  const HALFPROP: bool
  import lazy(BITS = N, GAP = C, DIGIT = W, DIGITS = L, EXACTHIGH = HALFPROP).* from "./lazy"

  // two representations (r), the integers they stand for (v), and the
  // multiples of p in between (k); n is the last normalization's result,
  // which stands for v1 - nk * p.
  var r1: int
  var v1: int
  var k1: int
  var r2: int
  var v2: int
  var k2: int
  var n: int
  var nv: int
  var nk: int
  // a normalization under way
  var s: int
  var sv: int
  var sk: int

  pure val MAXSMALL = 2^31
  pure def within(r: int): bool = r >= -2 * B and r < 4 * B

  action write(r: int, v: int, k: int): bool = all {
    r1' = r, v1' = v, k1' = k,
    r2' = r2, v2' = v2, k2' = k2, n' = n, nv' = nv, nk' = nk, s' = s, sv' = sv, sk' = sk
  }
  action init = all {
    r1' = 0, v1' = 0, k1' = 0, r2' = 0, v2' = 0, k2' = 0, n' = 0, nv' = 0, nk' = 0, s' = P, sv' = 0, sk' = 1
  }
  action add = write(lazyAdd(r1, r2), v1 + v2, k1 + k2 - carry(r1) - carry(r2))
  action sub = write(lazySub(r1, r2), v1 - v2, k1 - k2 - carry(r1) + carry(r2))
  action neg = write(lazyNeg(r1), -v1, 1 - k1 + carry(r1))
  action smallAdd = {
    nondet k = Int.oneOf()
    all { k >= -MAXSMALL, k <= MAXSMALL, write(lazySmallAdd(r1, k), v1 + k, k1 - carry(r1)) }
  }
  /// m stands for r1 * k
  action smallMul = {
    nondet m = Int.oneOf()
    all { m >= -MAXSMALL * 4 * B, m <= MAXSMALL * 4 * B, write(foldIn(m), m, -carry(m)) }
  }
  /// m stands for r1 * r2
  action mulAny = {
    nondet m = Int.oneOf()
    all { m >= -8 * B * B, m <= 16 * B * B,
          write(reduce(m), m, -carry(m) - reduceCarry(m)) }
  }
  action swap = all {
    r1' = r2, v1' = v2, k1' = k2, r2' = r1, v2' = v1, k2' = k1, n' = n, nv' = nv, nk' = nk, s' = s, sv' = sv, sk' = sk
  }
  /// A canonical value.
  action load = {
    nondet x = Int.oneOf()
    all { x >= 0, x < P, write(x, x, 0) }
  }
  // Normalization in two steps: add p, then subtract the multiple of p that
  // the carry of the sum plus C tells.
  action normalizeStart = all {
    s' = lazyAdd(r1, P), sv' = v1, sk' = k1 - carry(r1) + 1,
    r1' = r1, v1' = v1, k1' = k1, r2' = r2, v2' = v2, k2' = k2, n' = n, nv' = nv, nk' = nk
  }
  action normalizeEnd(c: int): bool = all {
    carry(lazySmallAdd(s, C)) == c,
    n' = lazySub(s, lazySmallMul(P, c)), nv' = sv, nk' = sk - carry(s) - c + carry(P * c) + carry(foldIn(P * c)),
    s' = s, sv' = sv, sk' = sk,
    r1' = r1, v1' = v1, k1' = k1, r2' = r2, v2' = v2, k2' = k2
  }
  action step = any { add, sub, neg, smallAdd, smallMul, mulAny, swap, load, normalizeStart, normalizeEnd(0), normalizeEnd(1), normalizeEnd(2), normalizeEnd(3) }

  val types = and {
    r1.in(Int), v1.in(Int), k1.in(Int), r2.in(Int), v2.in(Int), k2.in(Int), n.in(Int), nv.in(Int), nk.in(Int),
    s.in(Int), sv.in(Int), sk.in(Int)
  }
  val bounded = within(r1) and within(r2)
  val congruent = r1 == v1 + k1 * P and r2 == v2 + k2 * P
  val normal = n >= 0 and n < P and n == nv + nk * P
  val pending = and {
    s == sv + sk * P, s >= P - 2 * C, s < 2 * B + 2 * C,
    carry(lazySmallAdd(s, C)) >= 0, carry(lazySmallAdd(s, C)) <= 3
  }
  val inv = types and bounded and congruent and pending and normal
}
