// Edwards curves x^2 + y^2 = 1 + d x^2 y^2 (the a = 1 case every curve here
// uses) and Montgomery curves, as mathematics: no formulas of the code.
module curvemath {
  import arith.* from "./arith"

  type Affine = { x: int, y: int }
  /// A point as two fractions over one denominator.
  type Frac = { x: int, y: int, z: int }

  pure def edOn(a: Affine, d: int, p: int): bool =
    fmod(a.x * a.x + a.y * a.y - 1 - d * fmod(a.x * a.x, p) * fmod(a.y * a.y, p), p) == 0

  pure def fracOn(a: Frac, d: int, p: int): bool = {
    val zz = fmod(a.z * a.z, p)
    val xx = fmod(a.x * a.x, p)
    val yy = fmod(a.y * a.y, p)
    fmod((xx + yy) * zz - zz * zz - d * fmod(xx * yy, p), p) == 0
  }

  /// The affine addition law
  ///   x3 = (x1 y2 + y1 x2) / (1 + d x1 x2 y1 y2)
  ///   y3 = (y1 y2 - x1 x2) / (1 - d x1 x2 y1 y2)
  /// with numerators and denominators of the operands multiplied through.
  pure def fracAdd(a: Frac, b: Frac, d: int, p: int): Frac = {
    val zz = (a.z * b.z) % p                       // common denominator of all products
    val xx = (a.x * b.x) % p
    val yy = (a.y * b.y) % p
    val t = fmod(d * ((xx * yy) % p), p)           // d x1 x2 y1 y2 * zz^2
    val z2 = (zz * zz) % p
    val dx = (z2 + t) % p                          // (1 + ...) * zz^2
    val dy = (z2 + p - t) % p                      // (1 - ...) * zz^2
    val nx = (((a.x * b.y + a.y * b.x) % p) * zz) % p
    val ny = (((yy + p - xx) % p) * zz) % p
    { x: (nx * dy) % p, y: (ny * dx) % p, z: (dx * dy) % p }
  }
  pure val FRAC_ID: Frac = { x: 0, y: 1, z: 1 }
  pure def fracIsIdentity(a: Frac, p: int): bool = a.x == 0 and a.y == a.z and a.z != 0
  pure def fracEq(a: Frac, b: Frac, p: int): bool =
    fmod(a.x * b.z - b.x * a.z, p) == 0 and fmod(a.y * b.z - b.y * a.z, p) == 0

  /// k * a by doubling and adding from the low bit.
  pure def fracMul(k: int, a: Frac, d: int, p: int, bits: int): Frac =
    range(0, bits).foldl({ r: FRAC_ID, q: a, k: k }, (acc, _) =>
      if (acc.k == 0) acc else {
        r: if (acc.k % 2 == 1) fracAdd(acc.r, acc.q, d, p) else acc.r,
        q: fracAdd(acc.q, acc.q, d, p),
        k: acc.k / 2
      }).r

  pure def toAffine(a: Frac, p: int, bits: int): Affine = {
    val zi = powm(a.z, p - 2, p, bits)
    { x: (a.x * zi) % p, y: (a.y * zi) % p }
  }

  /// Montgomery ladder on x-coordinates: is k * (x, _) the point at infinity?
  pure def montLadderIsIdentity(k: int, x: int, a: int, p: int, bits: int): bool = {
    val r = range(0, bits).foldl({ x0: 1, z0: 0, x1: x, z1: 1 }, (s, i) => {
      val bit = (k / 2^(bits - 1 - i)) % 2
      val u = { xa: if (bit == 1) s.x1 else s.x0, za: if (bit == 1) s.z1 else s.z0 }
      // double of the selected point
      val xx = fmod(u.xa * u.xa, p)
      val zz = fmod(u.za * u.za, p)
      val xz = fmod(u.xa * u.za, p)
      val dx = fmod((xx - zz) * (xx - zz), p)
      val dz = fmod(4 * xz * fmod(xx + a * xz + zz, p), p)
      // sum, with difference x
      val m = fmod(s.x0 * s.x1 - s.z0 * s.z1, p)
      val n = fmod(s.x0 * s.z1 - s.z0 * s.x1, p)
      val sx = fmod(m * m, p)
      val sz = fmod(x * fmod(n * n, p), p)
      if (bit == 1) { x0: sx, z0: sz, x1: dx, z1: dz } else { x0: dx, z0: dz, x1: sx, z1: sz }
    })
    r.z0 == 0 and r.x0 != 0
  }
}
