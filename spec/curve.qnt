// State machine of one Edwards curve as a caller sees it: a bank of registers
// holding group elements (affine points), one action per public operation.
module curve {
  import arith.* from "./arith"
  import families.* from "./families"
  import curvemath.* from "./curvemath"

  const N: int
  const C: int
  const D: int
  const BX: int
  const BY: int
  const ELL: int      // order of the base point
  const X8: int       // (X8, X8) has order 8, or 0 if there is no such point

  pure val P = 2^N - C
  pure val REGS = 3
  pure val BASE: Affine = { x: BX, y: BY }
  pure val ID: Affine = { x: 0, y: 1 }

  type Event = {
    op: str, form: int, d: int, a: int, b: int,
    k: int,           // scalar
    pt: Affine,       // initializer
    sw: List[int]     // family, first member, distance, members of a sweep
  }

  var pts: List[Frac]
  var ev: Event

  pure def frac(a: Affine): Frac = { x: a.x, y: a.y, z: 1 }
  pure def norm(f: Frac): Affine = toAffine(f, P, N)
  pure def plus(a: Frac, b: Frac): Frac = fracAdd(a, b, D, P)
  pure def twice(a: Frac): Frac = plus(a, a)
  pure def thrice(a: Frac): Frac = plus(plus(a, a), a)
  pure def times(k: int, a: Frac): Frac = fracMul(k, a, D, P, N)
  pure def negated(a: Affine): Affine = { x: (P - a.x) % P, y: a.y }
  pure def onCurve(a: Affine): bool = edOn(a, D, P)
  /// A y with (x, y) on the curve if there is one: y^2 = u / v with
  /// u = 1 - x^2, v = 1 - d x^2, and a root is u (u v)^((p - 3) / 4), p = 3 mod 4.
  pure def lift(x: int): int = {
    val xx = fmod(x * x, P)
    val u = fmod(1 - xx, P)
    val v = fmod(1 - D * xx, P)
    fmod(u * powm(fmod(u * v, P), (P - 3) / 4, P, N), P)
  }

  /// Points of order dividing 8 that are rational on these curves.
  pure val TORSION: List[Affine] = {
    val four = [ID, { x: 0, y: P - 1 }, { x: 1, y: 0 }, { x: P - 1, y: 0 }]
    if (X8 == 0) four
    else four.concat([{ x: X8, y: X8 }, { x: X8, y: P - X8 }, { x: P - X8, y: X8 }, { x: P - X8, y: P - X8 }])
  }

  pure val noEvent: Event = { op: "init", form: 0, d: 0, a: 0, b: 0, k: 0, pt: ID, sw: [] }

  action init = all {
    pts' = range(0, REGS).foldl([], (l, _) => l.append(frac(ID))),
    ev' = noEvent
  }
  action setPt(d: int, x: Frac, e: Event): bool = all {
    pts' = pts.replaceAt(d, x),
    ev' = e
  }

  action doZero(d: int): bool = setPt(d, frac(ID), { ...noEvent, op: "zero", d: d })
  /// Forms: coordinates canonical / lazily normalized (0..2).
  action doInit(form: int, d: int, p: Affine): bool =
    setPt(d, frac(p), { ...noEvent, op: "init_xy", form: form, d: d, pt: p })
  action doAdd(form: int, d: int, a: int, b: int): bool =
    setPt(d, plus(pts[a], pts[b]), { ...noEvent, op: "add", form: form, d: d, a: a, b: b })
  action doDouble(form: int, d: int, a: int): bool =
    setPt(d, twice(pts[a]), { ...noEvent, op: "double", form: form, d: d, a: a })
  action doTriple(form: int, d: int, a: int): bool =
    setPt(d, thrice(pts[a]), { ...noEvent, op: "triple", form: form, d: d, a: a })
  action doMul(form: int, d: int, a: int, k: int): bool =
    setPt(d, times(k, pts[a]), { ...noEvent, op: "smul", form: form, d: d, a: a, k: k })
  /// Multiples of one point by the members of a family of scalars, accumulated
  /// as acc = 2 acc + k_i P: one multiplication by a combined scalar.
  action doMulSweep(form: int, d: int, a: int, fam: int, first: int, dist: int, n: int): bool = all {
    val k = range(0, n).foldl(0, (t, i) => 2 * t + famAt(fam, first + i * dist, N, C, N / 2))
    setPt(d, fracMul(k, pts[a], D, P, N + n + 1), { ...noEvent, op: "smsweep", form: form, d: d, a: a, k: P, sw: [fam, first, dist, n] })
  }
  /// Multiples that are thrown away: what matters is how they are computed
  /// (leak.qnt).
  action doMulProbe(form: int, a: int, fam: int, first: int, dist: int, n: int): bool = all {
    pts' = pts,
    ev' = { ...noEvent, op: "smprobe", form: form, a: a, k: P, sw: [fam, first, dist, n] }
  }
  action doMulLoose(form: int, a: int, k: int): bool = all {
    pts' = pts,
    ev' = { ...noEvent, op: "smloose", form: form, a: a, k: k }
  }
  action doCopy(d: int, a: int): bool =
    setPt(d, pts[a], { ...noEvent, op: "copy", d: d, a: a })

  // ------------------------------------------------------------------ choices

  pure def scalarShape(kind: int, r: int, s: int): int = {
    val k =
      if (kind == 0) s
      else if (kind == 1) ELL - 20 + s
      else if (kind == 2) P - 1 - s
      else if (kind == 3) 2^(r % N)
      else if (kind == 4) 2^(r % N) - 1
      else if (kind == 5) 2 * ELL - 20 + s
      else if (kind == 6) r % ELL
      else if (kind == 7) r % (2^(r % N + 1))
      else r
    fmod(k, P)
  }

  action zeroAny = { nondet d = 0.to(REGS - 1).oneOf() doZero(d) }
  action initBase = {
    nondet form = 0.to(2).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet sign = 0.to(1).oneOf()
    doInit(form, d, if (sign == 1) BASE else negated(BASE))
  }
  action initTorsion = {
    nondet form = 0.to(2).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet i = 0.to(TORSION.length() - 1).oneOf()
    doInit(form, d, TORSION[i])
  }
  /// A random point of the whole curve.
  action initRandom = {
    nondet form = 0.to(2).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet x = 0.to(P - 1).oneOf()
    nondet sign = 0.to(1).oneOf()
    val y = lift(x)
    val q = { x: x, y: if (sign == 1) y else (P - y) % P }
    all { onCurve(q), doInit(form, d, q) }
  }
  /// A point whose abscissa has a special shape.
  action initShaped = {
    nondet form = 0.to(2).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet kind = 0.to(5).oneOf()
    nondet r = 0.to(P - 1).oneOf()
    nondet s = 0.to(40).oneOf()
    nondet sign = 0.to(1).oneOf()
    val x0 = fmod(if (kind == 0) s else if (kind == 1) P - s else if (kind == 2) 2^(r % N) + s else if (kind == 3) 2^(r % N) - s
                  else if (kind == 4) r % 2^(r % N + 1) else 2^(r % N) - 2^((r / N) % N), P)
    // the next abscissa that belongs to a point
    val x = range(0, 12).foldl(x0, (t, _) => if (onCurve({ x: t, y: lift(t) })) t else fmod(t + 1, P))
    val y = lift(x)
    val q = { x: x, y: if (sign == 1) y else (P - y) % P }
    all { onCurve(q), doInit(form, d, q) }
  }
  /// A point related to another register: equal, negated, shifted by torsion.
  action initRelated = {
    nondet form = 0.to(2).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet sign = 0.to(1).oneOf()
    nondet i = 0.to(TORSION.length() - 1).oneOf()
    val f = pts[a]
    val q = if (sign == 1) f else { x: fmod(-f.x, P), y: f.y, z: f.z }
    doInit(form, d, norm(plus(q, frac(TORSION[i]))))
  }
  action addAny = {
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doAdd(form, d, a, b)
  }
  action doubleAny = {
    nondet form = 0.to(1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doDouble(form, d, a)
  }
  action tripleAny = {
    nondet form = 0.to(1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doTriple(form, d, a)
  }
  action mulAny = {
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet kind = 0.to(8).oneOf()
    nondet r = 0.to(P - 1).oneOf()
    nondet s = 0.to(40).oneOf()
    doMul(form, d, a, scalarShape(kind, r, s))
  }
  pure val SWEEP = 40
  action mulSweep = {
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet fam = Set(0, 1, 2, 3, 4, 6, 7, 8, 9, 10).oneOf()
    nondet r = 0.to(N - 1).oneOf()
    val len = famLen(fam, N, N / 2)
    val n = min(len, SWEEP)
    val dist = len / n
    doMulSweep(form, d, a, fam, r % (len - (n - 1) * dist), dist, n)
  }
  action mulProbe = {
    nondet form = 0.to(3).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet fam = Set(0, 1, 2, 3, 4, 6, 7, 8, 9, 10).oneOf()
    nondet r = 0.to(N - 1).oneOf()
    val len = famLen(fam, N, N / 2)
    val n = min(len, 8)
    val dist = len / n
    doMulProbe(form, a, fam, r % (len - (n - 1) * dist), dist, n)
  }
  action mulLoose = {
    nondet form = 0.to(3).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet kind = 0.to(8).oneOf()
    nondet r = 0.to(P - 1).oneOf()
    nondet s = 0.to(40).oneOf()
    doMulLoose(form, a, scalarShape(kind, r, s))
  }
  action copyAny = {
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doCopy(d, a)
  }

  action points = any { initBase, initTorsion, initRandom, initShaped, initRelated }
  /// Bring in points while registers still hold the identity.
  action seedIfEmpty = all {
    pts.indices().exists(i => fracIsIdentity(pts[i], P)),
    any { initRandom, initBase, initTorsion }
  }
  action stepC01 = any { zeroAny, points, initBase, initTorsion, addAny, doubleAny, tripleAny, addAny, mulAny }
  action stepC02 = any { seedIfEmpty, points, initRelated, addAny, addAny, addAny, doubleAny }
  action stepC03 = any { seedIfEmpty, points, initTorsion, addAny, doubleAny, doubleAny, tripleAny, tripleAny }
  action rareMulSweep(n: int): bool = { nondet rare = 0.to(n).oneOf() if (rare == 0) mulSweep else addAny }
  action stepC04 = any { seedIfEmpty, points, initBase, addAny, mulAny, mulAny, rareMulSweep(3) }
  action stepC05 = any { seedIfEmpty, points, zeroAny, addAny, doubleAny, tripleAny, copyAny, addAny, doubleAny, tripleAny, mulAny }
  action stepT02 = any { seedIfEmpty, points, zeroAny, addAny, doubleAny, tripleAny, copyAny, mulLoose, mulLoose, mulProbe }
  action stepT03 = any { seedIfEmpty, points, zeroAny, addAny, doubleAny, tripleAny, copyAny, mulAny }
  action step = any { seedIfEmpty, points, zeroAny, addAny, doubleAny, tripleAny, copyAny, mulAny, rareMulSweep(9) }

  // ------------------------------------------------------------------ invariants

  val valid = pts.indices().forall(i => fracOn(pts[i], D, P))
  val canonical = pts.indices().forall(i =>
    pts[i].x >= 0 and pts[i].x < P and pts[i].y >= 0 and pts[i].y < P and pts[i].z > 0 and pts[i].z < P)
  val inv_all = valid and canonical
}
