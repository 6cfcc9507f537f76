// The group generated by the base point and the rational torsion points of one
// Edwards curve, abstractly: Z/ELL x Z/H. Registers hold (s, t), standing for
// s * BASE + t * T. Nothing here knows coordinates except for the generators;
// the laws (associativity, commutativity, homomorphism, order) are those of
// the abstract group, and conformance demands that two computations give the
// same curve point exactly when they give the same abstract element.
module group {
  import arith.* from "./arith"
  import families.* from "./families"
  import curvemath.* from "./curvemath"

  const N: int
  const C: int
  const D: int
  const BX: int
  const BY: int
  const ELL: int
  const X8: int

  pure val P = 2^N - C
  pure val REGS = 6
  pure val H = if (X8 == 0) 4 else 8
  pure val T: Affine = if (X8 == 0) { x: 1, y: 0 } else { x: X8, y: X8 }

  type El = { s: int, t: int }
  type Event = { op: str, form: int, d: int, a: int, b: int, k: int, pt: Affine, sw: List[int] }
  pure val ID: Affine = { x: 0, y: 1 }
  pure val ZERO: El = { s: 0, t: 0 }

  /// i * T for i < H, by the affine law.
  pure val TORS: List[Affine] =
    range(0, H).foldl({ l: [], f: FRAC_ID }, (acc, _) =>
      { l: acc.l.append(toAffine(acc.f, P, N)), f: fracAdd(acc.f, { x: T.x, y: T.y, z: 1 }, D, P) }).l

  var els: List[El]
  var ev: Event

  pure def plus(a: El, b: El): El = { s: (a.s + b.s) % ELL, t: (a.t + b.t) % H }
  pure def times(k: int, a: El): El = { s: (k * a.s) % ELL, t: (k * a.t) % H }

  pure val noEvent: Event = { op: "init", form: 0, d: 0, a: 0, b: 0, k: 0, pt: ID, sw: [] }
  action init = all {
    els' = range(0, REGS).foldl([], (l, _) => l.append(ZERO)),
    ev' = noEvent
  }
  action setEl(d: int, x: El, e: Event): bool = all { els' = els.replaceAt(d, x), ev' = e }

  action doZero(d: int): bool = setEl(d, ZERO, { ...noEvent, op: "zero", d: d })
  action doBase(form: int, d: int, sign: int): bool =
    setEl(d, { s: if (sign == 1) 1 else ELL - 1, t: 0 },
      { ...noEvent, op: "init_xy", form: form, d: d, pt: { x: if (sign == 1) BX else P - BX, y: BY } })
  action doTorsion(form: int, d: int, i: int): bool =
    setEl(d, { s: 0, t: i }, { ...noEvent, op: "init_xy", form: form, d: d, pt: TORS[i] })
  action doAdd(form: int, d: int, a: int, b: int): bool =
    setEl(d, plus(els[a], els[b]), { ...noEvent, op: "add", form: form, d: d, a: a, b: b })
  action doDouble(form: int, d: int, a: int): bool =
    setEl(d, times(2, els[a]), { ...noEvent, op: "double", form: form, d: d, a: a })
  action doTriple(form: int, d: int, a: int): bool =
    setEl(d, times(3, els[a]), { ...noEvent, op: "triple", form: form, d: d, a: a })
  action doMul(form: int, d: int, a: int, k: int): bool =
    setEl(d, times(k, els[a]), { ...noEvent, op: "smul", form: form, d: d, a: a, k: k })
  /// acc = 2 acc + k_i P over a family of scalars.
  action doMulSweep(form: int, d: int, a: int, fam: int, first: int, dist: int, n: int): bool = all {
    val k = range(0, n).foldl(0, (t, i) => 2 * t + famAt(fam, first + i * dist, N, C, N / 2))
    setEl(d, times(k, els[a]), { ...noEvent, op: "smsweep", form: form, d: d, a: a, k: P, sw: [fam, first, dist, n] })
  }
  action doCopy(d: int, a: int): bool =
    setEl(d, els[a], { ...noEvent, op: "copy", d: d, a: a })

  /// Scalars: small, around multiples of the order, powers of two, uniform,
  /// and the one that takes register a to register b (or to its negative).
  pure def scalarShape(kind: int, r: int, s: int, a: El, b: El): int = {
    val k =
      if (kind == 0) s
      else if (kind == 1) ELL - 20 + s
      else if (kind == 2) P - 1 - s
      else if (kind == 3) 2^(r % N)
      else if (kind == 4) 2^(r % N) - 1
      else if (kind == 5) (1 + s % 7) * ELL - 20 + s
      else if (kind <= 8 and a.s != 0) {
        val q = (b.s * powm(a.s, ELL - 2, ELL, N)) % ELL
        (if (kind == 6) q else if (kind == 7) ELL - q else q + 1) + (s % 4) * ELL
      }
      else if (kind == 9) r % (2^(r % N + 1))
      else r
    fmod(k, P)
  }

  action initAny = {
    nondet form = 0.to(2).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet sign = 0.to(3).oneOf()
    nondet i = 0.to(H - 1).oneOf()
    if (sign == 3) doTorsion(form, d, i) else doBase(form, d, if (sign == 0) 0 else 1)
  }
  action zeroAny = { nondet d = 0.to(REGS - 1).oneOf() doZero(d) }
  action addAny = {
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doAdd(form, d, a, b)
  }
  action doubleAny = {
    nondet form = 0.to(1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doDouble(form, d, a)
  }
  action tripleAny = {
    nondet form = 0.to(1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doTriple(form, d, a)
  }
  action mulAny = {
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    nondet kind = 0.to(10).oneOf()
    nondet r = 0.to(P - 1).oneOf()
    nondet s = 0.to(40).oneOf()
    doMul(form, d, a, scalarShape(kind, r, s, els[a], els[b]))
  }
  pure val SWEEP = 40
  action mulSweep = {
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet fam = Set(0, 1, 2, 3, 4, 6, 7, 8, 9, 10).oneOf()
    nondet r = 0.to(N - 1).oneOf()
    val len = famLen(fam, N, N / 2)
    val n = min(len, SWEEP)
    val dist = len / n
    doMulSweep(form, d, a, fam, r % (len - (n - 1) * dist), dist, n)
  }
  action copyAny = {
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doCopy(d, a)
  }
  /// Bring in generators while the registers are still mostly the identity.
  action seedIfEmpty = all {
    els.indices().filter(i => els[i] == ZERO).size() > 2,
    initAny
  }
  action rareMulSweep = { nondet rare = 0.to(3).oneOf() if (rare == 0) mulSweep else addAny }
  action stepC06 = any { seedIfEmpty, seedIfEmpty, seedIfEmpty, seedIfEmpty, seedIfEmpty, seedIfEmpty, initAny, zeroAny,
                         addAny, addAny, addAny, addAny, doubleAny, doubleAny, tripleAny, tripleAny, mulAny, mulAny, mulAny, mulAny, copyAny, rareMulSweep }

  // ------------------------------------------------------------------ invariants

  val wellFormed = els.indices().forall(i => els[i].s >= 0 and els[i].s < ELL and els[i].t >= 0 and els[i].t < H)
  /// The laws themselves, on whatever the registers hold.
  val laws = {
    val a = els[0]
    val b = els[1]
    val c = els[2]
    val k = els[3].s
    val m = els[4].s
    and {
      plus(a, b) == plus(b, a),
      plus(plus(a, b), c) == plus(a, plus(b, c)),
      plus(a, ZERO) == a,
      plus(times(k, a), times(m, a)) == times(k + m, a),
      times(k, plus(a, b)) == plus(times(k, a), times(k, b)),
      times(k, times(m, a)) == times(k * m, a),
      times(ELL * H, a) == ZERO,
      plus(a, times(ELL * H - 1, a)) == ZERO
    }
  }
  /// The torsion generator has order exactly H on the real curve.
  val torsionOrder = TORS.length() == H and TORS[0] == ID and TORS[H / 2] == { x: 0, y: P - 1 }
    and TORS.indices().forall(i => edOn(TORS[i], D, P))
  val inv_all = wellFormed and laws and torsionOrder
}
