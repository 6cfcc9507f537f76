// The abstract machine of a small Edwards curve, completely: the state is a
// pair of affine points, and behaviour number i visits every operation with
// the i-th point as first operand. One behaviour of NP steps therefore covers
// the whole transition relation; the invariants are the group laws, checked
// for every pair and triple of points.
module toy {
  import arith.* from "./arith"

  const P: int
  const D: int    // not a square modulo P, so the addition law is complete

  type Affine = { x: int, y: int }
  pure val ID: Affine = { x: 0, y: 1 }

  pure def md(x: int): int = fmod(x, P)
  pure val INV: List[int] = range(0, P).foldl([], (l, i) => l.append(powm(i, P - 2, P, 8)))
  pure def on(a: Affine): bool = md(a.x * a.x + a.y * a.y - 1 - D * a.x * a.x * a.y * a.y) == 0
  pure val POINTS: List[Affine] =
    range(0, P * P).foldl([], (l, i) => {
      val a = { x: i / P, y: i % P }
      if (on(a)) l.append(a) else l
    })
  pure val NP = POINTS.length()
  pure def plus(a: Affine, b: Affine): Affine = {
    val t = md(D * a.x * b.x * a.y * b.y)
    { x: md((a.x * b.y + a.y * b.x) * INV[md(1 + t)]), y: md((a.y * b.y - a.x * b.x) * INV[md(1 - t)]) }
  }

  var pos: int
  var pt: Affine
  /// Everything the machine can do from pt.
  var sums: List[Affine]          // pt + POINTS[j]
  var double: Affine
  var triple: Affine
  var multiples: List[Affine]     // k * pt for k < P

  action go(i: int): bool = {
    val a = POINTS[i]
    all {
      pos' = i, pt' = a,
      sums' = POINTS.foldl([], (l, b) => l.append(plus(a, b))),
      double' = plus(a, a),
      triple' = plus(plus(a, a), a),
      multiples' = range(0, P).foldl({ l: [], q: ID }, (t, _) => { l: t.l.append(t.q), q: plus(t.q, a) }).l
    }
  }
  action init = go(0)
  action step = all { pos + 1 < NP, go(pos + 1) }

  val closed = sums.indices().forall(j => on(sums[j])) and on(double) and on(triple)
  /// The denominators never vanish: the law has no exceptional pairs.
  val complete = POINTS.indices().forall(j => {
    val t = md(D * pt.x * POINTS[j].x * pt.y * POINTS[j].y)
    t != 1 and t != P - 1
  })
  val commutative = POINTS.indices().forall(j => sums[j] == plus(POINTS[j], pt))
  val identity = plus(pt, ID) == pt and plus(ID, pt) == pt
  val inverse = plus(pt, { x: md(-pt.x), y: pt.y }) == ID
  val associative = POINTS.indices().forall(j => POINTS.indices().forall(k =>
    plus(sums[j], POINTS[k]) == plus(pt, plus(POINTS[j], POINTS[k]))))
  val repeated = multiples[0] == ID and multiples[1] == pt and multiples[2] == double and multiples[3] == triple
  val inv_all = repeated and closed and complete and commutative and identity and inverse and associative
}
