// State machine of one prime field p = 2^N - C as a caller sees it: a bank of
// registers holding residues, and one action per public operation and calling
// form. `lazy` is a ghost: the lazily normalized integer (low part plus pending
// signed carry times 2^N) that the operation leaves behind; it drives the
// exploration into pending-carry states and is tied to `reg` by the refinement
// invariant, but callers never see it.
module field {
  import arith.* from "./arith"
  import families.* from "./families"

  const N: int      // bits
  const C: int      // p = 2^N - C
  const W: int      // bits per limb
  const L: int      // limbs
  const NB: int     // packed bytes
  const CONSTS: List[{ name: str, v: int }]   // published constants
  const HALFPROP: bool  // high half re-propagated before its carry is taken

  import lazy(BITS = N, GAP = C, DIGIT = W, DIGITS = L, EXACTHIGH = HALFPROP).* from "./lazy"

  pure val REGS = 3

  type Event = {
    op: str, form: int, d: int, a: int, b: int,
    k: int,            // small operand, bit value or index
    v: int,            // loaded value
    name: str,         // constant
    ws: List[int],     // words of a scripted random generator
    obs: List[int]     // what the call returns or writes
  }

  var reg: List[int]
  var lazy: List[int]
  var ev: Event

  // ------------------------------------------------------------------ residues

  pure def md(x: int): int = fmod(x, P)
  pure def inv(x: int): int = powm(x, P - 2, P, N)
  pure def legendre(x: int): int = powm(x, (P - 1) / 2, P, N)
  pure def isSquare(x: int): bool = legendre(x) == 1

  /// A fixed non-residue: -1 if p = 3 mod 4, 2 if p = 5 mod 8.
  pure val NONRES = if (P % 4 == 3) -1 else 2

  pure val I32MAX = 2147483647
  pure val I32MIN = -2147483648

  // ------------------------------------------------------------------ input shapes

  /// Digit patterns of width w: every digit is 0, all ones, 1, the top bit,
  /// all ones but the last, or random, as the base-6 digits of q say.
  pure def pattern(q: int, r: int, w: int): int = patternN(q, r, w, N)
  pure def patternN(q: int, r: int, w: int, n: int): int = {
    val m = 2^w
    range(0, (n + w - 1) / w).foldl({ v: 0, q: q, r: r, s: 1 }, (t, _) => {
      val c = t.q % 6
      val g = if (c == 0) 0 else if (c == 1) m - 1 else if (c == 2) 1
              else if (c == 3) m / 2 else if (c == 4) m - 2 else t.r % m
      { v: t.v + g * t.s, q: t.q / 6, r: t.r / m, s: t.s * m }
    }).v % 2^n
  }
  /// A canonical value of shape `kind`, from a random q, r < 2^N and small s.
  pure def shape(kind: int, q: int, r: int, s: int): int = {
    val x =
      if (kind == 0) s
      else if (kind == 1) P - 1 - s
      else if (kind == 2) r
      else if (kind == 3) pattern(q, r, W)
      else if (kind == 4) pattern(q, r, W / 2)
      else if (kind == 5) 2^(q % N) + s
      else if (kind == 6) B - 2^(q % N) - s
      else if (kind == 7) fmod(2^(q % N) - 2^((q / N) % N), B)
      else if (kind == 8) pattern(q, r, 8)
      else if (kind == 9) fmod(2^(q % N) * (r % 256 + 1), B)
      else if (kind == 10) r % 2^(q % N + 1)                                  // any length
      else if (kind == 11) limbAt(q % L, (q / L) % 4, r) + s % 3              // one digit, and a bit at the bottom
      else if (kind == 12) limbAt(q % L, (q / L) % 4, r) + limbAt((q / 64) % L, (q / 1024) % 4, r / B2)
      else 2^edge(q) + (s - C)                                               // around word and digit boundaries
    fmod(x, P)
  }
  pure val B2 = 2^(N / 2)
  /// A value with a single nonzero digit.
  pure def limbAt(j: int, kind: int, r: int): int = {
    val m = 2^W
    val g = if (kind == 0) 1 else if (kind == 1) m - 1 else if (kind == 2) 2^(r % W) else r % m
    g * 2^(W * j) % B
  }
  /// Positions where an implementation is likely to split or widen numbers.
  pure val EDGES: List[int] = [7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 127, 128, W - 1, W, W + 1, W / 2, 2 * W, N - 1,
                               W * (L - 1), W * (L - 1) - 1, N / 2, N - 8, N - 2, 3 * W / 2]
  pure def edge(q: int): int = EDGES[q % 24]
  pure def smallShape(kind: int, r: int, bits: int): int = clampTo(
    if (kind == 0) r % 5 - 2
    else if (kind == 1) 2^(bits - 1) - 1 - r % 3
    else if (kind == 2) r % 3 - 2^(bits - 1)
    else if (kind == 3) I32MIN + r % 4294967296
    else if (kind == 4) 2^(r % 31)
    else if (kind == 5) -(2^(r % 32))
    else if (kind == 6) 2^(r % 31) - 1
    else (r % 512) - 256, bits)
  pure def clampTo(k: int, bits: int): int = fmod(k + 2^(bits - 1), 2^bits) - 2^(bits - 1)

  // ------------------------------------------------------------------ actions

  pure val noEvent: Event = { op: "init", form: 0, d: 0, a: 0, b: 0, k: 0, v: 0, name: "", ws: [], obs: [] }

  action init = all {
    reg' = range(0, REGS).foldl([], (l, _) => l.append(0)),
    lazy' = range(0, REGS).foldl([], (l, _) => l.append(0)),
    ev' = noEvent
  }

  action setReg(d: int, x: int, lz: int): bool = all {
    reg' = reg.replaceAt(d, x),
    lazy' = lazy.replaceAt(d, lz)
  }
  action sameRegs: bool = all { reg' = reg, lazy' = lazy }
  /// Normalization happens in place: same residue, canonical representation.
  action normRegs(a: int, b: int): bool = all {
    reg' = reg,
    lazy' = lazy.replaceAt(a, reg[a]).replaceAt(b, reg[b])
  }

  action doLoad(form: int, d: int, x: int): bool = all {
    setReg(d, x, x),
    ev' = { ...noEvent, op: "load", form: form, d: d, v: x }
  }
  /// The modulus is the one constant that is not its own canonical form.
  action doConst(d: int, i: int): bool = all {
    val c = CONSTS[i]
    setReg(d, c.v, if (c.name == "MODULUS" or c.name == "modulus()") P else c.v),
    ev' = { ...noEvent, op: "const", d: d, name: CONSTS[i].name }
  }
  action doCopy(d: int, a: int): bool = all {
    setReg(d, reg[a], lazy[a]),
    ev' = { ...noEvent, op: "copy", d: d, a: a }
  }
  action doAdd(form: int, d: int, a: int, b: int): bool = all {
    setReg(d, md(reg[a] + reg[b]), lazyAdd(lazy[a], lazy[b])),
    ev' = { ...noEvent, op: "add", form: form, d: d, a: a, b: b }
  }
  action doSub(form: int, d: int, a: int, b: int): bool = all {
    setReg(d, md(reg[a] - reg[b]), lazySub(lazy[a], lazy[b])),
    ev' = { ...noEvent, op: "sub", form: form, d: d, a: a, b: b }
  }
  action doNeg(d: int, a: int): bool = all {
    setReg(d, md(-reg[a]), lazyNeg(lazy[a])),
    ev' = { ...noEvent, op: "neg", d: d, a: a }
  }
  action doMul(form: int, d: int, a: int, b: int): bool = all {
    setReg(d, md(reg[a] * reg[b]), lazyMul(lazy[a], lazy[b])),
    ev' = { ...noEvent, op: "mul", form: form, d: d, a: a, b: b }
  }
  action doSquare(form: int, d: int, a: int): bool = all {
    setReg(d, md(reg[a] * reg[a]), lazyMul(lazy[a], lazy[a])),
    ev' = { ...noEvent, op: "square", form: form, d: d, a: a }
  }
  action doSmallAdd(form: int, d: int, a: int, k: int): bool = all {
    setReg(d, md(reg[a] + k), lazySmallAdd(lazy[a], k)),
    ev' = { ...noEvent, op: "sadd", form: form, d: d, a: a, k: k }
  }
  action doSmallSub(form: int, d: int, a: int, k: int): bool = all {
    setReg(d, md(reg[a] - k), lazySmallAdd(lazy[a], -k)),
    ev' = { ...noEvent, op: "ssub", form: form, d: d, a: a, k: k }
  }
  action doSmallMul(form: int, d: int, a: int, k: int): bool = all {
    setReg(d, md(reg[a] * k), lazySmallMul(lazy[a], k)),
    ev' = { ...noEvent, op: "smul", form: form, d: d, a: a, k: k }
  }
  /// Precondition of the API: the divisor is not zero.
  action doInvert(form: int, d: int, a: int): bool = all {
    reg[a] != 0,
    val x = inv(reg[a])
    setReg(d, x, x),
    ev' = { ...noEvent, op: "invert", form: form, d: d, a: a }
  }
  action doDiv(form: int, d: int, a: int, b: int): bool = all {
    reg[b] != 0,
    val x = md(reg[a] * inv(reg[b]))
    setReg(d, x, x),
    ev' = { ...noEvent, op: "div", form: form, d: d, a: a, b: b }
  }
  action doLegendre(d: int, a: int): bool = all {
    val x = legendre(reg[a])
    setReg(d, x, x),
    ev' = { ...noEvent, op: "legendre", d: d, a: a }
  }
  /// Cheap relational forms of the same contracts: the inverse times the
  /// element is one, the quotient times the divisor is the dividend.
  action doInvMul(form: int, d: int, a: int): bool = all {
    reg[a] != 0,
    setReg(d, 1, 1),
    ev' = { ...noEvent, op: "invmul", form: form, d: d, a: a }
  }
  action doDivMul(form: int, d: int, a: int, b: int): bool = all {
    reg[b] != 0,
    setReg(d, reg[a], reg[a]),
    ev' = { ...noEvent, op: "divmul", form: form, d: d, a: a, b: b }
  }
  /// Legendre symbol of k * reg[a]^2, which is that of k.
  action doLegendreSq(d: int, a: int, k: int, residue: bool): bool = all {
    reg[a] != 0,
    val x = if (residue) 1 else P - 1
    setReg(d, x, x),
    ev' = { ...noEvent, op: "legsq", d: d, a: a, k: k }
  }
  /// Multiplicativity: the symbols of two elements and of their product
  /// multiply to one.
  action doLegendreMul(d: int, a: int, b: int): bool = all {
    reg[a] != 0, reg[b] != 0,
    setReg(d, 1, 1),
    ev' = { ...noEvent, op: "legmul", d: d, a: a, b: b }
  }
  /// Of x and NONRES * x exactly one is a square: the one the symbol names
  /// has a root, and squaring the root leads back to x.
  action doSqrtAny(d: int, a: int): bool = all {
    reg[a] != 0,
    setReg(d, reg[a], reg[a]),
    ev' = { ...noEvent, op: "sqrtany", d: d, a: a, k: NONRES }
  }
  /// Every single-bit neighbour of an element is a different element.
  action doEqBits(form: int, a: int): bool = all {
    sameRegs,
    ev' = { ...noEvent, op: "eqbits", form: form, a: a, obs: [0] }
  }
  /// The debug rendering exists; its text is not specified.
  action doDebug(a: int): bool = all {
    sameRegs,
    ev' = { ...noEvent, op: "debug", a: a }
  }
  /// n-fold repetition of one operation, starting from register a.
  action doBurst(kind: int, form: int, d: int, a: int, b: int, k: int, n: int): bool = all {
    val z = range(0, n).foldl({ x: reg[a], r: lazy[a] }, (t, _) =>
      if (kind == 0) { x: md(t.x + reg[b]), r: lazyAdd(t.r, lazy[b]) }
      else if (kind == 1) { x: md(t.x - reg[b]), r: lazySub(t.r, lazy[b]) }
      else if (kind == 2) { x: md(t.x + t.x), r: lazyAdd(t.r, t.r) }
      else if (kind == 3) { x: md(reg[b] - t.x), r: lazySub(lazy[b], t.r) }
      else if (kind == 4) { x: md(t.x + k), r: lazySmallAdd(t.r, k) }
      else if (kind == 5) { x: md(t.x - k), r: lazySmallAdd(t.r, -k) }
      else if (kind == 6) { x: md(t.x * k), r: lazySmallMul(t.r, k) }
      else if (kind == 7) { x: md(t.x * reg[b]), r: lazyMul(t.r, lazy[b]) }
      else if (kind == 8) { x: md(t.x * t.x), r: lazyMul(t.r, t.r) }
      else { x: md(-t.x), r: lazyNeg(t.r) })
    setReg(d, z.x, z.r),
    ev' = { ...noEvent, op: "burst", form: form, d: d, a: a, b: b, k: k, v: n, name: BURSTS[kind] }
  }
  pure val BURSTS: List[str] = ["add", "sub", "dbl", "rsub", "sadd", "ssub", "smul", "mul", "sqr", "neg"]
  /// Very long additive chains have a closed form; the result is normalized.
  action doLongBurst(kind: int, form: int, d: int, a: int, b: int, k: int, n: int): bool = all {
    val x = md(if (kind == 0) reg[a] + n * reg[b]
               else if (kind == 1) reg[a] - n * reg[b]
               else if (kind == 2) reg[a] * powm(2, n, P, 20)
               else if (kind == 3) (if (n % 2 == 0) reg[a] else reg[b] - reg[a])
               else if (kind == 4) reg[a] + n * k
               else if (kind == 5) reg[a] - n * k
               else if (kind == 6) reg[a] * powm(k, n, P, 20)
               else reg[a] * powm(reg[b], n, P, 20))
    setReg(d, x, x),
    ev' = { ...noEvent, op: "longburst", form: form, d: d, a: a, b: b, k: k, v: n, name: BURSTS[kind] }
  }
  // ------------------------------------------------------------------ sweeps

  // A sweep applies one operation to every member of a family of operands that
  // are special to some positional representation, and accumulates the results
  // r_i in the field: acc = 3 * acc + r_i.
  /// Small integers: 32 members each.
  pure def smallAt(fam: int, i: int): int =
    if (fam == 0) (if (i < 31) 2^i else I32MAX)
    else if (fam == 1) -(2^i)
    else if (fam == 2) 2^i - 1
    else if (fam == 3) 1 - 2^i
    else i - 16
  /// Result of operation `kind` of a register holding x and the operand g.
  pure def sweepResult(kind: int, x: int, g: int, k: int): int =
    if (kind == 0) x + g
    else if (kind == 1) x - g
    else if (kind == 2) g - x
    else if (kind == 3 or kind == 4) x * g
    else if (kind == 5) g * g
    else if (kind == 6) -g
    else if (kind == 7 or kind == 10) (if (g == 0 or (kind == 10 and x == 0)) 0 else 1)   // (1/g) * g, legendre(x) legendre(g) legendre(xg)
    else if (kind == 8) (if (g == 0) 0 else x)             // (x/g) * g
    else if (kind == 9) (if (g == 0) 0 else g)             // the root of g or of NONRES * g, squared
    else if (kind == 11 or kind == 12) g                   // unpack . pack, and the bits put together
    else if (kind == 13) band(x, g, N)
    else if (kind == 14) bor(x, g, N)
    else if (kind == 15) (if (g == x) 1 else 0)
    else if (kind == 16) g                                 // text read back
    else if (kind == 17) x + k
    else if (kind == 18) x - k
    else x * k
  /// mode 0: the members themselves; 1: a register plus the member, as the
  /// addition left it; 2: a register minus the member; 3: the member held as
  /// p + f; 4: held as f - p. Small operands are cut to 32, 16 or 8 bits.
  action doSweep(kind: int, fam: int, mode: int, form: int, d: int, a: int, b: int): bool = all {
    val x = reg[a]
    val y = reg[b]
    val small = kind >= 17
    val n = if (small) 32 else famLen(fam, N, W)
    val acc = range(0, n).foldl(0, (t, i) => {
      val f = if (small) 0 else famAt(fam, i, N, C, W)
      val g = if (mode == 1) md(y + f) else if (mode == 2) md(y - f) else f
      md(3 * t + sweepResult(kind, x, g, if (small) clampTo(smallAt(fam % 5, i), if (fam < 5) 32 else if (fam < 10) 16 else 8) else 0))
    })
    setReg(d, acc, acc),
    ev' = { ...noEvent, op: "sweep", form: form, d: d, a: a, b: b, k: kind * 256 + fam * 8 + mode, v: P }
  }
  /// Every calling form of an operation with a small integer, each with the
  /// edge values of its operand's width.
  pure def edgeInts(bits: int): List[int] =
    [-(2^(bits - 1)), 1 - 2^(bits - 1), -(2^(bits - 2)), -2, -1, 0, 1, 2, 2^(bits - 2), 2^(bits - 1) - 2, 2^(bits - 1) - 1]
  pure val EDGEINTS: List[int] = edgeInts(8).concat(edgeInts(16)).concat(edgeInts(32))
  pure def formsOf(op: str, width: int): int = if (width == 2) (if (op == "ssub") 5 else 6) else if (op == "ssub") 3 else 4
  action doSmallMatrix(op: str, d: int, a: int): bool = all {
    val acc = range(0, 3).foldl(0, (t, w) =>
      range(0, formsOf(op, w)).foldl(t, (u, _) =>
        range(0, 11).foldl(u, (v, i) => {
          val k = EDGEINTS[11 * w + i]
          md(3 * v + (if (op == "sadd") reg[a] + k else if (op == "ssub") reg[a] - k else reg[a] * k))
        })))
    setReg(d, acc, acc),
    ev' = { ...noEvent, op: "smallmatrix", name: op, d: d, a: a }
  }
  action smallMatrix = {
    nondet op = Set("sadd", "ssub", "smul").oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doSmallMatrix(op, d, a)
  }
  action rareMatrix(n: int): bool = { nondet rare = 0.to(n).oneOf() if (rare == 0) smallMatrix else structured }
  /// Short sweeps over representations next to p, 2^N, 0 and 2p.
  action edgeSweep(kinds: Set[int]): bool = {
    nondet kind = kinds.oneOf()
    nondet fam = Set(8, 9, 11).oneOf()
    nondet mode = 3.to(4).oneOf()
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doSweep(kind, fam, mode, form, d, a, a)
  }
  action rareEdge(kinds: Set[int], n: int): bool = { nondet rare = 0.to(n).oneOf() if (rare == 0) edgeSweep(kinds) else structured }
  action sweepOf(kinds: Set[int]): bool = {
    nondet kind = kinds.oneOf()
    nondet fam = 0.to(14).oneOf()
    nondet mode = 0.to(4).oneOf()
    nondet form = 0.to(5).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doSweep(kind, if (kind == 13 or kind == 14) 4 + fam % 2 else if (kind >= 17) fam else fam % 12, mode,
            if (kind >= 17) form else form % 4, d, a, b)
  }

  /// A sweep whose results are thrown away: what matters is how they are
  /// computed (leak.qnt).
  action doProbe(kind: int, fam: int, mode: int, form: int, a: int, b: int): bool = all {
    sameRegs,
    ev' = { ...noEvent, op: "probe", form: form, a: a, b: b, k: kind * 256 + fam * 8 + mode, v: P }
  }
  action probeOf(kinds: Set[int]): bool = {
    nondet kind = kinds.oneOf()
    nondet fam = 0.to(14).oneOf()
    nondet mode = 0.to(4).oneOf()
    nondet form = 0.to(5).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doProbe(kind, if (kind >= 17) fam else fam % 12, mode, if (kind >= 17) form else form % 4, a, b)
  }

  /// Root of the square of reg[a], squared again.
  action doSqSqrtSq(d: int, a: int): bool = all {
    reg[a] != 0,
    val x = md(reg[a] * reg[a])
    setReg(d, x, x),
    ev' = { ...noEvent, op: "sqsqrtsq", d: d, a: a }
  }
  /// Which of the two roots is returned is not specified; the event is
  /// "take the root of register a and square it": the square is specified.
  action doSqrtSquared(d: int, a: int): bool = all {
    isSquare(reg[a]),
    setReg(d, reg[a], reg[a]),
    ev' = { ...noEvent, op: "sqrtsq", d: d, a: a }
  }
  action doNormalize(a: int): bool = all {
    normRegs(a, a),
    ev' = { ...noEvent, op: "normalize", a: a }
  }
  action doPack(form: int, a: int): bool = all {
    normRegs(a, a),
    ev' = { ...noEvent, op: "pack", form: form, a: a, obs: bytesLE(reg[a], NB) }
  }
  action doUnpack(form: int, d: int, x: int): bool = all {
    setReg(d, x, x),
    ev' = { ...noEvent, op: "unpack", form: form, d: d, obs: bytesLE(x, NB) }
  }
  action doSizes: bool = all {
    sameRegs,
    ev' = { ...noEvent, op: "sizes", obs: [N, NB] }
  }
  action doHex(form: int, a: int): bool = all {
    sameRegs,
    ev' = { ...noEvent, op: "hex", form: form, a: a,
            obs: hexText(digits(reg[a], 16, 2 * NB), if (form == 0) 97 else 65) }
  }
  action doEq(form: int, a: int, b: int): bool = all {
    normRegs(a, b),
    ev' = { ...noEvent, op: "eq", form: form, a: a, b: b,
            obs: [if (reg[a] == reg[b]) 1 else 0] }
  }
  action doBit(form: int, a: int, i: int): bool = all {
    normRegs(a, a),
    ev' = { ...noEvent, op: "bit", form: form, a: a, k: i, obs: [(reg[a] / 2^i) % 2] }
  }
  action doBits(form: int, a: int): bool = all {
    sameRegs,
    ev' = { ...noEvent, op: "bits", form: form, a: a, obs: bitsLE(reg[a], N) }
  }
  action doBand(form: int, d: int, a: int, b: int): bool = all {
    val x = band(reg[a], reg[b], N)
    setReg(d, x, x),
    ev' = { ...noEvent, op: "band", form: form, d: d, a: a, b: b }
  }
  action doBor(form: int, d: int, a: int, b: int): bool = all {
    val x = bor(reg[a], reg[b], N)
    setReg(d, md(x), x),
    ev' = { ...noEvent, op: "bor", form: form, d: d, a: a, b: b }
  }
  /// Masking with a filled value does not normalize: an all-ones mask keeps
  /// the representation, carry included, and an all-zeros mask clears it.
  action doMask(form: int, d: int, a: int, k: int): bool = all {
    setReg(d, if (k == 1) reg[a] else 0, if (k == 1) lazy[a] else 0),
    ev' = { ...noEvent, op: "mask", form: form, d: d, a: a, k: k }
  }
  action doSelect(form: int, d: int, a: int, b: int, k: int): bool = all {
    val s = if (k == 1) a else b
    setReg(d, reg[s], lazy[s]),
    ev' = { ...noEvent, op: "select", form: form, d: d, a: a, b: b, k: k }
  }

  /// Sampling: the generator's words decide the element, but which element is
  /// not specified beyond being canonical. Observed: a second sample from the
  /// same words agrees.
  action doRand(d: int, x: int, ws: List[int]): bool = all {
    x >= 0, x < P,
    setReg(d, x, x),
    ev' = { ...noEvent, op: "rand", form: if (ws.length() == 24) 1 else 0, d: d, v: x, ws: ws, obs: [1] }
  }

  // ------------------------------------------------------------------ steps

  /// Bring fresh material into a register.
  action load = {
    nondet kind = 0.to(13).oneOf()
    nondet q = 0.to(B - 1).oneOf()
    nondet r = 0.to(B - 1).oneOf()
    nondet s = 0.to(2 * C + 3).oneOf()
    nondet form = 0.to(1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    doLoad(form, d, shape(kind, q, r, s))
  }
  action constAny = {
    nondet i = 0.to(CONSTS.length() - 1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    doConst(d, i)
  }
  /// A value placed next to a relation with another register: equal to it,
  /// its negative, its inverse distance to p, 2^N minus it, a neighbour.
  pure def nearShape(kind: int, base: int, q: int, s: int): int =
    if (kind == 0) base + s else if (kind == 1) base - s
    else if (kind == 2) s - base else if (kind == 3) -s - base
    else if (kind == 4) B - 1 - base - s
    else if (kind == 5) B - base + s
    else if (kind == 6) base + 2^(q % N)
    else if (kind == 7) base - 2^(q % N)
    else base + (q / N % 256) * 2^(8 * (q % NB))
  action loadNear = {
    nondet kind = 0.to(8).oneOf()
    nondet s = 0.to(2 * C + 3).oneOf()
    nondet q = 0.to(B - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    doLoad(0, d, md(nearShape(kind, reg[a], q, s)))
  }
  /// Representations next to a boundary of the lazy form: a small operand or
  /// a fresh element chosen so that the unreduced result lands there.
  pure def target(kind: int, s: int, r: int): int = {
    val t = if (s % 4 == 0) s / 4 % 40 else if (s % 4 == 1) (s / 4 % 20) * (s / 4 % 20)
            else if (s % 4 == 2) -(s / 4 % 40) else 2^(r % (W + 4))
    if (kind == 0) t else if (kind == 1) B + t else if (kind == 2) P + t
    else if (kind == 3) -t else if (kind == 4) B + limbAt(r / B2 % L, s % 4, r)
    else if (kind == 5) 2 * B - t else if (kind == 6) -limbAt(r / B2 % L, s % 4, r)
    else shape(3, r, r / 7, 0)
  }
  action smallNear = {
    nondet kind = 0.to(3).oneOf()
    nondet s = 0.to(4000).oneOf()
    nondet r = 0.to(B - 1).oneOf()
    nondet form = Set(0, 1, 2, 4, 5).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet near = reg.indices().filter(i => val f = foldIn(lazy[i]) abs(f) < 2^30 or abs(f - B) < 2^30).oneOf()
    val k = target(kind, s, r) - foldIn(lazy[near])
    if (k >= I32MIN and k <= I32MAX) doSmallAdd(form, d, near, k)
    else doSmallSub(form, d, near, fmod(k, 2^30))
  }
  /// Sums, differences and products with a fresh element x.
  action doAddV(form: int, d: int, a: int, x: int): bool = all {
    setReg(d, md(reg[a] + x), lazyAdd(lazy[a], x)),
    ev' = { ...noEvent, op: "addv", form: form, d: d, a: a, v: x }
  }
  action doSubV(form: int, d: int, a: int, x: int): bool = all {
    setReg(d, md(reg[a] - x), lazySub(lazy[a], x)),
    ev' = { ...noEvent, op: "subv", form: form, d: d, a: a, v: x }
  }
  action doRSubV(form: int, d: int, a: int, x: int): bool = all {
    setReg(d, md(x - reg[a]), lazySub(x, lazy[a])),
    ev' = { ...noEvent, op: "rsubv", form: form, d: d, a: a, v: x }
  }
  action doMulV(form: int, d: int, a: int, x: int): bool = all {
    setReg(d, md(reg[a] * x), lazyMul(lazy[a], x)),
    ev' = { ...noEvent, op: "mulv", form: form, d: d, a: a, v: x }
  }
  action doRMulV(form: int, d: int, a: int, x: int): bool = all {
    setReg(d, md(reg[a] * x), lazyMul(x, lazy[a])),
    ev' = { ...noEvent, op: "rmulv", form: form, d: d, a: a, v: x }
  }
  /// Aim the unreduced sum or difference at a boundary.
  action sumNear = {
    nondet kind = 0.to(7).oneOf()
    nondet s = 0.to(4000).oneOf()
    nondet r = 0.to(B - 1).oneOf()
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    val f = foldIn(lazy[a])
    val t = target(kind, s, r)
    if (t >= f and t - f < P) doAddV(form, d, a, t - f)
    else if (f >= t and f - t < P) doSubV(form, d, a, f - t)
    else if (t + f >= 0 and t + f < P) doRSubV(form, d, a, t + f)
    else doAddV(form, d, a, md(t - f))
  }
  action mulV = {
    nondet kind = 0.to(13).oneOf()
    nondet q = 0.to(B - 1).oneOf()
    nondet r = 0.to(B - 1).oneOf()
    nondet s = 0.to(2 * C + 3).oneOf()
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet left = 0.to(1).oneOf()
    val x = shape(kind, q, r, s)
    if (left == 1) doRMulV(form, d, a, x) else doMulV(form, d, a, x)
  }
  // Products that land on a pattern of digits, so that carries ripple: T is
  // the wanted double-length product, y = ceil(T / x) comes within x of it.
  /// A double-length pattern, or one whose reduction hi * C + lo is a pattern.
  pure def doublePattern(kind: int, len: int, q: int, r: int): int =
    if (kind == 0) patternN(q, r, W, N + len) else {
      val hi = r % 2^len
      val lo = pattern(q, r / 7, if (kind == 1) W else W / 2) - C * hi
      hi * B + (if (lo >= 0) lo else lo + B)
    }
  action doMulXY(form: int, d: int, x: int, y: int): bool = all {
    setReg(d, md(x * y), lazyMul(x, y)),
    ev' = { ...noEvent, op: "mulxy", form: form, d: d, v: x, ws: [y] }
  }
  action doSquareV(form: int, d: int, x: int): bool = all {
    setReg(d, md(x * x), lazyMul(x, x)),
    ev' = { ...noEvent, op: "squarev", form: form, d: d, v: x }
  }
  action mulXYNear = {
    nondet kind = 0.to(3).oneOf()
    nondet len = 2.to(N - 1).oneOf()
    nondet swap = 0.to(1).oneOf()
    nondet short = 0.to(1).oneOf()
    nondet q = 0.to(B * B).oneOf()
    nondet r = 0.to(B * B).oneOf()
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    val n = if (short == 1) len % (2 * W) + 2 else len
    val x = 2^(n - 1) + (if (kind == 3) 0 else r / 3 % 2^(n - 1))
    val y = fmod((doublePattern(kind % 3, n - 2, q, r) + x - 1) / x, P)
    if (swap == 1) doMulXY(form, d, y, x) else doMulXY(form, d, x, y)
  }
  action mulVNear = {
    nondet kind = 0.to(2).oneOf()
    nondet q = 0.to(B * B).oneOf()
    nondet r = 0.to(B * B).oneOf()
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    val x = if (lazy[a] == 0) 1 else abs(lazy[a])
    val y = fmod((doublePattern(kind, N - 2, q, r) + x - 1) / x, P)
    if (q % 2 == 1) doRMulV(form, d, a, y) else doMulV(form, d, a, y)
  }
  /// The integer square root, rounded up, of t < 2^(2n).
  pure def ceilSqrt(t: int, n: int): int =
    range(0, n).foldl(0, (y, i) => { val z = y + 2^(n - 1 - i) if (z * z <= t) z else y }) + 1
  /// A root of t = 1 (mod 8) modulo 2^n.
  pure def sqrt2adic(t: int, n: int): int =
    range(3, n).foldl(1, (y, i) => if ((y * y - t) % 2^(i + 1) == 0) y else y + 2^(i - 1))
  action squareNear = {
    nondet kind = 0.to(5).oneOf()
    nondet len = 8.to(N - 1).oneOf()
    nondet q = 0.to(B * B).oneOf()
    nondet r = 0.to(B * B).oneOf()
    nondet form = 0.to(1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    if (kind < 3) {
      val n = if (len > N / 2) len else N - 1 - len
      doSquareV(form, d, fmod(ceilSqrt(doublePattern(kind, if (2 * n > N) 2 * n - N else 0, q, r) % 2^(2 * n), n), P))
    } else {
      // low half from the 2-adic root, high half chosen
      val a = N / 2 + len % (N / 2 - 24)
      val m = N - a - 21
      val hi = if (kind == 3) 1 else r % 2^20 + 1
      val t = pattern(q, r / 7, W) - C * (hi * hi * 2^(2 * a) / B)
      val lo = fmod(t, B)
      doSquareV(form, d, fmod(hi * 2^a + (if (m < 4) 1 else sqrt2adic(lo - lo % 8 + 1, m) % 2^m), P))
    }
  }
  action productNear = any { mulXYNear, mulXYNear, mulVNear, squareNear }
  action addAny = {
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doAdd(form, d, a, b)
  }
  action subAny = {
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doSub(form, d, a, b)
  }
  action negAny = {
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doNeg(d, a)
  }
  action mulAny = {
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doMul(form, d, a, b)
  }
  action squareAny = {
    nondet form = 0.to(1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doSquare(form, d, a)
  }
  // forms: 0 value, 1 reference, 2 in place, 3 integer on the left, 4/5 named
  // methods; +10 for i16 operands, +20 for i8 operands
  action smallAddAny = {
    nondet form = Set(0, 1, 2, 4, 5, 10, 11, 12, 20, 21, 22, 3, 13, 23).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet r = 0.to(2^33).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    val k = smallShape(kind, r, if (form >= 20) 8 else if (form >= 10) 16 else 32)
    doSmallAdd(form, d, a, k)
  }
  action smallSubAny = {
    nondet form = Set(0, 1, 2, 4, 5, 10, 11, 12, 20, 21, 22).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet r = 0.to(2^33).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    val k = smallShape(kind, r, if (form >= 20) 8 else if (form >= 10) 16 else 32)
    doSmallSub(form, d, a, k)
  }
  action smallMulAny = {
    nondet form = Set(0, 1, 2, 4, 5, 10, 11, 12, 20, 21, 22, 3, 13, 23).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet r = 0.to(2^33).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    val k = smallShape(kind, r, if (form >= 20) 8 else if (form >= 10) 16 else 32)
    doSmallMul(form, d, a, k)
  }
  action invertAny = {
    nondet form = 0.to(1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doInvert(form, d, a)
  }
  action divAny = {
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doDiv(form, d, a, b)
  }
  action legendreAny = {
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doLegendre(d, a)
  }
  action invMulAny = {
    nondet form = 0.to(1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doInvMul(form, d, a)
  }
  action divMulAny = {
    nondet form = 0.to(3).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doDivMul(form, d, a, b)
  }
  action legendreSqAny = {
    nondet m = 1.to(9).oneOf()
    nondet res = 0.to(1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doLegendreSq(d, a, m * m * (if (res == 1) 1 else NONRES), res == 1)
  }
  action sqSqrtSqAny = {
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doSqSqrtSq(d, a)
  }
  action sqrtAny = {
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doSqrtSquared(d, a)
  }
  action legMulAny = {
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doLegendreMul(d, a, b)
  }
  action sqrtAnyReg = {
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doSqrtAny(d, a)
  }
  action eqBitsAny = {
    nondet form = 0.to(1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doEqBits(form, a)
  }
  action debugAny = {
    nondet a = 0.to(REGS - 1).oneOf()
    doDebug(a)
  }
  action burstAny = {
    nondet kind = 0.to(9).oneOf()
    nondet form = 0.to(3).oneOf()
    nondet len = 0.to(4).oneOf()
    nondet n = 2.to(80).oneOf()
    nondet sk = 0.to(7).oneOf()
    nondet r = 0.to(2^33).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doBurst(kind, form, d, a, b, smallShape(sk, r, 32), if (len < 3) n % 9 + 2 else n)
  }
  action longBurstAny = {
    nondet kind = 0.to(7).oneOf()
    nondet form = 0.to(3).oneOf()
    nondet e = 8.to(19).oneOf()
    nondet n = 0.to(400).oneOf()
    nondet sk = 0.to(7).oneOf()
    nondet r = 0.to(2^33).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doLongBurst(kind, form, d, a, b, smallShape(sk, r, 32), 2^e + n)
  }
  action normalizeAny = {
    nondet a = 0.to(REGS - 1).oneOf()
    doNormalize(a)
  }
  action packAny = {
    nondet form = 0.to(3).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doPack(form, a)
  }
  action unpackAny = {
    nondet kind = 0.to(13).oneOf()
    nondet q = 0.to(B - 1).oneOf()
    nondet r = 0.to(B - 1).oneOf()
    nondet s = 0.to(2 * C + 3).oneOf()
    nondet form = 0.to(2).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    doUnpack(form, d, shape(kind, q, r, s))
  }
  action hexAny = {
    nondet form = 0.to(1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doHex(form, a)
  }
  action eqAny = {
    nondet form = 0.to(1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doEq(form, a, b)
  }
  action bitAny = {
    nondet form = 0.to(1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet i = 0.to(N - 1).oneOf()
    doBit(form, a, i)
  }
  action bitsAny = {
    nondet form = 0.to(1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doBits(form, a)
  }
  action bandAny = {
    nondet form = 0.to(2).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doBand(form, d, a, b)
  }
  action borAny = {
    nondet form = 0.to(2).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    doBor(form, d, a, b)
  }
  action maskAny = {
    nondet form = 0.to(1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet k = 0.to(1).oneOf()
    doMask(form, d, a, k)
  }
  action selectAny = {
    nondet form = 0.to(1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    nondet b = 0.to(REGS - 1).oneOf()
    nondet k = 0.to(1).oneOf()
    doSelect(form, d, a, b, k)
  }
  /// Generators: constant, alternating, a single bit, a counter, sparse and
  /// uniform words. A driver repeats the words and then counts.
  pure def words(kind: int, r: int): List[int] = {
    val n = if (kind >= 6) 24 else if (kind == 4) 7 else if (kind == 3) 2 else 1
    range(0, n).foldl({ l: [], r: r }, (t, i) => {
      val w = t.r % 4294967296
      val x =
        if (kind == 0) 0
        else if (kind == 1) 4294967295
        else if (kind == 2) w
        else if (kind == 3) (if (i == 0) w else 4294967295 - w)
        else if (kind == 4) (w + i * 0x01000193) % 4294967296
        else if (kind == 5) 2^(w % 32)
        else w
      { l: t.l.append(x), r: t.r / 4294967296 }
    }).l
  }
  /// Generators that hand each digit of a chosen integer, high word first or
  /// last, to an implementation that samples digit by digit.
  pure def digitWords(x: int, n: int, order: int): List[int] =
    digits(x, 2^W, n).foldl([], (l, g) =>
      if (order == 0) l.append(g / 4294967296).append(g % 4294967296)
      else l.append(g % 4294967296).append(g / 4294967296))
  /// Each digit independently at, below or above the digit of the modulus.
  pure def aroundModulus(q: int): List[int] =
    digits(P, 2^W, L).foldl({ l: [], q: q }, (t, g) => {
      val x = if (t.q % 8 < 4) g else if (t.q % 8 == 4) g - 1 else if (t.q % 8 == 5) g + 1 else if (t.q % 8 == 6) g + 2^(W - 1) else t.q % 2^W
      { l: t.l.append(x / 4294967296).append(x % 4294967296), q: t.q / 8 } }).l
  action randNear = {
    nondet kind = 0.to(15).oneOf()
    nondet q = 0.to(B - 1).oneOf()
    nondet r = 0.to(B - 1).oneOf()
    nondet s = 0.to(2 * C + 3).oneOf()
    nondet order = 0.to(1).oneOf()
    nondet x = 0.to(P - 1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    val w = if (kind == 14) P + s else if (kind == 15) B - 1 - s % C else shape(kind, q, r, s)
    doRand(d, x, if (s % 3 == 0) aroundModulus(q) else digitWords(w, L, order))
  }
  action randAny = {
    nondet kind = 0.to(11).oneOf()
    nondet r = 0.to(2^768 - 1).oneOf()
    nondet x = 0.to(P - 1).oneOf()
    nondet d = 0.to(REGS - 1).oneOf()
    doRand(d, x, words(kind, r))
  }
  action copyAny = {
    nondet d = 0.to(REGS - 1).oneOf()
    nondet a = 0.to(REGS - 1).oneOf()
    doCopy(d, a)
  }

  /// Operations that bring in values and leave pending carries behind.
  action material = any { load, loadNear, constAny, addAny, subAny, negAny, smallAddAny, smallSubAny, smallMulAny, smallNear, sumNear, sumNear, mulV }
  /// The same without the ones that forget structure.
  action structured = any { load, load, loadNear, subAny, smallNear, sumNear, sumNear }
  action powers = any { invMulAny, divMulAny, legendreSqAny, sqSqrtSqAny, legMulAny, sqrtAnyReg }
  action exactPowers = any { invertAny, divAny, legendreAny, sqrtAny }
  action bitwise = any { bitAny, bitsAny, bandAny, borAny, maskAny, selectAny }
  action views = any { normalizeAny, packAny, unpackAny, hexAny, eqAny, eqBitsAny, debugAny, doSizes }

  action rareSweep(kinds: Set[int], n: int): bool = { nondet rare = 0.to(n).oneOf() if (rare == 0) sweepOf(kinds) else structured }

  action exactInv = { nondet rare = 0.to(5).oneOf() if (rare == 0) any { invertAny, divAny } else structured }
  action exactRoot = { nondet rare = 0.to(5).oneOf() if (rare == 0) any { legendreAny, sqrtAny } else structured }
  action longRare = { nondet rare = 0.to(3).oneOf() if (rare == 0) longBurstAny else burstAny }

  pure val ALLKINDS: Set[int] = 0.to(19)
  action stepProduct = any { productNear, structured }
  action stepSweep = any { structured, sweepOf(ALLKINDS) }
  action stepF01 = any { load, loadNear, addAny, addAny, subAny, subAny, negAny, smallMulAny, sumNear, sumNear, rareSweep(Set(0, 1, 2, 6), 19), rareEdge(Set(0, 1, 2, 6), 5) }
  action stepF02 = any { material, structured, mulAny, mulAny, mulV, mulV, productNear, productNear, squareAny, squareAny, rareSweep(Set(3, 4, 5), 11), rareEdge(Set(3, 4, 5), 7) }
  action stepF03 = any { load, material, smallNear, smallAddAny, smallSubAny, smallMulAny, smallMulAny, rareSweep(Set(17, 18, 19), 7), rareMatrix(7) }
  action stepF04 = any { material, structured, structured, invMulAny, divMulAny, divMulAny, exactInv, rareSweep(Set(7, 8), 11), rareEdge(Set(7, 8), 11) }
  action stepF05 = any { structured, structured, structured, material, legMulAny, sqrtAnyReg, sqrtAnyReg, legendreSqAny, sqSqrtSqAny, exactRoot, rareSweep(Set(9, 10), 15), rareEdge(Set(9, 10), 15) }
  action stepF06 = any { material, structured, packAny, unpackAny, packAny, unpackAny, doSizes, rareSweep(Set(11), 7), rareEdge(Set(11), 7) }
  action stepF07 = any { material, structured, loadNear, normalizeAny, eqAny, eqAny, packAny, eqBitsAny, rareSweep(Set(15), 7), rareEdge(Set(15), 7) }
  action stepF08 = any { material, structured, bitAny, bitsAny, bandAny, borAny, maskAny, selectAny, rareSweep(Set(12, 13, 14), 7), rareEdge(Set(12, 13, 14), 7) }
  action stepF09 = any { load, productNear, copyAny, addAny, subAny, negAny, mulAny, squareAny, smallAddAny, smallSubAny, smallMulAny, material, divMulAny, invMulAny, exactInv, rareSweep(Set(0, 1, 2, 3, 4, 5, 7, 8, 17, 18, 19), 15), rareMatrix(5) }
  /// Sampling, and operations without preconditions on what was sampled.
  action stepF10 = any { randAny, randAny, randAny, randNear, randNear, randNear, addAny, subAny, negAny, mulAny, squareAny, smallMulAny, smallAddAny, normalizeAny, packAny, eqAny, bitAny }
  action stepF11 = any { constAny, constAny, constAny, eqAny, smallMulAny, addAny, packAny }
  action stepF12 = any { material, structured, hexAny, hexAny, rareSweep(Set(16), 7), rareEdge(Set(16), 7) }
  /// Histories without a fresh load or a normalization in between.
  action stepF13 = any { addAny, subAny, negAny, mulAny, squareAny, smallAddAny, smallSubAny, smallMulAny, maskAny, selectAny, borAny, copyAny, load, burstAny, longRare, sumNear, productNear, rareSweep(Set(0, 1, 2, 3, 4, 5, 6, 17, 18, 19), 19), rareEdge(0.to(6), 4), rareMatrix(11) }
  /// Every operation on operands of every shape; results do not matter.
  action slowProbe = { nondet rare = 0.to(7).oneOf() if (rare == 0) probeOf(7.to(10)) else structured }
  action stepT02 = any { material, structured, structured, productNear, mulAny, squareAny, powers, bitwise, views, burstAny, probeOf(0.to(19).exclude(7.to(10))), probeOf(0.to(6)), slowProbe, rareMatrix(7) }
  /// Operations of every kind, for several callers at once.
  action stepT03 = any { load, material, structured, mulAny, squareAny, addAny, subAny, negAny, smallMulAny, invMulAny, divMulAny, exactInv, legMulAny, sqrtAnyReg,
                         packAny, unpackAny, hexAny, bitsAny, eqAny, bitwise, copyAny, burstAny, burstAny, longBurstAny, rareSweep(ALLKINDS, 9) }
  /// The operation of another caller's event, on one's own registers.
  action again(e: Event): bool = any {
    all { e.op == "add", doAdd(e.form, e.d, e.a, e.b) },
    all { e.op == "sub", doSub(e.form, e.d, e.a, e.b) },
    all { e.op == "neg", doNeg(e.d, e.a) },
    all { e.op == "mul", doMul(e.form, e.d, e.a, e.b) },
    all { e.op == "square", doSquare(e.form, e.d, e.a) },
    all { e.op == "sadd", doSmallAdd(e.form, e.d, e.a, e.k) },
    all { e.op == "ssub", doSmallSub(e.form, e.d, e.a, e.k) },
    all { e.op == "smul", doSmallMul(e.form, e.d, e.a, e.k) },
    all { e.op == "invert", doInvert(e.form, e.d, e.a) },
    all { e.op == "div", doDiv(e.form, e.d, e.a, e.b) },
    all { e.op == "invmul", doInvMul(e.form, e.d, e.a) },
    all { e.op == "divmul", doDivMul(e.form, e.d, e.a, e.b) },
    all { e.op == "legmul", doLegendreMul(e.d, e.a, e.b) },
    all { e.op == "sqsqrtsq", doSqSqrtSq(e.d, e.a) },
    all { e.op == "legendre", doLegendre(e.d, e.a) },
    all { e.op == "sqrtany", doSqrtAny(e.d, e.a) },
    all { e.op == "pack", doPack(e.form, e.a) },
    all { e.op == "hex", doHex(e.form, e.a) },
    all { e.op == "bits", doBits(e.form, e.a) },
    all { e.op == "bit", doBit(e.form, e.a, e.k) },
    all { e.op == "normalize", doNormalize(e.a) }
  }
  /// Operations worth remembering the result of.
  action costly = any { invMulAny, divMulAny, invertAny, legMulAny, legendreAny, sqrtAnyReg, sqSqrtSqAny, mulAny, squareAny, packAny, hexAny }
  action step = any { material, structured, productNear, mulAny, squareAny, powers, bitwise, views, copyAny, exactInv, exactRoot, longRare, rareSweep(ALLKINDS, 15), rareEdge(0.to(16), 7), rareMatrix(7) }

  // ------------------------------------------------------------------ invariants

  val canonical = reg.indices().forall(i => reg[i] >= 0 and reg[i] < P)
  /// The representation denotes the residue.
  val refines = reg.indices().forall(i => md(lazy[i]) == reg[i])
  /// Pending carries never accumulate.
  val bounded = reg.indices().forall(i => carry(lazy[i]) >= -2 and carry(lazy[i]) <= 3)
  val inv_all = canonical and refines and bounded
}
