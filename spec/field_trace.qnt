// Validation of traces recorded from the real code: the recorded events drive
// the actions of `field`, with logged arguments bound, and after each event
// the logged registers and observation must be those of the specification.
// A trace is accepted when every event could be consumed (pos reaches the
// end) and `matches` held throughout.
module field_trace {
  import arith.* from "./arith"
  const N: int
  const C: int
  const W: int
  const L: int
  const NB: int
  const CONSTS: List[{ name: str, v: int }]
  const HALFPROP: bool
  const TRACE: List[int]       // one packed event per entry
  pure val BASE = 2^N
  import field(N = N, C = C, W = W, L = L, NB = NB, CONSTS = CONSTS, HALFPROP = HALFPROP) as f from "./field"

  // Layout of a packed event, least significant first:
  //   op, form, d, a, b: 16 bits each; k: 64 bits, biased by 2^63;
  //   v and the registers: 576 bits each; obs: length (16), then 10 bits each.
  pure val OPS = ["rand", "add", "sub", "neg", "mul", "square", "sadd", "ssub", "smul", "normalize", "pack", "eq", "bit",
                  "load", "copy", "unpack", "hex", "bits", "band", "bor", "mask", "select", "invmul", "divmul", "legsq", "sqsqrtsq", "sizes"]
  pure def slot(e: int, at: int, bits: int): int = (e / 2^at) % 2^bits
  pure def opOf(e: int): str = OPS[slot(e, 0, 16)]
  pure def kOf(e: int): int = slot(e, 80, 64) - 2^63
  pure def vOf(e: int): int = slot(e, 144, 576)
  pure def regsOf(e: int): List[int] = range(0, f::REGS).foldl([], (l, i) => l.append(slot(e, 720 + 576 * i, 576)))
  pure def obsOf(e: int): List[int] = digits(e / 2^2464, 1024, slot(e, 2448, 16))

  var pos: int
  var seen: { ones: int, zeros: int, samples: int }   // samples from uniform words (form 1)

  action tinit = all { f::init, pos' = 0, seen' = { ones: 0, zeros: 0, samples: 0 } }

  action consume(e: int): bool = {
    val op = opOf(e)
    val form = slot(e, 16, 16)
    val d = slot(e, 32, 16)
    val a = slot(e, 48, 16)
    val b = slot(e, 64, 16)
    val k = kOf(e)
    any {
      all { op == "rand", f::doRand(d, vOf(e), []) },
      all { op == "add", f::doAdd(form, d, a, b) },
      all { op == "sub", f::doSub(form, d, a, b) },
      all { op == "neg", f::doNeg(d, a) },
      all { op == "mul", f::doMul(form, d, a, b) },
      all { op == "square", f::doSquare(form, d, a) },
      all { op == "sadd", f::doSmallAdd(form, d, a, k) },
      all { op == "ssub", f::doSmallSub(form, d, a, k) },
      all { op == "smul", f::doSmallMul(form, d, a, k) },
      all { op == "normalize", f::doNormalize(a) },
      all { op == "pack", f::doPack(form, a) },
      all { op == "eq", f::doEq(form, a, b) },
      all { op == "bit", f::doBit(form, a, k) },
      all { op == "load", f::doLoad(form, d, vOf(e)) },
      all { op == "copy", f::doCopy(d, a) },
      all { op == "unpack", f::doUnpack(form, d, vOf(e)) },
      all { op == "hex", f::doHex(form, a) },
      all { op == "bits", f::doBits(form, a) },
      all { op == "band", f::doBand(form, d, a, b) },
      all { op == "bor", f::doBor(form, d, a, b) },
      all { op == "mask", f::doMask(form, d, a, k) },
      all { op == "select", f::doSelect(form, d, a, b, k) },
      all { op == "invmul", f::doInvMul(form, d, a) },
      all { op == "divmul", f::doDivMul(form, d, a, b) },
      all { op == "sqsqrtsq", f::doSqSqrtSq(d, a) },
      all { op == "sizes", f::doSizes }
    }
  }
  action tstep = all {
    pos < TRACE.length(),
    consume(TRACE[pos]),
    pos' = pos + 1,
    seen' = if (opOf(TRACE[pos]) != "rand" or slot(TRACE[pos], 16, 16) != 1) seen else {
      val x = vOf(TRACE[pos]) % BASE
      { ones: bor(seen.ones, x, N), zeros: bor(seen.zeros, BASE - 1 - x, N), samples: seen.samples + 1 }
    }
  }

  /// The specification's state after the last consumed event is the logged one.
  val matches = f::inv_all and (pos == 0 or {
    val e = TRACE[pos - 1]
    // the words unpacked are an argument, every other observation a result
    regsOf(e) == f::reg and (opOf(e) == "unpack" or obsOf(e) == f::ev.obs)
  })
  /// Over enough samples from uniform words every bit has been seen as one and as zero.
  val spread = (pos == TRACE.length() and seen.samples >= 64) implies
    (seen.ones == BASE - 1 and seen.zeros == BASE - 1)
  val accepted = matches and spread
}
