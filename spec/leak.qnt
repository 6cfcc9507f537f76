// What an observer of the machine may learn: noninterference as a property of
// recorded traces. The observer sees, per operation, one token that stands for
// everything the run of it showed: the instructions (or edges of control flow)
// it took and the addresses it read and wrote. The public part of an operation
// is which one it is, in which calling form, and, for single bits, the
// position asked for. Everything else - elements, points, scalars, small
// integers, bytes, selection bits - is secret, and the token must be a
// function of the public part alone.
module leak {
  const TRACE: List[int]       // one packed event per entry
  // Layout of a packed event, least significant first:
  //   observer: 8 bits (0 branches and addresses of the unoptimized code, which
  //   follows the source; 1 the same of the optimized code; 2 its instructions
  //   and addresses);
  //   op: 8; form: 16; index: 16; token: 64.
  pure val OPS = ["add", "sub", "mul", "div", "neg", "sadd", "ssub", "smul", "square", "invert", "legendre", "sqrt",
                  "normalize", "pack", "unpack", "eq", "bit", "bits", "band", "bor", "fill", "select",
                  "init", "padd", "double", "triple", "pmul"]
  pure def slot(e: int, at: int, bits: int): int = (e / 2^at) % 2^bits
  type Public = { observer: int, op: str, form: int, index: int }
  pure def public(e: int): Public = {
    val op = OPS[slot(e, 8, 8)]
    { observer: slot(e, 0, 8), op: op, form: slot(e, 16, 16), index: if (op == "bit") slot(e, 32, 16) else 0 }
  }
  pure def token(e: int): int = slot(e, 48, 64)

  var pos: int
  var learnt: Public -> int    // what the observer has seen of each operation
  var tight: bool              // nothing more than that

  action tinit = all { pos' = 0, learnt' = Map(), tight' = true }
  action tstep = all {
    pos < TRACE.length(),
    val e = TRACE[pos]
    val c = public(e)
    val known = learnt.keys().contains(c)
    all {
      pos' = pos + 1,
      learnt' = if (known) learnt else learnt.put(c, token(e)),
      tight' = (not(known) or learnt.get(c) == token(e))
    }
  }
  val accepted = tight
}
