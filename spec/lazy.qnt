// The lazily normalized representation of a residue modulo p = 2^BITS - GAP: a
// signed integer whose part above bit BITS is the pending carry. Every operation
// first folds pending carries back in, and leaves its own carry pending.
module lazy {
  import arith.* from "./arith"
  const BITS: int      // bits
  const GAP: int      // p = 2^BITS - GAP
  const DIGIT: int      // bits per limb
  const DIGITS: int      // limbs
  const EXACTHIGH: bool  // high half re-propagated before its carry is taken

  pure val B = 2^BITS
  pure val P = 2^BITS - GAP
  pure val TOPBITS = BITS - DIGIT * (DIGITS - 1)

  pure def low(r: int): int = fmod(r, B)
  pure def carry(r: int): int = fdiv(r, B)
  /// Fold the pending carry back in (2^BITS = GAP mod p).
  pure def foldIn(r: int): int = low(r) + carry(r) * GAP
  /// Reduction of a double-length signed product.
  pure def reduceCarry(x: int): int =
    if (EXACTHIGH) fdiv(fdiv(x, B) * GAP, B)
    else fdiv(fdiv(fdiv(x, B), 2^(DIGIT * (DIGITS - 1))) * GAP, 2^TOPBITS)
  pure def reduce(x: int): int =
    fmod(x, B) + fdiv(x, B) * GAP - reduceCarry(x) * B + reduceCarry(x) * GAP
  pure def lazyAdd(x: int, y: int): int = foldIn(x) + foldIn(y)
  pure def lazySub(x: int, y: int): int = foldIn(x) - foldIn(y)
  pure def lazyNeg(x: int): int = P - foldIn(x)
  pure def lazySmallAdd(x: int, k: int): int = foldIn(x) + k
  pure def lazySmallMul(x: int, k: int): int = foldIn(x * k)
  pure def lazyMul(x: int, y: int): int = reduce(x * y)
  /// Normalization in terms of the other operations.
  pure def lazyNormalize(x: int): int = {
    val s = lazyAdd(x, P)
    lazySub(s, lazySmallMul(P, carry(lazySmallAdd(s, GAP))))
  }
}
