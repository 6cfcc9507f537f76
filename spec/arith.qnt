// Integer and modular arithmetic shared by all specifications.
module arith {
  /// Floor division and modulo for a possibly negative dividend, m > 0.
  /// (The simulator truncates, Apalache is Euclidean: for x >= 0 they agree.)
  pure def fdiv(x: int, m: int): int =
    if (x >= 0) x / m else -((m - 1 - x) / m)
  pure def fmod(x: int, m: int): int = x - fdiv(x, m) * m

  pure def abs(x: int): int = if (x < 0) -x else x
  pure def min(x: int, y: int): int = if (x < y) x else y

  /// x^e mod m for 0 <= e < 2^bits, square and multiply from the low bit.
  pure def powm(x: int, e: int, m: int, bits: int): int =
    range(0, bits).foldl({ r: 1, s: fmod(x, m), e: e }, (acc, _) => {
      r: if (acc.e % 2 == 1) (acc.r * acc.s) % m else acc.r,
      s: (acc.s * acc.s) % m,
      e: acc.e / 2
    }).r

  /// The n low-order digits of x in base b, least significant first.
  pure def digits(x: int, b: int, n: int): List[int] =
    range(0, n).foldl({ l: [], v: x }, (acc, _) =>
      { l: acc.l.append(acc.v % b), v: acc.v / b }).l

  pure def fromDigits(l: List[int], b: int): int =
    l.foldl({ v: 0, m: 1 }, (acc, x) => { v: acc.v + x * acc.m, m: acc.m * b }).v

  pure def reverse(l: List[int]): List[int] =
    range(0, l.length()).foldl([], (acc, i) => acc.append(l[l.length() - 1 - i]))

  pure def bytesLE(x: int, n: int): List[int] = digits(x, 256, n)
  pure def bitsLE(x: int, n: int): List[int] = digits(x, 2, n)

  /// Bitwise and / or of two naturals below 2^n, a nibble at a time.
  pure def andNibble(x: int, y: int): int =
    (if (x % 2 == 1 and y % 2 == 1) 1 else 0) +
    (if (x / 2 % 2 == 1 and y / 2 % 2 == 1) 2 else 0) +
    (if (x / 4 % 2 == 1 and y / 4 % 2 == 1) 4 else 0) +
    (if (x / 8 == 1 and y / 8 == 1) 8 else 0)
  pure val AND_TABLE: List[int] =
    range(0, 256).foldl([], (l, i) => l.append(andNibble(i / 16, i % 16)))
  pure def band(x: int, y: int, n: int): int =
    range(0, (n + 3) / 4).foldl({ v: 0, m: 1, x: x, y: y }, (a, _) =>
      { v: a.v + AND_TABLE[(a.x % 16) * 16 + a.y % 16] * a.m, m: a.m * 16, x: a.x / 16, y: a.y / 16 }).v
  pure def bor(x: int, y: int, n: int): int = x + y - band(x, y, n)

  /// ASCII codes of the big-endian hexadecimal text of a list of
  /// little-endian nibbles; ten is the code of the digit "a" or "A".
  pure def hexText(nibblesLE: List[int], ten: int): List[int] =
    reverse(nibblesLE).foldl([], (acc, d) =>
      acc.append(if (d < 10) 48 + d else ten + d - 10))
}
