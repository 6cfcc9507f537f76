// Families of integers that are special to some positional representation,
// modulo p = 2^n - c, for an implementation with digits of w bits.
module families {
  import arith.* from "./arith"
  pure def famLen(fam: int, n: int, w: int): int =
    if (fam <= 3 or fam == 6 or fam == 7) n else if (fam == 4) (n + 7) / 8 else if (fam == 5) (n + w / 2 - 1) / (w / 2)
    else if (fam == 10) 32 * ((n + w - 1) / w) else if (fam == 11) 32 else 64
  pure def famAt(fam: int, i: int, n: int, c: int, w: int): int = fmod(
    if (fam == 0) 2^i
    else if (fam == 1) 2^i - 1
    else if (fam == 2) 2^n - c - 2^i
    else if (fam == 3) 2^n - 2^i
    else if (fam == 4) 255 * 2^(8 * i)
    else if (fam == 5) (2^(w / 2) - 1) * 2^(w / 2 * i)
    else if (fam == 6) 2^i + 1
    else if (fam == 7) 2^i + 2^((i + w) % n)
    else if (fam == 8) i
    else if (fam == 9) 2^n - c - 1 - i
    else if (fam == 11) c + i - 16
    else 2^(w * (i / 32)) * (i % 32), 2^n - c)
}
