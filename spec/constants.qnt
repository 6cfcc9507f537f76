// Published constants of every field and curve, with the mathematics that
// makes them right: run as tests, so the table itself is checked before the
// code is compared with it.
module constants {
  import arith.* from "./arith"
  import curvemath.* from "./curvemath"
  import t_e221_3 from "./tables/e221_3"
  import t_e222_117 from "./tables/e222_117"
  import t_e251_9 from "./tables/e251_9"
  import t_e255_19 from "./tables/e255_19"
  import t_e382_105 from "./tables/e382_105"
  import t_e383_187 from "./tables/e383_187"
  import t_e414_17 from "./tables/e414_17"
  import t_e511_187 from "./tables/e511_187"
  import t_e521_1 from "./tables/e521_1"
  pure val P_e221_3 = 2^221 - 3
  pure val P_e222_117 = 2^222 - 117
  pure val P_e251_9 = 2^251 - 9
  pure val P_e255_19 = 2^255 - 19
  pure val P_e382_105 = 2^382 - 105
  pure val P_e383_187 = 2^383 - 187
  pure val P_e414_17 = 2^414 - 17
  pure val P_e511_187 = 2^511 - 187
  pure val P_e521_1 = 2^521 - 1

  pure def look(t: List[{ name: str, v: int }], n: str): int =
    t.foldl(0, (acc, r) => if (r.name == n) r.v else acc)

  pure val WITNESSES = [3, 5, 7, 11]
  /// Fermat test to a few bases (compositeness would be certain evidence).
  pure def probablyPrime(n: int, bits: int): bool =
    WITNESSES.select(a => powm(a, n - 1, n, bits) != 1).length() == 0

  run prime_e221_3_Test = assert(probablyPrime(P_e221_3, 221))
  run half_e221_3_Test = assert(fmod(2 * look(t_e221_3::TABLE, "M_HALF") + 1, P_e221_3) == 0)
  run prime_e222_117_Test = assert(probablyPrime(P_e222_117, 222))
  run prime_e251_9_Test = assert(probablyPrime(P_e251_9, 251))
  run prime_e255_19_Test = assert(probablyPrime(P_e255_19, 255))
  run half_e255_19_Test = assert(fmod(2 * look(t_e255_19::TABLE, "M_HALF") + 1, P_e255_19) == 0)
  run prime_e382_105_Test = assert(probablyPrime(P_e382_105, 382))
  run prime_e383_187_Test = assert(probablyPrime(P_e383_187, 383))
  run half_e383_187_Test = assert(fmod(2 * look(t_e383_187::TABLE, "M_HALF") + 1, P_e383_187) == 0)
  run prime_e414_17_Test = assert(probablyPrime(P_e414_17, 414))
  run prime_e511_187_Test = assert(probablyPrime(P_e511_187, 511))
  run half_e511_187_Test = assert(fmod(2 * look(t_e511_187::TABLE, "M_HALF") + 1, P_e511_187) == 0)
  run prime_e521_1_Test = assert(probablyPrime(P_e521_1, 521))
  run edwards_E222_Test = {
    val b = { x: look(t_e222_117::TABLE, "E222_BASE_X"), y: look(t_e222_117::TABLE, "E222_BASE_Y") }
    val l = look(t_e222_117::TABLE, "E222_ORDER")
    val d = look(t_e222_117::TABLE, "E222_D")
    assert(and {
      edOn(b, d, P_e222_117),
      powm(d, (P_e222_117 - 1) / 2, P_e222_117, 222) == P_e222_117 - 1,
      b != { x: 0, y: 1 },
      fracIsIdentity(fracMul(l, { x: b.x, y: b.y, z: 1 }, d, P_e222_117, 222), P_e222_117),
      probablyPrime(l, 222)
    })
  }
  run edwards_CURVE1174_Test = {
    val b = { x: look(t_e251_9::TABLE, "CURVE1174_BASE_X"), y: look(t_e251_9::TABLE, "CURVE1174_BASE_Y") }
    val l = look(t_e251_9::TABLE, "CURVE1174_ORDER")
    val d = look(t_e251_9::TABLE, "CURVE1174_D")
    assert(and {
      edOn(b, d, P_e251_9),
      powm(d, (P_e251_9 - 1) / 2, P_e251_9, 251) == P_e251_9 - 1,
      b != { x: 0, y: 1 },
      fracIsIdentity(fracMul(l, { x: b.x, y: b.y, z: 1 }, d, P_e251_9, 251), P_e251_9),
      probablyPrime(l, 251)
    })
  }
  run edwards_E382_Test = {
    val b = { x: look(t_e382_105::TABLE, "E382_BASE_X"), y: look(t_e382_105::TABLE, "E382_BASE_Y") }
    val l = look(t_e382_105::TABLE, "E382_ORDER")
    val d = look(t_e382_105::TABLE, "E382_D")
    assert(and {
      edOn(b, d, P_e382_105),
      powm(d, (P_e382_105 - 1) / 2, P_e382_105, 382) == P_e382_105 - 1,
      b != { x: 0, y: 1 },
      fracIsIdentity(fracMul(l, { x: b.x, y: b.y, z: 1 }, d, P_e382_105, 382), P_e382_105),
      probablyPrime(l, 382)
    })
  }
  run edwards_CURVE41417_Test = {
    val b = { x: look(t_e414_17::TABLE, "CURVE41417_BASE_X"), y: look(t_e414_17::TABLE, "CURVE41417_BASE_Y") }
    val l = look(t_e414_17::TABLE, "CURVE41417_ORDER")
    val d = look(t_e414_17::TABLE, "CURVE41417_D")
    assert(and {
      edOn(b, d, P_e414_17),
      powm(d, (P_e414_17 - 1) / 2, P_e414_17, 414) == P_e414_17 - 1,
      b != { x: 0, y: 1 },
      fracIsIdentity(fracMul(l, { x: b.x, y: b.y, z: 1 }, d, P_e414_17, 414), P_e414_17),
      probablyPrime(l, 414)
    })
  }
  run edwards_E521_Test = {
    val b = { x: look(t_e521_1::TABLE, "E521_BASE_X"), y: look(t_e521_1::TABLE, "E521_BASE_Y") }
    val l = look(t_e521_1::TABLE, "E521_ORDER")
    val d = look(t_e521_1::TABLE, "E521_D")
    assert(and {
      edOn(b, d, P_e521_1),
      powm(d, (P_e521_1 - 1) / 2, P_e521_1, 521) == P_e521_1 - 1,
      b != { x: 0, y: 1 },
      fracIsIdentity(fracMul(l, { x: b.x, y: b.y, z: 1 }, d, P_e521_1, 521), P_e521_1),
      probablyPrime(l, 521)
    })
  }
  run montgomery_M221_Test = {
    val x = look(t_e221_3::TABLE, "M221_BASE_X")
    val y = look(t_e221_3::TABLE, "M221_BASE_Y")
    val l = look(t_e221_3::TABLE, "M221_ORDER")
    assert(and {
      fmod(y * y - x * x * x - 117050 * x * x - x, P_e221_3) == 0,
      montLadderIsIdentity(l, x, 117050, P_e221_3, 221),
      not(montLadderIsIdentity(1, x, 117050, P_e221_3, 221)),
      probablyPrime(l, 221)
    })
  }
  run montgomery_CURVE25519_Test = {
    val x = look(t_e255_19::TABLE, "CURVE25519_BASE_X")
    val y = look(t_e255_19::TABLE, "CURVE25519_BASE_Y")
    val l = look(t_e255_19::TABLE, "CURVE25519_ORDER")
    assert(and {
      fmod(y * y - x * x * x - 486662 * x * x - x, P_e255_19) == 0,
      montLadderIsIdentity(l, x, 486662, P_e255_19, 255),
      not(montLadderIsIdentity(1, x, 486662, P_e255_19, 255)),
      probablyPrime(l, 255)
    })
  }
  run montgomery_M383_Test = {
    val x = look(t_e383_187::TABLE, "M383_BASE_X")
    val y = look(t_e383_187::TABLE, "M383_BASE_Y")
    val l = look(t_e383_187::TABLE, "M383_ORDER")
    assert(and {
      fmod(y * y - x * x * x - 2065150 * x * x - x, P_e383_187) == 0,
      montLadderIsIdentity(l, x, 2065150, P_e383_187, 383),
      not(montLadderIsIdentity(1, x, 2065150, P_e383_187, 383)),
      probablyPrime(l, 383)
    })
  }
  run montgomery_CURVE383187_Test = {
    val x = look(t_e383_187::TABLE, "CURVE383187_BASE_X")
    val y = look(t_e383_187::TABLE, "CURVE383187_BASE_Y")
    val l = look(t_e383_187::TABLE, "CURVE383187_ORDER")
    assert(and {
      fmod(y * y - x * x * x - 229969 * x * x - x, P_e383_187) == 0,
      montLadderIsIdentity(l, x, 229969, P_e383_187, 383),
      not(montLadderIsIdentity(1, x, 229969, P_e383_187, 383)),
      probablyPrime(l, 383)
    })
  }
  run montgomery_M511_Test = {
    val x = look(t_e511_187::TABLE, "M511_BASE_X")
    val y = look(t_e511_187::TABLE, "M511_BASE_Y")
    val l = look(t_e511_187::TABLE, "M511_ORDER")
    assert(and {
      fmod(y * y - x * x * x - 530438 * x * x - x, P_e511_187) == 0,
      montLadderIsIdentity(l, x, 530438, P_e511_187, 511),
      not(montLadderIsIdentity(1, x, 530438, P_e511_187, 511)),
      probablyPrime(l, 511)
    })
  }
}
