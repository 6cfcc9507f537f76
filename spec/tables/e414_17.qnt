// Published constants of field::mod_e414_17 (see ../constants.qnt): name -> residue.
module t_e414_17 {
  import arith.* from "../arith"
  pure val PRIME = 2^414 - 17
  pure val TABLE: List[{ name: str, v: int }] = [
    { name: "ZERO", v: 0 },
    { name: "zero()", v: 0 },
    { name: "ONE", v: 1 },
    { name: "one()", v: 1 },
    { name: "M_ONE", v: PRIME - 1 },
    { name: "m_one()", v: PRIME - 1 },
    { name: "MODULUS", v: 0 },
    { name: "modulus()", v: 0 },
    { name: "CURVE41417_D", v: fmod(3617, PRIME) },
    { name: "CURVE41417_BASE_X", v: 0x1a334905141443300218c0631c326e5fcd46369f44c03ec7f57ff35498a4ab4d6d6ba111301a73faa8537c64c4fd3812f3cbc595 },
    { name: "CURVE41417_BASE_Y", v: 0x22 },
    { name: "CURVE41417_ORDER", v: 0x7ffffffffffffffffffffffffffffffffffffffffffffffffffeb3cc92414cf706022b36f1c0338ad63cf181b0e71a5e106af79 }
  ]
}
