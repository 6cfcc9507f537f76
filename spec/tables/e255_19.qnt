// Published constants of field::mod_e255_19 (see ../constants.qnt): name -> residue.
module t_e255_19 {
  import arith.* from "../arith"
  pure val PRIME = 2^255 - 19
  pure val TABLE: List[{ name: str, v: int }] = [
    { name: "ZERO", v: 0 },
    { name: "zero()", v: 0 },
    { name: "ONE", v: 1 },
    { name: "one()", v: 1 },
    { name: "M_ONE", v: PRIME - 1 },
    { name: "m_one()", v: PRIME - 1 },
    { name: "MODULUS", v: 0 },
    { name: "modulus()", v: 0 },
    { name: "M_HALF", v: (PRIME - 1) / 2 },
    { name: "CURVE25519_BASE_X", v: 0x9 },
    { name: "CURVE25519_BASE_Y", v: 0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9 },
    { name: "CURVE25519_ORDER", v: 0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed }
  ]
}
