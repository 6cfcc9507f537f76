// Published constants of field::mod_e521_1 (see ../constants.qnt): name -> residue.
module t_e521_1 {
  import arith.* from "../arith"
  pure val PRIME = 2^521 - 1
  pure val TABLE: List[{ name: str, v: int }] = [
    { name: "ZERO", v: 0 },
    { name: "zero()", v: 0 },
    { name: "ONE", v: 1 },
    { name: "one()", v: 1 },
    { name: "M_ONE", v: PRIME - 1 },
    { name: "m_one()", v: PRIME - 1 },
    { name: "MODULUS", v: 0 },
    { name: "modulus()", v: 0 },
    { name: "E521_D", v: fmod(-376014, PRIME) },
    { name: "E521_BASE_X", v: 0x752cb45c48648b189df90cb2296b2878a3bfd9f42fc6c818ec8bf3c9c0c6203913f6ecc5ccc72434b1ae949d568fc99c6059d0fb13364838aa302a940a2f19ba6c },
    { name: "E521_BASE_Y", v: 0xc },
    { name: "E521_ORDER", v: 0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd15b6c64746fc85f736b8af5e7ec53f04fbd8c4569a8f1f4540ea2435f5180d6b }
  ]
}
