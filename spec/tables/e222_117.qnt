// Published constants of field::mod_e222_117 (see ../constants.qnt): name -> residue.
module t_e222_117 {
  import arith.* from "../arith"
  pure val PRIME = 2^222 - 117
  pure val TABLE: List[{ name: str, v: int }] = [
    { name: "ZERO", v: 0 },
    { name: "zero()", v: 0 },
    { name: "ONE", v: 1 },
    { name: "one()", v: 1 },
    { name: "M_ONE", v: PRIME - 1 },
    { name: "m_one()", v: PRIME - 1 },
    { name: "MODULUS", v: 0 },
    { name: "modulus()", v: 0 },
    { name: "E222_D", v: fmod(160102, PRIME) },
    { name: "E222_BASE_X", v: 0x19b12bb156a389e55c9768c303316d07c23adab3736eb2bc3eb54e51 },
    { name: "E222_BASE_Y", v: 0x1c },
    { name: "E222_ORDER", v: 0xffffffffffffffffffffffffffff70cbc95e932f802f31423598cbf }
  ]
}
