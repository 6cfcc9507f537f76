// Published constants of field::mod_e511_187 (see ../constants.qnt): name -> residue.
module t_e511_187 {
  import arith.* from "../arith"
  pure val PRIME = 2^511 - 187
  pure val TABLE: List[{ name: str, v: int }] = [
    { name: "ZERO", v: 0 },
    { name: "zero()", v: 0 },
    { name: "ONE", v: 1 },
    { name: "one()", v: 1 },
    { name: "M_ONE", v: PRIME - 1 },
    { name: "m_one()", v: PRIME - 1 },
    { name: "MODULUS", v: 0 },
    { name: "modulus()", v: 0 },
    { name: "M_HALF", v: (PRIME - 1) / 2 },
    { name: "M511_BASE_X", v: 0x5 },
    { name: "M511_BASE_Y", v: 0x2fbdc0ad8530803d28fdbad354bb488d32399ac1cf8f6e01ee3f96389b90c809422b9429e8a43dbf49308ac4455940abe9f1dbca542093a895e30a64af056fa5 },
    { name: "M511_ORDER", v: 0x100000000000000000000000000000000000000000000000000000000000000017b5feff30c7f5677ab2aeebd13779a2ac125042a6aa10bfa54c15bab76baf1b }
  ]
}
