// Published constants of field::mod_e221_3 (see ../constants.qnt): name -> residue.
module t_e221_3 {
  import arith.* from "../arith"
  pure val PRIME = 2^221 - 3
  pure val TABLE: List[{ name: str, v: int }] = [
    { name: "ZERO", v: 0 },
    { name: "zero()", v: 0 },
    { name: "ONE", v: 1 },
    { name: "one()", v: 1 },
    { name: "M_ONE", v: PRIME - 1 },
    { name: "m_one()", v: PRIME - 1 },
    { name: "MODULUS", v: 0 },
    { name: "modulus()", v: 0 },
    { name: "M_HALF", v: (PRIME - 1) / 2 },
    { name: "M221_BASE_X", v: 0x4 },
    { name: "M221_BASE_Y", v: 0xf7acdd2a4939571d1cef14eca37c228e61dbff10707dc6c08c5056d },
    { name: "M221_ORDER", v: 0x40000000000000000000000000015a08ed730e8a2f77f005042605b }
  ]
}
