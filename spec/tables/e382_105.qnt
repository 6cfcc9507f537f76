// Published constants of field::mod_e382_105 (see ../constants.qnt): name -> residue.
module t_e382_105 {
  import arith.* from "../arith"
  pure val PRIME = 2^382 - 105
  pure val TABLE: List[{ name: str, v: int }] = [
    { name: "ZERO", v: 0 },
    { name: "zero()", v: 0 },
    { name: "ONE", v: 1 },
    { name: "one()", v: 1 },
    { name: "M_ONE", v: PRIME - 1 },
    { name: "m_one()", v: PRIME - 1 },
    { name: "MODULUS", v: 0 },
    { name: "modulus()", v: 0 },
    { name: "E382_D", v: fmod(-67254, PRIME) },
    { name: "E382_BASE_X", v: 0x196f8dd0eab20391e5f05be96e8d20ae68f840032b0b64352923bab85364841193517dbce8105398ebc0cc9470f79603 },
    { name: "E382_BASE_Y", v: 0x11 },
    { name: "E382_ORDER", v: 0xfffffffffffffffffffffffffffffffffffffffffffffffd5fb21f21e95eee17c5e69281b102d2773e27e13fd3c9719 }
  ]
}
