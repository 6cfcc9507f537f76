// Published constants of field::mod_e383_187 (see ../constants.qnt): name -> residue.
module t_e383_187 {
  import arith.* from "../arith"
  pure val PRIME = 2^383 - 187
  pure val TABLE: List[{ name: str, v: int }] = [
    { name: "ZERO", v: 0 },
    { name: "zero()", v: 0 },
    { name: "ONE", v: 1 },
    { name: "one()", v: 1 },
    { name: "M_ONE", v: PRIME - 1 },
    { name: "m_one()", v: PRIME - 1 },
    { name: "MODULUS", v: 0 },
    { name: "modulus()", v: 0 },
    { name: "M_HALF", v: (PRIME - 1) / 2 },
    { name: "M383_BASE_X", v: 0xc },
    { name: "M383_BASE_Y", v: 0x1ec7ed04aaf834af310e304b2da0f328e7c165f0e8988abd3992861290f617aa1f1b2e7d0b6e332e969991b62555e77e },
    { name: "M383_ORDER", v: 0x10000000000000000000000000000000000000000000000006c79673ac36ba6e7a32576f7b1b249e46bbc225be9071d7 },
    { name: "CURVE383187_BASE_X", v: 0x5 },
    { name: "CURVE383187_BASE_Y", v: 0x1eebe07dc1871896732b12d5504a32370471965c7a11f2c89865f855ab3cbd7c224e3620c31af3370788457dd5ce46df },
    { name: "CURVE383187_ORDER", v: 0x1000000000000000000000000000000000000000000000000e85a85287a1488acd41ae84b2b7030446f72088b00a0e21 }
  ]
}
