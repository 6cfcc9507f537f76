// Published constants of field::mod_e251_9 (see ../constants.qnt): name -> residue.
module t_e251_9 {
  import arith.* from "../arith"
  pure val PRIME = 2^251 - 9
  pure val TABLE: List[{ name: str, v: int }] = [
    { name: "ZERO", v: 0 },
    { name: "zero()", v: 0 },
    { name: "ONE", v: 1 },
    { name: "one()", v: 1 },
    { name: "M_ONE", v: PRIME - 1 },
    { name: "m_one()", v: PRIME - 1 },
    { name: "MODULUS", v: 0 },
    { name: "modulus()", v: 0 },
    { name: "CURVE1174_D", v: fmod(-1174, PRIME) },
    { name: "CURVE1174_BASE_X", v: 0x37fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda },
    { name: "CURVE1174_BASE_Y", v: 0x6b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e },
    { name: "CURVE1174_ORDER", v: 0x1fffffffffffffffffffffffffffffff77965c4dfd307348944d45fd166c971 }
  ]
}
