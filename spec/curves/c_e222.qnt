// x^2 + y^2 = 1 + D x^2 y^2 over 2^N - C.
module c_e222 {
  import curve(N = 222, C = 117, D = 160102,
    BX = 0x19b12bb156a389e55c9768c303316d07c23adab3736eb2bc3eb54e51,
    BY = 0x1c,
    ELL = 0xffffffffffffffffffffffffffff70cbc95e932f802f31423598cbf,
    X8 = 0x0).* from "../curve"
}
