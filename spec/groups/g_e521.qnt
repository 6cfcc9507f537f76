// x^2 + y^2 = 1 + D x^2 y^2 over 2^N - C.
module g_e521 {
  import group(N = 521, C = 1, D = -376014,
    BX = 0x752cb45c48648b189df90cb2296b2878a3bfd9f42fc6c818ec8bf3c9c0c6203913f6ecc5ccc72434b1ae949d568fc99c6059d0fb13364838aa302a940a2f19ba6c,
    BY = 0xc,
    ELL = 0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd15b6c64746fc85f736b8af5e7ec53f04fbd8c4569a8f1f4540ea2435f5180d6b,
    X8 = 0x0).* from "../group"
}
