// x^2 + y^2 = 1 + D x^2 y^2 over 2^N - C.
module g_41417 {
  import group(N = 414, C = 17, D = 3617,
    BX = 0x1a334905141443300218c0631c326e5fcd46369f44c03ec7f57ff35498a4ab4d6d6ba111301a73faa8537c64c4fd3812f3cbc595,
    BY = 0x22,
    ELL = 0x7ffffffffffffffffffffffffffffffffffffffffffffffffffeb3cc92414cf706022b36f1c0338ad63cf181b0e71a5e106af79,
    X8 = 0x1bb000907ec3b857bc73b6bb4fc2f6774eb90596794501a98da231c938af8e03d8da611977140345795a9f22305d477dbf2d6e21).* from "../group"
}
