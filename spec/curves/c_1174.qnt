// x^2 + y^2 = 1 + D x^2 y^2 over 2^N - C.
module c_1174 {
  import curve(N = 251, C = 9, D = -1174,
    BX = 0x37fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda,
    BY = 0x6b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e,
    ELL = 0x1fffffffffffffffffffffffffffffff77965c4dfd307348944d45fd166c971,
    X8 = 0x0).* from "../curve"
}
