// x^2 + y^2 = 1 + D x^2 y^2 over 2^N - C.
module c_e382 {
  import curve(N = 382, C = 105, D = -67254,
    BX = 0x196f8dd0eab20391e5f05be96e8d20ae68f840032b0b64352923bab85364841193517dbce8105398ebc0cc9470f79603,
    BY = 0x11,
    ELL = 0xfffffffffffffffffffffffffffffffffffffffffffffffd5fb21f21e95eee17c5e69281b102d2773e27e13fd3c9719,
    X8 = 0x0).* from "../curve"
}
