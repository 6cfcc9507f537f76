// Proof obligations for the representation used by field::mod_e221_3.
module p_e221_3 {
  import lazyproof(N = 221, C = 3, W = 58, L = 4, HALFPROP = false).* from "../lazyproof"
}
