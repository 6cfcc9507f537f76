// Proof obligations for the representation used by field::mod_e521_1.
module p_e521_1 {
  import lazyproof(N = 521, C = 1, W = 54, L = 10, HALFPROP = false).* from "../lazyproof"
}
