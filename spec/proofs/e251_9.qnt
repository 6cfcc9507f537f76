// Proof obligations for the representation used by field::mod_e251_9.
module p_e251_9 {
  import lazyproof(N = 251, C = 9, W = 56, L = 5, HALFPROP = false).* from "../lazyproof"
}
