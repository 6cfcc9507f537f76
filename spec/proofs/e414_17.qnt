// Proof obligations for the representation used by field::mod_e414_17.
module p_e414_17 {
  import lazyproof(N = 414, C = 17, W = 56, L = 8, HALFPROP = false).* from "../lazyproof"
}
