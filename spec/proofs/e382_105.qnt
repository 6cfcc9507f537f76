// Proof obligations for the representation used by field::mod_e382_105.
module p_e382_105 {
  import lazyproof(N = 382, C = 105, W = 56, L = 7, HALFPROP = false).* from "../lazyproof"
}
