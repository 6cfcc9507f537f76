// Proof obligations for the representation used by field::mod_e255_19.
module p_e255_19 {
  import lazyproof(N = 255, C = 19, W = 56, L = 5, HALFPROP = false).* from "../lazyproof"
}
