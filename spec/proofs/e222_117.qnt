// Proof obligations for the representation used by field::mod_e222_117.
module p_e222_117 {
  import lazyproof(N = 222, C = 117, W = 58, L = 4, HALFPROP = true).* from "../lazyproof"
}
