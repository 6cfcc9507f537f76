// Proof obligations for the representation used by field::mod_e511_187.
module p_e511_187 {
  import lazyproof(N = 511, C = 187, W = 54, L = 10, HALFPROP = false).* from "../lazyproof"
}
