// Proof obligations for the representation used by field::mod_e383_187.
module p_e383_187 {
  import lazyproof(N = 383, C = 187, W = 56, L = 7, HALFPROP = true).* from "../lazyproof"
}
