// The prime field of field::mod_e383_187.
module f_e383_187 {
  import t_e383_187.* from "../tables/e383_187"
  import field(N = 383, C = 187, W = 56, L = 7, NB = 48, HALFPROP = true, CONSTS = TABLE).* from "../field"
}
