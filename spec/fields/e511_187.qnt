// The prime field of field::mod_e511_187.
module f_e511_187 {
  import t_e511_187.* from "../tables/e511_187"
  import field(N = 511, C = 187, W = 54, L = 10, NB = 64, HALFPROP = false, CONSTS = TABLE).* from "../field"
}
