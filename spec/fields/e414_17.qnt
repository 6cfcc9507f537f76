// The prime field of field::mod_e414_17.
module f_e414_17 {
  import t_e414_17.* from "../tables/e414_17"
  import field(N = 414, C = 17, W = 56, L = 8, NB = 52, HALFPROP = false, CONSTS = TABLE).* from "../field"
}
