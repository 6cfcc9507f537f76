// The prime field of field::mod_e251_9.
module f_e251_9 {
  import t_e251_9.* from "../tables/e251_9"
  import field(N = 251, C = 9, W = 56, L = 5, NB = 32, HALFPROP = false, CONSTS = TABLE).* from "../field"
}
