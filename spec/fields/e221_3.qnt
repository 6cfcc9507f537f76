// The prime field of field::mod_e221_3.
module f_e221_3 {
  import t_e221_3.* from "../tables/e221_3"
  import field(N = 221, C = 3, W = 58, L = 4, NB = 28, HALFPROP = false, CONSTS = TABLE).* from "../field"
}
