// The prime field of field::mod_e521_1.
module f_e521_1 {
  import t_e521_1.* from "../tables/e521_1"
  import field(N = 521, C = 1, W = 54, L = 10, NB = 66, HALFPROP = false, CONSTS = TABLE).* from "../field"
}
