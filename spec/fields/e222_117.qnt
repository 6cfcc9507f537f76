// The prime field of field::mod_e222_117.
module f_e222_117 {
  import t_e222_117.* from "../tables/e222_117"
  import field(N = 222, C = 117, W = 58, L = 4, NB = 28, HALFPROP = true, CONSTS = TABLE).* from "../field"
}
