// The prime field of field::mod_e255_19.
module f_e255_19 {
  import t_e255_19.* from "../tables/e255_19"
  import field(N = 255, C = 19, W = 56, L = 5, NB = 32, HALFPROP = false, CONSTS = TABLE).* from "../field"
}
