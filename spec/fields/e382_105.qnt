// The prime field of field::mod_e382_105.
module f_e382_105 {
  import t_e382_105.* from "../tables/e382_105"
  import field(N = 382, C = 105, W = 56, L = 7, NB = 48, HALFPROP = false, CONSTS = TABLE).* from "../field"
}
