// x^2 + y^2 = 1 + 3 x^2 y^2 over the integers modulo 17.
module t17 {
  import toy(P = 17, D = 3).* from "../toy"
}
