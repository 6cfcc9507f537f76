// x^2 + y^2 = 1 + 22 x^2 y^2 over the integers modulo 23.
module t23 {
  import toy(P = 23, D = 22).* from "../toy"
}
