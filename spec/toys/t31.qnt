// x^2 + y^2 = 1 + 3 x^2 y^2 over the integers modulo 31.
module t31 {
  import toy(P = 31, D = 3).* from "../toy"
}
