// x^2 + y^2 = 1 + 2 x^2 y^2 over the integers modulo 13.
module t13 {
  import toy(P = 13, D = 2).* from "../toy"
}
