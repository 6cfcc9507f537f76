// x^2 + y^2 = 1 + 2 x^2 y^2 over the integers modulo 29.
module t29 {
  import toy(P = 29, D = 2).* from "../toy"
}
