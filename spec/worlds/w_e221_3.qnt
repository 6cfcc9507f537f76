// Three callers of field::mod_e221_3 that share nothing but the library.
module w_e221_3 {
  import t_e221_3.* from "../tables/e221_3"
  import field(N = 221, C = 3, W = 58, L = 4, NB = 28, HALFPROP = false, CONSTS = TABLE) as A from "../field"
  import field(N = 221, C = 3, W = 58, L = 4, NB = 28, HALFPROP = false, CONSTS = TABLE) as B from "../field"
  import field(N = 221, C = 3, W = 58, L = 4, NB = 28, HALFPROP = false, CONSTS = TABLE) as G from "../field"
  var who: int
  action init = all { A::init, B::init, G::init, who' = -1, turn' = 0, lent' = [] }
  action idleA = all { A::reg' = A::reg, A::lazy' = A::lazy, A::ev' = A::ev }
  action idleB = all { B::reg' = B::reg, B::lazy' = B::lazy, B::ev' = B::ev }
  action idleG = all { G::reg' = G::reg, G::lazy' = G::lazy, G::ev' = G::ev }
  /// B takes a value of A, or one that differs from it in one bit.
  action mirror(x: int, d: int): bool = {
    nondet j = 0.to(A::N - 1).oneOf()
    nondet near = 0.to(3).oneOf()
    nondet s = 0.to(4).oneOf()
    nondet form = 0.to(1).oneOf()
    val place = if (near == 0) A::N - 1 - j % 8 else if (near == 1) A::W * (j % A::L) + j % 3 else j
    B::doLoad(form, d, B::md(if (s == 2) x else if (s < 2) x + 2^place else x - 2^place))
  }
  action mirrorAny = {
    nondet d = 0.to(A::REGS - 1).oneOf()
    nondet a = 0.to(A::REGS - 1).oneOf()
    mirror(A::reg[a], d)
  }
  /// B does what A has just done, to its own values.
  action echo = B::again(A::ev)
  /// A duel: A computes something, then B takes operands like A's and does the
  /// same, with nothing in between.
  var turn: int
  var lent: List[int]      // A's registers before
  action challenge = {
    nondet op = Set("invert", "invmul", "divmul", "legmul", "legendre", "sqrtany", "mul", "square", "pack", "hex").oneOf()
    nondet form = 0.to(1).oneOf()
    nondet d = 0.to(A::REGS - 1).oneOf()
    nondet b = 0.to(A::REGS - 1).oneOf()
    A::again({ ...A::noEvent, op: op, form: form, d: d, a: A::ev.d, b: b })
  }
  action duel = any {
    all { turn == 0, A::costly, idleB, idleG, who' = 0, turn' = 1, lent' = A::reg },
    all { turn == 0, A::load, idleB, idleG, who' = 0, turn' = 3, lent' = lent },
    all { turn == 3, challenge, idleB, idleG, who' = 0, turn' = 1, lent' = A::reg },
    all { turn == 3, A::doNormalize(0), idleB, idleG, who' = 0, turn' = 0, lent' = lent },
    all { turn == 1, mirror(lent[A::ev.a], A::ev.a), idleA, idleG, who' = 1, turn' = 2, lent' = lent },
    all { turn == 2, echo, idleA, idleG, who' = 1, turn' = 0, lent' = lent },
    all { turn == 2, echo, idleA, idleG, who' = 1, turn' = 0, lent' = lent },
    // what A did has no meaning for the value B took
    all { turn == 2, B::doNormalize(0), idleA, idleG, who' = 1, turn' = 0, lent' = lent }
  }
  /// Each step is a step of one of them, and leaves the others as they were.
  action free = any {
    all { A::stepT03, idleB, idleG, who' = 0 },
    all { B::stepT03, idleA, idleG, who' = 1 },
    all { mirrorAny, idleA, idleG, who' = 1 },
    all { echo, idleA, idleG, who' = 1 },
    all { G::stepT03, idleA, idleB, who' = 2 }
  }
  action step = any {
    all { turn == 0, free, turn' = 0, lent' = lent },
    all { turn == 0, free, turn' = 0, lent' = lent },
    duel
  }
  val inv_all = A::inv_all and B::inv_all and G::inv_all
}
