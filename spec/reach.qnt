// -*- mode: Bluespec; -*-
/// The generators of gen.qnt reach every branch of the division design
/// (digits.qnt) at the crate's digit size.
module reach {
  import words.* from "./words"
  import gen from "./gen"
  import digits.* from "./digits"

  pure val SALT = 3^1500
  /// Fixed pseudo-random entropy.
  pure def noise(i: int, s: int): int = (((i + 7) * SALT + s)^3 / 2^2000) % 2^1900
  pure def pairAt(i: int): { w: int, x: int, y: int } = {
    val e = noise(i, 1)
    val w0 = gen::genWidth(e / 2^8)
    val w = if (i % 3 == 0) 64 * digitCount(w0) else if (w0 < 320) w0 + 192 else w0
    val p = gen::genDivPairU(w, e / 2^60, noise(i, 2), noise(i, 3))
    { w: w, x: p.x, y: p.y }
  }
  run C02ReachTest = assert({
    val pairs = 0.to(1200).map(i => pairAt(i)).filter(p => p.y != 0)
    and {
      pairs.forall(p => isWord(p.w, p.x) and isWord(p.w, p.y) and divisionRight(64, p.w, p.x, p.y)),
      BRANCHES.exclude(pairs.map(p => longDivision(64, p.w, p.x, p.y).br)) == Set(),
    }
  })
}
