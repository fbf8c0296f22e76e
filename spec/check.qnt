// -*- mode: Bluespec; -*-
/// Per property of ../properties.jsonl: which steps of the machine concern it.
/// `rXX` are random walks, `sXX` systematic sweeps (position `n`, stride `st`).
module check {
  import gen.* from "./gen"
  export gen.*

  // `xXX` go through all combinations of extreme values (and start over).
  pure val BITPOSS: List[str] = ["get_bit", "set_bit", "unset_bit", "flip_bit"]
  pure val SHIFTS: List[str] = ["shl", "lshr", "ashr"]
  pure val BITS1: List[str] = ["not", "set_all", "unset_all", "flip_all", "set_msb", "unset_msb", "flip_msb"]
  pure val RING1: List[str] = ["neg", "inc", "dec", "abs"]
  pure val RING2S: List[str] = ["add", "sub", "mul"]
  pure val LOGIC: List[str] = ["and", "or", "xor"]
  pure val UDIVS: List[str] = ["udiv", "urem", "udivrem", "uremdiv"]
  pure val SDIVS: List[str] = ["sdiv", "srem", "sdivrem", "sremdiv"]
  action xC01(st: int): bool = sweepExtreme(RING2S, RING1, [], st)
  action xC02(st: int): bool = sweepExtreme(UDIVS, [], [], st)
  action xC03(st: int): bool = sweepExtreme(SDIVS, [], [], st)
  action xC04(st: int): bool = sweepExtreme([], [], SHIFTS, st)
  action xC05(st: int): bool = sweepExtreme(LOGIC, BITS1, BITPOSS, st)
  action xC07(st: int): bool = sweepExtreme(COMPARE, [], [], st)
  action xC08(st: int): bool = sweepExtreme(RING2S.concat(LOGIC).concat(UDIVS).concat(SDIVS), RING1.concat(BITS1),
    SHIFTS.concat(["set_bit", "unset_bit", "flip_bit"]), st)
  action xC14(st: int): bool = sweepExtreme(RING2S.concat(LOGIC).concat(["udiv", "urem", "sdiv", "srem", "strict_assign"]).concat(COMPARE),
    QUERIES.concat(["neg", "abs", "fmt_bin", "fmt_lhex", "fmt_uhex", "fmt_oct"]).concat(BITS1), SHIFTS.concat(BITPOSS), st)
  action xC15(st: int): bool = sweepExtreme([], QUERIES, [], st)
  action xC18(st: int): bool = sweepExtreme(RING2S.concat(UDIVS).concat(SDIVS).concat(["xor", "assign", "clone"]), RING1.concat(BITS1),
    SHIFTS.concat(["set_bit"]), st)

  /// A random step leaves the sweep position alone.
  action rC01 = all { n' = n, any {
    freshBinary(["add", "sub", "mul", "mul"], 0, 1000),
    freshUnary(["neg", "inc", "dec", "abs"]),
    freshBinary(["add", "sub", "mul"], 0, 1000),
  } }
  action sC01(st: int): bool =
    if (n % 4 == 3) sweepUnary(["neg", "inc", "dec", "abs"], n / 4, st)
    else sweepBinary(["add", "sub", "mul"], n / 4, st)

  action rC02 = all { n' = n, freshBinary(["udiv", "urem", "udivrem", "uremdiv"], 1, 1000) }
  action sC02(st: int): bool = sweepBinary(["udiv", "urem", "udivrem", "uremdiv"], n, st)

  action rC03 = all { n' = n, freshBinary(["sdiv", "srem", "sdivrem", "sremdiv"], 2, 1000) }
  action sC03(st: int): bool = sweepBinary(["sdiv", "srem", "sdivrem", "sremdiv"], n, st)

  action rC04 = all { n' = n, freshPos(["shl", "lshr", "ashr"]) }
  action sC04(st: int): bool = sweepPos(["shl", "lshr", "ashr"], n, st)

  action rC05 = all { n' = n, any {
    freshBinary(["and", "or", "xor"], 0, 1000),
    freshUnary(["not", "set_all", "unset_all", "flip_all", "set_msb", "unset_msb", "flip_msb"]),
    freshPos(["get_bit", "set_bit", "unset_bit", "flip_bit"]),
  } }
  action sC05(st: int): bool =
    if (n % 3 == 0) sweepBinary(["and", "or", "xor"], n / 3, st)
    else if (n % 3 == 1) sweepUnary(["not", "set_all", "unset_all", "flip_all", "set_msb", "unset_msb", "flip_msb"], n / 3, st)
    else sweepPos(["get_bit", "set_bit", "unset_bit", "flip_bit"], n / 3, st)

  action rC06 = all { n' = n, freshCast(["trunc", "zext", "sext", "zresize", "sresize"]) }
  action sC06(st: int): bool = sweepCast(["trunc", "zext", "sext", "zresize", "sresize"], n, st)

  pure val COMPARE: List[str] = ["eq", "ucmp", "scmp", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"]
  action rC07 = all { n' = n, freshBinary(COMPARE, 0, 8) }
  action sC07(st: int): bool = sweepBinary(COMPARE, n, st)

  action rC08 = all { n' = n, histCall(HISTOPS) }
  action sC08(st: int): bool = sweepCast(["trunc", "zext", "sext", "zresize", "sresize"], n, st)

  action rC09 = all { n' = n, any { freshError, freshError, freshTypes } }
  action sC09(st: int): bool = sweepError(st)

  action rC10 = all { n' = n, freshPrim }
  action sC10(st: int): bool = sweepPrim(st)

  action rC11 = all { n' = n, freshParse }
  action sC11(st: int): bool = sweepParse(st)

  action rC12 = all { n' = n, freshFormat }
  action sC12(st: int): bool = sweepUnary(["fmt_bin", "fmt_lhex", "fmt_uhex", "fmt_oct"], n, st)

  action rC13 = all { n' = n, freshSerde }
  action sC13(st: int): bool = sweepSerde(st)

  /// Every family of calls that exists in more than one form.
  action rC14 = all { n' = n, any {
    freshBinary(["add", "sub", "mul", "and", "or", "xor", "strict_assign", "assign", "clone"], 0, 12),
    freshBinary(["udiv", "urem"], 1, 16),
    freshBinary(["sdiv", "srem"], 2, 16),
    freshUnary(["neg", "not", "set_all", "unset_all", "flip_all", "set_msb", "unset_msb", "flip_msb", "is_zero", "is_one",
      "s_is_one", "is_even", "is_odd", "msb", "is_all_set", "is_all_unset", "count_ones", "count_zeros", "leading_zeros",
      "trailing_zeros", "width", "fmt_lhex", "fmt_uhex", "abs", "is_positive", "is_negative", "signum"]),
    freshPos(["shl", "lshr", "ashr", "get_bit", "set_bit", "unset_bit", "flip_bit"]),
    freshCast(["trunc", "zext", "sext", "zresize", "sresize"]),
    freshBinary(COMPARE, 0, 8),
    freshPrim,
    freshConst,
    freshRandom,
    freshError,
  } }
  action sC14(st: int): bool =
    if (n % 4 == 0) sweepBinary(["add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor"], n / 4, st)
    else if (n % 4 == 1) sweepPos(["shl", "lshr", "ashr", "get_bit", "set_bit"], n / 4, st)
    else if (n % 4 == 2) sweepCast(["trunc", "zext", "sext", "zresize", "sresize"], n / 4, st)
    else sweepBinary(COMPARE, n / 4, st)

  pure val QUERIES: List[str] = ["is_zero", "is_one", "s_is_one", "is_even", "is_odd", "msb", "lsb", "is_all_set",
    "is_all_unset", "is_positive", "is_negative", "signum", "count_ones", "count_zeros", "leading_zeros",
    "trailing_zeros", "width"]
  action rC15 = all { n' = n, freshUnary(QUERIES) }
  action sC15(st: int): bool = sweepUnary(QUERIES, n, st)

  action rC16 = all { n' = n, any { freshConst, freshTypes } }
  action sC16(st: int): bool = sweepConst(st)

  action rC17 = all { n' = n, freshRandom }
  action sC17(st: int): bool = sweepRandom(st)

  /// Copying, assigning, changing width (which changes storage) and failing
  /// calls, on values with a history.
  pure val OWNOPS: List[str] = ["clone", "clone", "assign", "assign", "strict_assign", "trunc", "zext", "sext", "zresize", "sresize",
    "add", "mul", "udivrem", "sdivrem", "neg", "not", "xor", "shl", "lshr", "ashr", "set_all", "flip_bit", "udiv", "srem", "inc"]
  action rC18 = all { n' = n, any { histCall(OWNOPS), histCall(OWNOPS), histCall(HISTOPS), freshError, freshSerde, freshParse,
    freshConst, freshPrim, freshRandom } }
  action sC18(st: int): bool = sweepMove(st)

  /// Calls of all kinds, for several threads to make at once.
  action rC19 = all { n' = n, any {
    freshBinary(["add", "sub", "mul", "mul", "and", "or", "xor", "assign", "clone"], 0, 12),
    freshBinary(["udiv", "urem", "udivrem", "uremdiv"], 1, 16),
    freshBinary(["sdiv", "srem", "sdivrem", "sremdiv"], 2, 16),
    freshUnary(["neg", "not", "inc", "dec", "abs", "set_all", "flip_msb", "is_zero", "is_one", "is_all_set", "count_ones",
      "leading_zeros", "trailing_zeros", "fmt_bin", "fmt_lhex", "fmt_uhex", "signum"]),
    freshPos(["shl", "lshr", "ashr", "get_bit", "set_bit", "flip_bit"]),
    freshCast(["trunc", "zext", "sext", "zresize", "sresize"]),
    freshBinary(COMPARE, 0, 8),
    freshPrim, freshConst, freshRandom, freshError, freshSerde, freshParse, freshFormat,
  } }
  action sC19(st: int): bool = sC14(st)

  // `hXX` are a few steps on huge words.
  pure val CASTS: List[str] = ["trunc", "zext", "sext", "zresize", "sresize"]
  action hC01 = hugeCall(RING2S, RING1, [], [])
  action hC02 = hugeCall(UDIVS, [], [], [])
  action hC03 = hugeCall(SDIVS, [], [], [])
  action hC04 = hugeCall([], [], SHIFTS, [])
  action hC05 = hugeCall(LOGIC, BITS1, BITPOSS, [])
  action hC06 = hugeCall([], [], [], CASTS)
  action hC07 = hugeCall(COMPARE, [], [], [])
  action hC08 = hugeCall(["add", "mul", "xor", "udivrem", "srem"], RING1.concat(["not", "set_all", "flip_msb"]), SHIFTS.concat(["flip_bit"]), CASTS)
  action hC09 = hugeCall(["udiv", "sremdiv"], [], SHIFTS.concat(BITPOSS), ["trunc", "trunc"])
  action hC10 = hugePrim
  action hC11 = hugeParse
  action hC12 = hugeCall([], ["fmt_lhex", "fmt_uhex", "fmt_bin"], [], [])
  action hC13 = hugeSerde
  action hC14 = hugeCall(["add", "mul", "udiv", "srem", "xor", "ult", "sge"], ["neg", "abs", "not", "count_ones", "leading_zeros", "trailing_zeros",
    "count_zeros", "fmt_lhex"], SHIFTS.concat(["get_bit", "set_bit"]), CASTS)
  action hC15 = hugeCall([], QUERIES, [], [])
  action hC16 = hugeConst
  action hC17 = hugeRandom
  action hC19 = hugeCall(["add", "mul", "udivrem", "srem", "xor", "ult"], ["neg", "not", "count_ones"], ["shl", "ashr"], CASTS)
  action hC18 = hugeCall(["assign", "clone", "add", "udivrem"], ["neg", "inc"], ["shl"], CASTS)
}
