// -*- mode: Bluespec; -*-
/// The environment of the machine: which calls, widths and values are tried.
///
/// All choices are derived from a few nondeterministic integers ("entropy"), so
/// that a step stays one cheap random draw for the simulator while the derived
/// distribution concentrates on what separates implementations: widths around
/// the 64-bit digit boundaries, carries that run across digits, sign
/// boundaries, operands of unequal length, exact and off-by-one quotients.
///
/// `step*` are random walks, `sweep*` enumerate corner cases systematically.
module gen {
  import words.* from "./words"
  import apint.* from "./apint"
  export apint.*

  /// Position in a sweep (unused by the random walks).
  var n: int

  pure val ENT = 0.to(2^1900 - 1)
  pure val ENTS = 0.to(2^200 - 1)

  pure val M64 = 2^64 - 1
  /// Entropy for the widest words, repeated in steps that are no multiple of
  /// anything below.
  pure def stretch(w: int, e: int): int = if (w <= 1600) e
    else if (w <= 4500) e * (1 + 2^1801 + 2^3607)
    else e * (1 + 2^1801) * (1 + 2^3607) * (1 + 2^7219) % 2^16900

  // ------------------------------------------------------------ widths
  pure val SPECIALW: List[int] = [1, 2, 3, 8, 16, 32, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256,
    257, 320, 384, 448, 512, 513, 1024]
  pure def genWidth(e: int): int = {
    val c = e % 16
    val r = e / 16
    if (c < 3) 1 + r % 66
    else if (c < 7) 64 * (1 + (r / 3) % 7) - 1 + r % 3
    else if (c < 9) 1 + r % 200
    else if (c < 12) 65 + r % 400
    else if (c < 14) SPECIALW[r % 24]
    else if (c < 15) (if (r % 2 == 0) 65 + (r / 2) % 64 else 64 * (8 + (r / 6) % 33) - 1 + (r / 2) % 3)
    else if (r % 4 == 0) 65 + (r / 4) % 1100
    else if (r % 16 == 1) 64 * (17 + (r / 48) % 50) - 1 + (r / 16) % 3
    else if (r % 16 == 2) 1100 + (r / 16) % 3100
    else if (r % 48 == 3) (if ((r / 48) % 2 == 0) 4300 + (r / 96) % 12500 else 64 * (68 + (r / 96) % 190) + (r / 32) % 2)
    else 129 + (r / 4) % 130
  }
  /// Widths for calls whose reply spells out every digit or bit.
  pure def genWidthS(e: int): int = if (e % 8 == 0) genWidth(e / 8) else 1 + genWidth(e / 8) % 200

  // ------------------------------------------------------------ values
  pure def patDigit(e: int): int = {
    val c = e % 16
    val r = (e / 16) % 2^64
    if (c < 3) 0
    else if (c < 5) M64
    else if (c == 5) M64 - 1
    else if (c == 6) 1
    else if (c == 7) 2^63
    else if (c == 8) 2^63 - 1
    else if (c == 9) 2^63 + 1
    else if (c == 10) 2^32 - 1 + r % 3
    else if (c == 11) 2^(r % 64)
    else if (c == 12) M64 - 2^(r % 64)
    else r
  }
  pure def patValue(w: int, e: int): int =
    (range(0, digitCount(w)).foldl({ a: stretch(w, e), p: 1, r: 0 }, (st, i) =>
      { a: st.a / 2^70, p: st.p * 2^64, r: st.r + st.p * patDigit(st.a) }).r) % 2^w
  pure def genValue(w: int, e: int): int = {
    val c = e % 16
    val r = e / 16
    if (c == 0) (r % 6) % 2^w
    else if (c == 1) wrap(w, 2^w - 1 - r % 6)
    else if (c == 2) wrap(w, 2^(w - 1) + r % 7 - 3)
    else if (c == 3) wrap(w, 2^(r % w) + (r / w) % 3 - 1)
    else if (c < 9) patValue(w, r)
    else if (c < 11) stretch(w, r) % 2^w
    else if (c == 11) stretch(w, r / w) % 2^(1 + r % w)
    else if (c == 12) wrap(w, 2^(r % w) + 2^((r / w) % w))
    else if (c == 13) wrap(w, 2^(r % (w + 1)) - 2^((r / 5000) % w))
    else if (c == 14) patValue(w, r / w) % 2^(1 + r % w)
    else wrap(w, -patValue(w, r / w) % 2^(1 + r % w))
  }
  /// A second operand, often related to the first.
  pure def genSecond(w: int, x: int, e: int): int = {
    val c = e % 16
    val r = e / 16
    if (c == 0) x
    else if (c == 1) wrap(w, x + 1)
    else if (c == 2) wrap(w, x - 1)
    else if (c == 3) wNeg(w, x)
    else if (c == 4) wNot(w, x)
    else if (c == 5) flipBit(x, r % w)
    else if (c == 6) flipBit(x, w - 1)
    else genValue(w, r)
  }

  // ------------------------------------------------------------ operand pairs
  pure def genPair(w: int, ex: int, ey: int): { x: int, y: int } = {
    val x = genValue(w, ex)
    { x: x, y: genSecond(w, x, ey) }
  }
  /// Remainders worth trying for a divisor y: the ends of the range mostly.
  pure def genRem(y: int, e: int, er: int): int = {
    val k = e % 8
    if (k < 2) 0
    else if (k == 2) y - 1
    else if (k == 3) 1 % y
    else if (k == 4) (y - 1) - (1 % y)
    else if (k == 5) (er % 2^64) % y
    else if (k == 6) (y - 1) - (er % 2^64) % y
    else er % y
  }
  /// Lengths of quotients around the steps of digit-wise long division.
  pure val QBITS: List[int] = [64, 63, 62, 60, 33, 32, 128, 127, 96, 65, 129, 61, 192, 31, 66, 2]
  /// Dividend and divisor built from quotient and remainder: x = q*y + r.
  pure def genDivPairU(w: int, e: int, ex: int, ey: int): { x: int, y: int } = {
    val c = e % 8
    val qb = QBITS[(e / 2^30) % 16]
    if (c < 2) genPair(w, ex, ey)
    else if (c < 5 or w < qb + 2) {
      val yb = 1 + (e / 8) % w
      val y0 = genValue(w, ey) % 2^yb
      val y = if (y0 == 0) 1 + (e / 4096) % 2 * (2^w / 2 - 1) else y0
      val lim = 2^w / y
      val qw = bitLen(lim - 1)
      val q = if (qw == 0) 0 else genValue(qw, ex) % lim
      { x: q * y + genRem(y, e / 8192, ex / 7), y: y }
    } else if ((e / 2^34) % 3 == 0 and w > 66) {
      // The quotient is one less than m, and m times the divisor just exceeds
      // the width: an estimate of m overflows.
      val mb = if ((e / 8) % 2 == 0) 62 + (e / 16) % 3 else 1 + (e / 16) % 64
      val m = 2 + genValue(mb, ex)
      val y = (2^w + m - 1) / m
      { x: 2^w - 1 - (if ((e / 2^11) % 2 == 0) (e / 2^12) % 4 else genValue(60, ey)), y: y }
    } else {
      // Quotient and divisor of chosen lengths, both with their top bit set.
      val room = w - qb
      val yb = if ((e / 8) % 4 == 0) 1 + (e / 32) % room else if (room < 4) room else room - (e / 8) % 4
      val y = 2^(yb - 1) + (if (yb == 1) 0 else genValue(yb - 1, ey))
      val q = 2^(qb - 1) + genValue(qb - 1, ex)
      { x: q * y + genRem(y, e / 8192, ex / 7), y: y }
    }
  }
  pure def genDivPairS(w: int, e: int, ex: int, ey: int): { x: int, y: int } =
    if (w == 1 or e % 4 == 0) genDivPairU(w, e / 16, ex, ey)
    else {
      val p = genDivPairU(w - 1, e / 16, ex, ey)
      { x: if ((e / 4) % 2 == 0) p.x else wNeg(w, p.x),
        y: if ((e / 8) % 2 == 0) p.y else wNeg(w, p.y) }
    }

  // ------------------------------------------------------------ small arguments
  /// Numbers that a narrower machine type would confuse with v: 2^32 + v and so on.
  pure val BEYOND: List[int] = [2^8, 2^16, 2^31, 2^32, 2^32, 2^33, 2^48, 2^63, 2^64 - 2^32, 2^63 + 2^32]
  pure def genBeyond(v: int, e: int): int = BEYOND[e % 10] + v
  /// A position or shift amount for a word of w bits; mostly valid.
  pure def genPos(w: int, e: int): int = {
    val c = e % 24
    val r = e / 24
    if (c < 8) r % w
    else if (c < 11) 64 * (r % (w / 64 + 1)) % w
    else if (c < 13) (64 * (1 + r % (w / 64 + 1)) - 1) % w
    else if (c < 15) (64 * (r % (w / 64 + 1)) + 1) % w
    else if (c == 15) w - 1
    else if (c == 16) if (w >= 65) w - 64 else w - 1
    else if (c == 17) 0
    else if (c == 18) 1
    else if (c == 19) w
    else if (c == 20) w + 1 + r % 130
    else if (c == 21) if (r % 4 == 0) 2^64 - 1 - (r / 4) % 70 else if (r % 4 == 1) genBeyond((r / 64) % w, r / 4) else w - 1
    else (r % (w + 2))
  }
  /// A target width for a cast of a word of w bits.
  pure def genTarget(w: int, e: int): int = {
    val c = e % 16
    val r = e / 16
    if (c == 0) w
    else if (c == 1) w + 1
    else if (c == 2) if (w > 1) w - 1 else 1
    else if (c == 3) 64 * digitCount(w)
    else if (c == 4) 64 * digitCount(w) + 1
    else if (c == 5) if (w > 64) 64 * (digitCount(w) - 1) else 64
    else if (c == 6) 1 + r % 64
    else if (c == 7) 1 + r % w
    else if (c == 8) w + r % 64
    else if (c == 9) w + r % 260
    else if (c == 10) 64 * (1 + r % 8)
    else if (c == 11) 64 * (1 + r % 8) + 1
    else if (c == 12) 1 + r % w
    else if (c == 13) w + 64 * (1 + r % 3)
    else if (c == 14) if (w > 64) w - 64 else 1 + r % w
    else genWidth(r)
  }
  pure val PRIMS: List[int] = [1, 8, 16, 32, 64, 128, -8, -16, -32, -64, -128]
  pure val SPRIMS: List[int] = [-8, -16, -32, -64, -128]
  pure val ARRS: List[int] = [2, 3, 4, 5, 6, 7, 8, 16, 32]
  /// A value interesting for a conversion to the primitive type k.
  pure def genPrimValue(w: int, k: int, e: int): int = {
    val b = absI(k)
    val c = e % 8
    val r = e / 8
    val base = if (c == 0) 2^b else if (c == 1) 2^(b - 1) else if (c == 2) -(2^(b - 1))
      else if (c == 3) -(2^b) else if (c == 4) 2^(b - 1) * 3 else 0
    if (c < 5) wrap(w, base + r % 5 - 2)
    else if (c == 5) genValue(w, r) % 2^(if (b < w) b else w)
    else genValue(w, r)
  }

  // ------------------------------------------------------------ text
  pure def genRadix(e: int): int = if (e % 4 == 0) [2, 4, 8, 10, 16, 32, 36, 3][(e / 4) % 8] else 2 + (e / 4) % 35
  pure val BADCHARS: List[int] = [32, 43, 45, 46, 47, 58, 64, 91, 94, 96, 123, 127, 0, 233, 8364]
  /// A text of the radix: digits in runs of 0, the largest digit or random
  /// ones, in either case, sometimes with separators or a misfit.
  pure def genText(radix: int, e: int): List[int] = {
    val len = if (e % 8 == 0) (e / 8) % 6
      else if (e % 64 == 1) 100 + (e / 64) % 500
      else if (e % 512 == 2) 600 + (e / 512) % 1500
      else 1 + (e / 8) % (if ((e / 4096) % 3 == 0) 140 else 45)
    val style = (e / 2^20) % 6
    // Leading zeros: in style 4 any number, in style 5 up to the last few digits.
    val lead = if (style == 4) (e / 2^36) % (len + 1) else if (style == 5) len - (e / 2^36) % 4 else 0
    val us = (e / 2^22) % 5
    val bad = (e / 2^26) % 8
    val badAt = (e / 2^30) % (if ((e / 2^37) % 2 == 0) 64 else len + 1)
    range(0, len).foldl({ a: stretch(11 * len, e / 2^40), r: [] }, (st, i) => {
      val d = if (i < lead) 0
        else if (style == 0) radix - 1
        else if (style >= 4) st.a % radix
        else if (style == 1) st.a % radix
        else if (style == 2) (if (st.a % 3 == 0) 0 else if (st.a % 3 == 1) radix - 1 else (st.a / 3) % radix)
        else (if (i == 0) 1 else if (i == len - 1) st.a % radix else 0)
      val ch = if ((bad == 0 and i == badAt) or (bad == 2 and i >= badAt and (i == badAt or (st.a / 2^6) % 4 == 0))) BADCHARS[(st.a / 2^7) % 15]
        else if (bad == 1 and i == badAt) digitChar((radix + st.a % 2) % 37, (st.a / 2) % 2 == 0)
        else if (us == 0 and (st.a / 2^7) % 5 == 0) UNDERSCORE
        else digitChar(d, (st.a / 2^6) % 2 == 0)
      { a: st.a / 2^11, r: st.r.append(ch) }
    }).r
  }

  // ------------------------------------------------------------ calls
  pure def mk(op: str, d: int, s: int, k: int, arg: int): Call = { op: op, d: d, s: s, k: k, arg: arg, txt: [] }
  pure def ld(i: int, w: int, v: int): { i: int, w: int, v: int } = { i: i, w: w, v: v }

  pure def pick(l: List[str], e: int): str = l[e % l.length()]

  /// Two fresh operands of one width (one in `mis` of unequal width), then a
  /// binary call.
  action freshBinary(ops: List[str], divMode: int, mis: int): bool = {
    nondet e = ENTS.oneOf()
    nondet ex = ENT.oneOf()
    nondet ey = ENT.oneOf()
    val op = pick(ops, e)
    val w0 = genWidth(e / 2^8)
    // Division overflows digits only where the width fills them, and loops
    // only over long operands.
    val wm = (e / 2^36) % 4
    val w = if (divMode == 0 or wm == 0) w0
      else if (wm == 1) 64 * digitCount(w0)
      else if (w0 < 320) w0 + 192
      else w0
    val p = if (divMode == 1) genDivPairU(w, e / 2^60, ex, ey)
      else if (divMode == 2) genDivPairS(w, e / 2^60, ex, ey)
      else genPair(w, ex, ey)
    val w2 = if ((e / 2^40) % mis == 0) genTarget(w, e / 2^48) else w
    invoke([ld(0, w, p.x), ld(1, w2, p.y % 2^w2)], mk(op, 0, 1, 0, 0))
  }

  /// One fresh operand, then a call taking no further operand.
  action freshUnary(ops: List[str]): bool = {
    nondet e = ENTS.oneOf()
    nondet ex = ENT.oneOf()
    val op = pick(ops, e)
    val w = genWidth(e / 2^8)
    invoke([ld(0, w, genValue(w, ex))], mk(op, 0, 1, 0, 0))
  }

  action freshPos(ops: List[str]): bool = {
    nondet e = ENTS.oneOf()
    nondet ex = ENT.oneOf()
    val op = pick(ops, e)
    val w = genWidth(e / 2^8)
    invoke([ld(0, w, genValue(w, ex))], mk(op, 0, 1, genPos(w, e / 2^40), 0))
  }

  action freshCast(ops: List[str]): bool = {
    nondet e = ENTS.oneOf()
    nondet ex = ENT.oneOf()
    val op = pick(ops, e)
    val w = genWidth(e / 2^8)
    val t0 = genTarget(w, e / 2^40)
    val t = if ((e / 2^120) % 8 == 0) t0
      else if (op == "trunc" and t0 > w) 1 + t0 % w
      else if ((op == "zext" or op == "sext") and t0 < w) w + t0 % 130
      else t0
    invoke([ld(0, w, genValue(w, ex))], mk(op, 0, 1, t, 0))
  }

  action freshPrim: bool = {
    nondet e = ENTS.oneOf()
    nondet ex = ENT.oneOf()
    val c = e % 8
    val op = if (c < 2) "resize_to" else if (c < 4) "try_to" else if (c < 6) "s_try_to" else if (c == 6) "from_prim" else "from_arr"
    val w = genWidth(e / 2^8)
    val k = if (op == "s_try_to") SPRIMS[(e / 2^60) % 5]
      else if (op == "from_arr") ARRS[(e / 2^60) % 9]
      else PRIMS[(e / 2^60) % 11]
    val b = absI(k)
    val arg = if (op == "from_prim") { val v = genValue(b, ex) if (k < 0) toS(b, v) else v }
      else if (op == "from_arr") patValue(64 * k, ex) else 0
    invoke([ld(0, w, genPrimValue(w, k, ex))], mk(op, 0, 1, k, arg))
  }

  action freshConst: bool = {
    nondet e = ENTS.oneOf()
    val op = pick(["zero", "one", "s_one", "all_set", "all_unset", "umin", "umax", "smin", "smax"], e)
    invoke([], mk(op, 0, 1, genWidth(e / 2^8), 0))
  }

  action freshParse: bool = {
    nondet e = ENTS.oneOf()
    nondet ex = ENT.oneOf()
    val radix = genRadix(e)
    invoke([], { op: "parse", d: 0, s: 1, k: radix, arg: 0, txt: genText(radix, ex) })
  }

  action freshFormat: bool = {
    nondet e = ENTS.oneOf()
    nondet ex = ENT.oneOf()
    val op = pick(["fmt_bin", "fmt_lhex", "fmt_uhex", "fmt_lhex", "fmt_uhex", "fmt_lhex", "fmt_uhex", "fmt_oct"], e)
    val w = if (op == "fmt_bin") genWidthS(e / 2^8) else genWidth(e / 2^8)
    invoke([ld(0, w, genValue(w, ex))], mk(op, 0, 1, 0, 0))
  }

  /// Number of wrong shapes the harness knows for serialized input.
  pure val NSHAPE = 16
  action freshSerde: bool = {
    nondet e = ENTS.oneOf()
    nondet ex = ENT.oneOf()
    val w = genWidth(e / 2^8)
    val v = genValue(w, ex)
    val c = e % 8
    if (c == 0 and (e / 8) % 4 == 0)
      invoke([], { op: "de_shape", d: 0, s: 1, k: (e / 32) % NSHAPE, arg: w, txt: digitsOf(w, v) })
    else if (c < 3) invoke([ld(0, w, v)], mk("ser", 0, 1, 0, 0))
    else {
      // Mostly well-formed; otherwise a missing or surplus digit, stray bits
      // beyond the width, or width zero.
      val ds = digitsOf(w, v)
      val txt = if (c == 3) ds.append((e / 2^50) % 2)
        else if (c == 4) ds.slice(0, ds.length() - 1)
        else if (c == 5) ds.replaceAt(ds.length() - 1, (ds[ds.length() - 1] + 2^((e / 2^50) % 64)) % 2^64)
        else ds
      val k = if (c == 6 and (e / 2^60) % 4 == 0) (if ((e / 2^64) % 4 == 0) 0 else if ((e / 2^64) % 2 == 1) genBeyond(w, e / 2^66) else genTarget(w, e / 2^66)) else w
      invoke([], { op: "de", d: 0, s: 1, k: k, arg: 0, txt: txt })
    }
  }

  action freshRandom: bool = {
    nondet e = ENTS.oneOf()
    nondet ex = ENT.oneOf()
    nondet ey = ENT.oneOf()
    val w = genWidth(e / 2^8)
    // The generator always delivers a whole number of 64-bit outputs.
    val stream = patValue(64 * digitCount(w), ey)
    invoke([ld(0, w, genValue(w, ex))],
      mk(if (e % 2 == 0) "random" else "randomize", 0, 1, w, stream))
  }

  action freshTypes: bool = {
    nondet e = ENTS.oneOf()
    if (e % 2 == 0) invoke([], mk("bitwidth", 0, 1,
      if (e % 8 == 0) 0 else if (e % 8 == 2) genBeyond((e / 2^10) % 3, e / 8) else genWidth(e / 8), 0))
    else invoke([], mk("radix", 0, 1, (e / 2) % 256, 0))
  }

  /// Preconditions violated on purpose.
  action freshError: bool = {
    nondet e = ENTS.oneOf()
    nondet ex = ENT.oneOf()
    nondet ey = ENT.oneOf()
    val w = genWidth(e / 2^8)
    val x = genValue(w, ex)
    val g = e % 4
    if (g == 0) {
      val op = pick(["add", "sub", "mul", "and", "or", "xor", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt",
        "sge", "strict_assign", "eq", "ucmp", "scmp", "udiv", "urem", "sdiv", "srem", "udivrem", "uremdiv",
        "sdivrem", "sremdiv"], e / 4)
      val t = genTarget(w, e / 2^60)
      val w2 = if (t == w) w + 1 else t
      invoke([ld(0, w, x), ld(1, w2, genValue(w2, ey))], mk(op, 0, 1, 0, 0))
    } else if (g == 1) {
      val op = pick(["udiv", "urem", "sdiv", "srem", "udivrem", "uremdiv", "sdivrem", "sremdiv"], e / 4)
      invoke([ld(0, w, x), ld(1, w, 0)], mk(op, 0, 1, 0, 0))
    } else if (g == 2) {
      val op = pick(["shl", "lshr", "ashr", "get_bit", "set_bit", "unset_bit", "flip_bit"], e / 4)
      val c = (e / 2^60) % 5
      val k = if (c == 0) w else if (c == 1) w + (e / 2^64) % 200 else if (c == 2) 64 * digitCount(w)
        else if (c == 3 and (e / 2^72) % 3 == 0) 2^64 - 1 - (e / 2^64) % 130
        else if (c == 3) { val b = genBeyond((e / 2^80) % w, e / 2^74) if (b < w) w else b }
        else w + (e / 2^64) % 3
      invoke([ld(0, w, x)], mk(op, 0, 1, k, 0))
    } else {
      val op = pick(["trunc", "zext", "sext", "try_to", "s_try_to"], e / 4)
      val t = genTarget(w, e / 2^60)
      val k = if (op == "trunc" and (e / 2^100) % 4 == 0) 2^17 + genBeyond(t, e / 2^102) % (2^64 - 2^17)
        else if (op == "trunc") w + 1 + t % 200
        else if (op == "try_to") PRIMS[(e / 2^80) % 11]
        else if (op == "s_try_to") SPRIMS[(e / 2^80) % 5]
        else if (w == 1) 1 else 1 + t % (w - 1)
      invoke([ld(0, w, x)], mk(op, 0, 1, k, 0))
    }
  }

  // ------------------------------------------------------------ histories
  /// Calls on registers that keep what earlier calls left in them.  Fresh
  /// contents arrive now and then; a binary call usually gets the width of its
  /// second operand adjusted so that it does something.
  pure val HISTOPS: List[str] = ["add", "sub", "mul", "and", "or", "xor", "udiv", "urem", "sdiv", "srem", "udivrem",
    "uremdiv", "sdivrem", "sremdiv", "neg", "inc", "dec", "abs", "not", "set_all", "unset_all", "flip_all",
    "set_msb", "unset_msb", "flip_msb", "set_bit", "unset_bit", "flip_bit", "shl", "lshr", "ashr", "trunc", "zext",
    "sext", "zresize", "sresize", "assign", "strict_assign", "clone", "neg", "not", "inc", "dec", "shl", "ashr",
    "sext", "trunc", "sresize"]
  pure def isBinary(op: str): bool = RING2.contains(op) or BIT2.contains(op) or DIV2.contains(op) or op == "strict_assign"
  action histCall(ops: List[str]): bool = {
    nondet e = ENTS.oneOf()
    nondet ex = ENT.oneOf()
    nondet ey = ENT.oneOf()
    val op = pick(ops, e)
    val d = (e / 64) % 3
    val s = (d + 1 + (e / 256) % 2) % 3
    val reloadD = (e / 512) % 7 == 0
    val big = regs[d].w > 1500 and (e / 2^18) % 4 != 0
    val w = if (reloadD or big) genWidth(e / 2^20) else regs[d].w
    val reloadS = isBinary(op) and (regs[s].w != w) and ((e / 4096) % 8 != 0)
    val l1 = if (reloadD or big) [ld(d, w, genValue(w, ex))] else []
    val l2 = if (reloadS) l1.append(ld(s, w, genValue(w, ey))) else l1
    val k = if (SHIFT.contains(op) or BITPOS.contains(op)) genPos(w, e / 2^60)
      else if (op == "trunc") { val t = genTarget(w, e / 2^60) if (t > w) 1 + t % w else t }
      else if (op == "zext" or op == "sext") { val t = genTarget(w, e / 2^60) if (t < w) w + t % 70 else t }
      else if (CAST.contains(op)) genTarget(w, e / 2^60)
      else 0
    invoke(l2, mk(op, d, s, k, 0))
  }

  // ------------------------------------------------------------ corner sweeps
  pure val SWEEPW: List[int] = [1, 2, 3, 8, 32, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256, 320]
  pure def corner(w: int, i: int): int =
    wrap(w, [0, 1, 2, 3, -1, -2, -3, 2^(w - 1), 2^(w - 1) - 1, 2^(w - 1) + 1, 2^32, 2^32 - 1, 2^63, 2^63 - 1, 2^64 - 1,
      2^64, 2^64 + 1, 2^127, 2^128 - 1, 2^128, -(2^64), -(2^63), (2^64 - 1) * 2^64, 2^191 + 2^63,
      2^192 - 2^128 + 2^64 - 1, 10, 255, 2^w / 3][i])
  pure val NCORNER = 28

  action sweepBinary(ops: List[str], m: int, stride: int): bool = {
    val no = ops.length()
    val op = ops[m % no]
    val a = m / no
    val w = SWEEPW[(a / (NCORNER * NCORNER)) % 16]
    all {
      n' = n + stride,
      invoke([ld(0, w, corner(w, a % NCORNER)), ld(1, w, corner(w, (a / NCORNER) % NCORNER))], mk(op, 0, 1, 0, 0)),
    }
  }

  /// The extreme values of each width in all combinations: for every binary
  /// call all pairs, for every unary call and every call with a position all
  /// values, at the ends of every digit.
  pure val XW: List[int] = [1, 2, 8, 63, 64, 65, 128, 130, 192, 257]
  pure def extreme(w: int, i: int): int =
    wrap(w, [0, 1, 2, -1, -2, 2^(w - 1), 2^(w - 1) + 1, 2^(w - 1) - 1, 2^w / 3, 2^64 - 1][i])
  pure val XK: List[int] = [0, 1, 2, 31, 63, 64, 65, 127, 128, 192]
  pure def xK(w: int, i: int): int = if (i < 10) XK[i] % w else [w - 1, w, w + 1][i - 10]
  pure def extremeTotal(bin: List[str], un: List[str], pos: List[str]): int =
    1000 * bin.length() + 100 * un.length() + 1300 * pos.length()
  action sweepExtreme(bin: List[str], un: List[str], pos: List[str], stride: int): bool = {
    val b = 1000 * bin.length()
    val u = 100 * un.length()
    val m = n % extremeTotal(bin, un, pos)
    all {
      n' = n + stride,
      if (m < b) {
        val w = XW[(m / 100) % 10]
        invoke([ld(0, w, extreme(w, m % 10)), ld(1, w, extreme(w, (m / 10) % 10))], mk(bin[m / 1000], 0, 1, 0, 0))
      } else if (m < b + u) {
        val w = XW[(m / 10) % 10]
        invoke([ld(0, w, extreme(w, m % 10))], mk(un[(m - b) / 100], 0, 1, 0, 0))
      } else {
        val p = m - b - u
        val w = XW[(p / 10) % 10]
        invoke([ld(0, w, extreme(w, p % 10))], mk(pos[p / 1300], 0, 1, xK(w, (p / 100) % 13), 0))
      },
    }
  }

  /// Every width from 1 to 300 with a corner value.
  action sweepUnary(ops: List[str], m: int, stride: int): bool = {
    val no = ops.length()
    val op = ops[m % no]
    val a = m / no
    val w = 1 + (a / NCORNER) % 300
    all {
      n' = n + stride,
      invoke([ld(0, w, corner(w, a % NCORNER))], mk(op, 0, 1, 0, 0)),
    }
  }

  /// Every position/amount 0..w for widths around digit boundaries.
  pure val POSW: List[int] = [1, 2, 5, 64, 65, 128, 130, 192, 200]
  pure val POSV: List[int] = [4, 7, 8, 14, 23, 24, 27]
  action sweepPos(ops: List[str], m: int, stride: int): bool = {
    val no = ops.length()
    val op = ops[m % no]
    val a = m / no
    val v = POSV[a % 7]
    val w = POSW[(a / 7) % 9]
    val k = (a / 63) % (w + 1)
    all {
      n' = n + stride,
      invoke([ld(0, w, corner(w, v))], mk(op, 0, 1, k, 0)),
    }
  }

  /// Source and target widths 1..260 in coprime strides, so that every
  /// relation of the two to the digit boundaries occurs early.
  action sweepCast(ops: List[str], m: int, stride: int): bool = {
    val no = ops.length()
    val op = ops[m % no]
    val a = m / no
    val w = 1 + (a * 37) % 261
    val t0 = 1 + (a * 101 + a / 261) % 263
    val t = if (op == "trunc" and t0 > w) 1 + t0 % w else if ((op == "zext" or op == "sext") and t0 < w) w + t0 else t0
    all {
      n' = n + stride,
      invoke([ld(0, w, corner(w, [4, 7, 8, 22, 27][a % 5]))], mk(op, 0, 1, t, 0)),
    }
  }

  /// Every kind of violated precondition at corner widths and values.
  pure val ERROPS2: List[str] = ["add", "sub", "mul", "and", "or", "xor", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt",
    "sge", "strict_assign", "eq", "ucmp", "scmp", "udiv", "urem", "sdiv", "srem", "udivrem", "uremdiv", "sdivrem", "sremdiv"]
  pure val ERROPS0: List[str] = ["udiv", "urem", "sdiv", "srem", "udivrem", "uremdiv", "sdivrem", "sremdiv"]
  pure val ERROPSK: List[str] = ["shl", "lshr", "ashr", "get_bit", "set_bit", "unset_bit", "flip_bit", "trunc", "zext", "sext"]
  action sweepError(stride: int): bool = {
    // a counts the sweep in a mixed order: kinds first, then widths, then values
    val a = n
    val w = SWEEPW[(a / 31) % 16]
    val v = corner(w, (a / 7) % NCORNER)
    all {
      n' = n + stride,
      if (a % 3 == 0) {
        val w2 = SWEEPW[(a / 5 + (a / 31)) % 16]
        val w3 = if (w2 == w) w + 1 + (a / 11) % 64 else w2
        invoke([ld(0, w, v), ld(1, w3, corner(w3, (a / 13) % NCORNER))], mk(ERROPS2[(a / 3) % 26], 0, 1, 0, 0))
      } else if (a % 3 == 1)
        invoke([ld(0, w, v), ld(1, w, 0)], mk(ERROPS0[(a / 3) % 8], 0, 1, 0, 0))
      else {
        val op = ERROPSK[(a / 3) % 10]
        val k = if (op == "zext" or op == "sext") (if (w == 1) 1 else 1 + (a / 30) % (w - 1))
          else if (op == "trunc") w + 1 + (a / 30) % 130
          else w + [0, 1, 63, 64, 65, 127, 128, 1000, 2^8, 2^16 - w, 2^32 - w, 2^32 - 1, 2^63 - w, 2^64 - 1 - w, 2^64 - 2 * w][(a / 30) % 15]
        invoke([ld(0, w, v)], mk(op, 0, 1, k, 0))
      },
    }
  }

  /// Conversions to and from every primitive type at the limits of each.
  action sweepPrim(stride: int): bool = {
    val m = n % 4
    val k = PRIMS[(n / 4) % 11]
    val b = absI(k)
    val a = n / 44
    val w = 1 + (a * 7) % 300
    val lim = absI(PRIMS[1 + (a / 3) % 5])
    val base = [0, 2^lim, 2^(lim - 1), -(2^(lim - 1)), -(2^lim), 2^b, 2^(b - 1), -(2^(b - 1))][(a / 15) % 8]
    val v = wrap(w, base + a % 5 - 2)
    all {
      n' = n + stride,
      if (m == 0) invoke([ld(0, w, v)], mk("resize_to", 0, 1, k, 0))
      else if (m == 1) invoke([ld(0, w, v)], mk("try_to", 0, 1, k, 0))
      else if (m == 2) invoke([ld(0, w, v)], mk("s_try_to", 0, 1, if (k > 0) SPRIMS[k % 5] else k, 0))
      else {
        val x = wrap(b, base + a % 5 - 2)
        invoke([], mk("from_prim", 0, 1, k, if (k < 0) toS(b, x) else x))
      },
    }
  }

  /// The digits of x in a radix, most significant first (x > 0).
  pure def radixText(radix: int, x: int, upper: bool): List[int] =
    range(0, 1 + bitLen(x)).foldl({ a: x, r: [] }, (st, i) =>
      if (st.a == 0) st
      else { a: st.a / radix, r: [digitChar(st.a % radix, upper)].concat(st.r) }).r
  /// In every radix: values around powers of two near the digit boundaries
  /// and around powers of the radix; every single character.
  action sweepParse(stride: int): bool = {
    val radix = 2 + n % 35
    val a = n / 35
    val txt =
      if (a % 3 == 0) radixText(radix, 2^([1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256][(a / 9) % 14]) - 1 + (a / 3) % 3, (a / 2) % 2 == 0)
      else if (a % 3 == 1) radixText(radix, radix^(1 + (a / 9) % 41) - 1 + (a / 3) % 3, false)
      else [(a / 3) % 128]
    all {
      n' = n + stride,
      invoke([], { op: "parse", d: 0, s: 1, k: radix, arg: 0, txt: txt }),
    }
  }

  /// Serialize corner values; deserialize with every small surplus or lack of
  /// digits; every wrong shape.
  action sweepSerde(stride: int): bool = {
    val a = n / 4
    val w = 1 + (a * 7) % 300
    val v = corner(w, (a / 3) % NCORNER)
    val ds = digitsOf(w, v)
    all {
      n' = n + stride,
      if (n % 4 == 0) invoke([ld(0, w, v)], mk("ser", 0, 1, 0, 0))
      else if (n % 4 == 1) invoke([], { op: "de", d: 0, s: 1, k: w, arg: 0, txt: ds })
      else if (n % 4 == 2)
        invoke([], { op: "de", d: 0, s: 1, k: if (a % 9 == 0) 0 else if (a % 9 == 4) genBeyond(w, a / 9) else w, arg: 0,
          txt: if (a % 9 == 4) ds else if (a % 4 == 0) ds.append(0) else if (a % 4 == 1) ds.slice(0, ds.length() - 1)
            else if (a % 4 == 2) ds.concat([0, 0]) else ds.replaceAt(ds.length() - 1, 2^64 - 1) })
      else invoke([], { op: "de_shape", d: 0, s: 1, k: a % NSHAPE, arg: w, txt: ds }),
    }
  }

  pure val CONSTOPS: List[str] = ["zero", "one", "s_one", "all_set", "all_unset", "umin", "umax", "smin", "smax"]
  /// Every constant at every width.
  action sweepConst(stride: int): bool = all {
    n' = n + stride,
    if (n % 10 == 9) {
      if ((n / 10) % 2 == 0) invoke([], mk("radix", 0, 1, (n / 20) % 256, 0))
      else invoke([], mk("bitwidth", 0, 1, if ((n / 20) % 7 == 6) genBeyond((n / 140) % 3 - 1, n / 420) else (n / 20) % 300, 0))
    } else invoke([], mk(CONSTOPS[n % 10], 0, 1, 1 + (n / 10) % 520, 0)),
  }

  action sweepRandom(stride: int): bool = {
    val a = n / 2
    val w = 1 + a % 330
    val stream = corner(64 * digitCount(w), (a / 3) % NCORNER)
    all {
      n' = n + stride,
      invoke([ld(0, w, corner(w, (a / 5) % NCORNER))],
        mk(if (n % 2 == 0) "random" else "randomize", 0, 1, w, stream)),
    }
  }

  /// Copies and assignments between all pairs of inline and heap storage of
  /// various lengths.
  action sweepMove(stride: int): bool = {
    val a = n / 3
    val w = SWEEPW[a % 16]
    val w2 = SWEEPW[(a / 16) % 16]
    all {
      n' = n + stride,
      invoke([ld(0, w, corner(w, (a / 7) % NCORNER)), ld(1, w2, corner(w2, (a / 5) % NCORNER))],
        mk(["assign", "strict_assign", "clone"][n % 3], 0, 1, 0, 0)),
    }
  }

  // ------------------------------------------------------------ huge words
  // A few steps of every kind at widths where counts of bits leave 16 bits and
  // counts of digits leave 8 and 10: lengths kept in too narrow a type show.
  pure val HW: List[int] = [65536, 65537, 65601, 66047, 70001, 98304]
  pure def hw(i: int): int = HW[i % 6]
  pure val DENSE3 = 3^45000
  pure val DENSE5 = 5^20000
  pure def hv(w: int, i: int): int =
    wrap(w, [DENSE3, -1, 0, DENSE5, 2^(w - 1), 2^w / 3, 2^65536, -DENSE5, 1, 2^65535 - 1, DENSE3 * 2^(w / 2), 2^(w - 1) - 1,
      2^65536 - 1, 2^(w - 1) + DENSE5][i % 14])
  pure val HK: List[int] = [65535, 65536, 65537, 256 * 64, 0, 1, 1024 * 64 - 1, 40000, 130000, 2^16 + 2^32]
  pure def hk(w: int, i: int): int = if (i % 13 < 10) HK[i % 13] else [w - 1, w - 64, w][i % 13 - 10]
  /// Step m of a list of calls: binary, unary, with a position, with a target width.
  action hugeCall(bin: List[str], un: List[str], pos: List[str], cast: List[str]): bool = {
    val nb = bin.length()
    val nu = un.length()
    val np = pos.length()
    val m = n % (nb + nu + np + cast.length())
    val a = n / (nb + nu + np + cast.length()) + n
    val w = hw(a)
    all {
      n' = n + 1,
      if (m < nb) invoke([ld(0, w, hv(w, a)), ld(1, w, hv(w, a * 5 + 3))], mk(bin[m], 0, 1, 0, 0))
      else if (m < nb + nu) invoke([ld(0, w, hv(w, a))], mk(un[m - nb], 0, 1, 0, 0))
      else if (m < nb + nu + np) invoke([ld(0, w, hv(w, a * 3))], mk(pos[m - nb - nu], 0, 1, hk(w, a), 0))
      else {
        val op = cast[m - nb - nu - np]
        val w0 = if (op == "trunc" or a % 3 == 0) w else [64, 200, 16384, 65535][a % 4]
        val t = if (op == "trunc") [65535, 65536, 1, 64, 40000, 65472, 66000][a % 7]
          else if (op == "zext" or op == "sext" or a % 2 == 0) hw(a / 2) else [300, 65472, 64][a % 3]
        invoke([ld(0, w0, hv(w0, a))], mk(op, 0, 1, t, 0))
      },
    }
  }
  action hugeConst: bool = all { n' = n + 1, invoke([], mk(CONSTOPS[n % 9], 0, 1, hw(n / 2 + n), 0)) }
  action hugePrim: bool = {
    val w = hw(n + n / 5)
    val k = PRIMS[(n / 3) % 11]
    all {
      n' = n + 1,
      invoke([ld(0, w, if (n % 2 == 0) hv(w, n / 2) else wrap(w, 2^64 - 1 - n + (if (n % 4 == 1) 2^65536 else 0)))],
        mk(["resize_to", "try_to", "s_try_to"][n % 3], 0, 1, if (n % 3 == 2 and k > 0) SPRIMS[k % 5] else k, 0)),
    }
  }
  action hugeRandom: bool = {
    val w = hw(n)
    all {
      n' = n + 1,
      invoke([ld(0, w, hv(w, n))], mk(if (n % 2 == 0) "random" else "randomize", 0, 1, w, hv(64 * digitCount(w), n / 2))),
    }
  }
  action hugeSerde: bool = {
    val w = hw(n)
    val ds = digitsOf(w, hv(w, n))
    all {
      n' = n + 1,
      if (n % 3 == 0) invoke([ld(0, w, hv(w, n))], mk("ser", 0, 1, 0, 0))
      else invoke([], { op: "de", d: 0, s: 1, k: if (n % 6 == 4) w - 65536 + 1 else w, arg: 0, txt: if (n % 6 == 5) ds.append(0) else ds }),
    }
  }
  /// Long texts: m characters of one kind between two others.
  action hugeParse: bool = {
    val radix = [16, 10, 2, 32, 7, 36, 8, 3][n % 8]
    val len = [16401, 20000, 65600, 13200, 23500, 13000, 22001, 41500][n % 8]
    val txt = range(0, len).foldl([], (l, i) => l.append(
      if (n % 3 == 2 and i == len - 2) 35
      else digitChar(if (n % 3 == 0) (i * i + n) % radix else if (i == 0 or i == len - 1) 1 else radix - 1, i % 2 == 0)))
    all { n' = n + 1, invoke([], { op: "parse", d: 0, s: 1, k: radix, arg: 0, txt: txt }) }
  }

  action init0 = all { init, n' = 0 }
}
