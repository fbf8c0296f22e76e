// -*- mode: Bluespec; -*-
/// Mathematical semantics of w-bit two's complement words.
///
/// A word is an integer v with 0 <= v < 2^w (its unsigned reading).  Nothing in
/// this module knows about digits, storage or algorithms: it is the oracle that
/// the machine (apint.qnt), the digit-level design model (digits.qnt) and the
/// real crate (through ../harness) are all compared with.
module words {
  // ------------------------------------------------------------ readings
  /// Euclidean remainder: result in [0, m) also for negative x.
  pure def emod(x: int, m: int): int = {
    val r = x % m
    if (r < 0) r + m else r
  }
  pure def wrap(w: int, x: int): int = emod(x, 2^w)
  pure def isWord(w: int, v: int): bool = w >= 1 and 0 <= v and v < 2^w
  /// The signed reading of a word.
  pure def toS(w: int, v: int): int = if (v >= 2^(w - 1)) v - 2^w else v
  pure def absI(x: int): int = if (x < 0) -x else x
  pure def sgn(x: int): int = if (x < 0) -1 else if (x == 0) 0 else 1
  pure def b2i(b: bool): int = if (b) 1 else 0

  // ------------------------------------------------------------ constants
  pure def umax(w: int): int = 2^w - 1
  pure def smin(w: int): int = 2^(w - 1)
  pure def smax(w: int): int = 2^(w - 1) - 1

  // ------------------------------------------------------------ ring
  pure def wAdd(w: int, x: int, y: int): int = wrap(w, x + y)
  pure def wSub(w: int, x: int, y: int): int = wrap(w, x - y)
  pure def wMul(w: int, x: int, y: int): int = wrap(w, x * y)
  pure def wNeg(w: int, x: int): int = wrap(w, -x)
  pure def wInc(w: int, x: int): int = wrap(w, x + 1)
  pure def wDec(w: int, x: int): int = wrap(w, x - 1)
  pure def wAbs(w: int, x: int): int = wrap(w, absI(toS(w, x)))

  // ------------------------------------------------------------ division (y /= 0)
  pure def uDiv(w: int, x: int, y: int): int = x / y
  pure def uRem(w: int, x: int, y: int): int = x % y
  /// Truncating signed division; smin / -1 wraps to smin.
  pure def sDiv(w: int, x: int, y: int): int = {
    val a = toS(w, x)
    val b = toS(w, y)
    wrap(w, sgn(a) * sgn(b) * (absI(a) / absI(b)))
  }
  /// Remainder with the sign of the dividend.
  pure def sRem(w: int, x: int, y: int): int = {
    val a = toS(w, x)
    val b = toS(w, y)
    wrap(w, sgn(a) * (absI(a) % absI(b)))
  }

  // ------------------------------------------------------------ shifts (0 <= k < w)
  pure def shl(w: int, x: int, k: int): int = wrap(w, x * 2^k)
  pure def lshr(w: int, x: int, k: int): int = x / 2^k
  /// Arithmetic shift: floor division of the signed reading, i.e. the vacated
  /// upper bits are filled with copies of the sign bit.
  pure def ashr(w: int, x: int, k: int): int =
    if (x >= 2^(w - 1)) x / 2^k + (2^w - 2^(w - k)) else x / 2^k

  // ------------------------------------------------------------ bits
  pure def bitAt(x: int, i: int): int = (x / 2^i) % 2
  pure def setBit(x: int, i: int): int = if (bitAt(x, i) == 1) x else x + 2^i
  pure def clrBit(x: int, i: int): int = if (bitAt(x, i) == 1) x - 2^i else x
  pure def flipBit(x: int, i: int): int = if (bitAt(x, i) == 1) x - 2^i else x + 2^i
  pure def wNot(w: int, x: int): int = 2^w - 1 - x

  /// Conjunction of two 4-bit chunks, by definition bit by bit.
  pure def and4(a: int, b: int): int =
    (a % 2) * (b % 2) + 2 * (((a / 2) % 2) * ((b / 2) % 2))
      + 4 * (((a / 4) % 2) * ((b / 4) % 2)) + 8 * (((a / 8) % 2) * ((b / 8) % 2))
  /// and4 tabulated, so that wide conjunctions stay cheap to evaluate.
  pure val AND4: List[int] = range(0, 256).foldl([], (acc, i) => acc.append(and4(i / 16, i % 16)))
  pure def wAnd(w: int, x: int, y: int): int =
    range(0, (w + 3) / 4).foldl({ a: x, b: y, p: 1, r: 0 }, (st, i) =>
      { a: st.a / 16, b: st.b / 16, p: st.p * 16,
        r: st.r + AND4[(st.a % 16) * 16 + st.b % 16] * st.p }).r
  /// Or and exclusive or by the carry-free identities x + y = (x|y) + (x&y)
  /// and x|y = (x^y) + (x&y); laws.qnt checks them against the bitwise reading.
  pure def wOr(w: int, x: int, y: int): int = x + y - wAnd(w, x, y)
  pure def wXor(w: int, x: int, y: int): int = x + y - 2 * wAnd(w, x, y)

  /// Number of one bits, from a table of 4-bit chunks.
  pure val ONES4: List[int] = range(0, 16).foldl([], (acc, i) => acc.append(i % 2 + (i / 2) % 2 + (i / 4) % 2 + i / 8))
  pure def countOnes(w: int, x: int): int =
    range(0, (w + 3) / 4).foldl({ a: x, r: 0 }, (st, i) => { a: st.a / 16, r: st.r + ONES4[st.a % 16] }).r
  pure val HALVES: List[int] = [65536, 32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1]
  /// Number of binary digits of x (0 for 0), by bisection; x < 2^131071.
  pure def bitLen(x: int): int =
    if (x == 0) 0
    else 1 + HALVES.foldl({ a: x, r: 0 }, (st, h) =>
      if (st.a >= 2^h) { a: st.a / 2^h, r: st.r + h } else st).r
  pure def leadingZeros(w: int, x: int): int = w - bitLen(x)
  pure def trailingZeros(w: int, x: int): int =
    if (x == 0) w
    else HALVES.foldl({ a: x, r: 0 }, (st, h) =>
      if (st.a % 2^h == 0) { a: st.a / 2^h, r: st.r + h } else st).r

  // ------------------------------------------------------------ widths
  pure def truncTo(x: int, t: int): int = x % 2^t
  pure def zextTo(x: int): int = x
  pure def sextTo(w: int, x: int, t: int): int = wrap(t, toS(w, x))
  pure def zresizeTo(w: int, x: int, t: int): int = if (t <= w) truncTo(x, t) else x
  pure def sresizeTo(w: int, x: int, t: int): int = if (t <= w) truncTo(x, t) else sextTo(w, x, t)

  // ------------------------------------------------------------ order
  pure def ult(x: int, y: int): bool = x < y
  pure def slt(w: int, x: int, y: int): bool = toS(w, x) < toS(w, y)
  /// -1, 0, 1 for less, equal, greater.
  pure def ucmp(x: int, y: int): int = sgn(x - y)
  pure def scmp(w: int, x: int, y: int): int = sgn(toS(w, x) - toS(w, y))

  // ------------------------------------------------------------ text
  // Text is a list of character codes.
  pure val UNDERSCORE = 95
  /// Digit value of a character code, or 99 when it is no digit in any radix.
  pure def digitValue(c: int): int =
    if (48 <= c and c <= 57) c - 48
    else if (97 <= c and c <= 122) c - 87
    else if (65 <= c and c <= 90) c - 55
    else 99
  pure def digitChar(d: int, upper: bool): int =
    if (d < 10) 48 + d else if (upper) 55 + d else 87 + d
  pure def parseable(radix: int, t: List[int]): bool =
    t.length() > 0 and t[0] != UNDERSCORE and t[t.length() - 1] != UNDERSCORE
      and t.foldl(true, (ok, c) => ok and (c == UNDERSCORE or digitValue(c) < radix))
  /// Position of the first character that is neither a digit of the radix nor
  /// an underscore; the length of the text when there is none.
  pure def firstBad(radix: int, t: List[int]): int =
    t.foldl({ i: 0, stop: false }, (st, c) =>
      if (st.stop or not(c == UNDERSCORE or digitValue(c) < radix)) { i: st.i, stop: true }
      else { i: st.i + 1, stop: false }).i
  pure def parseValue(radix: int, t: List[int]): int =
    t.foldl(0, (acc, c) => if (c == UNDERSCORE) acc else acc * radix + digitValue(c))
  /// Shortest digits of x in the radix 2^bits, most significant first.
  pure def formatPow2(w: int, x: int, bits: int, upper: bool): List[int] =
    if (x == 0) [48]
    else {
      val len = (bitLen(x) + bits - 1) / bits
      range(0, len).foldl([], (r, i) => r.append(digitChar((x / 2^(bits * (len - 1 - i))) % 2^bits, upper)))
    }

  // ------------------------------------------------------------ 64-bit digits
  pure def digitCount(w: int): int = (w + 63) / 64
  /// The 64-bit digits of a word, least significant first.
  pure def digitsOf(w: int, x: int): List[int] =
    range(0, digitCount(w)).foldl({ a: x, r: [] }, (st, i) =>
      { a: st.a / 2^64, r: st.r.append(st.a % 2^64) }).r
  pure def valueOfDigits(ds: List[int]): int =
    ds.foldl({ p: 1, r: 0 }, (st, d) => { p: st.p * 2^64, r: st.r + st.p * d }).r
}
