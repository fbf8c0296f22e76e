// -*- mode: Bluespec; -*-
/// Design model: words as sequences of digits of B bits, and the operations as
/// digit algorithms (carry chains, schoolbook products, two-phase shifts, sign
/// filling, long division by estimated partial quotients).
///
/// The crate has B = 64.  Nothing in the algorithms depends on that, so they
/// are checked exhaustively for small B and several digits, where every carry
/// pattern, estimate error and partial top digit occurs: each one refines the
/// operation of words.qnt through `alpha` and keeps the representation
/// invariant `canon` (no bits beyond the width), on which all others rely.
/// The same functions with B = 64 classify the behaviours replayed into the
/// crate (`branch`), so that the generators can be seen to reach every branch
/// of the division.
///
/// Run with `quint test digits.qnt --main=digits --match=C02` and so on.
module digits {
  import words.* from "./words"

  type Num = { w: int, ds: List[int] }

  // ------------------------------------------------------------ representation
  pure def len(b: int, w: int): int = (w + b - 1) / b
  pure def minI(x: int, y: int): int = if (x < y) x else y
  /// The digits of a word.
  pure def rep(b: int, w: int, v: int): Num =
    { w: w, ds: range(0, len(b, w)).foldl({ a: v, r: [] }, (st, i) =>
      { a: st.a / 2^b, r: st.r.append(st.a % 2^b) }).r }
  pure def val_(b: int, ds: List[int]): int =
    ds.foldl({ p: 1, r: 0 }, (st, d) => { p: st.p * 2^b, r: st.r + st.p * d }).r
  /// The word a sequence of digits stands for.
  pure def alpha(b: int, x: Num): int = val_(b, x.ds)
  /// Bits of the top digit that belong to the word.
  pure def topBits(b: int, w: int): int = if (w % b == 0) b else w % b
  pure def canon(b: int, x: Num): bool = and {
    x.ds.length() == len(b, x.w),
    x.ds.foldl(true, (ok, d) => ok and 0 <= d and d < 2^b),
    x.ds[x.ds.length() - 1] < 2^topBits(b, x.w),
  }
  pure def clear(b: int, x: Num): Num = {
    val t = x.ds.length() - 1
    { w: x.w, ds: x.ds.replaceAt(t, x.ds[t] % 2^topBits(b, x.w)) }
  }
  pure def zeros(n: int): List[int] = range(0, n).foldl([], (l, i) => l.append(0))
  pure def mapDigits(ds: List[int], f: (int) => int): List[int] = ds.foldl([], (l, d) => l.append(f(d)))

  // ------------------------------------------------------------ ring
  /// Sum of two digit sequences and a carry, the final carry lost.
  pure def addChain(b: int, xs: List[int], ys: List[int], c0: int): List[int] =
    range(0, xs.length()).foldl({ c: c0, r: [] }, (st, i) => {
      val s = xs[i] + ys[i] + st.c
      { c: s / 2^b, r: st.r.append(s % 2^b) }
    }).r
  pure def notDigits(b: int, ds: List[int]): List[int] = mapDigits(ds, d => 2^b - 1 - d)
  pure def dAdd(b: int, x: Num, y: Num): Num = clear(b, { w: x.w, ds: addChain(b, x.ds, y.ds, 0) })
  pure def dSub(b: int, x: Num, y: Num): Num = clear(b, { w: x.w, ds: addChain(b, x.ds, notDigits(b, y.ds), 1) })
  pure def dNot(b: int, x: Num): Num = clear(b, { w: x.w, ds: notDigits(b, x.ds) })
  /// Increment: stop at the first digit that does not overflow.
  pure def incDigits(b: int, ds: List[int]): List[int] =
    ds.foldl({ go: true, r: [] }, (st, d) =>
      if (not(st.go)) { go: false, r: st.r.append(d) }
      else { go: d == 2^b - 1, r: st.r.append((d + 1) % 2^b) }).r
  pure def decDigits(b: int, ds: List[int]): List[int] =
    ds.foldl({ go: true, r: [] }, (st, d) =>
      if (not(st.go)) { go: false, r: st.r.append(d) }
      else { go: d == 0, r: st.r.append((d + 2^b - 1) % 2^b) }).r
  pure def dInc(b: int, x: Num): Num = clear(b, { w: x.w, ds: incDigits(b, x.ds) })
  pure def dDec(b: int, x: Num): Num = clear(b, { w: x.w, ds: decDigits(b, x.ds) })
  pure def dNeg(b: int, x: Num): Num = clear(b, { w: x.w, ds: incDigits(b, notDigits(b, x.ds)) })
  /// Schoolbook product, row by row, columns beyond the length left out.
  pure def dMul(b: int, x: Num, y: Num): Num = {
    val n = x.ds.length()
    val rows = range(0, n).foldl(zeros(n), (sum, i) =>
      range(0, n - i).foldl({ mc: 0, ac: 0, r: sum }, (st, j) => {
        val p = x.ds[i] * y.ds[j] + st.mc
        val s = st.r[i + j] + p % 2^b + st.ac
        { mc: p / 2^b, ac: s / 2^b, r: st.r.replaceAt(i + j, s % 2^b) }
      }).r)
    clear(b, { w: x.w, ds: rows })
  }
  /// One digit times a sequence, plus a digit: the step of parsing in a radix
  /// that is no power of two.  Grows by a digit when the carry is not zero.
  pure def mulAddDigit(b: int, ds: List[int], m: int, a: int): List[int] = {
    val st = ds.foldl({ c: a, r: [] }, (s, d) => {
      val p = d * m + s.c
      { c: p / 2^b, r: s.r.append(p % 2^b) }
    })
    if (st.c == 0) st.r else st.r.append(st.c)
  }

  // ------------------------------------------------------------ shifts
  pure def digitAt(ds: List[int], i: int): int = if (0 <= i and i < ds.length()) ds[i] else 0
  /// Whole digits first, then the bits across neighbouring digits.
  pure def dShl(b: int, x: Num, k: int): Num = {
    val n = x.ds.length()
    val moved = range(0, n).foldl([], (l, i) => l.append(digitAt(x.ds, i - k / b)))
    val r = k % b
    val bits = range(0, n).foldl({ c: 0, l: [] }, (st, i) => {
      val d = moved[i] * 2^r
      { c: d / 2^b, l: st.l.append(d % 2^b + st.c) }
    }).l
    clear(b, { w: x.w, ds: bits })
  }
  pure def dLshr(b: int, x: Num, k: int): Num = {
    val n = x.ds.length()
    val moved = range(0, n).foldl([], (l, i) => l.append(digitAt(x.ds, i + k / b)))
    val r = k % b
    val bits = range(0, n).foldl({ c: 0, l: [] }, (st, i) => {
      val d = moved[n - 1 - i]
      { c: (d % 2^r) * 2^(b - r), l: [d / 2^r + st.c].concat(st.l) }
    }).l
    { w: x.w, ds: bits }
  }
  /// Sets all bits from position p up to the width.
  pure def fillFrom(b: int, x: Num, p: int): Num =
    clear(b, { w: x.w, ds: range(0, x.ds.length()).foldl([], (l, i) => l.append(
      if (b * i >= p) 2^b - 1
      else if (b * (i + 1) > p) x.ds[i] % 2^(p - b * i) + 2^b - 2^(p - b * i)
      else x.ds[i])) })
  pure def dMsb(b: int, x: Num): int = (x.ds[x.ds.length() - 1] / 2^(topBits(b, x.w) - 1)) % 2
  pure def dAshr(b: int, x: Num, k: int): Num =
    if (dMsb(b, x) == 1) fillFrom(b, dLshr(b, x, k), x.w - k) else dLshr(b, x, k)

  // ------------------------------------------------------------ widths
  pure def dTrunc(b: int, x: Num, t: int): Num = clear(b, { w: t, ds: x.ds.slice(0, len(b, t)) })
  pure def dZext(b: int, x: Num, t: int): Num = { w: t, ds: x.ds.concat(zeros(len(b, t) - x.ds.length())) }
  pure def dSext(b: int, x: Num, t: int): Num =
    if (dMsb(b, x) == 1) fillFrom(b, dZext(b, x, t), x.w) else dZext(b, x, t)

  // ------------------------------------------------------------ queries
  /// From the most significant digit down, the first difference decides.
  pure def dUlt(x: Num, y: Num): bool =
    range(0, x.ds.length()).foldl(0, (r, i) => {
      val j = x.ds.length() - 1 - i
      if (r != 0) r else sgn(x.ds[j] - y.ds[j])
    }) < 0
  pure def dSlt(b: int, x: Num, y: Num): bool =
    if (dMsb(b, x) == dMsb(b, y)) dUlt(x, y) else dMsb(b, x) == 1
  pure def dLeadingZeros(b: int, x: Num): int = {
    val n = x.ds.length()
    val st = range(0, n).foldl({ go: true, r: 0 }, (s, i) => {
      val d = x.ds[n - 1 - i]
      if (not(s.go)) s else if (d == 0) { go: true, r: s.r + b } else { go: false, r: s.r + b - bitLen(d) }
    })
    st.r - (b - topBits(b, x.w))
  }
  pure def dTrailingZeros(b: int, x: Num): int = {
    val st = x.ds.foldl({ go: true, r: 0 }, (s, d) =>
      if (not(s.go)) s else if (d == 0) { go: true, r: s.r + b } else { go: false, r: s.r + trailingZeros(b, d) })
    minI(st.r, x.w)
  }
  pure def dCountOnes(b: int, x: Num): int = x.ds.foldl(0, (r, d) => r + countOnes(b, d))
  pure def dAllSet(b: int, x: Num): bool =
    range(0, x.ds.length()).foldl(true, (ok, i) =>
      ok and x.ds[i] == (if (i == x.ds.length() - 1) 2^topBits(b, x.w) - 1 else 2^b - 1))

  // ------------------------------------------------------------ text in a radix 2^e
  /// Digit values of a text, least significant first, packed into digits; a
  /// text digit may straddle two of them.
  pure def packPow2(b: int, e: int, ts: List[int]): List[int] = {
    val st = ts.foldl({ acc: 0, n: 0, r: [] }, (s, t) => {
      val acc = s.acc + t * 2^s.n
      val n = s.n + e
      if (n >= b) { acc: acc / 2^b, n: n - b, r: s.r.append(acc % 2^b) } else { acc: acc, n: n, r: s.r }
    })
    if (st.n > 0) st.r.append(st.acc) else st.r
  }

  /// Text of a word: the first digit that is not zero as short as possible, the
  /// ones below it with all their characters (text digits divide the digit).
  pure def dFormat(b: int, e: int, x: Num): List[int] = {
    val n = x.ds.length()
    val st = range(0, n).foldl({ begun: false, r: [] }, (s, i) => {
      val d = x.ds[n - 1 - i]
      if (s.begun) { begun: true, r: s.r.concat(range(0, b / e).foldl([], (l, j) =>
        l.append(digitChar((d / 2^(b - e * (j + 1))) % 2^e, false)))) }
      else if (d == 0) s
      else { begun: true, r: formatPow2(b, d, e, false) }
    })
    if (st.begun) st.r else [48]
  }

  // ------------------------------------------------------------ bits
  pure def zipDigits(x: Num, y: Num, f: (int, int) => int): Num =
    { w: x.w, ds: range(0, x.ds.length()).foldl([], (l, i) => l.append(f(x.ds[i], y.ds[i]))) }
  /// A change of bit p is a change of bit p % b of digit p / b.
  pure def atBit(b: int, x: Num, p: int, f: (int, int) => int): Num =
    { w: x.w, ds: x.ds.replaceAt(p / b, f(x.ds[p / b], p % b)) }

  // ------------------------------------------------------------ constants, random digits
  /// One digit over and over, cut to the width.
  pure def dRepeat(b: int, w: int, d: int): Num = clear(b, { w: w, ds: zeros(len(b, w)).foldl([], (l, z) => l.append(d)) })
  pure def dSmin(b: int, w: int): Num = atBit(b, dRepeat(b, w, 0), w - 1, (d, i) => setBit(d, i))
  pure def dSmax(b: int, w: int): Num = atBit(b, dRepeat(b, w, 2^b - 1), w - 1, (d, i) => clrBit(d, i))
  /// Digits of a generator in their order, cut to the width.
  pure def dRandom(b: int, w: int, stream: List[int]): Num = clear(b, { w: w, ds: stream.slice(0, len(b, w)) })

  // ------------------------------------------------------------ conversions
  /// Is the number at most k bits long?  All digits above are zero, and so are the
  /// upper bits of the one in which bit k lies.
  pure def dFits(b: int, x: Num, k: int): bool =
    range(0, x.ds.length()).foldl(true, (ok, i) => ok and (
      if (b * (i + 1) <= k) true else if (b * i >= k) x.ds[i] == 0 else x.ds[i] < 2^(k - b * i)))
  /// The same for the signed reading: above bit k - 1 everything is a copy of it.
  pure def dFitsS(b: int, x: Num, k: int): bool =
    if (k >= x.w) true
    else if (dMsb(b, x) == 0) dFits(b, x, k - 1)
    else dFits(b, dNot(b, x), k - 1)

  // ------------------------------------------------------------ signed division
  /// By way of the magnitudes: negate what is negative, divide, negate the
  /// quotient if the signs differ and the remainder if the dividend is negative.
  pure def dSdivrem(b: int, x: Num, y: Num): { q: Num, r: Num } = {
    val nx = dMsb(b, x) == 1
    val ny = dMsb(b, y) == 1
    val d = longDivision(b, x.w, alpha(b, if (nx) dNeg(b, x) else x), alpha(b, if (ny) dNeg(b, y) else y))
    val q = rep(b, x.w, d.q)
    val r = rep(b, x.w, d.r)
    { q: if (nx != ny) dNeg(b, q) else q, r: if (nx) dNeg(b, r) else r }
  }

  // ------------------------------------------------------------ long division
  // Values here stand for digit sequences; `sig(b, n, x)` are the n most
  // significant bits of x (x has at least that many).
  pure def sig(n: int, x: int): int = x / 2^(bitLen(x) - n)
  /// Index of the most significant digit.
  pure def sd(b: int, x: int): int = (bitLen(x) - 1) / b

  type Div = { q: int, r: int, br: str, steps: int }
  pure def res(q: int, r: int, br: str, n: int): Div = { q: q, r: r, br: br, steps: n }

  /// The division with operands of equally many significant bits up to one
  /// digit: the quotient is the quotient of their leading 2B bits, or one less.
  pure def mulOrLess(b: int, w: int, quo: int, duo: int, div: int, br: str, n: int): Div = {
    // both shifted so that duo starts at the top of two digits
    val sh = bitLen(duo) - 2 * b
    val m = (duo / 2^sh) / (div / 2^sh)
    if (m * div > duo)
      res(quo + m - 1, duo + div - m * div,
        if (m * div >= 2^(b * len(b, w))) br.joined("-less-overflow") else br.joined("-less"), n)
    else res(quo + m, duo - m * div, br.joined("-exact"), n)
  }
  pure def joined(x: str, y: str): str = if (x == "short")
      (if (y == "-less") "short-less" else if (y == "-less-overflow") "short-less-overflow" else "short-exact")
    else (if (y == "-less") "tail-less" else if (y == "-less-overflow") "tail-less-overflow" else "tail-exact")

  /// Unsigned division x / y (y /= 0) of words of w bits in digits of b bits,
  /// with the branch that produced the result.
  pure def longDivision(b: int, w: int, x: int, y: int): Div =
    if (x == 0) res(0, 0, "zero", 0)
    else if (sd(b, x) < sd(b, y)) res(0, x, "longer divisor", 0)
    else if (sd(b, x) == 0) res(x / y, x % y, "one digit", 0)
    else if (sd(b, y) == 0)
      // digit by digit from the top, the remainder carried along
      range(0, sd(b, x) + 1).foldl(res(0, 0, if (y < 2^(b / 2)) "half-digit divisor" else "one-digit divisor", 0), (st, i) => {
        val d = (x / 2^(b * (sd(b, x) - i))) % 2^b
        val t = st.r * 2^b + d
        res(st.q * 2^b + t / y, t % y, st.br, 0)
      })
    else if (sd(b, x) == 1) res(x / y, x % y, "two digits", 0)
    else if (bitLen(x) < bitLen(y)) res(0, x, "shorter", 0)
    else if (bitLen(x) == bitLen(y))
      if (x >= y) res(1, x - y, "same length, one", 0) else res(0, x, "same length, zero", 0)
    else if (bitLen(x) - bitLen(y) < b) mulOrLess(b, w, 0, x, y, "short", 0)
    else
      // Partial quotients: the leading two digits of the rest by the leading
      // digit of the divisor plus one never overshoot.
      range(0, 3 * w).foldl({ done: false, duo: x, quo: 0, big: false, d: res(0, 0, "?", 0) }, (st, i) =>
        if (st.done) st
        else {
          val duo = st.duo
          val duoLess = bitLen(duo) - 2 * b
          val divLess = bitLen(y) - b
          if (duoLess < divLess)
            { done: true, duo: 0, quo: 0, big: st.big, d: mulOrLess(b, w, st.quo, duo, y, "tail", i) }
          else {
            val m = sig(2 * b, duo) / (sig(b, y) + 1)
            val duo2 = duo - m * 2^(duoLess - divLess) * y
            val quo2 = st.quo + m * 2^(duoLess - divLess)
            val big = st.big or m >= 2^b
            if (m == 0 or duo2 < 0) { done: true, duo: 0, quo: 0, big: big, d: res(-1, -1, "stuck", i) }
            else if (duo2 == 0) { done: true, duo: 0, quo: 0, big: big, d: res(quo2, 0, "exact", i + 1) }
            else if (bitLen(duo2) == bitLen(y))
              { done: true, duo: 0, quo: 0, big: big,
                d: if (duo2 >= y) res(quo2 + 1, duo2 - y, "one more", i + 1) else res(quo2, duo2, "same length rest", i + 1) }
            else if (bitLen(duo2) < bitLen(y)) { done: true, duo: 0, quo: 0, big: big, d: res(quo2, duo2, "short rest", i + 1) }
            else if (sd(b, duo2) < 2)
              { done: true, duo: 0, quo: 0, big: big, d: res(quo2 + duo2 / y, duo2 % y, "two-digit rest", i + 1) }
            else { done: false, duo: duo2, quo: quo2, big: big, d: st.d }
          }
        }).d

  // ------------------------------------------------------------ refinement, exhaustively
  pure val SCOPES: Set[{ b: int, w: int }] = Set({ b: 1, w: 1 }, { b: 1, w: 4 }, { b: 2, w: 1 }, { b: 2, w: 2 }, { b: 2, w: 3 },
    { b: 2, w: 4 }, { b: 2, w: 5 }, { b: 3, w: 2 }, { b: 3, w: 4 }, { b: 3, w: 5 })
  pure def vals(w: int): Set[int] = 0.to(2^w - 1)
  pure def each1(p: (int, int, int) => bool): bool = SCOPES.forall(s => vals(s.w).forall(x => p(s.b, s.w, x)))
  pure def each2(p: (int, int, int, int) => bool): bool =
    SCOPES.forall(s => vals(s.w).forall(x => vals(s.w).forall(y => p(s.b, s.w, x, y))))
  /// r is the canonical representation of v in w bits.
  pure def stands(b: int, r: Num, w: int, v: int): bool = and { canon(b, r), r.w == w, alpha(b, r) == v }

  run C08RepresentationTest = assert(each1((b, w, x) => stands(b, rep(b, w, x), w, x)))
  run C08UniqueTest = assert(each2((b, w, x, y) => (rep(b, w, x) == rep(b, w, y)) == (x == y)))
  run C01DigitsAddTest = assert(each2((b, w, x, y) => stands(b, dAdd(b, rep(b, w, x), rep(b, w, y)), w, wAdd(w, x, y))))
  run C01DigitsSubTest = assert(each2((b, w, x, y) => stands(b, dSub(b, rep(b, w, x), rep(b, w, y)), w, wSub(w, x, y))))
  run C01DigitsMulTest = assert(each2((b, w, x, y) => stands(b, dMul(b, rep(b, w, x), rep(b, w, y)), w, wMul(w, x, y))))
  run C01DigitsUnaryTest = assert(each1((b, w, x) => and {
    stands(b, dNeg(b, rep(b, w, x)), w, wNeg(w, x)),
    stands(b, dInc(b, rep(b, w, x)), w, wInc(w, x)),
    stands(b, dDec(b, rep(b, w, x)), w, wDec(w, x)),
  }))
  run C05DigitsNotTest = assert(each1((b, w, x) => stands(b, dNot(b, rep(b, w, x)), w, wNot(w, x))))
  run C05DigitsZipTest = assert(each2((b, w, x, y) => and {
    stands(b, zipDigits(rep(b, w, x), rep(b, w, y), (c, d) => wAnd(b, c, d)), w, wAnd(w, x, y)),
    stands(b, zipDigits(rep(b, w, x), rep(b, w, y), (c, d) => wOr(b, c, d)), w, wOr(w, x, y)),
    stands(b, zipDigits(rep(b, w, x), rep(b, w, y), (c, d) => wXor(b, c, d)), w, wXor(w, x, y)),
  }))
  run C05DigitsBitTest = assert(each1((b, w, x) => 0.to(w - 1).forall(p => and {
    stands(b, atBit(b, rep(b, w, x), p, (d, i) => setBit(d, i)), w, setBit(x, p)),
    stands(b, atBit(b, rep(b, w, x), p, (d, i) => clrBit(d, i)), w, clrBit(x, p)),
    stands(b, atBit(b, rep(b, w, x), p, (d, i) => flipBit(d, i)), w, flipBit(x, p)),
  })))
  run C03DigitsDivisionTest = assert(each2((b, w, x, y) => (y != 0) implies {
    val d = dSdivrem(b, rep(b, w, x), rep(b, w, y))
    stands(b, d.q, w, sDiv(w, x, y)) and stands(b, d.r, w, sRem(w, x, y))
  }))
  run C10DigitsFitTest = assert(each1((b, w, x) => 1.to(w + 2).forall(k => and {
    dFits(b, rep(b, w, x), k) == (x < 2^k),
    dFitsS(b, rep(b, w, x), k) == (-(2^(k - 1)) <= toS(w, x) and toS(w, x) < 2^(k - 1)),
  })))
  run C12DigitsFormatTest = assert(Set({ b: 1, e: 1 }, { b: 2, e: 1 }, { b: 3, e: 1 }, { b: 4, e: 1 }, { b: 2, e: 2 }, { b: 4, e: 2 },
    { b: 4, e: 4 }, { b: 8, e: 4 }).forall(f => Set(1, 2, 3, 5, 8, 9).forall(w => vals(w).forall(x =>
      dFormat(f.b, f.e, rep(f.b, w, x)) == formatPow2(w, x, f.e, false)))))
  run C12DigitsFormat64Test = assert(Set(1, 2^63, 2^64, 2^64 + 1, 2^128 - 1, 2^128, 2^192 + 2^64, 2^255 + 2^70).forall(x =>
    Set(1, 4).forall(e => dFormat(64, e, rep(64, 260, x)) == formatPow2(260, x, e, false))))
  run C16DigitsConstantTest = assert(Set(1, 2, 3).forall(b => 1.to(9).forall(w => and {
    stands(b, dRepeat(b, w, 0), w, 0),
    stands(b, dRepeat(b, w, 2^b - 1), w, umax(w)),
    stands(b, dSmin(b, w), w, smin(w)),
    stands(b, dSmax(b, w), w, smax(w)),
  })))
  run C17DigitsRandomTest = assert(Set(1, 2, 3).forall(b => 1.to(6).forall(w => {
    val n = len(b, w)
    and {
      vals(b * n).forall(s => stands(b, dRandom(b, w, rep(b, b * n, s).ds), w, truncTo(s, w))),
      // every word is drawn by equally many streams
      vals(w).forall(v => vals(b * n).filter(s => alpha(b, dRandom(b, w, rep(b, b * n, s).ds)) == v).size() == 2^(b * n - w)),
    }
  })))
  run C04DigitsShiftTest = assert(each1((b, w, x) => 0.to(w - 1).forall(k => and {
    stands(b, dShl(b, rep(b, w, x), k), w, shl(w, x, k)),
    stands(b, dLshr(b, rep(b, w, x), k), w, lshr(w, x, k)),
    stands(b, dAshr(b, rep(b, w, x), k), w, ashr(w, x, k)),
  })))
  run C06DigitsCastTest = assert(each1((b, w, x) => and {
    1.to(w).forall(t => stands(b, dTrunc(b, rep(b, w, x), t), t, truncTo(x, t))),
    w.to(w + 5).forall(t => and {
      stands(b, dZext(b, rep(b, w, x), t), t, x),
      stands(b, dSext(b, rep(b, w, x), t), t, sextTo(w, x, t)),
    }),
  }))
  run C07DigitsOrderTest = assert(each2((b, w, x, y) => and {
    dUlt(rep(b, w, x), rep(b, w, y)) == ult(x, y),
    dSlt(b, rep(b, w, x), rep(b, w, y)) == slt(w, x, y),
  }))
  run C15DigitsQueryTest = assert(each1((b, w, x) => and {
    dLeadingZeros(b, rep(b, w, x)) == leadingZeros(w, x),
    dTrailingZeros(b, rep(b, w, x)) == trailingZeros(w, x),
    dCountOnes(b, rep(b, w, x)) == countOnes(w, x),
    dAllSet(b, rep(b, w, x)) == (x == umax(w)),
    dMsb(b, rep(b, w, x)) == bitAt(x, w - 1),
  }))
  /// Digits of any radix, most significant first, accumulate to the value.
  run C11DigitsParseTest = assert(Set(2, 3, 4).forall(b => 2.to(2^b).forall(radix => 0.to(90).forall(x => {
    val ts = range(0, 8).foldl({ a: x, r: [] }, (st, i) => { a: st.a / radix, r: [st.a % radix].concat(st.r) }).r
    val ds = ts.foldl([0], (acc, t) => mulAddDigit(b, acc, radix, t))
    (x < radix^8) implies (val_(b, ds) == x and ds.foldl(true, (ok, d) => ok and d < 2^b))
  }))))
  run C11DigitsPackTest = assert(Set(3, 4, 5).forall(b => 1.to(b - 1).forall(e => 0.to(255).forall(x => {
    val ts = range(0, 8).foldl({ a: x, r: [] }, (st, i) => { a: st.a / 2^e, r: st.r.append(st.a % 2^e) }).r
    val ds = packPow2(b, e, ts)
    (x < 2^(8 * e)) implies (val_(b, ds) == x and ds.foldl(true, (ok, d) => ok and d < 2^b))
  }))))

  pure def divisionRight(b: int, w: int, x: int, y: int): bool = {
    val d = longDivision(b, w, x, y)
    d.q == x / y and d.r == x % y
  }
  run C02LongDivisionTest = assert(Set({ b: 1, w: 5 }, { b: 2, w: 6 }).forall(s =>
    vals(s.w).forall(x => 1.to(2^s.w - 1).forall(y => divisionRight(s.b, s.w, x, y)))))
  run C02LongDivisionWideTest = assert(vals(10).forall(x => (x % 3 == 0) implies
    Set(16, 17, 19, 22, 23, 29, 31, 32, 37, 63, 64, 67, 101, 127, 255, 300).forall(y => divisionRight(2, 10, x, y))))
  run C02LongDivision64Test = assert(Set(2^64, 2^64 + 1, 2^127 + 3, 2^128 - 1, 2^128 + 2^63, 2^191 - 1, 2^192 + 2^64).forall(y =>
    Set(2^320 - 1, 2^319, 2^256 + 1, 2^320 - 2^64, 2^300 + 12345, y, y * 2^65 - 1, y * (2^64 - 1) + y - 1, y * 2^128 - 1).forall(x =>
      divisionRight(64, 320, x % 2^320, y))))
  /// Every branch is taken by some operands except "exact": the rest after a
  /// partial quotient is never zero, because the estimate is strictly low.
  /// (The corresponding lines of the crate are dead code.)
  pure val BRANCHES: Set[str] = Set("zero", "longer divisor", "one digit", "half-digit divisor", "one-digit divisor",
    "two digits", "shorter", "same length, one", "same length, zero", "short-exact", "short-less", "short-less-overflow",
    "tail-exact", "tail-less", "one more", "same length rest", "short rest", "two-digit rest")
  run C02BranchesTest = assert(BRANCHES ==
    vals(6).map(x => 1.to(63).map(y => longDivision(2, 6, x, y).br)).flatten()
      .union(vals(8).filter(x => x % 5 == 0 or x > 200).map(x => 16.to(70).map(y => longDivision(2, 8, x, y).br)).flatten()))
}
