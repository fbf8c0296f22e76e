// -*- mode: Bluespec; -*-
/// Laws of the specification itself, checked exhaustively in a small scope:
/// every width up to BOUND bits and every value of it.  They tie the
/// arithmetic definitions of words.qnt, which are written to be cheap on wide
/// words, to the bit by bit and to the textbook reading, and the machine of
/// apint.qnt to its contract.  A slip in the oracle would show here and not as
/// a false alarm or a blind spot of the conformance checks.
///
/// Run with `quint test laws.qnt --main=laws --match=C01` and so on.
module laws {
  import words.* from "./words"
  import apint.* from "./apint"

  pure val BOUND = 4
  pure val WIDE = 6
  pure def vals(w: int): Set[int] = 0.to(2^w - 1)
  pure def eachValue(bound: int, p: (int, int) => bool): bool =
    1.to(bound).forall(w => vals(w).forall(x => p(w, x)))
  pure def eachPair(p: (int, int, int) => bool): bool =
    1.to(BOUND).forall(w => vals(w).forall(x => vals(w).forall(y => p(w, x, y))))
  pure def eachTriple(bound: int, p: (int, int, int, int) => bool): bool =
    1.to(bound).forall(w => vals(w).forall(x => vals(w).forall(y => vals(w).forall(z => p(w, x, y, z)))))
  /// The word whose bit i is f(i).
  pure def fromBits(w: int, f: (int) => int): int = range(0, w).foldl(0, (acc, i) => acc + f(i) * 2^i)
  pure def iffB(a: bool, b: bool): bool = a == b

  // ------------------------------------------------------------ C01
  run C01RingTest = assert(eachTriple(3, (w, x, y, z) => and {
    wAdd(w, x, y) == wAdd(w, y, x),
    wAdd(w, wAdd(w, x, y), z) == wAdd(w, x, wAdd(w, y, z)),
    wMul(w, x, y) == wMul(w, y, x),
    wMul(w, wMul(w, x, y), z) == wMul(w, x, wMul(w, y, z)),
    wMul(w, x, wAdd(w, y, z)) == wAdd(w, wMul(w, x, y), wMul(w, x, z)),
  }))
  run C01InverseTest = assert(eachPair((w, x, y) => and {
    wAdd(w, x, wNeg(w, x)) == 0,
    wSub(w, x, y) == wAdd(w, x, wNeg(w, y)),
    wAdd(w, wSub(w, x, y), y) == x,
    wNeg(w, x) == wInc(w, wNot(w, x)),
    wDec(w, wInc(w, x)) == x,
    wMul(w, x, umax(w)) == wNeg(w, x),
  }))
  /// Full adder, bit by bit.
  run C01AdderTest = assert(eachPair((w, x, y) => {
    val st = range(0, w).foldl({ c: 0, r: 0 }, (a, i) => {
      val s = bitAt(x, i) + bitAt(y, i) + a.c
      { c: s / 2, r: a.r + (s % 2) * 2^i }
    })
    st.r == wAdd(w, x, y)
  }))
  /// Shift-and-add multiplication.
  run C01MultiplierTest = assert(eachPair((w, x, y) =>
    range(0, w).foldl(0, (acc, i) => if (bitAt(y, i) == 1) wAdd(w, acc, shl(w, x, i)) else acc) == wMul(w, x, y)))
  run C01AbsTest = assert(eachValue(WIDE, (w, x) => and {
    (x != smin(w)) implies toS(w, wAbs(w, x)) == absI(toS(w, x)),
    wAbs(w, smin(w)) == smin(w),
  }))
  /// The signed reading is the unique representative in [-2^(w-1), 2^(w-1)).
  run C01ReadingTest = assert(eachValue(WIDE, (w, x) => and {
    wrap(w, toS(w, x)) == x,
    -(2^(w - 1)) <= toS(w, x) and toS(w, x) < 2^(w - 1),
    toS(w, x) == x - 2^w * bitAt(x, w - 1),
  }))

  // ------------------------------------------------------------ C02, C03
  run C02DivisionTest = assert(eachPair((w, x, y) => (y != 0) implies {
    val q = uDiv(w, x, y)
    val r = uRem(w, x, y)
    and {
      x == q * y + r, 0 <= r and r < y, isWord(w, q), isWord(w, r),
      // unique
      vals(w).forall(q2 => vals(w).forall(r2 => (x == q2 * y + r2 and r2 < y) implies (q2 == q and r2 == r))),
    }
  }))
  /// Restoring division, one bit at a time.
  run C02RestoringTest = assert(eachPair((w, x, y) => (y != 0) implies {
    val st = range(0, w).foldl({ q: 0, r: 0 }, (a, i) => {
      val r2 = 2 * a.r + bitAt(x, w - 1 - i)
      if (r2 >= y) { q: 2 * a.q + 1, r: r2 - y } else { q: 2 * a.q, r: r2 }
    })
    st.q == uDiv(w, x, y) and st.r == uRem(w, x, y)
  }))
  run C03DivisionTest = assert(eachPair((w, x, y) => (y != 0) implies {
    val a = toS(w, x)
    val b = toS(w, y)
    val q = toS(w, sDiv(w, x, y))
    val r = toS(w, sRem(w, x, y))
    and {
      isWord(w, sDiv(w, x, y)), isWord(w, sRem(w, x, y)),
      wrap(w, q * b + r) == x,
      absI(r) < absI(b),
      r == 0 or sgn(r) == sgn(a),
      (x == smin(w) and b == -1) implies (sDiv(w, x, y) == smin(w) and r == 0),
      not(x == smin(w) and b == -1) implies (q * b + r == a and absI(q) == absI(a) / absI(b)),
    }
  }))
  run C03NonNegativeTest = assert(eachPair((w, x, y) =>
    (y != 0 and x < smin(w) and y < smin(w)) implies (sDiv(w, x, y) == uDiv(w, x, y) and sRem(w, x, y) == uRem(w, x, y))))

  // ------------------------------------------------------------ C04
  run C04BitsTest = assert(eachValue(WIDE, (w, x) => 0.to(w - 1).forall(k => and {
    shl(w, x, k) == fromBits(w, i => if (i < k) 0 else bitAt(x, i - k)),
    lshr(w, x, k) == fromBits(w, i => if (i + k < w) bitAt(x, i + k) else 0),
    ashr(w, x, k) == fromBits(w, i => if (i + k < w) bitAt(x, i + k) else bitAt(x, w - 1)),
  })))
  run C04ComposeTest = assert(eachValue(WIDE, (w, x) => 0.to(w - 1).forall(k => 0.to(w - 1 - k).forall(j => and {
    shl(w, shl(w, x, k), j) == shl(w, x, k + j),
    lshr(w, lshr(w, x, k), j) == lshr(w, x, k + j),
    ashr(w, ashr(w, x, k), j) == ashr(w, x, k + j),
  }))))
  /// Arithmetic shift is division rounding down.
  run C04FloorTest = assert(eachValue(WIDE, (w, x) => 0.to(w - 1).forall(k => {
    val a = toS(w, x)
    val r = emod(a, 2^k)
    toS(w, ashr(w, x, k)) * 2^k + r == a
  })))

  // ------------------------------------------------------------ C05
  run C05BitwiseTest = assert(eachPair((w, x, y) => and {
    wAnd(w, x, y) == fromBits(w, i => bitAt(x, i) * bitAt(y, i)),
    wOr(w, x, y) == fromBits(w, i => if (bitAt(x, i) + bitAt(y, i) > 0) 1 else 0),
    wXor(w, x, y) == fromBits(w, i => (bitAt(x, i) + bitAt(y, i)) % 2),
    wNot(w, x) == fromBits(w, i => 1 - bitAt(x, i)),
    wNot(w, wAnd(w, x, y)) == wOr(w, wNot(w, x), wNot(w, y)),
    wXor(w, wXor(w, x, y), y) == x,
  }))
  run C05WideTest = assert(Set(0, 1, 2^64 - 1, 2^64, 2^65 + 5, 2^127 + 2^63 + 9, 2^130 - 1, 2^130 / 3).forall(x =>
    Set(0, 1, 2^64 - 1, 2^64, 2^65 + 5, 2^127 + 2^63 + 9, 2^130 - 1, 2^130 / 5).forall(y => and {
      wAnd(130, x, y) == fromBits(130, i => bitAt(x, i) * bitAt(y, i)),
      wXor(130, x, y) == fromBits(130, i => (bitAt(x, i) + bitAt(y, i)) % 2),
    })))
  run C05SingleBitTest = assert(eachValue(WIDE, (w, x) => 0.to(w - 1).forall(k => and {
    setBit(x, k) == fromBits(w, i => if (i == k) 1 else bitAt(x, i)),
    clrBit(x, k) == fromBits(w, i => if (i == k) 0 else bitAt(x, i)),
    flipBit(x, k) == fromBits(w, i => if (i == k) 1 - bitAt(x, i) else bitAt(x, i)),
  })))

  // ------------------------------------------------------------ C06
  run C06CastTest = assert(eachValue(WIDE, (w, x) => 1.to(WIDE + 2).forall(t => and {
    isWord(t, zresizeTo(w, x, t)), isWord(t, sresizeTo(w, x, t)),
    (t >= w) implies (zresizeTo(w, x, t) == x and toS(t, sresizeTo(w, x, t)) == toS(w, x)),
    (t >= w) implies (truncTo(sextTo(w, x, t), w) == x and truncTo(zextTo(x), w) == x),
    (t <= w) implies (zresizeTo(w, x, t) == fromBits(t, i => bitAt(x, i)) and sresizeTo(w, x, t) == zresizeTo(w, x, t)),
    (t >= w) implies sextTo(w, x, t) == fromBits(t, i => if (i < w) bitAt(x, i) else bitAt(x, w - 1)),
  })))
  /// Widening first and operating then agrees, modulo the width, with operating first.
  run C06HomomorphismTest = assert(eachPair((w, x, y) => 1.to(w).forall(t => and {
    truncTo(wAdd(w, x, y), t) == wAdd(t, truncTo(x, t), truncTo(y, t)),
    truncTo(wMul(w, x, y), t) == wMul(t, truncTo(x, t), truncTo(y, t)),
    truncTo(wNeg(w, x), t) == wNeg(t, truncTo(x, t)),
  })))

  // ------------------------------------------------------------ C07
  run C07OrderTest = assert(eachPair((w, x, y) => and {
    ucmp(x, y) == -ucmp(y, x),
    scmp(w, x, y) == -scmp(w, y, x),
    iffB(ucmp(x, y) == 0, x == y),
    iffB(scmp(w, x, y) == 0, x == y),
    // flipping the sign bits turns the signed into the unsigned order
    scmp(w, x, y) == ucmp(flipBit(x, w - 1), flipBit(y, w - 1)),
    // lexicographic from the most significant bit
    ucmp(x, y) == range(0, w).foldl(0, (acc, i) => if (acc != 0) acc else bitAt(x, w - 1 - i) - bitAt(y, w - 1 - i)),
  }))
  run C07TransitiveTest = assert(eachTriple(3, (w, x, y, z) => and {
    (ult(x, y) and ult(y, z)) implies ult(x, z),
    (slt(w, x, y) and slt(w, y, z)) implies slt(w, x, z),
  }))

  // ------------------------------------------------------------ C09, C08, C18: the machine
  pure val SMALL: Set[Reg] = 1.to(3).map(w => vals(w).map(v => { w: w, v: v })).flatten()
  pure def mk(op: str, k: int): Call = { op: op, d: 0, s: 1, k: k, arg: 5, txt: [] }
  pure def eachCall(ops: Set[str], ks: Set[int], p: (Call, Reg, Reg, Out) => bool): bool =
    ops.forall(op => ks.forall(k => SMALL.forall(a => SMALL.forall(b => {
      val c = mk(op, k)
      p(c, a, b, exec(c, a, b))
    }))))
  pure def goodOut(a: Reg, b: Reg, o: Out): bool = and {
    isWord(o.d.w, o.d.v), isWord(o.s.w, o.s.v),
    isErr(o.rep) implies (o.d == a and o.s == b),
  }
  run C09MachineBinaryTest = assert(eachCall(Set("add", "mul", "and", "xor", "udiv", "urem", "sdiv", "srem", "udivrem",
    "sremdiv", "strict_assign", "ult", "sge", "eq", "scmp"), Set(0), (c, a, b, o) => and {
      goodOut(a, b, o),
      // defined exactly when the widths agree (and a divisor is not zero)
      iffB(isErr(o.rep), (a.w != b.w and not(CMP.contains(c.op))) or (DIV2.contains(c.op) and b.v == 0)),
      not(DIV2.contains(c.op)) implies o.s == b,
    }))
  run C09MachineAmountTest = assert(eachCall(Set("shl", "lshr", "ashr", "get_bit", "set_bit", "unset_bit", "flip_bit"), 0.to(5),
    (c, a, b, o) => and { goodOut(a, b, o), iffB(isErr(o.rep), c.k >= a.w), o.s == b, o.d.w == a.w }))
  run C09MachineCastTest = assert(eachCall(CAST, 1.to(5), (c, a, b, o) => and {
    goodOut(a, b, o),
    iffB(isErr(o.rep), (c.op == "trunc" and c.k > a.w) or ((c.op == "zext" or c.op == "sext") and c.k < a.w)),
    isErr(o.rep) or o.d.w == c.k,
  }))
  run C18MachineQueryTest = assert(eachCall(Set("is_zero", "is_one", "msb", "count_ones", "leading_zeros", "width", "fmt_lhex",
    "ser", "resize_to", "try_to", "eq", "ucmp", "get_bit"), Set(8), (c, a, b, o) => o.d == a and o.s == b))
  run C18MachineMoveTest = assert(eachCall(MOVE, Set(0), (c, a, b, o) =>
    isErr(o.rep) or (o.d == b and o.s == b)))
  /// The pair forms of division agree with the single ones.
  run C14MachineDivisionTest = assert(eachCall(Set("udiv"), Set(0), (c, a, b, o) => and {
    exec(mk("udivrem", 0), a, b).d == o.d,
    exec(mk("uremdiv", 0), a, b).d == exec(mk("urem", 0), a, b).d,
    exec(mk("sdivrem", 0), a, b).d == exec(mk("sdiv", 0), a, b).d,
    exec(mk("sremdiv", 0), a, b).d == exec(mk("srem", 0), a, b).d,
    not(isErr(o.rep)) implies and {
      exec(mk("udivrem", 0), a, b).s == exec(mk("urem", 0), a, b).d,
      exec(mk("uremdiv", 0), a, b).s == o.d,
      exec(mk("sdivrem", 0), a, b).s == exec(mk("srem", 0), a, b).d,
      exec(mk("sremdiv", 0), a, b).s == exec(mk("sdiv", 0), a, b).d,
    },
  }))
  /// What a register shows determines every later reply: the machine has no
  /// hidden state (C08 transfers this to the crate).
  run C08ObservationTest = assert(SMALL.forall(a => SMALL.forall(b =>
    iffB(a == b, exec(mk("ser", 0), a, a).rep == exec(mk("ser", 0), b, b).rep))))

  // ------------------------------------------------------------ C10
  run C10RoundTripTest = assert(Set(8, -8, 16, -16).forall(k => {
    val b = absI(k)
    Set(0, 1, 2, 2^(b - 1) - 1, 2^(b - 1), 2^(b - 1) + 1, 2^b - 2, 2^b - 1).forall(u => {
      val a = if (k < 0) toS(b, u) else u
      val r = exec({ op: "from_prim", d: 0, s: 1, k: k, arg: a, txt: [] }, { w: 3, v: 5 }, { w: 1, v: 0 }).d
      and {
        r.w == b,
        toPrim(mk("try_to", k), r) == numRep(a),
        toPrim(mk("resize_to", k), r) == numRep(a),
        (k < 0) implies toPrim(mk("s_try_to", k), r) == numRep(a),
      }
    })
  }))
  run C10RepresentableTest = assert(Set(1, 3, 7, 8, 9, 10).forall(w => vals(w).forall(x => {
    val r = { w: w, v: x }
    and {
      iffB(isErr(toPrim(mk("try_to", 8), r)), x > 255),
      iffB(isErr(toPrim(mk("s_try_to", -8), r)), toS(w, x) > 127 or toS(w, x) < -128),
      toPrim(mk("resize_to", 8), r).n == x % 256,
      emod(toPrim(mk("resize_to", -8), r).n, 256) == emod(toS(w, x), 256),
    }
  })))

  // ------------------------------------------------------------ C11, C12
  pure def textOf(radix: int, x: int): List[int] =
    if (x == 0) [48]
    else range(0, 9).foldl({ a: x, r: [] }, (st, i) =>
      if (st.a == 0) st else { a: st.a / radix, r: [digitChar(st.a % radix, i % 2 == 0)].concat(st.r) }).r
  run C11RoundTripTest = assert(2.to(36).forall(radix => 0.to(80).forall(x =>
    parse(radix, textOf(radix, x)) == numRep(x))))
  run C11RefusalTest = assert(2.to(36).forall(radix => 0.to(127).forall(c => and {
    iffB(isErr(parse(radix, [c])), digitValue(c) >= radix),
    iffB(isErr(parse(radix, [49, c, 49])), digitValue(c) >= radix and c != UNDERSCORE),
    isErr(parse(radix, [49, c, 49])) implies parse(radix, [49, c, 49]).l == [1, c],
  })))
  run C11SeparatorTest = assert(2.to(36).forall(radix => and {
    parse(radix, [49, 95, 48, 95, 95, 49]) == numRep(radix * radix + 1),
    isErr(parse(radix, [95, 49])), isErr(parse(radix, [49, 95])), isErr(parse(radix, [95])), isErr(parse(radix, [])),
  }))
  run C12RoundTripTest = assert(eachValue(9, (w, x) => and {
    parse(2, formatPow2(w, x, 1, false)) == numRep(x),
    parse(16, formatPow2(w, x, 4, false)) == numRep(x),
    parse(16, formatPow2(w, x, 4, true)) == numRep(x),
    // shortest
    x == 0 or formatPow2(w, x, 4, true)[0] != 48,
    x == 0 or formatPow2(w, x, 1, true).length() == bitLen(x),
  }))

  // ------------------------------------------------------------ C13
  run C13RoundTripTest = assert(Set(1, 63, 64, 65, 128, 129, 200).forall(w =>
    Set(0, 1, 2^w - 1, 2^(w - 1), 2^w / 3).forall(x => {
      val ser = exec(mk("ser", 0), { w: w, v: x }, { w: 1, v: 0 }).rep
      val o = exec({ op: "de", d: 0, s: 1, k: ser.n, arg: 0, txt: ser.l }, { w: 2, v: 1 }, { w: 1, v: 0 })
      and { o.d == { w: w, v: x }, o.rep == UNIT, ser.l.length() == digitCount(w) }
    })))
  run C13RefusalTest = assert(Set(1, 64, 65, 129).forall(w => 0.to(4).forall(n => {
    val o = exec({ op: "de", d: 0, s: 1, k: w, arg: 0, txt: range(0, n).foldl([], (l, i) => l.append(1)) }, { w: 2, v: 1 },
      { w: 1, v: 0 })
    iffB(o.rep == errRep("err:Serde", []), n != digitCount(w))
  })))

  // ------------------------------------------------------------ C15, C16, C17
  run C15CountTest = assert(eachValue(WIDE, (w, x) => and {
    countOnes(w, x) == range(0, w).foldl(0, (acc, i) => acc + bitAt(x, i)),
    leadingZeros(w, x) == range(0, w).foldl({ s: false, r: 0 }, (a, i) =>
      if (a.s or bitAt(x, w - 1 - i) == 1) { s: true, r: a.r } else { s: false, r: a.r + 1 }).r,
    trailingZeros(w, x) == range(0, w).foldl({ s: false, r: 0 }, (a, i) =>
      if (a.s or bitAt(x, i) == 1) { s: true, r: a.r } else { s: false, r: a.r + 1 }).r,
    iffB(predicate("is_all_set", w, x), countOnes(w, x) == w),
    iffB(predicate("is_zero", w, x), countOnes(w, x) == 0),
    iffB(predicate("is_negative", w, x), toS(w, x) < 0),
    iffB(predicate("is_even", w, x), not(predicate("is_odd", w, x))),
    count("signum", w, x) == sgn(toS(w, x)),
  }))
  run C15WideTest = assert(Set(1, 2^64, 2^64 - 1, 2^127 + 2^65, 2^200, 2^4095 + 2^300).forall(x => and {
    2^(bitLen(x) - 1) <= x, x < 2^bitLen(x),
    x % 2^trailingZeros(4100, x) == 0, bitAt(x, trailingZeros(4100, x)) == 1,
  }))
  run C16ConstantTest = assert(1.to(WIDE).forall(w => and {
    vals(w).forall(x => x <= umax(w) and toS(w, smin(w)) <= toS(w, x) and toS(w, x) <= toS(w, smax(w))),
    umax(w) == fromBits(w, i => 1),
    constant("all_set", w) == umax(w), constant("umin", w) == 0,
  }))
  run C16TypesTest = assert(0.to(60).forall(k => and {
    iffB(isErr(exec(mk("bitwidth", k), { w: 1, v: 0 }, { w: 1, v: 0 }).rep), k == 0),
    iffB(isErr(exec(mk("radix", k), { w: 1, v: 0 }, { w: 1, v: 0 }).rep), k < 2 or k > 36),
  }))
  /// Every value of the width is drawn from some output of the generator.
  run C17SurjectiveTest = assert(eachValue(WIDE, (w, x) => and {
    exec({ op: "random", d: 0, s: 1, k: w, arg: x + 2^w * 3, txt: [] }, { w: 2, v: 1 }, { w: 1, v: 0 }).d == { w: w, v: x },
    exec({ op: "randomize", d: 0, s: 1, k: 0, arg: x + 2^w * 5, txt: [] }, { w: w, v: 0 }, { w: 1, v: 0 }).d == { w: w, v: x },
  }))
}
