// -*- mode: Bluespec; -*-
/// The abstract machine: a bank of registers, each holding a word of its own
/// width, and one transition per call of the public API.
///
/// `exec` gives, for a call and the registers it names, the registers after the
/// call and the reply the caller sees.  It is a pure function so that the same
/// definition drives the three uses of this specification: the state machine
/// below (invariants, simulation, behaviours replayed into the crate), the
/// exhaustive small-scope checks (laws.qnt) and the validation of histories
/// recorded from the crate (trace.qnt).
module apint {
  import words.* from "./words"

  /// A register: width in bits and unsigned reading of its bits.
  type Reg = { w: int, v: int }

  /// A call.  `d` is the receiver (and destination), `s` the other operand,
  /// `k` a small argument (amount, position, target width, radix, primitive
  /// type), `arg` an integer argument and `txt` a text or digit-list argument.
  type Call = { op: str, d: int, s: int, k: int, arg: int, txt: List[int] }

  /// A reply: its kind, an integer and a list.  Error replies are spelled
  /// "err:Kind" with the numbers reported in the error in `l`; where two
  /// preconditions are violated at once either error is allowed and the reply
  /// is spelled "err:Kind1|Kind2".
  type Rep = { t: str, n: int, l: List[int] }

  type Out = { d: Reg, s: Reg, rep: Rep }

  // ---------------------------------------------------------------- helpers
  pure val UNIT: Rep = { t: "unit", n: 0, l: [] }
  pure def boolRep(b: bool): Rep = { t: "bool", n: b2i(b), l: [] }
  pure def numRep(n: int): Rep = { t: "num", n: n, l: [] }
  pure def errRep(k: str, l: List[int]): Rep = { t: k, n: 0, l: l }
  pure def errRepN(k: str, n: int, l: List[int]): Rep = { t: k, n: n, l: l }
  /// The receiver becomes v, the other operand is untouched.
  pure def upd(rd: Reg, rs: Reg, v: int): Out = { d: { w: rd.w, v: v }, s: rs, rep: UNIT }
  pure def updW(w: int, v: int, rs: Reg): Out = { d: { w: w, v: v }, s: rs, rep: UNIT }
  /// Nothing changes.
  pure def say(rd: Reg, rs: Reg, rep: Rep): Out = { d: rd, s: rs, rep: rep }
  pure def mismatch(rd: Reg, rs: Reg): Out =
    say(rd, rs, errRep("err:UnmatchingBitwidth", [rd.w, rs.w]))
  pure def isErr(rep: Rep): bool =
    not(Set("unit", "bool", "num", "none", "ord", "text", "digits", "lenient", "opt").contains(rep.t))

  // ---------------------------------------------------------------- op groups
  pure val RING2 = Set("add", "sub", "mul")
  pure val BIT2 = Set("and", "or", "xor")
  pure val DIV2 = Set("udiv", "urem", "sdiv", "srem", "udivrem", "uremdiv", "sdivrem", "sremdiv")
  pure val UNARY = Set("neg", "inc", "dec", "abs", "not", "set_all", "unset_all", "flip_all",
    "set_msb", "unset_msb", "flip_msb")
  pure val BITPOS = Set("get_bit", "set_bit", "unset_bit", "flip_bit")
  pure val SHIFT = Set("shl", "lshr", "ashr")
  pure val CAST = Set("trunc", "zext", "sext", "zresize", "sresize")
  pure val MOVE = Set("assign", "strict_assign", "clone")
  pure val ORDER = Set("ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge")
  pure val CMP = Set("eq", "ucmp", "scmp")
  pure val PRED = Set("is_zero", "is_one", "s_is_one", "is_even", "is_odd", "msb", "lsb", "is_all_set",
    "is_all_unset", "is_positive", "is_negative")
  pure val COUNT = Set("signum", "count_ones", "count_zeros", "leading_zeros", "trailing_zeros", "width")
  pure val TOPRIM = Set("resize_to", "try_to", "s_try_to")
  pure val FROMPRIM = Set("from_prim", "from_arr")
  pure val CONSTS = Set("zero", "one", "s_one", "all_set", "all_unset", "umin", "umax", "smin", "smax")
  pure val TEXT = Set("parse", "fmt_bin", "fmt_oct", "fmt_lhex", "fmt_uhex")
  pure val SERDE = Set("ser", "de", "de_shape")
  pure val RAND = Set("random", "randomize")
  pure val TYPES = Set("bitwidth", "radix")

  // ---------------------------------------------------------------- semantics
  pure def unary(op: str, w: int, x: int): int =
    if (op == "neg") wNeg(w, x)
    else if (op == "inc") wInc(w, x)
    else if (op == "dec") wDec(w, x)
    else if (op == "abs") wAbs(w, x)
    else if (op == "not" or op == "flip_all") wNot(w, x)
    else if (op == "set_all") umax(w)
    else if (op == "unset_all") 0
    else if (op == "set_msb") setBit(x, w - 1)
    else if (op == "unset_msb") clrBit(x, w - 1)
    else flipBit(x, w - 1)

  pure def binary(op: str, w: int, x: int, y: int): int =
    if (op == "add") wAdd(w, x, y)
    else if (op == "sub") wSub(w, x, y)
    else if (op == "mul") wMul(w, x, y)
    else if (op == "and") wAnd(w, x, y)
    else if (op == "or") wOr(w, x, y)
    else wXor(w, x, y)

  pure def division(c: Call, rd: Reg, rs: Reg): Out = {
    val w = rd.w
    val x = rd.v
    val y = rs.v
    if (rs.v == 0 and rd.w != rs.w)
      say(rd, rs, errRep("err:DivisionByZero|UnmatchingBitwidth", []))
    else if (rd.w != rs.w) mismatch(rd, rs)
    else if (rs.v == 0) say(rd, rs, errRepN("err:DivisionByZero", x, [w]))
    else if (c.op == "udiv") upd(rd, rs, uDiv(w, x, y))
    else if (c.op == "urem") upd(rd, rs, uRem(w, x, y))
    else if (c.op == "sdiv") upd(rd, rs, sDiv(w, x, y))
    else if (c.op == "srem") upd(rd, rs, sRem(w, x, y))
    else if (c.op == "udivrem") { d: { w: w, v: uDiv(w, x, y) }, s: { w: w, v: uRem(w, x, y) }, rep: UNIT }
    else if (c.op == "uremdiv") { d: { w: w, v: uRem(w, x, y) }, s: { w: w, v: uDiv(w, x, y) }, rep: UNIT }
    else if (c.op == "sdivrem") { d: { w: w, v: sDiv(w, x, y) }, s: { w: w, v: sRem(w, x, y) }, rep: UNIT }
    else { d: { w: w, v: sRem(w, x, y) }, s: { w: w, v: sDiv(w, x, y) }, rep: UNIT }
  }

  pure def bitpos(c: Call, rd: Reg, rs: Reg): Out =
    if (c.k >= rd.w) say(rd, rs, errRep("err:InvalidBitAccess", [c.k, rd.w]))
    else if (c.op == "get_bit") say(rd, rs, boolRep(bitAt(rd.v, c.k) == 1))
    else if (c.op == "set_bit") upd(rd, rs, setBit(rd.v, c.k))
    else if (c.op == "unset_bit") upd(rd, rs, clrBit(rd.v, c.k))
    else upd(rd, rs, flipBit(rd.v, c.k))

  pure def shift(c: Call, rd: Reg, rs: Reg): Out =
    if (c.k >= rd.w) say(rd, rs, errRep("err:InvalidShiftAmount", [c.k, rd.w]))
    else if (c.op == "shl") upd(rd, rs, shl(rd.w, rd.v, c.k))
    else if (c.op == "lshr") upd(rd, rs, lshr(rd.w, rd.v, c.k))
    else upd(rd, rs, ashr(rd.w, rd.v, c.k))

  pure def cast(c: Call, rd: Reg, rs: Reg): Out =
    if (c.op == "trunc")
      if (c.k > rd.w) say(rd, rs, errRep("err:TruncationBitWidthTooLarge", [c.k, rd.w]))
      else updW(c.k, truncTo(rd.v, c.k), rs)
    else if (c.op == "zext")
      if (c.k < rd.w) say(rd, rs, errRep("err:ExtensionBitWidthTooSmall", [c.k, rd.w]))
      else updW(c.k, zextTo(rd.v), rs)
    else if (c.op == "sext")
      if (c.k < rd.w) say(rd, rs, errRep("err:ExtensionBitWidthTooSmall", [c.k, rd.w]))
      else updW(c.k, sextTo(rd.w, rd.v, c.k), rs)
    else if (c.op == "zresize") updW(c.k, zresizeTo(rd.w, rd.v, c.k), rs)
    else updW(c.k, sresizeTo(rd.w, rd.v, c.k), rs)

  pure def move(c: Call, rd: Reg, rs: Reg): Out =
    if (c.op == "strict_assign" and rd.w != rs.w) mismatch(rd, rs)
    else updW(rs.w, rs.v, rs)

  pure def order(c: Call, rd: Reg, rs: Reg): Out =
    if (rd.w != rs.w) mismatch(rd, rs)
    else {
      val u = ucmp(rd.v, rs.v)
      val g = scmp(rd.w, rd.v, rs.v)
      say(rd, rs, boolRep(
        if (c.op == "ult") u < 0
        else if (c.op == "ule") u <= 0
        else if (c.op == "ugt") u > 0
        else if (c.op == "uge") u >= 0
        else if (c.op == "slt") g < 0
        else if (c.op == "sle") g <= 0
        else if (c.op == "sgt") g > 0
        else g >= 0))
    }

  pure def cmp(c: Call, rd: Reg, rs: Reg): Out =
    say(rd, rs,
      if (c.op == "eq") boolRep(rd == rs)
      else if (rd.w != rs.w) { t: "none", n: 0, l: [] }
      else { t: "ord", n: if (c.op == "ucmp") ucmp(rd.v, rs.v) else scmp(rd.w, rd.v, rs.v), l: [] })

  pure def predicate(op: str, w: int, x: int): bool =
    if (op == "is_zero" or op == "is_all_unset") x == 0
    else if (op == "is_one") x == 1
    else if (op == "s_is_one") toS(w, x) == 1
    else if (op == "is_even") x % 2 == 0
    else if (op == "is_odd" or op == "lsb") x % 2 == 1
    else if (op == "msb" or op == "is_negative") bitAt(x, w - 1) == 1
    else if (op == "is_positive") bitAt(x, w - 1) == 0
    else x == umax(w)

  pure def count(op: str, w: int, x: int): int =
    if (op == "signum") sgn(toS(w, x))
    else if (op == "count_ones") countOnes(w, x)
    else if (op == "count_zeros") w - countOnes(w, x)
    else if (op == "leading_zeros") leadingZeros(w, x)
    else if (op == "trailing_zeros") trailingZeros(w, x)
    else w

  /// k names the primitive type: 1 for bool, +n for the unsigned and -n for the
  /// signed type of n bits.
  pure def toPrim(c: Call, rd: Reg): Rep = {
    val n = absI(c.k)
    val low = if (c.k > 0) zresizeTo(rd.w, rd.v, n) else toS(n, sresizeTo(rd.w, rd.v, n))
    if (c.op == "resize_to") numRep(low)
    else if (c.op == "try_to")
      // ApInt has no signedness: representable when the unsigned reading fits n bits.
      if (rd.v < 2^n) numRep(low) else errRepN("err:ValueUnrepresentable", rd.v, [rd.w])
    else
      // Int: representable when the signed reading is in range of the target.
      if (low == toS(rd.w, rd.v)) numRep(low) else errRepN("err:ValueUnrepresentable", rd.v, [rd.w])
  }

  pure def constant(op: str, w: int): int =
    if (op == "one" or op == "s_one") 1
    else if (op == "all_set" or op == "umax") umax(w)
    else if (op == "smin") smin(w)
    else if (op == "smax") smax(w)
    else 0

  pure def parse(radix: int, t: List[int]): Rep =
    if (parseable(radix, t)) numRep(parseValue(radix, t))
    else if (t.length() == 0 or t[0] == UNDERSCORE or t[t.length() - 1] == UNDERSCORE)
      errRepN("err:InvalidStringRepr", radix, [])
    else errRepN("err:InvalidStringRepr", radix, [firstBad(radix, t), t[firstBad(radix, t)]])

  /// Deserialization of width k and 64-bit digits txt.
  pure def deserialize(c: Call, rd: Reg, rs: Reg): Out =
    if (c.k == 0 or c.txt.length() != digitCount(c.k)) say(rd, rs, errRep("err:Serde", []))
    else if (valueOfDigits(c.txt) < 2^c.k) updW(c.k, valueOfDigits(c.txt), rs)
    else
      // Bits beyond the width: the input may be refused, or those bits ignored.
      say(rd, rs, { t: "lenient", n: valueOfDigits(c.txt) % 2^c.k, l: [c.k] })

  pure def exec(c: Call, rd: Reg, rs: Reg): Out =
    if (RING2.contains(c.op) or BIT2.contains(c.op))
      if (rd.w != rs.w) mismatch(rd, rs) else upd(rd, rs, binary(c.op, rd.w, rd.v, rs.v))
    else if (DIV2.contains(c.op)) division(c, rd, rs)
    else if (UNARY.contains(c.op)) upd(rd, rs, unary(c.op, rd.w, rd.v))
    else if (BITPOS.contains(c.op)) bitpos(c, rd, rs)
    else if (SHIFT.contains(c.op)) shift(c, rd, rs)
    else if (CAST.contains(c.op)) cast(c, rd, rs)
    else if (MOVE.contains(c.op)) move(c, rd, rs)
    else if (ORDER.contains(c.op)) order(c, rd, rs)
    else if (CMP.contains(c.op)) cmp(c, rd, rs)
    else if (PRED.contains(c.op)) say(rd, rs, boolRep(predicate(c.op, rd.w, rd.v)))
    else if (COUNT.contains(c.op)) say(rd, rs, numRep(count(c.op, rd.w, rd.v)))
    else if (TOPRIM.contains(c.op)) say(rd, rs, toPrim(c, rd))
    else if (c.op == "from_prim") updW(absI(c.k), wrap(absI(c.k), c.arg), rs)
    else if (c.op == "from_arr") updW(64 * c.k, wrap(64 * c.k, c.arg), rs)
    else if (c.op == "s_one" and c.k == 1) say(rd, rs, { t: "opt", n: 0, l: [] })
    else if (CONSTS.contains(c.op)) updW(c.k, constant(c.op, c.k), rs)
    else if (c.op == "parse") say(rd, rs, parse(c.k, c.txt))
    else if (c.op == "fmt_bin") say(rd, rs, { t: "text", n: 0, l: formatPow2(rd.w, rd.v, 1, false) })
    // The crate offers octal output of zero only: n = 1 says that the text may be
    // missing altogether.
    else if (c.op == "fmt_oct") say(rd, rs, { t: "text", n: if (rd.v == 0) 0 else 1, l: formatPow2(rd.w, rd.v, 3, false) })
    else if (c.op == "fmt_lhex") say(rd, rs, { t: "text", n: 0, l: formatPow2(rd.w, rd.v, 4, false) })
    else if (c.op == "fmt_uhex") say(rd, rs, { t: "text", n: 0, l: formatPow2(rd.w, rd.v, 4, true) })
    else if (c.op == "ser") say(rd, rs, { t: "digits", n: rd.w, l: digitsOf(rd.w, rd.v) })
    else if (c.op == "de") deserialize(c, rd, rs)
    // Input of the wrong shape (k says how it is wrong) is refused.
    else if (c.op == "de_shape") say(rd, rs, errRep("err:Serde", []))
    // The generator's output stream is `arg`, least significant 64 bits first; the
    // reply is the number of outputs taken, where the next draw goes on.
    else if (c.op == "random") { ...updW(c.k, wrap(c.k, c.arg), rs), rep: numRep(digitCount(c.k)) }
    else if (c.op == "randomize") { ...upd(rd, rs, wrap(rd.w, c.arg)), rep: numRep(digitCount(rd.w)) }
    else if (c.op == "bitwidth")
      say(rd, rs, if (c.k == 0) errRep("err:InvalidBitWidth", [0]) else numRep(c.k))
    else if (c.op == "radix")
      say(rd, rs, if (c.k < 2 or c.k > 36) errRep("err:InvalidRadix", [c.k]) else numRep(c.k))
    else say(rd, rs, UNIT)

  // ---------------------------------------------------------------- machine
  var regs: List[Reg]
  /// Registers given fresh contents by the environment just before the call.
  var loads: List[{ i: int, w: int, v: int }]
  var call: Call
  var rep: Rep

  pure val NOP: Call = { op: "nop", d: 0, s: 1, k: 0, arg: 0, txt: [] }

  action init = all {
    regs' = [{ w: 1, v: 0 }, { w: 64, v: 0 }, { w: 65, v: 0 }],
    loads' = [{ i: 0, w: 1, v: 0 }, { i: 1, w: 64, v: 0 }, { i: 2, w: 65, v: 0 }],
    call' = NOP,
    rep' = UNIT,
  }

  pure def loaded(rs: List[Reg], ls: List[{ i: int, w: int, v: int }]): List[Reg] =
    ls.foldl(rs, (acc, l) => acc.replaceAt(l.i, { w: l.w, v: l.v }))

  /// The environment writes some registers, then one API call happens.
  action invoke(ls: List[{ i: int, w: int, v: int }], c: Call): bool = {
    val pre = loaded(regs, ls)
    val out = exec(c, pre[c.d], pre[c.s])
    all {
      c.d != c.s,
      regs' = pre.replaceAt(c.d, out.d).replaceAt(c.s, out.s),
      loads' = ls,
      call' = c,
      rep' = out.rep,
    }
  }

  // ---------------------------------------------------------------- invariants
  /// Every register always holds a word of its width.
  val TypeOK = range(0, regs.length()).foldl(true, (ok, i) => ok and isWord(regs[i].w, regs[i].v))
  /// Replies are in the range of their kind.
  val ReplyOK = and {
    (rep.t == "bool") implies (rep.n == 0 or rep.n == 1),
    (rep.t == "ord") implies (-1 <= rep.n and rep.n <= 1),
    isErr(rep) implies (call.op != "zresize" and call.op != "sresize" and call.op != "assign"),
  }
}
