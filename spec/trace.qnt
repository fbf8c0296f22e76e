// -*- mode: Bluespec; -*-
/// Validation of histories recorded from the crate.
///
/// A recorded event says which registers were given fresh contents, which call
/// was made, what the caller saw and what the registers showed afterwards.  An
/// event is explained when the machine of apint.qnt can take the same step.
/// The runner generates a module that instantiates LOG with a recording.
module trace {
  import words.* from "./words"
  import apint.* from "./apint"
  export apint.*

  type Event = { ls: List[{ i: int, w: int, v: int }], c: Call, rep: Rep, regs: List[Reg] }

  /// May the crate show `got` where the machine replies `want`?
  pure def allowed(want: Rep, got: Rep): bool =
    if (want.t == "err:DivisionByZero|UnmatchingBitwidth")
      got.t == "err:DivisionByZero" or got.t == "err:UnmatchingBitwidth"
    else if (want.t == "err:UnmatchingBitwidth")
      got.t == want.t and (got.l == want.l or got.l == [want.l[1], want.l[0]])
    else if (want.t == "lenient") got.t == "err:Serde" or got.t == "unit"
    // A parsed value comes with a width of the crate's choosing.
    else if (want.t == "num" and got.l.length() == 1)
      got.t == "num" and got.n == want.n and want.n < 2^(got.l[0])
    else got == want

  pure def regsAfter(pre: List[Reg], e: Event, out: Out): List[Reg] =
    if (out.rep.t == "lenient" and e.rep.t == "unit")
      pre.replaceAt(e.c.d, { w: out.rep.l[0], v: out.rep.n })
    else pre.replaceAt(e.c.d, out.d).replaceAt(e.c.s, out.s)

  /// The event is a step of the machine from `before`.
  pure def explained(before: List[Reg], e: Event): bool = {
    val pre = loaded(before, e.ls)
    val out = exec(e.c, pre[e.c.d], pre[e.c.s])
    and {
      e.c.d != e.c.s,
      allowed(out.rep, e.rep),
      e.regs == regsAfter(pre, e, out),
    }
  }
  /// The event with one bit of one register flipped, and with another reply.
  pure def corruptReg(e: Event): Event = {
    val i = (e.c.d + e.regs[0].v + e.regs[1].v) % 3
    val r = e.regs[i]
    e.with("regs", e.regs.replaceAt(i, { w: r.w, v: flipBit(r.v, e.regs[2].v % r.w) }))
  }
  pure def corruptReply(e: Event): Event =
    e.with("rep", if (e.rep.t == "bool") e.rep.with("n", 1 - e.rep.n)
      else if (e.rep.t == "num") e.rep.with("n", e.rep.n + 1)
      else e.rep.with("t", "panic"))

  pure val START: List[Reg] = [{ w: 1, v: 0 }, { w: 1, v: 0 }, { w: 1, v: 0 }]

  // ------------------------------------------------------------ encoding
  // A recording reaches the model as one integer per event (a literal of
  // nested records would take the type checker minutes): a sequence of fields,
  // each a 16-bit length and as many bits; a field that may be negative is
  // 2x or -2x-1.
  pure val OPNAMES: List[str] = ["add", "sub", "mul", "and", "or", "xor", "udiv", "urem", "sdiv", "srem", "udivrem", "uremdiv",
    "sdivrem", "sremdiv", "neg", "inc", "dec", "abs", "not", "set_all", "unset_all", "flip_all", "set_msb", "unset_msb",
    "flip_msb", "get_bit", "set_bit", "unset_bit", "flip_bit", "shl", "lshr", "ashr", "trunc", "zext", "sext", "zresize",
    "sresize", "assign", "strict_assign", "clone", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge", "eq", "ucmp",
    "scmp", "is_zero", "is_one", "s_is_one", "is_even", "is_odd", "msb", "lsb", "is_all_set", "is_all_unset", "is_positive",
    "is_negative", "signum", "count_ones", "count_zeros", "leading_zeros", "trailing_zeros", "width", "resize_to", "try_to",
    "s_try_to", "from_prim", "from_arr", "zero", "one", "s_one", "all_set", "all_unset", "umin", "umax", "smin", "smax",
    "parse", "fmt_bin", "fmt_lhex", "fmt_uhex", "ser", "de", "de_shape", "random", "randomize", "bitwidth", "radix"]
  pure val REPNAMES: List[str] = ["unit", "bool", "num", "none", "ord", "text", "digits", "opt", "err:InvalidRadix",
    "err:InvalidStringRepr", "err:InvalidBitAccess", "err:InvalidShiftAmount", "err:ValueUnrepresentable",
    "err:UnmatchingBitwidth", "err:InvalidBitWidth", "err:TruncationBitWidthTooLarge", "err:ExtensionBitWidthTooSmall",
    "err:DivisionByZero", "err:Serde", "panic", "something else"]

  pure def unzig(x: int): int = if (x % 2 == 0) x / 2 else -(x / 2) - 1
  /// The fields of an encoded event; the first says how many follow.
  pure def unpackFields(x: int): List[int] = {
    val n = (x / 2^16) % 2^(x % 2^16)
    range(0, n).foldl({ a: x / 2^(16 + x % 2^16), r: [] }, (st, i) => {
      val len = st.a % 2^16
      { a: st.a / 2^(16 + len), r: st.r.append((st.a / 2^16) % 2^len) }
    }).r
  }
  pure def decode(x: int): Event = {
    val f = unpackFields(x)
    val nl = f[13]
    val t0 = 14 + 3 * nl
    val nt = f[t0]
    val r0 = t0 + 1 + nt
    {
      ls: range(0, nl).foldl([], (acc, j) => acc.append({ i: f[14 + 3 * j], w: f[15 + 3 * j], v: f[16 + 3 * j] })),
      c: { op: OPNAMES[f[0]], d: f[1], s: f[2], k: unzig(f[3]), arg: unzig(f[4]), txt: f.slice(t0 + 1, r0) },
      rep: { t: REPNAMES[f[5]], n: unzig(f[6]), l: f.slice(r0 + 1, r0 + 1 + f[r0]) },
      regs: [{ w: f[7], v: f[8] }, { w: f[9], v: f[10] }, { w: f[11], v: f[12] }],
    }
  }
}
