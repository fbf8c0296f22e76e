// -*- mode: Bluespec; -*-
/// Design model of use from several threads.  A call is not atomic: it reads its
/// operands digit by digit, works on intermediate digits, and then replaces its
/// receiver digit by digit; other threads run in between.  Receivers are private,
/// operands may be shared and are only read.
///
/// Invariants: a call that is finished has the result that words.qnt gives for the
/// operands it was called with (`Alone`), whatever the schedule; shared words keep
/// their value (`Kept`).
///
/// `flaw` names a deliberate defect; "none" is the design.
module threads {
  import words.* from "./words"

  pure val THREADS = Set(0, 1)
  /// Words have two digits of D values each.
  pure val D = 4
  pure val W = 4
  pure val OPS = Set("add", "mul", "xor", "count")

  /// A call in progress: `got` digits read, `tmp` intermediate result, `put`
  /// digits written back.
  type Call = { at: str, op: str, s: int, got: List[int], tmp: List[int], put: int, want: int }
  type St = { shared: List[List[int]], regs: List[List[int]], calls: List[Call], scratch: List[int], memo: int }
  var st: St
  var flaw: str
  /// The shared words as they were.
  var first: List[List[int]]

  pure def val2(ds: List[int]): int = ds[0] + D * ds[1]
  pure def dig2(v: int): List[int] = [v % D, v / D]
  pure def result(op: str, x: int, y: int): int =
    if (op == "add") wAdd(W, x, y) else if (op == "mul") wMul(W, x, y) else if (op == "xor") wXor(W, x, y) else countOnes(W, y)
  pure val IDLE: Call = { at: "idle", op: "", s: 0, got: [], tmp: [], put: 0, want: 0 }

  action initWith(bug: str): bool = {
    nondet x = 0.to(2^W - 1).oneOf()
    nondet y = 0.to(2^W - 1).oneOf()
    nondet a = 0.to(2^W - 1).oneOf()
    nondet b = 0.to(2^W - 1).oneOf()
    all {
      st' = { shared: [dig2(x), dig2(y)], regs: [dig2(a), dig2(b)], calls: [IDLE, IDLE], scratch: [0, 0], memo: -1 },
      first' = [dig2(x), dig2(y)],
      flaw' = bug,
    }
  }
  action init = initWith("none")

  pure def setCall(s: St, t: int, c: Call): St = { ...s, calls: s.calls.replaceAt(t, c) }

  pure def begin(s: St, t: int, op: str, k: int): St =
    setCall(s, t, { ...IDLE, at: "read", op: op, s: k, want: result(op, val2(s.regs[t]), val2(s.shared[k])) })
  /// One digit of the operand.  "reader tidies up": a query rearranges the shared
  /// word while it reads and puts it back later.
  pure def readOne(s: St, bug: str, t: int): St = {
    val c = s.calls[t]
    val i = c.got.length()
    val d = { ...c, got: c.got.append(s.shared[c.s][i]), at: if (i == 1) "work" else "read" }
    val u = if (bug == "reader tidies up" and c.op == "count")
      { ...s, shared: s.shared.replaceAt(c.s, s.shared[c.s].replaceAt(i, 0)) } else s
    setCall(u, t, d)
  }
  /// The computation, into intermediate digits of its own.  "shared scratch": into
  /// digits that all calls have in common.  "remembered answer": a query uses what
  /// any query found last.
  pure def work(s: St, bug: str, t: int): St = {
    val c = s.calls[t]
    val r = result(c.op, val2(s.regs[t]), val2(c.got))
    val r2 = if (bug == "remembered answer" and c.op == "count" and s.memo >= 0) s.memo else r
    val u = if (bug == "reader tidies up" and c.op == "count") { ...s, shared: s.shared.replaceAt(c.s, c.got) } else s
    setCall({ ...u, scratch: if (bug == "shared scratch") dig2(r2) else u.scratch,
      memo: if (bug == "remembered answer" and c.op == "count") r2 else u.memo }, t, { ...c, at: "write", tmp: dig2(r2) })
  }
  pure def writeOne(s: St, bug: str, t: int): St = {
    val c = s.calls[t]
    val from = if (bug == "shared scratch") s.scratch else c.tmp
    val u = { ...s, regs: s.regs.replaceAt(t, s.regs[t].replaceAt(c.put, from[c.put])) }
    setCall(u, t, { ...c, put: c.put + 1, at: if (c.put == 1) "done" else "write" })
  }

  action go(s: St): bool = all { st' = s, flaw' = flaw, first' = first }
  action step = {
    nondet t = THREADS.oneOf()
    nondet op = OPS.oneOf()
    nondet k = Set(0, 1).oneOf()
    any {
      all { Set("idle", "done").contains(st.calls[t].at), go(begin(st, t, op, k)) },
      all { st.calls[t].at == "read", go(readOne(st, flaw, t)) },
      all { st.calls[t].at == "work", go(work(st, flaw, t)) },
      all { st.calls[t].at == "write", go(writeOne(st, flaw, t)) },
    }
  }
  pure def alone(s: St): bool = THREADS.forall(t => s.calls[t].at == "done" implies val2(s.regs[t]) == s.calls[t].want)
  val Alone = alone(st)
  /// Between calls nothing has happened to what is shared.
  pure def kept(s: St, f: List[List[int]]): bool =
    THREADS.forall(t => Set("idle", "done").contains(s.calls[t].at)) implies s.shared == f
  val Kept = kept(st, first)

  // ------------------------------------------------------------ every schedule
  /// One step of a thread with a call in progress.
  pure def advance(s: St, bug: str, t: int): St =
    if (s.calls[t].at == "read") readOne(s, bug, t)
    else if (s.calls[t].at == "work") work(s, bug, t)
    else if (s.calls[t].at == "write") writeOne(s, bug, t)
    else s
  /// All states two calls can end in, over all their schedules (five steps each).
  pure def ends(s: St, bug: str): Set[St] =
    range(0, 10).foldl(Set(s), (ss, i) => ss.map(x => THREADS.filter(t => x.calls[t].at != "done").map(t => advance(x, bug, t))
      .union(if (THREADS.forall(t => x.calls[t].at == "done")) Set(x) else Set())).flatten())
  pure def start(x: int, y: int, a: int, b: int): St =
    { shared: [dig2(x), dig2(y)], regs: [dig2(a), dig2(b)], calls: [IDLE, IDLE], scratch: [0, 0], memo: -1 }
  pure def holds(s: St, bug: str): bool =
    tuples(OPS, OPS, Set(0, 1)).forall(p =>
      ends(begin(begin(s, 0, p._1, 0), 1, p._2, p._3), bug).forall(e => alone(e) and kept(e, s.shared)))
  run C19SchedulesTest = assert(tuples(Set(1, 7, 15), Set(6, 10), Set(5, 15), Set(3, 8)).forall(v =>
    holds(start(v._1, v._2, v._3, v._4), "none")))
  run C19DefectsTest = assert(and {
    holds(start(7, 10, 5, 3), "none"),
    Set("shared scratch", "reader tidies up", "remembered answer").forall(f => not(holds(start(7, 10, 5, 3), f))),
  })
  /// However two calls are interleaved, they end in the same state.
  run C19ConfluenceTest = assert(tuples(OPS, OPS, Set(0, 1)).forall(p =>
    ends(begin(begin(start(7, 10, 5, 3), 0, p._1, 0), 1, p._2, p._3), "none").map(e => { regs: e.regs, shared: e.shared }).size() == 1))
}
