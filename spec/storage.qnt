// -*- mode: Bluespec; -*-
/// Design model of storage: integers of one digit keep it inline, longer ones
/// own a block of exactly the digits they need.  Cloning, assigning, changing
/// the width, failing and dropping are the steps of the crate, with the moment
/// a block is obtained, written and released made explicit.
///
/// Invariants: every block belongs to exactly one value (`Owned`), has the size
/// its owner will release it with (`Sized`), nothing is released twice or with
/// another size (`NoFault`), and what a value reads is what the machine of
/// apint.qnt says it is, whatever happened to the others (`Refines`).
///
/// `defect` names a deliberate defect; "none" is the design.  The tests show
/// that each defect breaks an invariant, so the invariants are worth something.
module storage {
  import words.* from "./words"

  pure val B = 2
  pure val MAXW = 6
  pure val SLOTS = Set(0, 1, 2)
  pure val NOBLOCK = -1

  /// A variable: width, inline digit or block.
  type Slot = { up: bool, w: int, inl: int, ptr: int }
  type Block = { live: bool, ds: List[int] }
  type St = { heap: List[Block], slots: List[Slot], faults: int, ghost: List[{ w: int, v: int }] }

  var st: St
  var defect: str

  pure def lenOf(w: int): int = (w + B - 1) / B
  pure def isExt(w: int): bool = lenOf(w) > 1
  pure def digitsB(w: int, v: int): List[int] =
    range(0, lenOf(w)).foldl({ a: v, r: [] }, (s, i) => { a: s.a / 2^B, r: s.r.append(s.a % 2^B) }).r
  pure def valueB(ds: List[int]): int = ds.foldl({ p: 1, r: 0 }, (s, d) => { p: s.p * 2^B, r: s.r + s.p * d }).r

  // ------------------------------------------------------------ memory
  /// A block that was released is handed out again at the first opportunity,
  /// with whatever length is asked for: the worst an allocator can do to
  /// someone who still holds it.
  pure def alloc(s: St, ds: List[int]): { s: St, p: int } = {
    val dead = s.heap.indices().filter(p => not(s.heap[p].live))
    val p = dead.fold(s.heap.length(), (m, q) => if (q < m) q else m)
    val b = { live: true, ds: ds }
    { s: { ...s, heap: if (p == s.heap.length()) s.heap.append(b) else s.heap.replaceAt(p, b) }, p: p }
  }
  /// Release a block, believed to have n digits.
  pure def release(s: St, p: int, n: int): St =
    if (p < 0) { ...s, faults: s.faults + 1 }
    else if (not(s.heap[p].live) or s.heap[p].ds.length() != n) { ...s, faults: s.faults + 1 }
    else { ...s, heap: s.heap.replaceAt(p, { live: false, ds: [] }) }
  pure def dropDigits(s: St, i: int): St = {
    val x = s.slots[i]
    if (isExt(x.w)) release(s, x.ptr, lenOf(x.w)) else s
  }
  pure def setSlot(s: St, i: int, x: Slot): St = { ...s, slots: s.slots.replaceAt(i, x) }
  /// The digits a value reads.
  pure def readS(s: St, i: int): List[int] = {
    val x = s.slots[i]
    if (isExt(x.w)) {
      val ds = s.heap[x.ptr].ds
      range(0, lenOf(x.w)).foldl([], (l, i) => l.append(if (i < ds.length()) ds[i] else 0))
    } else [x.inl]
  }
  /// Overwrite the first digits of a value in place.
  pure def write(s: St, i: int, ds: List[int]): St = {
    val x = s.slots[i]
    if (isExt(x.w)) {
      val old = s.heap[x.ptr].ds
      { ...s, heap: s.heap.replaceAt(x.ptr, { live: s.heap[x.ptr].live,
        ds: if (ds.length() < old.length()) ds.concat(old.slice(ds.length(), old.length())) else ds }) }
    } else setSlot(s, i, { ...x, inl: ds[0] })
  }
  /// A fresh value of these digits.
  pure def fromDigits(s: St, w: int, ds: List[int]): { s: St, x: Slot } =
    if (isExt(w)) {
      val a = alloc(s, ds)
      { s: a.s, x: { up: true, w: w, inl: 0, ptr: a.p } }
    } else { s: s, x: { up: true, w: w, inl: ds[0], ptr: NOBLOCK } }
  /// Put a fresh value into a variable, dropping what was there.
  pure def become(s: St, i: int, f: { s: St, x: Slot }): St =
    setSlot(if (s.slots[i].up) dropDigits(f.s, i) else f.s, i, f.x)

  pure def say(s: St, i: int, w: int, v: int): St = { ...s, ghost: s.ghost.replaceAt(i, { w: w, v: v }) }

  pure val NOTHING: Slot = { up: false, w: 1, inl: 0, ptr: NOBLOCK }

  // ------------------------------------------------------------ operations
  pure def opNew(s: St, i: int, w: int, v: int): St =
    say(become(s, i, fromDigits(s, w, digitsB(w, v))), i, w, v)
  pure def opClone(s: St, bug: str, i: int, j: int): St = {
    val x = s.slots[j]
    val f = if (bug == "clone shares" and isExt(x.w)) { s: s, x: x } else fromDigits(s, x.w, readS(s, j))
    say(become(s, i, f), i, s.ghost[j].w, s.ghost[j].v)
  }
  /// Assignment: same number of digits, copy in place; otherwise drop, then take
  /// a copy.
  pure def opAssign(s: St, bug: str, i: int, j: int): St = {
    val x = s.slots[i]
    val y = s.slots[j]
    val inPlace = if (bug == "assign reuses longer block") isExt(x.w) == isExt(y.w) and lenOf(x.w) >= lenOf(y.w)
      else lenOf(x.w) == lenOf(y.w)
    val t = if (inPlace) { val u = write(s, i, readS(s, j)) setSlot(u, i, { ...u.slots[i], w: y.w }) }
      else {
        val dropped = if (bug == "assign forgets block") s else dropDigits(s, i)
        val f = if (bug == "assign aliases" and isExt(y.w)) { s: dropped, x: y } else fromDigits(dropped, y.w, readS(s, j))
        setSlot(f.s, i, f.x)
      }
    say(t, i, s.ghost[j].w, s.ghost[j].v)
  }
  /// Truncation: same number of digits, mask the top one in place; otherwise
  /// build a shorter copy and replace.
  pure def opTrunc(s: St, bug: str, i: int, t: int): St = {
    val x = s.slots[i]
    val ds = readS(s, i)
    val cut = valueB(ds.slice(0, lenOf(t))) % 2^t
    val r = if (t == x.w) s
      else if (lenOf(t) == lenOf(x.w)) { val u = write(s, i, digitsB(t, cut)) setSlot(u, i, { ...u.slots[i], w: t }) }
      else if (bug == "truncation keeps block" and isExt(t)) { val u = write(s, i, digitsB(t, cut)) setSlot(u, i, { ...u.slots[i], w: t }) }
      else become(s, i, fromDigits(s, t, digitsB(t, cut)))
    say(r, i, t, truncTo(s.ghost[i].v, t))
  }
  /// Extension by sign (or zero): in place within the same number of digits,
  /// otherwise a longer copy.  The crate fills the top digit of the original
  /// with sign bits first, then copies, then replaces.
  pure def opExt(s: St, bug: str, i: int, t: int, signed: bool): St = {
    val x = s.slots[i]
    val v = valueB(readS(s, i))
    val neg = signed and v >= 2^(x.w - 1)
    val e = if (neg) v + 2^t - 2^x.w else v
    val r = if (t == x.w) s
      else if (lenOf(t) == lenOf(x.w)) { val u = write(s, i, digitsB(t, e)) setSlot(u, i, { ...u.slots[i], w: t }) }
      else if (bug == "extension widens first") become(s, i, fromDigits(setSlot(s, i, { ...x, w: t }), t, digitsB(t, e)))
      else become(s, i, fromDigits(s, t, digitsB(t, e)))
    say(r, i, t, if (signed) sextTo(s.ghost[i].w, s.ghost[i].v, t) else s.ghost[i].v)
  }
  /// Any computation in place.
  pure def opFlip(s: St, i: int): St = {
    val w = s.slots[i].w
    say(write(s, i, digitsB(w, 2^w - 1 - valueB(readS(s, i)))), i, w, wNot(w, s.ghost[i].v))
  }
  /// A consuming call that fails takes its operand with it.
  pure def opConsume(s: St, bug: str, i: int): St = {
    val t = if (bug == "failure forgets operand") s else dropDigits(s, i)
    say(setSlot(t, i, NOTHING), i, 1, 0)
  }
  pure def opDrop(s: St, bug: str, i: int): St = {
    val t = dropDigits(s, i)
    val u = if (bug == "drop twice") dropDigits(t, i) else t
    say(setSlot(u, i, NOTHING), i, 1, 0)
  }

  // ------------------------------------------------------------ machine
  pure val EMPTY: St = { heap: [], faults: 0,
    slots: range(0, 3).foldl([], (l, i) => l.append(NOTHING)),
    ghost: range(0, 3).foldl([], (l, i) => l.append({ w: 1, v: 0 })) }
  action initWith(bug: str): bool = all { st' = EMPTY, defect' = bug }
  action init = initWith("none")
  action go(s: St): bool = all { st' = s, defect' = defect }

  action step = {
    nondet i = SLOTS.oneOf()
    any {
      { nondet t = 1.to(MAXW).oneOf()
        nondet v = 0.to(2^MAXW - 1).oneOf()
        all { v < 2^t, go(opNew(st, i, t, v)) } },
      { nondet j = SLOTS.oneOf()
        all { i != j, st.slots[j].up, go(opClone(st, defect, i, j)) } },
      { nondet j = SLOTS.oneOf()
        all { i != j, st.slots[i].up, st.slots[j].up, go(opAssign(st, defect, i, j)) } },
      { nondet t = 1.to(MAXW).oneOf()
        all { st.slots[i].up, t <= st.slots[i].w, go(opTrunc(st, defect, i, t)) } },
      { nondet t = 1.to(MAXW).oneOf()
        nondet signed = Set(true, false).oneOf()
        all { st.slots[i].up, t >= st.slots[i].w, go(opExt(st, defect, i, t, signed)) } },
      all { st.slots[i].up, go(opFlip(st, i)) },
      all { st.slots[i].up, go(opConsume(st, defect, i)) },
      all { st.slots[i].up, go(opDrop(st, defect, i)) },
      // Calls that fail in place do nothing; neither does reading.
      go(st),
    }
  }

  pure def owners(s: St, p: int): Set[int] = SLOTS.filter(i => s.slots[i].up and isExt(s.slots[i].w) and s.slots[i].ptr == p)
  pure def owned(s: St): bool = s.heap.indices().forall(p => owners(s, p).size() == b2i(s.heap[p].live))
  pure def sized(s: St): bool = SLOTS.forall(i =>
    (s.slots[i].up and isExt(s.slots[i].w)) implies s.heap[s.slots[i].ptr].ds.length() == lenOf(s.slots[i].w))
  pure def refines(s: St): bool = SLOTS.forall(i => s.slots[i].up implies and {
    s.slots[i].w == s.ghost[i].w,
    valueB(readS(s, i)) == s.ghost[i].v,
    isWord(s.ghost[i].w, s.ghost[i].v),
  })
  val Owned = owned(st)
  val Sized = sized(st)
  val NoFault = st.faults == 0
  val Refines = refines(st)
  pure def good(s: St): bool = owned(s) and sized(s) and refines(s) and s.faults == 0

  // ------------------------------------------------------------ exhaustive pairs
  pure val VALUES: Set[{ w: int, v: int }] = tuples(1.to(MAXW), Set(0, 1, 42, 63)).map(p => { w: p._1, v: p._2 % 2^p._1 })
  /// All operations on variable 0 with variable 1 as the other operand.
  pure def results(s: St, bug: str): Set[St] =
    Set(opClone(s, bug, 0, 1), opAssign(s, bug, 0, 1), opFlip(s, 0), opConsume(s, bug, 0), opDrop(s, bug, 0))
      .union(1.to(s.slots[0].w).map(t => opTrunc(s, bug, 0, t)))
      .union(s.slots[0].w.to(MAXW).map(t => opExt(s, bug, 0, t, true)))
      .union(s.slots[0].w.to(MAXW).map(t => opExt(s, bug, 0, t, false)))
  pure val PAIRS: Set[St] = tuples(VALUES, VALUES).map(p => opNew(opNew(EMPTY, 0, p._1.w, p._1.v), 1, p._2.w, p._2.v))
  /// From every pair of values every operation, then every operation again
  /// with the roles of the variables kept, then everything dropped.
  pure def finish(s: St, bug: str): St = SLOTS.fold(s, (t, i) => if (t.slots[i].up) opDrop(t, bug, i) else t)
  run C18OneStepTest = assert(PAIRS.forall(s => results(s, "none").forall(t => good(t) and good(finish(t, "none")))))
  pure def probe(w: int, x: int): St = opNew(opNew(EMPTY, 0, w, 2^w - 2), 1, x, 2^x - 1)
  pure val PROBES: Set[St] = tuples(1.to(MAXW), 1.to(MAXW)).map(p => probe(p._1, p._2))
  run C18TwoStepTest = assert(PROBES.forall(s => results(s, "none").forall(t =>
    (not(t.slots[0].up)) or results(t, "none").forall(u => good(u) and good(finish(u, "none"))))))
  /// Each defect shows: some operation or the final drop breaks an invariant.
  pure def caught(bug: str): bool = PROBES.exists(s => results(s, bug).exists(t => not(good(t)) or not(good(finish(t, bug)))))
  run C18DefectsTest = assert(and {
    not(caught("none")),
    Set("clone shares", "assign reuses longer block", "assign forgets block", "assign aliases", "truncation keeps block",
      "extension widens first", "failure forgets operand", "drop twice").forall(b => caught(b)),
  })
}
