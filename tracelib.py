"""Recordings of the crate as Quint modules (see spec/trace.qnt)."""
import json, os, re, sys

sys.set_int_max_str_digits(0)

HERE = os.path.dirname(os.path.abspath(__file__))


def _names(which):
    src = open(os.path.join(HERE, "spec", "trace.qnt")).read()
    body = re.search(r"pure val %s: List\[str\] = \[(.*?)\]" % which, src, re.S).group(1)
    return re.findall(r'"([^"]+)"', body)


def zig(x):
    return 2 * x if x >= 0 else -2 * x - 1


def pack(fs):
    out, at = 0, 0
    for f in [len(fs)] + fs:
        n = max(1, f.bit_length())
        out |= (n | f << 16) << at
        at += 16 + n
    return out


def encode(e, ops, reps):
    c, r = e["call"], e["rep"]
    t = reps.index(r["t"]) if r["t"] in reps else len(reps) - 1
    fs = [ops.index(c["op"]), int(c["d"]), int(c["s"]), zig(int(c["k"])), zig(int(c["arg"])), t, zig(int(r["n"]))]
    for x in e["regs"]:
        fs += [int(x["w"]), int(x["v"])]
    fs.append(len(e["loads"]))
    for l in e["loads"]:
        fs += [int(l["i"]), int(l["w"]), int(l["v"])]
    fs += [len(c["txt"])] + [int(x) for x in c["txt"]]
    fs += [len(r["l"])] + [int(x) for x in r["l"]]
    return pack(fs)


MODULE = """module recorded {
  import trace.* from "%s"
  pure val LOG: List[int] = [%s]
  var at: int
  var last: List[Reg]
  var good: bool
  var sharp: bool
  action begin = all { at' = 0, last' = START, good' = true, sharp' = true }
  action replay = {
    val e = decode(LOG[at])
    all {
      at < LOG.length(),
      good' = explained(last, e),
      // The check has teeth: the same event with a bit of a register or the
      // reply corrupted is not a step of the machine.
      sharp' = not(explained(last, corruptReg(e))) and not(explained(last, corruptReply(e))),
      last' = e.regs,
      at' = at + 1,
    }
  }
  val Explained = good
  val Sharp = sharp
}
"""


def module(events, spec="./trace"):
    ops, reps = _names("OPNAMES"), _names("REPNAMES")
    return MODULE % (spec, ",\n    ".join("0x%x" % encode(e, ops, reps) for e in events))


if __name__ == "__main__":
    import sys

    print(module([json.loads(l) for l in open(sys.argv[1])], sys.argv[2] if len(sys.argv) > 2 else "./trace"))
