"""Per property: how behaviours are compared, which calls a recording uses, and
which calls a run must have exercised to mean anything."""

RING = ["add", "sub", "mul", "neg", "inc", "dec", "abs"]
UDIV = ["udiv", "urem", "udivrem", "uremdiv"]
SDIV = ["sdiv", "srem", "sdivrem", "sremdiv"]
SHIFT = ["shl", "lshr", "ashr"]
BITS = ["and", "or", "xor", "not", "set_all", "unset_all", "flip_all", "set_msb", "unset_msb", "flip_msb",
        "get_bit", "set_bit", "unset_bit", "flip_bit"]
CAST = ["trunc", "zext", "sext", "zresize", "sresize"]
ORDER = ["eq", "ucmp", "scmp", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"]
PRIM = ["resize_to", "try_to", "s_try_to", "from_prim", "from_arr"]
QUERY = ["is_zero", "is_one", "s_is_one", "is_even", "is_odd", "msb", "lsb", "is_all_set", "is_all_unset", "is_positive",
         "is_negative", "signum", "count_ones", "count_zeros", "leading_zeros", "trailing_zeros", "width"]
CONST = ["zero", "one", "s_one", "all_set", "all_unset", "umin", "umax", "smin", "smax", "bitwidth", "radix"]


def spec(ops, **kw):
    return dict(dict(mode="spec", ops=ops, need=ops), **kw)


PROPS = {
    "C01": spec(RING, sweep=151000),
    "C02": spec(UDIV, sweep=50200),
    "C03": spec(SDIV, sweep=50200),
    "C04": spec(SHIFT, sweep=60000),
    "C05": spec(BITS, sweep=120000),
    "C06": spec(CAST, sweep=60000),
    "C07": spec(ORDER, sweep=138000),
    "C08": dict(mode="canon", ops=None, need=RING + UDIV + SDIV + SHIFT + CAST, sweep=60000),
    "C09": spec(RING[:3] + UDIV + SDIV + SHIFT + ["get_bit", "set_bit", "trunc", "zext", "sext", "strict_assign", "ult",
                                                 "slt", "try_to", "s_try_to", "bitwidth", "radix"], sweep=40000),
    "C10": spec(PRIM, need=PRIM, sweep=60000),
    "C11": spec(["parse"], sweep=40000),
    "C12": spec(["fmt_bin", "fmt_lhex", "fmt_uhex"], need=["fmt_bin", "fmt_oct", "fmt_lhex", "fmt_uhex"], sweep=33600, quick=(6000, 8000)),
    "C13": spec(["ser", "de", "de_shape"], sweep=40000),
    "C14": dict(mode="agree", ops=None, need=RING[:3] + ["udiv", "srem", "and", "shl", "trunc", "ult", "try_to", "eq"],
                sweep=100000),
    "C15": spec(QUERY, sweep=143000),
    "C16": spec(CONST, sweep=10400),
    "C17": spec(["random", "randomize"], sweep=40000),
    "C18": dict(mode="own", ops=None, need=["clone", "assign", "strict_assign", "trunc", "zext", "add", "udivrem", "de"],
                sweep=40000),
    "C19": dict(mode="threads", ops=None, need=RING[:3] + ["udiv", "srem", "and", "shl", "trunc", "ult", "parse", "ser", "de", "fmt_lhex",
                                                           "random", "count_ones"], sweep=40000, quick=(6000, 9000)),
}

# Laws of the oracle and refinement by the digit-level design model.
for _k, _c in PROPS.items():
    _c["laws"] = ["laws"] + (["reach"] if _k == "C02" else ["digits"] if _k in ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C15", "C16", "C17") else ["storage"] if _k == "C18" else [])
PROPS["C19"]["laws"] = ["threads"]

# Steps to go through all combinations of extreme values (see check.qnt).
for _k, (_b, _u, _p) in {"C01": (3, 4, 0), "C02": (4, 0, 0), "C03": (4, 0, 0), "C04": (0, 0, 3), "C05": (3, 7, 4), "C07": (11, 0, 0),
                         "C08": (14, 11, 6), "C14": (22, 30, 7), "C15": (0, 17, 0), "C18": (14, 11, 4)}.items():
    PROPS[_k]["extreme"] = 1000 * _b + 100 * _u + 1300 * _p

# Steps on huge words.
for _k, _c in PROPS.items():
    _c["huge"] = {"C05": 84, "C11": 5, "C12": 6, "C13": 36, "C14": 100, "C15": 102}.get(_k, 72)

# Design models with states, simulated under their invariants.
PROPS["C18"]["models"] = [("storage", ["Owned", "Sized", "NoFault", "Refines"])]
PROPS["C19"]["models"] = [("threads", ["Alone", "Kept"])]

# Design models of which TLC visits every reachable state (thorough tier): constants
# per round, and the named defects, each of which must break an invariant.
PROPS["C18"]["exhaust"] = [("storage", ["Owned", "Sized", "NoFault", "Refines"],
                            [[("B", 1), ("MAXW", 3)], [("B", 2), ("MAXW", 6), ("SLOTS", "{0, 1}")]],
                            ["clone shares", "assign reuses longer block", "assign forgets block", "assign aliases", "truncation keeps block",
                             "extension widens first", "failure forgets operand", "drop twice"])]
PROPS["C19"]["exhaust"] = [("threads", ["Alone", "Kept"], [[("D", 2), ("W", 2)]],
                            ["shared scratch", "reader tidies up", "remembered answer"])]
