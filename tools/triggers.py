#!/usr/bin/env python3
"""How often the generated behaviours meet rare conditions (an aid; no check
uses it): per property and call, the number of steps on which a condition that
a defect might hinge on holds.

    triggers.py DIR/Cxx...    with the behaviours of `mutate.py traces`
"""
import glob, json, os, sys
sys.set_int_max_str_digits(0)
M = 2**64 - 1


def n(x):
    return int(x["#bigint"]) if isinstance(x, dict) else x


def ds(w, v):
    r = []
    for _ in range((w + 63) // 64):
        r.append(v & M)
        v >>= 64
    return r


def sd(d):
    k = len(d)
    while k > 1 and d[k - 1] == 0:
        k -= 1
    return k


ONE = {
    "w%64==0,len>=3": lambda w, v, d: w % 64 == 0 and len(d) >= 3,
    "w%64==1,len>=3": lambda w, v, d: w % 64 == 1 and len(d) >= 3,
    "w%64==63,msb": lambda w, v, d: w % 64 == 63 and v >> (w - 1),
    "w==65,msb": lambda w, v, d: w == 65 and v >> 64,
    "w==1": lambda w, v, d: w == 1,
    "w==64,top2": lambda w, v, d: w == 64 and v >> 62 == 2,
    "w==128": lambda w, v, d: w == 128,
    "w>1024": lambda w, v, d: w > 1024,
    "w>2048": lambda w, v, d: w > 2048,
    "w>4096": lambda w, v, d: w > 4096,
    "w>8192": lambda w, v, d: w > 8192,
    "len==7": lambda w, v, d: len(d) == 7,
    "len==17": lambda w, v, d: len(d) == 17,
    "len==33": lambda w, v, d: len(d) == 33,
    "len==4,mid0": lambda w, v, d: len(d) == 4 and d[1] == 0 and d[0] and d[3],
    "len>=3,all equal": lambda w, v, d: len(d) >= 3 and w % 64 == 0 and len(set(d)) == 1 and v,
    "d0==0,d1==MAX": lambda w, v, d: len(d) >= 3 and d[0] == 0 and d[1] == M,
    "d0==MAX,d1==MAX,d2!=MAX": lambda w, v, d: len(d) >= 3 and d[0] == M and d[1] == M and d[2] != M,
    "top digit==1,len>=3": lambda w, v, d: len(d) >= 3 and d[-1] == 1,
    "one zero bit": lambda w, v, d: w > 2 and bin(v).count("1") == w - 1,
    "one set bit": lambda w, v, d: w > 66 and bin(v).count("1") == 1,
    "min": lambda w, v, d: w > 1 and v == 1 << (w - 1),
    "min+1": lambda w, v, d: w > 2 and v == (1 << (w - 1)) + 1,
    "min,w%64==0,w>64": lambda w, v, d: v == 1 << (w - 1) and w % 64 == 0 and w > 64,
    "max": lambda w, v, d: w > 1 and v == (1 << (w - 1)) - 1,
    "ones": lambda w, v, d: v == (1 << w) - 1,
    "ones,w>64,w%64!=0": lambda w, v, d: v == (1 << w) - 1 and w > 64 and w % 64,
    "zero,w>128": lambda w, v, d: v == 0 and w > 128,
    "tz>=128": lambda w, v, d: v and v & ((1 << 128) - 1) == 0,
    "tz==64": lambda w, v, d: v and v & M == 0 and v >> 64 & 1,
    "lz>=128,len>=4": lambda w, v, d: len(d) >= 4 and v and sd(d) <= len(d) - 2,
    "sd==2 of 5+": lambda w, v, d: len(d) >= 5 and sd(d) == 2,
    "d1==2^63": lambda w, v, d: len(d) >= 2 and d[1] == 1 << 63,
    "v==2^32": lambda w, v, d: v == 1 << 32,
    "v==2^64": lambda w, v, d: v == 1 << 64,
    "v==2^64-1,w>64": lambda w, v, d: v == M and w > 64,
    "v<2^32,w>64": lambda w, v, d: 1 < v < 1 << 32 and w > 64,
    "neg small": lambda w, v, d: w > 70 and (1 << w) - 100 < v < (1 << w),
}
TWO = {
    "equal": lambda w, a, b, x, y: a == b,
    "equal,len>=3": lambda w, a, b, x, y: a == b and len(x) >= 3 and a,
    "y==0": lambda w, a, b, x, y: b == 0,
    "y==1": lambda w, a, b, x, y: b == 1,
    "y==-1": lambda w, a, b, x, y: b == (1 << w) - 1,
    "x==min,y==-1": lambda w, a, b, x, y: b == (1 << w) - 1 and a == 1 << (w - 1) and w > 64,
    "both min": lambda w, a, b, x, y: a == b == 1 << (w - 1),
    "complement": lambda w, a, b, x, y: a ^ b == (1 << w) - 1 and w > 64,
    "negation": lambda w, a, b, x, y: (a + b) % (1 << w) == 0 and a and w > 64,
    "same top digit": lambda w, a, b, x, y: len(x) >= 3 and x[-1] == y[-1] and a != b,
    "differ in d0 only": lambda w, a, b, x, y: len(x) >= 3 and x[1:] == y[1:] and x[0] != y[0],
    "differ in d1 only": lambda w, a, b, x, y: len(x) >= 3 and x[2:] == y[2:] and x[0] == y[0] and x[1] != y[1],
    "signs differ": lambda w, a, b, x, y: a >> (w - 1) != b >> (w - 1),
    "both neg": lambda w, a, b, x, y: a >> (w - 1) and b >> (w - 1),
    "long carry": lambda w, a, b, x, y: len(x) >= 4 and any(((a % (1 << 64 * i)) + (b % (1 << 64 * i))) >> 64 * i and x[i] ^ y[i] == M and ((x[i + 1] ^ y[i + 1]) == M) for i in range(1, len(x) - 2)),
    "long borrow": lambda w, a, b, x, y: len(x) >= 4 and any((a % (1 << 64 * i)) < (b % (1 << 64 * i)) and x[i] == y[i] and x[i + 1] == y[i + 1] for i in range(1, len(x) - 2)),
    "y one digit,x long": lambda w, a, b, x, y: sd(x) >= 4 and sd(y) == 1 and b,
    "y half digit,x long": lambda w, a, b, x, y: sd(x) >= 4 and 0 < b < 1 << 32,
    "y two digits,x long": lambda w, a, b, x, y: sd(x) >= 5 and sd(y) == 2,
    "y one more digit": lambda w, a, b, x, y: sd(y) == sd(x) + 1 and a,
    "x multiple of y": lambda w, a, b, x, y: b > 1 and a > b and a % b == 0 and sd(y) >= 2,
    "x==y*q-1": lambda w, a, b, x, y: b > 1 and a > b and a % b == b - 1 and sd(y) >= 2,
    "quotient 2^64-1": lambda w, a, b, x, y: b and a // b == M,
    "quotient 2^64": lambda w, a, b, x, y: b and a // b == 1 << 64,
    "y power of 2,>64": lambda w, a, b, x, y: b > M and b & (b - 1) == 0,
    "product just overflows": lambda w, a, b, x, y: (a * b).bit_length() == w + 1,
    "product fills": lambda w, a, b, x, y: (a * b).bit_length() == w and w > 64,
    "y subset of x": lambda w, a, b, x, y: a & b == b and b and a != b,
}
K = {
    "k==0": lambda w, k: k == 0,
    "k==w-1": lambda w, k: k == w - 1,
    "k==w": lambda w, k: k == w,
    "k==w+1": lambda w, k: k == w + 1,
    "k huge": lambda w, k: k > 1 << 31,
    "k==63": lambda w, k: k == 63 and w > 64,
    "k==64": lambda w, k: k == 64 and w > 64,
    "k==65": lambda w, k: k == 65 and w > 65,
    "k==128": lambda w, k: k == 128 and w > 128,
    "k%64==0,k>128": lambda w, k: k % 64 == 0 and 128 < k < w,
    "k in top digit": lambda w, k: w > 64 and (w - 1) // 64 == k // 64 and k < w,
    "k>1024": lambda w, k: 1024 < k < w,
}


def main():
    for d in sys.argv[1:]:
        p = os.path.basename(d.rstrip("/"))
        cnt, tot = {}, {}
        for f in sorted(glob.glob(d + "/*.itf.json")):
            st = json.load(open(f))["states"]
            for a, b in zip(st, st[1:]):
                c = b["call"]
                op = c["op"]
                regs = [(n(r["w"]), n(r["v"])) for r in a["regs"]]
                for l in b["loads"]:
                    regs[n(l["i"])] = (n(l["w"]), n(l["v"]))
                w, x = regs[n(c["d"])]
                w2, y = regs[n(c["s"])]
                k = n(c["k"])
                tot[op] = tot.get(op, 0) + 1
                dx = ds(w, x)
                t = cnt.setdefault(op, {})
                for name, f1 in ONE.items():
                    if f1(w, x, dx):
                        t[name] = t.get(name, 0) + 1
                if w == w2:
                    dy = ds(w, y)
                    for name, f2 in TWO.items():
                        if f2(w, x, y, dx, dy):
                            t[name] = t.get(name, 0) + 1
                for name, f3 in K.items():
                    if f3(w, k):
                        t[name] = t.get(name, 0) + 1
        json.dump(dict(total=tot, hits=cnt), open(os.path.join("/tmp/cov", p + ".json"), "w"))
        print(p, tot)


if __name__ == "__main__":
    main()
