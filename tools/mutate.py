#!/usr/bin/env python3
"""Mutation testing of the checks (an aid; no check uses it).

    mutate.py traces [PID...]      generate the quick tier's behaviours once, under WORK
    mutate.py run HOURS [REGEX]    mutate /repo's sources in scratch copies; mutants that
                                   no behaviour kills go through the crate's tests;
                                   results in WORK/results.jsonl

The behaviours are those of the quick tier with VERIF_SEED=1, so a mutant
killed here by Cxx is one the quick check of Cxx reports.
"""
import glob, json, os, random, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
WORK = os.environ.get("MUT_WORK", "/tmp/mut")
WORKERS = int(os.environ.get("MUT_WORKERS", "5"))
PIDS = sorted(check.PROPS)


def traces(pids):
    jobs = []
    for p in pids:
        c = check.Check.__new__(check.Check)
        c.pid, c.out = p, os.path.join(WORK, "traces", p)
        shutil.rmtree(c.out, ignore_errors=True)
        os.makedirs(c.out)
        conf, base = check.PROPS[p], 100003
        nr, ns = conf.get("quick", (9000, 12000))
        for i in range(conf.get("quick_lanes", 10)):
            jobs.append((c, ("r%d" % i, "init0", "r" + p, nr, base + i)))
        for i in range(2):
            jobs.append((c, ("s%d" % i, "all { init, n' = %d }" % (2 + i), "s%s(%d)" % (p, check.STRIDE), ns, 1)))
        c.conf = conf
        jobs += [(c, a[:5]) for _, a in c.extremes(None)]
        jobs.append((c, ("h0", "init0", "h" + p, conf["huge"], 1)))
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: j[0].generate(*j[1]), jobs))


OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" < ", " > "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " % "), (r" % ", " / "),
       (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "), (r" && ", " || "),
       (r" \|\| ", " && "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \|= ", " &= "), (r" &= ", " |= "), (r" \^= ", " |= "),
       (r" <<= ", " >>= "), (r" >>= ", " <<= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.rev\(\)", ""),
       (r"!self", "self"), (r"\.\.=", ".."), (r"\bu(div|rem)", r"s\1"), (r"\bs(div|rem)", r"u\1"), (r"msb\(", "lsb("),
       (r"lsb\(", "msb("), (r"is_one\(", "is_zero("), (r"is_zero\(", "is_all_set("), (r"unset_", "set_"), (r"zero_ext", "sign_ext"),
       (r"sign_ext", "zero_ext"), (r"zero_resize", "sign_resize"), (r"sign_resize", "zero_resize"), (r"lshr", "ashr"),
       (r"ashr", "lshr"), (r"_ult", "_ule"), (r"_slt", "_sle"), (r"_ugt", "_uge"), (r"_div", "_rem"), (r"_rem\b", "_div"),
       (r"wrapping_add", "wrapping_sub"), (r"clear_unused_bits\(\)", "len_digits()"), (r"if (.*) \{$", r"if !(\1) {"),
       (r"if (.*) \{$", r"if false && (\1) {"), (r"if (.*) \{$", r"if true || (\1) {"), (r"(\w+)\.min\((.*)\)", r"\1.max(\2)"),
       (r"Digit::ZERO", "Digit::ONE"), (r"Digit::ONES", "Digit::ZERO"), (r"Digit::ONE\b", "Digit::ZERO"),
       (r"Digit::zero", "Digit::one"), (r"all\(", "any("), (r"any\(", "all("), (r"i64\b", "i32"), (r"as u64\b", "as u32 as u64"),
       (r"as i64\b", "as i32 as i64"), (r"as usize\b", "as u8 as usize"), (r"BITS\b", "BITS - 1"), (r"\.len\(\)", ".len() - 1")]


# The properties a change in a file most likely concerns: each is asked.
FIRST = {"arithmetic.rs": ["C01", "C02", "C03"], "serialization.rs": ["C11", "C12"], "shift.rs": ["C04"], "casting.rs": ["C06", "C18"],
         "bitwise.rs": ["C05", "C15"], "serde_impl.rs": ["C13"], "relational.rs": ["C07"], "to_primitive.rs": ["C10"],
         "rand_impl.rs": ["C17"], "radix.rs": ["C11", "C16"], "int.rs": ["C14"], "uint.rs": ["C14"], "std_ops.rs": ["C14"],
         "constructors.rs": ["C16", "C10", "C18"], "utils.rs": ["C15", "C08", "C18"], "checks.rs": ["C09"], "errors.rs": ["C09"],
         "bitpos.rs": ["C05", "C09"], "bitwidth.rs": ["C16"], "storage.rs": ["C18"]}


def source(path):
    out = []
    for n, line in enumerate(open(path).read().split("\n")):
        if re.match(r"\s*#\[cfg\((all\()?test", line) or re.match(r"\s*mod tests", line):
            break
        out.append(line)
    return out


def mutants():
    res = []
    for path in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        rel = os.path.relpath(path, "/repo")
        if "test" in rel:
            continue
        for n, line in enumerate(source(path)):
            s = line.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "*", "/*", "debug_assert", "assert", "mod ", "pub mod",
                                      "panic", "unreachable")):
                continue
            code = line.split("//")[0]
            for a, b in OPS:
                for m in re.finditer(a, code):
                    new = code[:m.start()] + m.expand(b) + code[m.end():]
                    if new != code:
                        res.append((rel, n, new))
            for m in re.finditer(r"(?<![\w.\"])(0x[0-9A-Fa-f_]+|\d+)(?![\w.\"])", code):
                v = int(m.group(0).replace("_", ""), 0)
                for w in {v + 1, max(v - 1, 0)} - {v}:
                    res.append((rel, n, code[:m.start()] + str(w) + code[m.end():]))
            if s.endswith((";", ")?;")) and not s.startswith(("let", "return", "pub", "fn", "type", "const", "static", "}", "where", ")")) \
                    and s.count("(") == s.count(")"):
                res.append((rel, n, ""))
            if s.endswith(",") and "=>" in s and "(" in s:
                pass
    return sorted(set(res))


def sh(cmd, cwd, timeout, env):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", env=env, preexec_fn=check.limit)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def run(hours, rx):
    end = time.time() + hours * 3600
    allm = mutants()
    if rx:
        allm = [m for m in allm if re.search(rx, m[0])]
    done = set()
    rp = os.path.join(WORK, "results.jsonl")
    if os.path.exists(rp):
        for l in open(rp):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    todo = [m for m in allm if (m[0], m[1] + 1, m[2]) not in done]
    random.Random(int(os.environ.get("MUT_SEED", "5"))).shuffle(todo)
    print(len(allm), "mutants,", len(todo), "to do", flush=True)
    lock = threading.Lock()
    files = {p: sorted(glob.glob(os.path.join(WORK, "traces", p, "*.itf.json"))) for p in PIDS}

    def worker(k):
        w = os.path.join(WORK, "w%d" % k)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.run(["rsync", "-a", "--exclude", "target", "--exclude", ".git", "/repo/", w + "/repo/"]) if shutil.which("rsync") else \
            shutil.copytree("/repo", w + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
        shutil.copytree(check.HARNESS, w + "/harness", ignore=shutil.ignore_patterns("target", "*.profraw"))
        t = open(w + "/harness/Cargo.toml").read().replace('path = "/repo"', 'path = "%s/repo"' % w)
        open(w + "/harness/Cargo.toml", "w").write(t)
        env = dict(os.environ)
        for x in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
            env.pop(x, None)
        te = dict(env, CARGO_TARGET_DIR=w + "/tt", CARGO_PROFILE_TEST_DEBUG="0", CARGO_PROFILE_DEV_DEBUG="0")
        he = dict(env, CARGO_TARGET_DIR=w + "/ht")
        while time.time() < end:
            with lock:
                if not todo:
                    return
                rel, n, new = todo.pop()
            path = os.path.join(w, "repo", rel)
            orig = open("/repo/" + rel).read()
            lines = orig.split("\n")
            old = lines[n]
            lines[n] = new
            open(path, "w").write("\n".join(lines))
            r = dict(file=rel, line=n + 1, old=old, new=new)
            rc, out = sh(["cargo", "build", "--offline", "-q"], w + "/harness", 400, he)
            if rc:
                r["res"] = "no-compile"
            else:
                kills = {}
                first = FIRST.get(os.path.basename(rel), [])

                def attack(p, fs):
                    for f in fs:
                        rc, out = sh([w + "/ht/debug/conform", "replay", "--mode", check.PROPS[p]["mode"], f], w, 300, he)
                        if rc:
                            kills[p] = [rc, os.path.basename(f), out[:300]]
                            return True
                for p in first:
                    attack(p, files[p])
                r["missed"] = [p for p in first if p not in kills]
                if not kills:
                    for f, p in sorted(((f, p) for p in PIDS for f in files[p] if p not in first),
                                       key=lambda x: (os.path.basename(x[0])[:2] not in ("r0", "s0"), x[1])):
                        if attack(p, [f]):
                            break
                r["kills"] = kills
                if kills:
                    r["res"] = "killed"
            if "res" not in r:
                rc, out = sh(["cargo", "test", "--all-features", "--lib", "--tests", "--offline", "-q", "--", "--test-threads", "2"],
                             w + "/repo", 300, te)
                if rc:
                    r["res"] = "tests"
                    r["out"] = out[-400:]
                else:
                    rc, out = sh(["cargo", "test", "--all-features", "--doc", "--offline", "-q", "--", "--test-threads", "2"],
                                 w + "/repo", 200, te)
                    r["res"] = "doctests" if rc else "SURVIVED"
            open(path, "w").write(orig)
            with lock:
                open(rp, "a").write(json.dumps(r) + "\n")

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(WORKERS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for k in range(WORKERS):
        shutil.rmtree(os.path.join(WORK, "w%d" % k), ignore_errors=True)


if __name__ == "__main__":
    os.makedirs(WORK, exist_ok=True)
    if sys.argv[1] == "traces":
        traces(sys.argv[2:] or PIDS)
    else:
        run(float(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else None)
