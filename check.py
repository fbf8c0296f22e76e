#!/usr/bin/env python3
"""Decides one property of ../properties.jsonl on /repo's current tree.

    check.py C01 [--tier quick|thorough]     run the check
    check.py C01 --replay FILE               replay a reported violation

Behaviours of the Quint specification (spec/) are replayed into the crate, and
histories recorded from the crate are validated against the specification.
Exit code 0: the property held on everything explored; 1: violated (a line
VIOLATION property=... replay=... is printed); 2: the check itself failed.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, resource, shutil, subprocess, sys, threading, time, traceback, zipfile

import tracelib
from props import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "conform")
LANES = int(os.environ.get("VERIF_LANES", "8"))
TLC = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
APALACHE = "/opt/veriftools/apalache-0.58.0/lib/apalache.jar"
STRIDE = 13  # coprime to the number of calls in every sweep


class ToolError(Exception):
    pass


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sh(cmd, timeout, cwd=None, preexec=None, env=None):
    try:
        return subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              text=True, errors="replace", preexec_fn=preexec, env=env)
    except subprocess.TimeoutExpired as e:
        raise ToolError("timeout after %ss: %s" % (timeout, " ".join(cmd)[:300])) from e


# The crate as its tests build it (overflow checks, debug assertions) and as users do.
PROFILES = {"dev": BIN, "plain": BIN.replace("/debug/", "/plain/")}


def cargo_build():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR"):
        env.pop(k, None)
    env["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    for prof in PROFILES:
        r = sh(["cargo", "build", "--offline", "--locked", "--quiet", "--profile", prof], 800, cwd=HARNESS, env=env)
        if r.returncode != 0:
            raise ToolError("the harness does not build against /repo:\n" + r.stderr[-4000:])


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.conf = PROPS[pid]
        self.out = os.path.join(HERE, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.violations = []
        self.cov = dict(spec_states=0, spec_transitions=0, random_steps=0, sweep_steps=0, traces=0, steps=0,
                        form_calls=0, comparisons=0, error_replies=0, recorded_events=0, recorded_traces=0,
                        corrupted_events_rejected=0, law_tests=0, model_runs=0, model_states=0, tlc_states=0, tlc_defects_refuted=0)
        self.ops, self.forms, self.widths = {}, {}, 0
        self.samples = []
        self.kept, self.effort = [], 4

    # ------------------------------------------------------------ spec -> code
    def generate(self, tag, init, step, n, seed):
        """One behaviour of the specification with n steps, as an ITF file."""
        itf = os.path.join(self.out, tag + ".itf.json")
        for _ in range(2):  # once more if the tool is killed or short of memory
            r = sh(["quint", "run", "check.qnt", "--main=check", "--init=" + init, "--step=" + step, "--max-samples=1",
                    "--n-traces=1", "--max-steps=%d" % n, "--out-itf=" + itf, "--seed=%d" % seed,
                    "--invariants", "TypeOK", "ReplyOK"], 400, cwd=SPEC)
            if r.returncode == 0 and os.path.exists(itf):
                break
        else:
            raise ToolError("quint run failed for %s:\n%s" % (step, (r.stdout + r.stderr)[-3000:]))
        return itf

    def conform(self, itf, prof, trace_steps=False):
        cmd = [PROFILES[prof], "replay", "--mode", self.conf["mode"], itf]
        if trace_steps:
            cmd.insert(2, "--trace-steps")
        if self.conf["mode"] == "threads":
            cmd[2:2] = ["--effort", str(self.effort)]
        return sh(cmd, 700, preexec=limit)

    def replay(self, itf, kind):
        found = []
        for prof in PROFILES:
            found += self.replay_with(itf, kind, prof)
            if found:
                break
        for d in found:
            self.violation(d, itf)
        if not found and len(self.samples) < 2:
            self.sample(itf)
        if not found and self.conf["mode"] == "threads" and len(self.kept) < 4 and self.effort == 4:
            self.kept.append((itf, kind))
        elif not found and (itf, kind) not in self.kept:
            os.remove(itf)

    def contend(self):
        """Several threads, once more, with the machine to themselves."""
        self.effort = 40
        for itf, kind in self.kept:
            if not self.violations:
                self.replay(itf, kind)
        for itf, _ in self.kept:
            os.remove(itf)
        self.kept, self.effort = [], 4

    def replay_with(self, itf, kind, prof):
        r = self.conform(itf, prof)
        summary, found = None, []
        for line in r.stdout.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("violation"):
                found.append(dict(d, build=prof))
            elif d.get("summary"):
                summary = d
        if r.returncode < 0 or (r.returncode not in (0, 1, 2, 3) and summary is None):
            # The process died in the code under test; find out where.
            r2 = self.conform(itf, prof, True)
            last = None
            for line in r2.stderr.splitlines():
                try:
                    last = json.loads(line)
                except ValueError:
                    pass
            if last is None:
                raise ToolError("harness died: %s %s" % (r.returncode, r.stderr[-2000:]))
            found.append(dict(last, what="the process dies (%s) in this call" % r.returncode, op="", build=prof))
        elif r.returncode == 2 or (summary is None and not found):
            raise ToolError("harness failed: %s %s" % (r.returncode, (r.stdout + r.stderr)[-2000:]))
        with self.lock:
            if summary:
                c = self.cov
                for k in ("form_calls", "comparisons"):
                    c[k] += summary[k]
                for k, v in summary["forms"].items():
                    self.forms[k] = self.forms.get(k, 0) + v
            if summary and prof == "dev" and self.effort == 4:
                c["traces"] += summary["traces"]
                for k in ("steps", "error_replies"):
                    c[k] += summary[k]
                c[kind + "_steps"] += summary["steps"] - 1
                c["spec_states"] += summary["steps"]
                c["spec_transitions"] += summary["steps"] - 1
                for k, v in summary["ops"].items():
                    self.ops[k] = self.ops.get(k, 0) + v
                self.widths = max(self.widths, summary["widths"])
        return found

    def sample(self, itf):
        st = json.load(open(itf))["states"]
        s = st[min(len(st) - 1, max(1, (len(st) * (3 + 4 * len(self.samples))) // 11))]

        def plain(x):
            if isinstance(x, dict):
                if "#bigint" in x:
                    return x["#bigint"]
                return {k: plain(v) for k, v in x.items() if not k.startswith("#")}
            if isinstance(x, list):
                return [plain(v) for v in x]
            return x
        with self.lock:
            self.samples.append({k: plain(s[k]) for k in ("loads", "call", "rep", "regs")})

    def violation(self, d, itf):
        """Cut the behaviour down to a replay file and note the violation."""
        with self.lock:
            k = len(self.violations)
            self.violations.append(d)
        if k >= 5:
            return
        tr = json.load(open(itf))
        n = d["state"]
        path = os.path.join(self.out, "violation-%d.itf.json" % k)
        states = tr["states"][: n + 1]
        tr["states"] = states
        tr["#violation"] = {x: d.get(x) for x in ("what", "form", "op", "build")}
        if n > 0 and self.conf["mode"] != "threads":
            # Try the last step alone, from registers loaded with their values.
            prev = json.loads(json.dumps(states[n - 1]))
            prev["loads"] = [{"i": {"#bigint": str(i)}, "w": r["w"], "v": r["v"]} for i, r in enumerate(prev["regs"])]
            prev["call"]["op"] = "nop"
            prev["rep"] = {"t": "unit", "n": {"#bigint": "0"}, "l": []}
            json.dump(dict(tr, states=[prev, states[n]]), open(path, "w"))
            try:
                if self.conform(path, d.get("build", "dev")).returncode == 0:
                    json.dump(tr, open(path, "w"))
            except Exception:
                json.dump(tr, open(path, "w"))
        else:
            json.dump(tr, open(path, "w"))
        with self.lock:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  form %s: %s" % (d.get("form"), str(d.get("what"))[:600]))
            sys.stdout.flush()

    # ------------------------------------------------------------ code -> spec
    def recording(self, tag, seed, steps):
        r = sh([BIN, "record", "--seed", str(seed), "--steps", str(steps), "--ops", ",".join(self.conf["ops"])], 300,
               preexec=limit)
        ev = [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]
        died = r.returncode != 0
        if not ev:
            raise ToolError("recording failed: %s" % r.stderr[-1000:])
        self.validate(tag, ev)
        if died and not self.violations:
            raise ToolError("the recorder died: rc %s %s" % (r.returncode, r.stderr[-1000:]))

    def validate(self, tag, ev):
        name = "recorded_%s" % tag
        path = os.path.join(self.out, name + ".qnt")
        spec = os.path.relpath(os.path.join(SPEC, "trace"), self.out)
        open(path, "w").write(tracelib.module(ev, spec))
        itf = os.path.join(self.out, name + ".itf.json")
        r = sh(["quint", "run", path, "--main=recorded", "--init=begin", "--step=replay", "--max-samples=1",
                "--n-traces=1", "--max-steps=%d" % len(ev), "--out-itf=" + itf, "--invariants", "Explained", "Sharp"],
               700, cwd=self.out)
        if not os.path.exists(itf):
            raise ToolError("quint failed on a recording:\n" + (r.stdout + r.stderr)[-3000:])
        st = json.load(open(itf))["states"]
        if r.returncode == 0 and len(st) == len(ev) + 1:
            with self.lock:
                self.cov["recorded_events"] += len(ev)
                self.cov["recorded_traces"] += 1
                self.cov["corrupted_events_rejected"] += 2 * len(ev)
            os.remove(itf)
            os.remove(path)
            return
        if st[-1]["good"]:
            raise ToolError("a corrupted event was accepted: the binding is broken\n" + r.stdout[-1500:])
        bad = len(st) - 2
        with self.lock:
            k = len(self.violations)
            self.violations.append(ev[bad])
            rep = os.path.join(self.out, "violation-%d.recording.jsonl" % k)
            with open(rep, "w") as f:
                for e in ev[: bad + 1]:
                    f.write(json.dumps(e) + "\n")
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            print("  the specification has no such step: " + json.dumps(ev[bad])[:900])
            sys.stdout.flush()

    # ------------------------------------------------------------ the model itself
    def laws(self, module):
        r = sh(["quint", "test", module + ".qnt", "--main=" + module, "--match=" + self.pid], 800, cwd=SPEC)
        n = re.findall(r"(\d+) passing", r.stdout)
        if r.returncode != 0 or not n or int(n[0]) == 0:
            raise ToolError("laws of the specification fail:\n" + (r.stdout + r.stderr)[-3000:])
        with self.lock:
            self.cov["law_tests"] += int(n[0])

    def model(self, module, invariants, samples, steps, seed):
        """Simulate a design model and check its invariants in every state."""
        r = sh(["quint", "run", module + ".qnt", "--main=" + module, "--max-samples=%d" % samples, "--max-steps=%d" % steps,
                "--seed=%d" % seed, "--verbosity=1", "--invariants"] + invariants, 800, cwd=SPEC)
        if r.returncode != 0:
            raise ToolError("an invariant of %s fails:\n%s" % (module, (r.stdout + r.stderr)[-3000:]))
        with self.lock:
            self.cov["model_runs"] += samples
            self.cov["model_states"] += samples * steps

    def exhaust(self, module, invariants, rounds, defects):
        """Every reachable state of a design model, by TLC: histories of any length.
        Each named defect must break an invariant."""
        d = os.path.join(self.out, "tlc-" + module)
        os.makedirs(d, exist_ok=True)
        # The modules that translated specifications use come with Apalache.
        with zipfile.ZipFile(APALACHE) as z:
            for m in ("Apalache", "Variants"):
                open(os.path.join(d, m + ".tla"), "wb").write(z.read("tla2sany/StandardModules/%s.tla" % m))
        r = sh(["quint", "compile", "--target=tlaplus", "--server-endpoint=localhost:%d" % (20000 + os.getpid() % 20000),
                "--main=" + module, os.path.join(SPEC, module + ".qnt")], 300, cwd=d)
        at = re.search(r"^-+ MODULE %s -+$" % module, r.stdout, re.M)
        if r.returncode != 0 or not at:
            raise ToolError("%s does not translate to TLA+:\n%s" % (module, (r.stdout + r.stderr)[-2000:]))
        open(os.path.join(d, module + ".tla"), "w").write(r.stdout[at.start():])

        def tlc(name, init, constants):
            open(os.path.join(d, name + ".tla"), "w").write(
                "---- MODULE %s ----\nEXTENDS %s\nStart == %s\n====\n" % (name, module, init))
            open(os.path.join(d, name + ".cfg"), "w").write(
                "INIT Start\nNEXT q_step\nINVARIANTS %s\n" % " ".join(invariants) + "".join("CONSTANT %s = %s\n" % c for c in constants))
            return sh(["java", "-Xss128m", "-Xmx8g", "-XX:+UseParallelGC", "-cp", TLC, "tlc2.TLC", "-workers", str(LANES), "-deadlock",
                       "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-config", name + ".cfg", name + ".tla"], 1800, cwd=d)

        for i, constants in enumerate(rounds):
            r = tlc("M%d" % i, "q_init", constants)
            m = re.findall(r"^(\d+) states generated, (\d+) distinct states found, 0 states left on queue", r.stdout, re.M)
            if r.returncode != 0 or not m or "No error has been found" not in r.stdout:
                raise ToolError("TLC on %s:\n%s" % (module, r.stdout[-3000:]))
            with self.lock:
                self.cov["tlc_states"] += int(m[-1][1])
        for i, bug in enumerate(defects):
            r = tlc("D%d" % i, 'initWith("%s")' % bug, rounds[0])
            if not re.search(r"Invariant \w+ is violated", r.stdout):
                raise ToolError("the defect '%s' of %s breaks no invariant:\n%s" % (bug, module, r.stdout[-3000:]))
            with self.lock:
                self.cov["tlc_defects_refuted"] += 1
        shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------ driver
    def run(self):
        q = self.tier == "quick"
        conf = self.conf
        built = threading.Event()
        build_err = []

        def build():
            try:
                cargo_build()
            except Exception as e:  # reported below
                build_err.append(e)
            built.set()

        threading.Thread(target=build).start()

        def spec_job(tag, init, step, n, seed, kind):
            itf = self.generate(tag, init, step, n, seed)
            built.wait()
            if build_err:
                raise build_err[0]
            self.replay(itf, kind)

        def rec_job(tag, seed, steps):
            built.wait()
            if build_err:
                raise build_err[0]
            self.recording(tag, seed, steps)

        jobs = []
        base = self.seed * 100003
        rstep = "r" + self.pid
        sstep = "s%s(%d)" % (self.pid, STRIDE)
        jobs.append((spec_job, ("h0", "init0", "h" + self.pid, conf["huge"], 1, "sweep")))
        if q:
            nr, ns = conf.get("quick", (9000, 12000))
            for i in range(conf.get("quick_lanes", 10)):
                jobs.append((spec_job, ("r%d" % i, "init0", rstep, nr, base + i, "random")))
            for i in range(2):
                k = (self.seed * 2 + i) % STRIDE
                jobs.append((spec_job, ("s%d" % i, "all { init, n' = %d }" % k, sstep, ns, 1, "sweep")))
            jobs += self.extremes(spec_job)
            if conf.get("ops"):
                jobs.append((rec_job, ("0", base, 500)))
            jobs += [(self.laws, (m,)) for m in conf["laws"]]
            jobs += [(self.model, m + (400, 25, base + 1)) for m in conf.get("models", [])]
            self.pool(jobs)
            self.contend()
        else:
            budget = float(os.environ.get("VERIF_BUDGET", "600"))
            total = conf.get("sweep", 40000)
            jobs += [(self.laws, (m,)) for m in conf["laws"]]
            jobs += [(self.model, m + (4000, 40, base + 1)) for m in conf.get("models", [])]
            for k in range(STRIDE):
                jobs.append((spec_job, ("s%d" % k, "all { init, n' = %d }" % k, sstep, max(3000, total // STRIDE), 1, "sweep")))
            jobs += self.extremes(spec_job)
            for i in range(4):
                if conf.get("ops"):
                    jobs.append((rec_job, ("%d" % i, base + 7 + i, 1000)))
            self.pool(jobs)
            for m in conf.get("exhaust", []):
                self.exhaust(*m)
            self.contend()
            i = 0
            while not self.violations and time.time() - self.t0 < budget - 40:
                more = [(spec_job, ("r%d" % (i + j), "init0", rstep, 12000, base + 1000 + i + j, "random"))
                        for j in range(LANES - 1)]
                if conf.get("ops"):
                    more.append((rec_job, ("t%d" % i, base + 5000 + i, 1000)))
                i += LANES
                self.pool(more)
        return self.finish()

    def extremes(self, job):
        """All combinations of extreme values, in pieces."""
        total = self.conf.get("extreme", 0)
        k = -(-total // 6000)
        return [(job, ("x%d" % i, "all { init, n' = %d }" % (total * i // k), "x%s(1)" % self.pid, -(-total // k), 1, "sweep"))
                for i in range(k)]

    def pool(self, jobs):
        with cf.ThreadPoolExecutor(LANES) as ex:
            fs = [ex.submit(f, *a) for f, a in jobs]
            err = None
            for f in fs:
                try:
                    f.result()
                except Exception as e:
                    err = err or e
            if err and not self.violations:
                raise err

    def finish(self):
        c = dict(self.cov)
        need = set(self.conf["need"])
        missing = sorted(op for op in need if self.ops.get(op, 0) == 0)
        if missing and not self.violations:
            raise ToolError("vacuous: no step exercised " + ", ".join(missing))
        cov = {
            "states": c["spec_states"],
            "transitions": c["spec_transitions"],
            "traces_validated_against_impl": c["traces"] + c["recorded_traces"],
            "samples": self.samples,
            "rule": "behaviours of spec/apint.qnt generated by `quint run` (random walk %s and systematic sweep %s of "
                    "spec/check.qnt), replayed into the crate through every API form of each call" % ("r" + self.pid, "s" + self.pid),
            "random_steps": c["random_steps"],
            "sweep_steps": c["sweep_steps"],
            "calls_into_crate": c["form_calls"],
            "comparisons": c["comparisons"],
            "steps_with_error_reply": c["error_replies"],
            "recorded_events_explained": c["recorded_events"],
            "corrupted_events_rejected": c["corrupted_events_rejected"],
            "law_tests": c["law_tests"],
            "model_states_simulated": c.get("model_states", 0),
            "model_states_exhausted": c.get("tlc_states", 0),
            "model_defects_refuted": c.get("tlc_defects_refuted", 0),
            "distinct_widths": self.widths,
            "calls_per_operation": self.ops,
            "api_forms_exercised": len(self.forms),
        }
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
            "assumptions": [
                "widths explored are at most about 17000 bits (a few steps at up to 98304 bits)",
                "the crate is built twice, with overflow checks and debug assertions and without, on x86-64 Linux",
            ],
            "violations": len(self.violations),
            "wall_s": round(time.time() - self.t0, 1),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.pid + ".json"), "w"), indent=1)
        if self.violations:
            print("%s: %d violations" % (self.pid, len(self.violations)))
            return 1
        print("%s held: %d steps of the specification replayed (%d calls into the crate), %d recorded events explained, "
              "%.0f s" % (self.pid, c["spec_transitions"], c["form_calls"], c["recorded_events"], ev["wall_s"]))
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        if a.replay:
            path = os.path.abspath(a.replay)
            cargo_build()
            if path.endswith(".jsonl"):
                text = open(path).read()
                c = Check(a.property + "/replay", a.tier, seed) if False else None
                os.makedirs(os.path.join(HERE, "out", "replay"), exist_ok=True)
                c = Check.__new__(Check)
                c.__dict__.update(pid=a.property, lock=threading.Lock(), violations=[], out=os.path.join(HERE, "out", "replay"),
                                  cov=dict(recorded_events=0, recorded_traces=0, corrupted_events_rejected=0))
                c.validate("again", [json.loads(l) for l in text.splitlines()])
                return 1 if c.violations else 0
            for prof, exe in PROFILES.items():
                r = sh([exe, "replay", "--mode", PROPS[a.property]["mode"], path], 700, preexec=limit)
                print(r.stdout, end="")
                if r.returncode != 0:
                    print("VIOLATION property=%s replay=%s" % (a.property, path))
                    return 1
            return 0
        return Check(a.property, a.tier, seed).run()
    except ToolError as e:
        print("CHECK FAILED: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
