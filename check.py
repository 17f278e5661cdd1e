#!/usr/bin/env python3-vt
"""Decides one property: generates every proof obligation from /repo's current source, discharges them, and runs the
same harnesses natively (replay of counterexamples, bounded search).   usage: check.py ID [quick|thorough]"""
import glob
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from irv import build, ir, native, solve  # noqa: E402
from irv import exec as ex  # noqa: E402

V = build.VERIF
NPROC = 8


def harnesses(pid, tier="quick"):
    """{source file: ([proof names], [bounded names], {name: options})}"""
    out = {}
    for src in sorted(glob.glob(V + "/proofs/*.cpp")):
        txt = open(src).read()
        pr = ["proof_" + n for n in re.findall(r"^PROOF%s\((%s_\w+)\)" % (
            "(?:_DEEP|_SMALL)?" if tier == "thorough" else "(?:_SMALL)?", pid), txt, re.M)]
        bd = ["bounded_" + n for n in re.findall(r"^BOUNDED\((%s_\w+)\)" % pid, txt, re.M)]
        if pr or bd:
            out[src] = (pr, bd)
    return out


def small(srcs):
    """harnesses that the verifier executes for all values but up to a stated size only: bounded, never counted as proved"""
    return {"proof_" + n for s in srcs for n in re.findall(r"^PROOF_SMALL\((\w+)\)", open(s).read(), re.M)}


def known(pid):
    """{harness or obligation text: description}; only lines 'KNOWN-FINDING: property=<id> harness=<name> <what>'"""
    out = {}
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) harness=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def start_proof(mod, con, opq, dm, name, budget, procs, scale):
    """forks the prover for one harness -> (pid, pipe)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid:
        os.close(wr)
        return pid, rd
    os.close(rd)
    res = {"name": name, "err": None}
    try:
        solve.SCALE = scale
        x = ex.Exec(mod, con, opq, budget_s=budget, demangle=lambda q: dm.get(q, q), max_paths=200000)
        x.prefix = name + ":"
        t0 = time.time()
        try:
            x.run(name, procs)
        except (ex.Unsupported, ex.Budget) as e:
            res["err"] = (type(e).__name__, str(e))
        res.update(x.result())
        res["wall"] = time.time() - t0
    except BaseException:
        import traceback
        res["err"] = ("Unsupported", "internal: " + traceback.format_exc()[-900:])
    try:
        with os.fdopen(wr, "wb") as f:
            pickle.dump(res, f)
    finally:
        os._exit(0)


def prove_all(work, budget, procs, scale, width):
    """proves every (mod, contracts, opaque, names, harness) of work, `width` at a time"""
    import selectors
    sel = selectors.DefaultSelector()
    todo = list(enumerate(work))
    out = [None] * len(work)
    n = 0
    while todo or n:
        while todo and n < width:
            i, w = todo.pop(0)
            pid, rd = start_proof(*w, budget, procs, scale)
            sel.register(rd, selectors.EVENT_READ, (i, pid, bytearray()))
            n += 1
        for key, _ in sel.select():
            i, pid, buf = key.data
            d = os.read(key.fd, 1 << 20)
            if d:
                buf += d
                continue
            sel.unregister(key.fd)
            os.close(key.fd)
            os.waitpid(pid, 0)
            n -= 1
            out[i] = pickle.loads(bytes(buf)) if buf else {
                "name": work[i][4], "err": ("Unsupported", "the prover process died")}
    return out


def run_native(binp, name, seconds, seed, rec, scratch, replay=None, runs=None):
    cmd = [binp, name, "--rec", rec, "--scratch", scratch]
    if replay:
        cmd += ["--replay", replay]
    else:
        cmd += ["--seconds", str(seconds), "--seed", str(seed)]
        if runs:
            cmd += ["--runs", str(runs)]
    os.makedirs(scratch, exist_ok=True)
    try:
        r = subprocess.run(cmd, capture_output=True, timeout=seconds + 150, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return {"rc": 9, "out": "timeout", "runs": 0, "distinct": 0, "covers": set(), "sample": ""}
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", scratch], capture_output=True)
        shutil.rmtree(scratch, ignore_errors=True)
    o = r.stdout.decode("utf-8", "replace")
    m = re.search(r"RUNS (\d+) SKIPPED (\d+) DISTINCT (\d+)", o)
    s = re.search(r"^SAMPLE (.*)$", o, re.M)
    return {"rc": r.returncode, "out": o + r.stderr.decode("utf-8", "replace")[-3000:],
            "runs": int(m.group(1)) if m else 0, "distinct": int(m.group(3)) if m else 0,
            "covers": set(re.findall(r"^COVER (.*)$", o, re.M)), "sample": s.group(1) if s else ""}


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="irv_%s_" % pid)
        os.chmod(self.tmp, 0o711)    # for harnesses that become another user
        self.ev = V + "/evidence"
        os.makedirs(self.ev, exist_ok=True)
        for f in glob.glob(self.ev + "/replay-%s-*" % pid):
            os.unlink(f)
        self.hs = harnesses(pid, tier)
        self.notes, self.viol, self.known_hit = [], [], []
        self.known = known(pid)
        self.nat, self.bins = {}, {}
        self.proofs = {}
        self.fallback = []

    # ------------------------------------------------------------- native
    def native_build(self):
        try:
            self.bins = native.Native(self.tmp + "/nat", NPROC).build(sorted(self.hs))
        except build.BuildError as e:
            self.bins = {s: e for s in self.hs}

    def native_search(self, seconds, only=None, seed=None):
        jobs = []
        with ThreadPoolExecutor(NPROC) as tp:
            for src, (pr, bd) in self.hs.items():
                b = self.bins.get(src)
                if not isinstance(b, str):
                    continue
                for n in pr + bd:
                    if only is not None and n not in only:
                        continue
                    if n in self.known:
                        continue
                    sd = seed if seed is not None else self.seed
                    jobs.append((n, b, tp.submit(run_native, b, n, seconds, sd * 7919 + 1, "%s/replay-%s-%s.txt" % (
                        self.ev, self.pid, n), "%s/s_%s_%d" % (self.tmp, n, sd))))
            for n, b, f in jobs:
                r = f.result()
                if r["rc"] == 2:
                    continue    # not present natively: the harness is for the verifier only
                if r["rc"] == 9:
                    self.notes.append("%s: the native run gave no answer in time" % n)
                old = self.nat.get(n)
                if old is None or r["rc"] == 3:
                    self.nat[n] = r
                else:
                    old["runs"] += r["runs"]
                    old["distinct"] += r["distinct"]
                if r["rc"] == 3:
                    m = re.search(r"^FAILED \S+: (.*)$", r["out"], re.M)
                    what = m.group(1) if m else r["out"][-300:].strip()
                    self.violation(n, what, "%s/replay-%s-%s.txt" % (self.ev, self.pid, n), True, r["out"][-2500:])

    def violation(self, harness, what, path, concrete, extra=""):
        if any(v[0] == harness and v[3] for v in self.viol):
            return
        self.viol = [v for v in self.viol if v[0] != harness] + [(harness, what, path, concrete, extra)]
        if extra and concrete and os.path.exists(path):
            with open(path, "a") as f:
                f.write("\n# " + extra.replace("\n", "\n# ") + "\n")

    # ------------------------------------------------------------- proofs
    def prove(self, budget):
        work = []
        todo = [(s, pr) for s, (pr, bd) in self.hs.items() if pr]

        def load(s):
            try:
                txt, con, opq = build.build_ir(s, self.tmp)
                return s, ir.Module(txt), con, opq, None
            except Exception as e:
                return s, None, None, None, e
        native.gen_proto(self.tmp)
        with ThreadPoolExecutor(NPROC) as tp:
            mods = list(tp.map(lambda q: load(q[0]), todo))
        dms = {}
        for (s, mod, con, opq, err), (_, pr) in zip(mods, todo):
            if err is not None:
                for n in pr:
                    self.fallback.append((n, "the source does not build with the harness: " + str(err)[:600]))
                continue
            dms[s] = build.demangle_all(list(mod.fns))
            for n in pr:
                if n not in mod.fns or not mod.fns[n].defined:
                    self.fallback.append((n, "harness not found"))
                else:
                    work.append((mod, con, opq, dms[s], n))
        if not work:
            return
        k = len(work)
        rs = prove_all(work, budget, 8 if k <= 3 else 4 if k <= 8 else 2, 1.0, NPROC)
        for w, r in zip(work, rs):
            again = (r["err"] and r["err"][0] == "Budget") or any(f.status == "unknown" for f in r.get("failures", ()))
            left = (700 if self.tier == "quick" else 3600) - (time.time() - self.t0)
            if again and left > 60:
                r = prove_all([w], min(left * 0.7, 3 * budget), NPROC, 3.0, 1)[0]
            self.proofs[w[4]] = r
            if r["err"]:
                self.fallback.append((w[4], "%s: %s" % r["err"]))
            elif not r.get("failures"):
                if not any(o[0] for o in r["oblig"].values()):
                    self.fallback.append((w[4], "no obligation was generated"))
                elif not r["covers"]:
                    self.fallback.append((w[4], "no cover point was reached"))

    def judge_proofs(self):
        bad = [n for n, r in self.proofs.items() if r.get("failures") and n not in self.known]
        if bad:
            # look harder for a failing input before reporting an obligation alone
            bd = {n for s, (pr, b) in self.hs.items() for n in b}
            if bd:
                self.native_search(30 if self.tier == "quick" else 180, only=bd, seed=self.seed + 2000)
            if any(v[3] for v in self.viol):
                return
        src = {n: s for s, (pr, bd) in self.hs.items() for n in pr + bd}
        for n, r in self.proofs.items():
            fails = r.get("failures") or []
            if not fails or n in self.known:
                continue
            b = self.bins.get(src[n])
            hit = None
            if any(v[0] == n and v[3] for v in self.viol):
                continue
            if isinstance(b, str):
                for i, f in enumerate(fails[:16]):
                    if f.status != "refuted":
                        continue
                    p = "%s/m_%s_%d" % (self.tmp, n, i)
                    with open(p, "w") as o:
                        for k, v in f.values.items():
                            o.write("v %s %d\n" % (k, v))
                        for k, a in f.arrays.items():
                            if a:
                                o.write("a %s %s\n" % (k, ",".join("%d:%d" % (i, c) for i, c in a.items() if i < 1 << 20)))
                    rec = "%s/replay-%s-%s.txt" % (self.ev, self.pid, n)
                    q = run_native(b, n, 20, 1, rec, self.tmp + "/s_rep", replay=p)
                    if q["rc"] == 3:
                        hit = (f, q)
                        break
                if hit is None:
                    self.native_search(25 if self.tier == "quick" else 120, only={n}, seed=self.seed + 1000)
                    if any(v[0] == n and v[3] for v in self.viol):
                        continue
            f = hit[0] if hit else fails[0]
            rec = "%s/replay-%s-%s.txt" % (self.ev, self.pid, n)
            if hit:
                self.violation(n, "%s at %s" % (f.name, f.loc), rec, True, hit[1]["out"][-2000:])
            else:
                with open(rec, "w") as o:
                    o.write("harness %s\nno failing input found; obligations that were not discharged:\n" % n)
                    for g in fails[:20]:
                        o.write("  %s at %s: %s\n    values %r\n    arrays %r\n" % (
                            g.name, g.loc, g.status, g.values, {k: dict(list(a.items())[:40]) for k, a in g.arrays.items() if a}))
                self.violation(n, "%s at %s" % (f.name, f.loc), rec, False)

    # ------------------------------------------------------------- all
    def run(self):
        thorough = self.tier == "thorough"
        secs = 60 if thorough else 6
        if not self.hs:
            print("no harness for", self.pid)
            return 1
        th = threading.Thread(target=self.native_build)
        th.start()
        th.join()
        self.native_search(secs)
        if not any(v[3] for v in self.viol):
            try:
                self.prove(900 if thorough else 240)
            except Exception as e:
                for src, (pr, bd) in self.hs.items():
                    for n in pr:
                        if n not in self.proofs:
                            self.fallback.append((n, "internal error of the prover: %r" % (e,)))
            self.judge_proofs()
            fb = {n for n, _ in self.fallback}
            if fb:
                self.native_search(60 if thorough else 20, only=fb, seed=self.seed + 500)
        for n, why in self.known.items():
            print("KNOWN-FINDING: property=%s harness=%s %s" % (self.pid, n, why))
        unbuilt = [s for s, b in self.bins.items() if not isinstance(b, str)]
        for s in unbuilt:
            self.notes.append("native build of %s failed: %s" % (os.path.basename(s), str(self.bins[s])[-1200:]))
        for n, why in self.fallback:
            self.notes.append("BOUNDED ONLY %s: %s" % (n, why))
        self.evidence()
        for l in self.notes:
            print("note:", l[:1500])
        for n, r in sorted(self.nat.items()):
            print("native %s: %d runs, %d distinct non-trivial" % (n, r["runs"], r["distinct"]))
        for n, r in sorted(self.proofs.items()):
            o = r.get("oblig", {})
            print("proof %s: %d/%d obligations, %d paths, %.1f s%s" % (
                n, sum(q[1] for q in o.values()), sum(q[0] for q in o.values()), r.get("paths", 0), r.get("wall", 0),
                " [" + r["err"][1][:200] + "]" if r["err"] else ""))
        for h, what, path, concrete, extra in self.viol:
            print("failed: %s: %s" % (h, what))
        if self.viol:
            v = sorted(self.viol, key=lambda v: not v[3])[0]
            print("VIOLATION property=%s replay=%s%s" % (self.pid, v[2], "" if v[3] else " no-failing-input-found"))
            return 1
        return 0

    def evidence(self):
        ob = dis = 0
        fns, back, names = set(), {}, {}
        st = 0.0
        assumed = set()
        per = []
        fbn = {n for n, _ in self.fallback}
        sm = small(self.hs)
        for n, r in sorted(self.proofs.items()):
            o = r.get("oblig", {})
            a, b = sum(q[0] for q in o.values()), sum(q[1] for q in o.values())
            if n not in fbn and n not in sm:
                ob, dis = ob + a, dis + b
                for k, v in r.get("backends", {}).items():
                    back[k] = back.get(k, 0) + v
            st += r.get("stats", {}).get("time", 0)
            assumed |= r.get("assumed", set())
            fns |= r.get("funcs", set())
            per.append({"harness": n, "counted": "bounded size" if n in sm else "proof", "obligations": a, "discharged": b, "paths": r.get("paths", 0),
                        "loops_by_invariant": r.get("loops", (0, 0))[0], "loops_unrolled_fully": r.get("loops", (0, 0))[1],
                        "covers": r.get("covers", {}), "wall_s": round(r.get("wall", 0), 2), "error": r["err"],
                        "named": sorted(set("%s @%s" % k for k in o))[:60]})
        dm = build.demangle_all(sorted(fns)) if fns else {}
        real = sorted(set(d for d in dm.values() if "securefs::" in d))
        bounded = [{"harness": n, "runs": r["runs"], "distinct_nontrivial": r["distinct"], "covers": sorted(r["covers"]),
                    "sample": r["sample"]} for n, r in sorted(self.nat.items())]
        cov = {
            "obligations": ob, "discharged": dis,
            "checker_cmd": "python3-vt check.py %s %s" % (self.pid, self.tier),
            "trusted_base": [
                "clang 18 front end and opt -O2 (C++ to LLVM IR)", "irv (verif/irv): IR semantics, path enumeration, models of "
                "the C/C++ runtime in irv/lib.py", "z3 %s and cvc5 1.1.2" % solve.z3.get_version_string(),
                "the contracts assumed in the harness files for dependencies"],
            "functions_executed": real, "by_backend": back, "solver_time_s": round(st, 2), "harnesses": per,
            "bounded": {"label": "bounded: native runs of the same harnesses, never counted as proved", "runs": bounded},
            "bounded_only": [{"harness": n, "reason": w} for n, w in self.fallback],
        }
        lv = level_of(self.pid)
        if lv != "proof":
            cov["evaluations"] = sum(b["runs"] for b in bounded)
            cov["distinct_nontrivial"] = sum(b["distinct_nontrivial"] for b in bounded)
            cov["rule"] = "seeded random harness inputs; non-trivial: reached a cover point; distinct by all values drawn"
            cov["samples"] = [b["sample"] for b in bounded]
            cov["explanation"] = "see bounded"
        e = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": lv, "coverage": cov,
             "assumptions": sorted(assumed) + assumptions_of(self.hs) + self.notes,
             "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open("%s/%s.json" % (self.ev, self.pid), "w") as f:
            json.dump(e, f, indent=1, default=lambda o: sorted(o) if isinstance(o, set) else str(o))


def assumptions_of(hs):
    out = []
    for s in hs:
        for l in open(s):
            m = re.match(r"\s*//\s*irv:\s*assumes\s+(.*?)\s*$", l)
            if m:
                out.append("%s: %s" % (os.path.basename(s), m.group(1)))
    return out


def level_of(pid):
    m = json.load(open(V + "/MANIFEST.json"))
    for c in m["checks"]:
        if c["property"] == pid:
            return c["level"]
    return "proof"


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(pid, tier, seed)
    try:
        rc = c.run()
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
