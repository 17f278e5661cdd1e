"""Discharges queries over terms.T.  Two encodings: mathematical integers with explicit wrap-around
(products abstracted to monomials with order lemmas first, then non-linear), and bit vectors."""
import os
import subprocess
import tempfile
import time

import z3

from . import terms as t

STATS = {"queries": 0, "time": 0.0, "by": {}}
T = t.T


def q(name):
    return "|" + name + "|"


class Text:
    """SMT-LIB text of terms, one definition per shared term.  kind: 'lia' | 'nia' | 'bv'.
    Per term: (reference, [lines], [deps]) where lines declare/define it and assert its defining facts."""

    def __init__(self, kind):
        self.kind = kind
        self.memo = {}
        self.monos = {}
        self.mpair = {}

    # ---- bookkeeping
    def deps(self, x):
        if x.op == "poly":
            if self.kind == "bv":
                return t.kids(x)
            return [a for m, _ in x.args[1] for a in m]
        if x.op == "udiv" and self.kind != "bv":
            out = [x.args[0], x.args[1]]
            for m, _ in t._poly_parts(t.mul(x, x.args[1]))[1].items():
                out += [a for a in m if a is not x]
            return out
        return t.kids(x)

    def entry(self, x):
        e = self.memo.get(x.id)
        if e is None:
            lines = []
            self.ref = None
            monos = []
            self._m = monos
            r = self.one(x, lines) if self.kind != "bv" else self.onebv(x, lines)
            approx = x.op in ("and", "or", "xor", "shl", "ashr", "sdiv") or (x.op == "lshr" and not t.is_const(x.args[1]))
            e = self.memo[x.id] = (r, lines, self.deps(x), monos, approx and self.kind != "bv", x)
        return e

    def r(self, x):
        return self.memo[x.id][0]

    def collect(self, roots):
        """entries in dependency order"""
        order, seen, monos = [], set(), []
        mseen = set()
        stack = [(x, False) for x in reversed(roots)]
        while stack:
            x, done = stack.pop()
            if done:
                e = self.entry(x)
                order.append(e)
                for m in e[3]:
                    if m not in mseen:
                        mseen.add(m)
                        monos.append(m)
                continue
            if x.id in seen:
                continue
            seen.add(x.id)
            stack.append((x, True))
            e = self.memo.get(x.id)
            for d in (e[2] if e is not None else self.deps(x)):
                if d.id not in seen:
                    stack.append((d, False))
        return order, monos

    def query(self, fs):
        order, monos = self.collect(fs)
        out = []
        approx = False
        arrs = set()
        if self.kind == "lia":
            # every sub-monomial must be present
            allm = {}
            for m in monos:
                self.submonos(m, allm)
            mlines = self.mono_lines(list(allm))
        else:
            mlines = []
        decl = []
        body = []
        for r, lines, deps, ms, ap, x in order:
            approx |= ap
            if x.op == "sel" or x.op == "uf":
                key = x.args[0] if x.op == "sel" else x.args[0] + "/" + str(len(x.args))
                if key not in arrs:
                    arrs.add(key)
                    decl.append(self.fundecl(x))
            body.extend(lines)
        # monomial constants first (they are referenced by polynomials); their lemmas last
        md = []
        if self.kind == "lia":
            for m in allm:
                if len(m) > 1:
                    md.append("(declare-const %s Int)" % self.mname(m))
        txt = "\n".join(decl + md + body + mlines + ["(assert %s)" % self.r(f) for f in fs])
        return txt, approx, bool(self.kind == "lia" and md), order

    def fundecl(self, x):
        if self.kind == "bv":
            so = lambda k: "Bool" if k.w == 0 else "(_ BitVec %d)" % k.w
        else:
            so = lambda k: "Bool" if k.w == 0 else "Int"
        args = x.args[1:]
        return "(declare-fun %s (%s) %s)" % (q(x.args[0]), " ".join(so(k) for k in args), so(x))

    # ---- monomials
    def mname(self, m):
        return "mono_" + "_".join(str(a.id) for a in m)

    def submonos(self, m, acc):
        if m in acc or len(m) == 0:
            return
        acc[m] = True
        if len(m) > 1:
            for i in range(len(m)):
                self.submonos(m[:i] + m[i + 1:], acc)

    def mref(self, m):
        return self.r(m[0]) if len(m) == 1 else self.mname(m)

    def mono_lines(self, ms):
        out = []
        big = [m for m in ms if len(m) > 1]
        for m in big:
            ls = self.monos.get(m)
            if ls is None:
                ls = self.monos[m] = self.mono_self(m)
            out += ls
        for i, m in enumerate(big):
            for m2 in big[:i]:
                ls = self.mpair.get((m, m2))
                if ls is None:
                    ls = self.mpair[m, m2] = self.mono_pair(m, m2)
                out += ls
        return out

    def mb(self, m):
        lo = hi = 1
        for a in m:
            l, h = t.ubound(a)
            lo *= l
            hi *= h
        return lo, hi

    def mono_self(self, m):
        r = self.mname(m)
        lo, hi = self.mb(m)
        S = ["(assert (and (<= %d %s) (<= %s %d)))" % (lo, r, r, hi)]
        for i, y in enumerate(m):
            if y in m[:i]:
                continue
            rest = m[:i] + m[i + 1:]
            ye, xe = self.r(y), self.mref(rest)
            xl, xh = self.mb(rest)
            yl, yh = t.ubound(y)
            S.append("(assert (and (=> (= {x} 0) (= {r} 0)) (=> (= {y} 0) (= {r} 0)) (=> (>= {x} 1) (>= {r} {y}))"
                     " (=> (>= {y} 1) (>= {r} {x})) (=> (= {x} 1) (= {r} {y})) (=> (= {y} 1) (= {r} {x}))"
                     " (>= {r} (* {xl} {y})) (<= {r} (* {xh} {y})) (>= {r} (* {yl} {x})) (<= {r} (* {yh} {x}))))".format(
                         x=xe, y=ye, r=r, xl=xl, xh=xh, yl=yl, yh=yh))
        return S

    def mono_pair(self, m, m2):
        S = []
        done = set()
        for i, y in enumerate(m):
            if y in done or y not in m2:
                continue
            done.add(y)
            rest = m[:i] + m[i + 1:]
            l2 = list(m2)
            l2.remove(y)
            ze, xe, ye = self.mref(tuple(l2)), self.mref(rest), self.r(y)
            r, r2 = self.mname(m), self.mname(m2)
            S.append("(assert (and (=> (<= {x} {z}) (<= {r} {s})) (=> (<= {z} {x}) (<= {s} {r}))"
                     " (=> (<= (+ {x} 1) {z}) (<= (+ {r} {y}) {s})) (=> (<= (+ {z} 1) {x}) (<= (+ {s} {y}) {r}))"
                     " (=> (<= {x} (+ {z} 1)) (<= {r} (+ {s} {y}))) (=> (<= {z} (+ {x} 1)) (<= {s} (+ {r} {y})))))".format(
                         x=xe, z=ze, y=ye, r=r, s=r2))
        return S

    # ---- integers
    def num(self, v):
        return str(v) if v >= 0 else "(- %d)" % -v

    def rng(self, e, x, lines):
        lo, hi = t.ubound(x)
        lines.append("(assert (and (<= %d %s) (<= %s %d)))" % (lo, e, e, hi))

    def rawsum(self, x):
        if x.op != "poly":
            lo, hi = t.ubound(x)
            return self.r(x) if x.op != "const" else self.num(x.args[0]), lo, hi
        w = x.w
        half = 1 << (w - 1)
        c = x.args[0]
        c = c if c < half else c - (1 << w)
        lo = hi = c
        parts = [self.num(c)] if c else []
        for m, k in x.args[1]:
            k = k if k < half else k - (1 << w)
            ml, mh = self.mb(m)
            lo += k * ml if k > 0 else k * mh
            hi += k * mh if k > 0 else k * ml
            if len(m) > 1:
                self._m.append(m)
            if len(m) == 1:
                e = self.r(m[0])
            elif self.kind == "lia":
                e = self.mname(m)
            else:
                e = "(* %s)" % " ".join(self.r(a) for a in m)
            parts.append(e if k == 1 else "(* %s %s)" % (self.num(k), e))
        return (parts[0] if len(parts) == 1 else "(+ %s)" % " ".join(parts)), lo, hi

    def define(self, x, e, lines):
        """a name for the expression when it is not small"""
        if len(e) < 24:
            return e
        n = "d%d" % x.id
        lines.append("(define-fun %s () %s %s)" % (n, "Bool" if x.w == 0 else
                                                    "Int" if self.kind != "bv" else "(_ BitVec %d)" % x.w, e))
        return n

    def reduce(self, x, s, lo, hi, w, lines):
        M = 1 << w
        if lo >= 0 and hi < M:
            return self.define(x, s, lines)
        k, r = "k%d" % x.id, "r%d" % x.id
        lines.append("(declare-const %s Int)(declare-const %s Int)" % (k, r))
        lines.append("(assert (and (<= %s %s) (<= %s %s) (<= 0 %s) (<= %s %d) (= %s (- %s (* %d %s)))))" % (
            self.num(lo // M), k, k, self.num(hi // M), r, r, M - 1, r, s, M, k))
        return r

    def one(self, x, lines):
        op = x.op
        if op == "const":
            return ("true" if x.args[0] else "false") if x.w == 0 else str(x.args[0])
        if op == "var":
            n = q(x.args[0])
            lines.append("(declare-const %s %s)" % (n, "Bool" if x.w == 0 else "Int"))
            if x.w:
                self.rng(n, x, lines)
            return n
        if op == "poly":
            s, lo, hi = self.rawsum(x)
            return self.reduce(x, s, lo, hi, x.w, lines)
        if op == "udiv":
            A, B = x.args
            n = "d%d" % x.id
            lines.append("(declare-const %s Int)" % n)
            self.rng(n, x, lines)
            self.memo[x.id] = (n, [], [], [], False, x)
            p = t.mul(x, B)
            raw = self.rawsum(p)[0] if p.op == "poly" else self.r(p) if p.id in self.memo else self.entry(p)[0]
            ae, be = self.r(A), self.r(B)
            cond = "(> %s 0)" % be
            if B.op == "poly":
                sb, l, h = self.rawsum(B)
                if l < 0 or h >= (1 << B.w):
                    cond = "(and %s (>= %s 0) (< %s %d))" % (cond, sb, sb, 1 << B.w)
            lines.append("(assert (=> %s (and (<= %s %s) (< %s (+ %s %s)))))" % (cond, raw, ae, ae, raw, be))
            lines.append("(assert (<= %s %s))" % (n, ae))
            return n
        a = [self.r(k) for k in x.args if isinstance(k, T)]
        if op == "wrap":
            return a[0]
        if op in ("sel", "uf"):
            n = self.define(x, "(%s %s)" % (q(x.args[0]), " ".join(a)) if a else q(x.args[0]), lines)
            if x.w:
                self.rng(n, x, lines)
            return n
        if op == "zext":
            return a[0]
        if op == "trunc":
            l, h = t.ubound(x.args[0])
            return self.reduce(x, a[0], l, h, x.w, lines)
        if op == "sext":
            n = x.args[0].w
            return self.define(x, "(ite (>= %s %d) (+ %s %d) %s)" % (a[0], 1 << (n - 1), a[0], (1 << x.w) - (1 << n), a[0]),
                               lines)
        if op == "concat":
            ew = x.args[0].w
            return self.define(x, "(+ %s)" % " ".join([a[0]] + ["(* %d %s)" % (1 << (ew * i), b)
                                                                for i, b in enumerate(a) if i]), lines)
        if op == "lshr" and t.is_const(x.args[1]):
            k = t.cval(x.args[1])
            n = "d%d" % x.id
            lines.append("(declare-const %s Int)" % n)
            self.rng(n, x, lines)
            lines.append("(assert (and (<= (* %d %s) %s) (< %s (+ (* %d %s) %d))))" % (1 << k, n, a[0], a[0], 1 << k, n, 1 << k))
            return n
        if op in ("and", "or", "xor", "shl", "lshr", "ashr", "sdiv"):
            n = "d%d" % x.id
            lines.append("(declare-const %s Int)" % n)
            self.rng(n, x, lines)
            if op == "and":
                lines.append("(assert (and (<= %s %s) (<= %s %s)))" % (n, a[0], n, a[1]))
            if op == "or":
                lines.append("(assert (and (>= %s %s) (>= %s %s) (<= %s (+ %s %s))))" % (n, a[0], n, a[1], n, a[0], a[1]))
            if op == "xor":
                lines.append("(assert (<= %s (+ %s %s)))" % (n, a[0], a[1]))
            return n
        if op == "ite":
            return self.define(x, "(ite %s %s %s)" % tuple(a), lines)
        f = {"not": "(not %s)", "band": "(and %s %s)", "bor": "(or %s %s)", "eq": "(= %s %s)", "ult": "(< %s %s)",
             "ule": "(<= %s %s)"}.get(op)
        if f:
            return self.define(x, f % tuple(a), lines)
        if op == "slt":
            h = 1 << (x.args[0].w - 1)
            g = lambda e: "(ite (>= %s %d) (- %s %d) %s)" % (e, h, e, 2 * h, e)
            return self.define(x, "(< %s %s)" % (g(a[0]), g(a[1])), lines)
        raise NotImplementedError(op)

    # ---- bit vectors
    def onebv(self, x, lines):
        op, w = x.op, x.w
        num = lambda v, n: "(_ bv%d %d)" % (v, n)
        if op == "const":
            return ("true" if x.args[0] else "false") if w == 0 else num(x.args[0], w)
        if op == "var":
            n = q(x.args[0])
            lines.append("(declare-const %s %s)" % (n, "Bool" if w == 0 else "(_ BitVec %d)" % w))
            if w:
                lo, hi = t.ubound(x)
                if lo > 0:
                    lines.append("(assert (bvuge %s %s))" % (n, num(lo, w)))
                if hi < t.mask(w):
                    lines.append("(assert (bvule %s %s))" % (n, num(hi, w)))
            return n
        if op == "poly":
            c, ms = x.args
            parts = []
            for m, k in ms:
                p = self.r(m[0])
                for a in m[1:]:
                    p = "(bvmul %s %s)" % (p, self.r(a))
                if k == t.mask(w):
                    p = "(bvneg %s)" % p
                elif k != 1:
                    if k & (k - 1) == 0:
                        p = "(bvshl %s %s)" % (p, num(k.bit_length() - 1, w))
                    else:
                        p = "(bvmul %s %s)" % (p, num(k, w))
                parts.append(p)
            if c:
                parts.append(num(c, w))
            e = parts[0]
            for p in parts[1:]:
                e = "(bvadd %s %s)" % (e, p)
            return self.define(x, e, lines)
        a = [self.r(k) for k in x.args if isinstance(k, T)]
        if op == "wrap":
            return a[0]
        if op in ("sel", "uf"):
            return self.define(x, "(%s %s)" % (q(x.args[0]), " ".join(a)) if a else q(x.args[0]), lines)
        if op == "zext":
            return self.define(x, "((_ zero_extend %d) %s)" % (w - x.args[0].w, a[0]), lines)
        if op == "sext":
            return self.define(x, "((_ sign_extend %d) %s)" % (w - x.args[0].w, a[0]), lines)
        if op == "trunc":
            return self.define(x, "((_ extract %d 0) %s)" % (w - 1, a[0]), lines)
        if op == "concat":
            return self.define(x, "(concat %s)" % " ".join(reversed(a)), lines)
        if op == "ite":
            return self.define(x, "(ite %s %s %s)" % tuple(a), lines)
        f = {"not": "(not %s)", "band": "(and %s %s)", "bor": "(or %s %s)", "eq": "(= %s %s)", "udiv": "(bvudiv %s %s)",
             "sdiv": "(bvsdiv %s %s)", "and": "(bvand %s %s)", "or": "(bvor %s %s)", "xor": "(bvxor %s %s)",
             "shl": "(bvshl %s %s)", "lshr": "(bvlshr %s %s)", "ashr": "(bvashr %s %s)", "ult": "(bvult %s %s)",
             "ule": "(bvule %s %s)", "slt": "(bvslt %s %s)"}[op]
        return self.define(x, f % tuple(a), lines)


ENC = {k: Text(k) for k in ("lia", "nia", "bv")}


def relevant(pc, goal):
    """path facts that share variables, transitively, with the goal"""
    if goal is None:
        return list(pc)
    want = set(t.freevars(goal))
    left = list(pc)
    out = []
    changed = True
    while changed and left:
        changed = False
        rest = []
        for f in left:
            fv = t.freevars(f)
            if not fv or fv & want:
                want |= fv
                out.append(f)
                changed = True
            else:
                rest.append(f)
        left = rest
    return out


def classify(fs):
    bit = nl = big = False
    for x in t.subterms(fs):
        if x.op in ("and", "or", "xor", "shl", "ashr") or (x.op == "lshr" and not t.is_const(x.args[1])):
            bit = True
        elif x.op == "udiv":
            nl = True
        elif x.op == "poly" and any(len(m) > 1 for m, _ in x.args[1]):
            nl = True
    return bit, nl


SCALE = 1.0


def _run_z3(kind, fs, timeout):
    txt, approx, mono, order = ENC[kind].query(fs)
    s = z3.SolverFor("QF_UFLIA") if kind == "lia" else z3.Solver()
    s.set("timeout", int(timeout * 1000 * SCALE))
    s.from_string(txt)
    r = s.check()
    return s, str(r), approx, mono, order, txt


class Model:
    """values of the named variables and of the array reads in a satisfying assignment"""

    def __init__(self, m, order, kind):
        self.vals, self.arrs = {}, {}
        memo = {}

        def num(e):
            try:
                v = m.eval(e, model_completion=True)
                return v.as_long() if not z3.is_bool(v) else z3.is_true(v)
            except Exception:
                return None
        bv = kind == "bv"
        for r, lines, deps, ms, ap, x in order:
            if x.op == "var":
                if x.w == 0:
                    e = z3.Bool(x.args[0])
                else:
                    e = z3.BitVec(x.args[0], x.w) if bv else z3.Int(x.args[0])
                self.vals[x.args[0]] = num(e)
        self.order = [e[5] for e in order if e[5].op == "sel"]
        for x in self.order:
            i = evaluate(x.args[1], self.vals, self.arrs, m, bv)
            if i is None:
                continue
            try:
                if bv:
                    f = z3.Function(x.args[0], z3.BitVecSort(64), z3.BitVecSort(x.w))
                    v = num(f(z3.BitVecVal(i, 64)))
                else:
                    f = z3.Function(x.args[0], z3.IntSort(), z3.IntSort())
                    v = num(f(z3.IntVal(i)))
            except Exception:
                v = None
            if v is not None:
                self.arrs.setdefault(x.args[0], {})[i] = v

    def value(self, name):
        return self.vals.get(name)

    def array(self, name):
        return self.arrs.get(name, {})


def evaluate(x, vals, arrs, m=None, bv=False, memo=None):
    """concrete value of a term; None when it depends on something unknown"""
    memo = {} if memo is None else memo
    st = [x]
    while st:
        y = st[-1]
        if y.id in memo:
            st.pop()
            continue
        ks = [k for k in t.kids(y) if k.id not in memo]
        if ks:
            st.extend(ks)
            continue
        st.pop()
        if y.op == "const":
            memo[y.id] = y
        elif y.op == "var":
            v = vals.get(y.args[0])
            memo[y.id] = None if v is None else (t.boolc(v) if y.w == 0 else t.const(int(v), y.w))
        elif y.op == "poly":
            r = t.const(y.args[0], y.w)
            for mm, k in y.args[1]:
                p = t.const(k, y.w)
                for a in mm:
                    if memo[a.id] is None:
                        p = None
                        break
                    p = t.mul(p, memo[a.id])
                if p is None:
                    r = None
                    break
                r = t.add(r, p)
            memo[y.id] = r
        elif y.op == "sel":
            i = memo[y.args[1].id]
            v = None
            if i is not None:
                v = arrs.get(y.args[0], {}).get(t.cval(i))
            memo[y.id] = None if v is None else t.const(v, y.w)
        elif y.op == "uf":
            memo[y.id] = None
        else:
            a = [memo[k.id] if isinstance(k, T) else k for k in y.args]
            if any(v is None for v in a):
                if y.op == "ite" and a[0] is not None:
                    memo[y.id] = a[1] if a[0] is t.TRUE else a[2]
                else:
                    memo[y.id] = None
            else:
                r = t.rebuild(y, a)
                memo[y.id] = r if t.is_const(r) else None
    r = memo[x.id]
    return None if r is None else t.cval(r)


def _note(backend, dt):
    STATS["by"][backend] = STATS["by"].get(backend, 0) + 1


def solve(fs, budget=1.0, want_model=False, exact=True, plan=None):
    """satisfiability of the conjunction fs -> ('sat'|'unsat'|'unknown', backend, Model|None)"""
    fs = [f for f in fs if f is not t.TRUE]
    if any(f is t.FALSE for f in fs):
        return "unsat", "simplifier", None
    STATS["queries"] += 1
    t0 = time.time()
    try:
        r = _solve(fs, budget, want_model, exact, plan)
        return r
    finally:
        dt = time.time() - t0
        STATS["time"] += dt
        if DEBUG and dt > 2:
            print("   slow query %.1fs budget %.2f exact %s -> %s last %s" % (dt, budget, exact, r[:2], str(fs[-1])[:300]))


CHEAP = {(False, False): [("lia", 2), ("bv", 2)], (True, False): [("bv", 2), ("lia", 1)],
         (True, True): [("lia", 2), ("bv", 3)], (False, True): [("lia", 3), ("nia", 2), ("bv", 2)]}


def _solve(fs, budget, want_model, exact, cheap=None):
    bit, nl = classify(fs)
    plan = []
    if cheap:
        plan = CHEAP[bit, nl]
        exact = False
    elif bit and not nl:
        plan = [("bv", 3), ("lia", 3), ("bv", 30)]
    elif bit and nl:
        plan = [("lia", 4), ("bv", 10), ("nia", 10)]
    elif nl:
        plan = [("lia", 6), ("nia", 10), ("bv", 12)]
    else:
        plan = [("lia", 4), ("bv", 12), ("nia", 10)]
    last = "unknown"
    lastb = ""
    for kind, tm in plan:
        try:
            s, r, approx, mono, order, txt = _run_z3(kind, fs, tm * budget)
        except z3.Z3Exception as ex:
            if DEBUG:
                print("z3:", ex)
            continue
        b = "z3-" + kind
        if r == "unsat":
            _note(b, 0)
            return "unsat", b, None
        if r == "sat":
            if cheap and (approx or mono):
                last, lastb = "maybe", b
                continue
            if not approx and not mono or not exact:
                return "sat", b, Model(s.model(), order, kind) if want_model else None
            last = "maybe"
            lastb = b
    if cheap:
        return ("sat", lastb, None) if last == "maybe" else ("unknown", lastb, None)
    # last resort: cvc5 on the integer encoding, then on bit vectors
    if exact:
        for kind in ("nia", "bv"):
            txt, approx, mono, order = ENC[kind].query(fs)
            r = _run_cvc5(txt, 10 * budget * SCALE)
            if r == "unsat":
                _note("cvc5-" + kind, 0)
                return "unsat", "cvc5-" + kind, None
            if r == "sat" and not approx:
                return "sat", "cvc5-" + kind, None
    return "unknown", lastb, None


DEBUG = False


def _run_cvc5(txt, timeout):
    txt = "(set-logic ALL)\n" + txt + "\n(check-sat)\n"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fp:
        fp.write(txt)
        p = fp.name
    try:
        o = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), p], capture_output=True, text=True,
                           timeout=timeout + 5)
        out = o.stdout.strip().split("\n")[0]
        return out if out in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)


class Point:
    """a concrete assignment (total: unknown atoms get a default); evaluates terms with memory"""

    def __init__(self, vals, arrs):
        self.vals, self.arrs, self.memo = vals, arrs, {}

    def ev(self, x):
        memo = self.memo
        if x.id in memo:
            return memo[x.id]
        st = [x]
        while st:
            y = st[-1]
            if y.id in memo:
                st.pop()
                continue
            ks = [k for k in t.kids(y) if k.id not in memo]
            if ks:
                st.extend(ks)
                continue
            st.pop()
            memo[y.id] = self.one(y)
        return memo[x.id]

    def one(self, y):
        op = y.op
        m = self.memo
        if op == "const":
            return y
        if op == "var":
            v = self.vals.get(y.args[0])
            if y.w == 0:
                return t.boolc(bool(v))
            return t.const(t.ubound(y)[0] if v is None else int(v), y.w)
        if op == "sel":
            return t.const(self.arrs.get(y.args[0], {}).get(t.cval(m[y.args[1].id]), 0), y.w)
        if op == "uf":
            return t.FALSE if y.w == 0 else t.const(0, y.w)
        if op == "poly":
            c = y.args[0]
            for mm, k in y.args[1]:
                for a in mm:
                    k *= m[a.id].args[0]
                c += k
            return t.const(c, y.w)
        if op == "wrap":
            return m[y.args[0].id]
        if op == "udiv":
            a, b = m[y.args[0].id], m[y.args[1].id]
            return t.const(t.mask(y.w), y.w) if t.cval(b) == 0 else t.udiv(a, b)
        r = t.rebuild(y, [m[k.id] if isinstance(k, T) else k for k in y.args])
        if not t.is_const(r):
            # e.g. a shift by a large amount or a division by zero: any fixed value will do
            return t.FALSE if y.w == 0 else t.const(0, y.w)
        return r


POOL = []
_cache = {}


def pooled(fs):
    for i in range(len(POOL) - 1, -1, -1):
        p = POOL[i]
        ok = True
        for f in reversed(fs):
            if p.ev(f) is not t.TRUE:
                ok = False
                break
        if ok:
            if i < len(POOL) - 1:
                POOL.append(POOL.pop(i))
            return p
    return None


def remember(m):
    if m is None:
        return
    POOL.append(Point(m.vals, m.arrs))
    if len(POOL) > 24:
        POOL.pop(0)


def feasible(pc, extra):
    """may pc & extra hold?  Over-approximate: only a definite 'unsat' answers False."""
    if extra is t.FALSE:
        return False
    fs = relevant(pc, extra)
    key = (extra.id, tuple(sorted(f.id for f in fs)))
    r = _cache.get(key)
    if r is None:
        if pooled(fs + [extra]) is not None:
            STATS["pooled"] = STATS.get("pooled", 0) + 1
            r = True
        else:
            a, _, m = solve(fs + [extra], budget=0.6, exact=False, want_model=True)
            r = a != "unsat"
            remember(m)
        _cache[key] = r
    return r


def prove(pc, goal, budget=1.0, cheap=False):
    """-> (status, backend, model, facts) with status 'proved' | 'refuted' | 'unknown'"""
    if goal is t.TRUE:
        return "proved", "simplifier", None
    ng = t.not_(goal)
    fs = relevant(pc, ng)
    r, b, m = solve(fs + [ng], budget=budget, want_model=True, plan=cheap)
    if r == "unsat":
        return "proved", b, None
    if r == "sat":
        return "refuted", b, m
    return "unknown", b, None
