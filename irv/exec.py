"""Modular symbolic execution of LLVM IR with contracts: generates the proof obligations.

Every path is explored; a loop is either unrolled while its exit conditions stay decided, or cut by an
inductive invariant (inferred by Houdini over templates plus the predicates the harness supplies).
"""
import re
import sys
import time

from . import ir, mem, merge, solve
from . import terms as t
from .mem import C0, NULL, Content, FPtr, Obj, Ptr, Unsupported, c64, to_int, to_ptr
from .terms import T

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class NeedInvariant(Exception):
    pass


class Frame:
    __slots__ = ("fn", "blk", "idx", "env", "prev", "dst", "norm", "unw", "allocas", "site", "va")

    def clone(self):
        f = Frame()
        f.fn, f.blk, f.idx, f.prev = self.fn, self.blk, self.idx, self.prev
        f.env = dict(self.env)
        f.dst, f.norm, f.unw, f.site = self.dst, self.norm, self.unw, self.site
        f.allocas = list(self.allocas)
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "loops", "inflight", "caught", "ghost", "steps", "uncaught", "names", "pending")

    def fork(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.loops = list(self.loops)
        s.inflight = self.inflight
        s.caught = list(self.caught)
        s.ghost = dict(self.ghost)
        s.steps = self.steps
        s.uncaught = self.uncaught
        s.names = dict(self.names)
        s.pending = self.pending
        return s


UNWIND = ("unwind",)


class LoopCtx:
    def __init__(self, depth, header, blocks, mode, limit=0):
        self.depth, self.header, self.blocks, self.mode, self.limit = depth, header, blocks, mode, limit
        self.back, self.exits = [], []
        self.hint = 0


class Failure:
    """an obligation that was not discharged, with the values the model gives to the named inputs"""

    def __init__(self, name, loc, status, model, pc, goal, names):
        self.name, self.loc, self.status = name, loc, status
        self.values, self.arrays = {}, {}
        if model is not None:
            for k, v in names.items():
                if v[0] == "u":
                    x = v[1]
                    val = model.value(x.args[0]) if x.op == "var" else None
                    if val is not None:
                        self.values[k] = val
                else:
                    self.arrays[k] = dict(model.array(v[1]))


def std_exc(name):
    return "_ZTI" + name


class Exec:
    def __init__(self, mod, overrides=None, opaque=(), budget_s=120, max_paths=4000, log=None, demangle=None):
        self.m = mod
        self.overrides = overrides or {}
        self.opaque = list(opaque)
        self.gobj = {}
        self.gcont = {}
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.quiet = 0
        self.oblig = {}
        self.failures = []
        self.covers = {}
        self.cover_names = set()
        self.paths = 0
        self.log = log
        self.backends = {}
        self.funcs_run = set()
        self.unroll_hint = 0
        self.loops_inv = 0
        self.loops_unrolled = 0
        self.demangle = demangle or (lambda x: x)
        self.assumed = set()
        self.fresh_fail_keys = set()
        self.expects = {}
        self.debug = False
        self.ctors = None
        self.ibounds = None
        self.loopkeys = {}
        self.prefix = ""
        self.merging = True
        self.looplevel, self.minlevel = {}, 0
        self.joins = 0
        from . import loops
        self.loopmod = loops

    # ------------------------------------------------------------------ facts
    def decide(self, s, c):
        if c is t.TRUE:
            return True
        if c is t.FALSE:
            return False
        if not solve.feasible(s.pc, c):
            return False
        if not solve.feasible(s.pc, t.not_(c)):
            return True
        return None

    def dec(self, s):
        return lambda c: self.decide(s, c)

    def assume(self, s, f):
        """False when the state becomes infeasible"""
        if f is t.TRUE:
            return True
        if f is t.FALSE:
            return False
        fs = []
        st = [f]
        while st:
            x = st.pop()
            if x.op == "band":
                st += [x.args[1], x.args[0]]
            else:
                fs.append(x)
        if not solve.feasible(s.pc, f):
            return False
        have = set(x.id for x in s.pc)
        s.pc = s.pc + tuple(x for x in fs if x.id not in have)
        return True

    def where(self, s, I=None):
        """innermost source location inside the repository, else innermost"""
        fr = s.frames[-1]
        best = None
        for fr in reversed(s.frames):
            I = fr.fn.blocks[fr.blk][min(max(fr.idx - 1, 0), len(fr.fn.blocks[fr.blk]) - 1)]
            d = I.dbg
            while d:
                f, l, d = self.m.loc(d)
                if f.startswith("/repo/") or "/sources/" in f:
                    return "%s:%d" % (f.split("/")[-1], l)
                if best is None and f:
                    best = "%s:%d" % (f.split("/")[-1], l)
        return best or "?"

    def check(self, s, goal, name):
        """an obligation; afterwards the goal is assumed.  False when the path dies."""
        if self.quiet:
            if goal is t.TRUE:
                return True
            return self.assume(s, goal)
        loc = self.where(s)
        key = (name, loc)
        o = self.oblig.setdefault(key, [0, 0])
        o[0] += 1
        if goal is t.TRUE:
            o[1] += 1
            self.backends["simplifier"] = self.backends.get("simplifier", 0) + 1
            return True
        r, b, m = solve.prove(s.pc, goal)
        if r == "proved":
            o[1] += 1
            self.backends[b] = self.backends.get(b, 0) + 1
        else:
            if r == "refuted" or True:
                full = None
                if r == "refuted":
                    full = self.full_model(s, goal) or m
                self.failures.append(Failure(name, loc, r, full, s.pc, goal, dict(s.names)))
            if goal is t.FALSE:
                return False
            return self.assume(s, goal)
        if goal.id in (x.id for x in s.pc[-4:]):
            return True
        s.pc = s.pc + (goal,)
        return True

    def full_model(self, s, goal):
        ng = t.not_(goal)
        fs = [f for f in s.pc] + [ng]
        # prefer small values for the named inputs
        for cap in (40, 300, 5000, None):
            ex = []
            if cap is not None:
                for nm, (kind, x, *_) in s.names.items():
                    if kind == "u" and isinstance(x, T) and x.w >= 32:
                        lo, hi = t.ubound(x)
                        if lo <= cap:
                            ex.append(t.ule(x, t.const(cap, x.w)))
            r, b, m = solve.solve(fs + ex, budget=0.7, want_model=True)
            if r == "sat" and m is not None:
                return m
        return None

    # ------------------------------------------------------------------ memory
    def content(self, s, o):
        c = s.mem.get(o.id)
        if c is None:
            c = self.gcont.get(o.id)
        return c

    def new_obj(self, s, name, size, kind, log=None):
        o = Obj(name, size, kind)
        if log is None:
            log = ("arr", "uninit%d_%s" % (o.id, re.sub(r"\W", "_", name)))
        s.mem[o.id] = Content({}, log)
        return o

    def access_ok(self, s, p, n, what):
        """bounds, liveness obligations for n bytes (n: T)"""
        if p.obj is None:
            if t.is_const(n) and t.cval(n) == 0:
                return True
            z = t.eq(n, C0)
            return self.check(s, z, what + ": address is null or invalid")
        c = self.content(s, p.obj)
        if c is None or not c.alive:
            return self.check(s, t.eq(n, C0), what + ": object is not alive")
        sz = p.obj.size
        g = t.band(t.ule(n, sz), t.ule(p.off, t.sub(sz, n)))
        if g is t.TRUE:
            return True
        if not t.is_const(n) or t.cval(n) == 0:
            g = t.bor(t.eq(n, C0), g)
        return self.check(s, g, what + ": within bounds of the object")

    def load(self, s, p, n):
        if isinstance(p, T):
            p = to_ptr(p)
        if isinstance(p, FPtr):
            raise Unsupported("load from function")
        if p.obj is None and not t.is_const(p.off):
            p = self.resolve_ptr(s, p)
        if not self.access_ok(s, p, c64(n), "read"):
            return None
        if p.obj is None:
            return None
        c = self.content(s, p.obj)
        off = p.off
        if t.is_const(off):
            x = c.cells.get(t.cval(off))
            if x is not None and x[0] == n:
                return x[1]
        return mem.rd(c.node(), off, n, self.dec(s))

    def store(self, s, p, n, v):
        if isinstance(p, T):
            p = to_ptr(p)
        if p.obj is None and not t.is_const(p.off):
            p = self.resolve_ptr(s, p)
        if not self.access_ok(s, p, c64(n), "write"):
            return False
        if p.obj is None:
            return False
        self.poke(s, p, n, v)
        return True

    def poke(self, s, p, n, v):
        c = self.content(s, p.obj)
        if isinstance(v, T) and v.w == 0:
            v = t.zext(v, 8 * n)
        elif isinstance(v, T) and v.w < 8 * n:
            v = t.zext(v, 8 * n)
        if t.is_const(p.off):
            s.mem[p.obj.id] = Content(mem.put_cell(c.cells, t.cval(p.off), n, v), c.log)
        else:
            s.mem[p.obj.id] = Content({}, ("st", p.off, n, v, c.node()))

    def resolve_ptr(self, s, p):
        return p

    def load_ty(self, s, p, ty):
        ty = self.m.resolve(ty)
        k = ty[0]
        if k in ("st", "arr", "vec"):
            out = []
            for off, e in self.m.fields(ty):
                v = self.load_ty(s, Ptr(p.obj, t.add(p.off, c64(off))), e)
                if v is None:
                    return None
                out.append(v)
            return tuple(out)
        n = self.m.size(ty)
        v = self.load(s, p, n)
        if v is None:
            return None
        return self.coerce(v, ty)

    def coerce(self, v, ty):
        k = ty[0]
        if k == "ptr":
            return to_ptr(v) if isinstance(v, T) else v
        if k == "i":
            v = to_int(v)
            if ty[1] == 1:
                return t.trunc(v, 0) if v.w else v
            return t.trunc(v, ty[1]) if v.w > ty[1] else v
        if k == "fp":
            return v
        raise Unsupported("coerce %r" % (ty,))

    def store_ty(self, s, p, ty, v):
        ty = self.m.resolve(ty)
        if ty[0] in ("st", "arr", "vec"):
            for (off, e), x in zip(self.m.fields(ty), v):
                if not self.store_ty(s, Ptr(p.obj, t.add(p.off, c64(off))), e, x):
                    return False
            return True
        return self.store(s, p, self.m.size(ty), v)

    def mcopy(self, s, d, sp, n, move=True):
        """memcpy/memmove of n (T) bytes"""
        if t.is_const(n) and t.cval(n) == 0:
            return True
        if not self.access_ok(s, d, n, "write") or not self.access_ok(s, sp, n, "read"):
            return False
        if d.obj is None or sp.obj is None:
            return True
        cs = self.content(s, sp.obj)
        cd = self.content(s, d.obj)
        if t.is_const(n) and t.is_const(d.off) and t.is_const(sp.off) and t.cval(n) <= 256:
            # copy cell by cell
            N, so, do = t.cval(n), t.cval(sp.off), t.cval(d.off)
            i = 0
            vals = []
            dec = self.dec(s)
            node = cs.node()
            while i < N:
                x = cs.cells.get(so + i)
                if x is not None and i + x[0] <= N:
                    vals.append((i, x[0], x[1]))
                    i += x[0]
                else:
                    k = 8 if i + 8 <= N and (so + i) % 8 == 0 else 1
                    if k == 8 and any(so + i < co + cn and co < so + i + 8 for co, (cn, _) in cs.cells.items()):
                        k = 1
                    vals.append((i, k, mem.rd(node, c64(so + i), k, dec)))
                    i += k
            cells = cd.cells
            for i, k, v in vals:
                cells = mem.put_cell(cells, do + i, k, v)
            s.mem[d.obj.id] = Content(cells, cd.log)
            return True
        s.mem[d.obj.id] = Content({}, ("cp", d.off, n, cs.node(), sp.off, cd.node()))
        return True

    def mset(self, s, d, b, n):
        if t.is_const(n) and t.cval(n) == 0:
            return True
        if not self.access_ok(s, d, n, "write"):
            return False
        if d.obj is None:
            return True
        cd = self.content(s, d.obj)
        if t.is_const(n) and t.is_const(d.off) and t.cval(n) <= 256:
            cells = cd.cells
            o, N = t.cval(d.off), t.cval(n)
            i = 0
            while i < N:
                k = 8 if (o + i) % 8 == 0 and i + 8 <= N else 4 if (o + i) % 4 == 0 and i + 4 <= N else 1
                cells = mem.put_cell(cells, o + i, k, t.concat([b] * k))
                i += k
            s.mem[d.obj.id] = Content(cells, cd.log)
            return True
        s.mem[d.obj.id] = Content({}, ("set", d.off, n, b, cd.node()))
        return True

    # ------------------------------------------------------------------ globals
    def global_obj(self, name):
        name = self.m.aliases.get(name, name)
        o = self.gobj.get(name)
        if o is not None:
            return o
        if name not in self.m.globals:
            raise Unsupported("global " + name)
        gi = self.m.global_init(name)
        if gi is None:
            raise Unsupported("global " + name)
        ty, op, const = gi
        size = self.m.size(ty)
        if op is None and size == 0:
            size = 4096
        o = Obj(name, c64(size), "const" if const else "global")
        self.gobj[name] = o
        c = Content({}, ("zero",))
        if op is None:
            c = Content({}, ("arr", "extern_" + re.sub(r"\W", "_", name)))
            if name == "__libc_single_threaded":
                c = Content({0: (1, t.const(1, 8))}, ("zero",))
        else:
            b, cells = bytearray(size), {}
            self._fill(ty, op, 0, b, cells)
            c = Content(cells, ("bytes", bytes(b)) if any(b) else ("zero",))
        self.gcont[o.id] = c
        return o

    def _fill(self, ty, op, off, b, cells):
        ty = self.m.resolve(ty)
        k = op[0]
        if k in ("zero", "undef", "null"):
            return
        if k == "str":
            b[off:off + len(op[1])] = op[1]
            return
        if k == "agg":
            for (fo, fty), (ety, eop) in zip(self.m.fields(ty), op[1]):
                self._fill(fty, eop, off + fo, b, cells)
            return
        n = self.m.size(ty)
        if k == "c":
            v = op[2] & ((1 << (8 * n)) - 1)
            b[off:off + n] = v.to_bytes(n, "little")
            return
        cells[off] = (n, self.const_op(op, ty))

    def const_op(self, op, ty):
        k = op[0]
        if k == "c":
            w = op[1][1]
            return t.boolc(op[2] & 1) if w == 1 else t.const(op[2], w)
        if k == "null":
            return NULL
        if k == "undef":
            return self.undef(ty)
        if k == "zero":
            return self.zero(ty)
        if k == "g":
            nm = self.m.aliases.get(op[1], op[1])
            if nm in self.m.fns:
                return FPtr(nm)
            return Ptr(self.global_obj(nm), C0)
        if k == "gep":
            b = self.const_op(op[2], ("ptr",))
            if isinstance(b, FPtr):
                return b
            return Ptr(b.obj, t.add(b.off, self.gep_off(op[1], [(ty2, self.const_op(o, ty2)) for ty2, o in op[3]])))
        if k == "cast":
            v = self.const_op(op[3], op[2])
            return self.cast(op[1], v, self.m.resolve(op[2]), self.m.resolve(op[4]))
        if k == "bin":
            a, b = self.const_op(op[2], op[4]), self.const_op(op[3], op[4])
            return self.binop(op[1], to_int(a), to_int(b))
        if k == "icmp":
            a, b = self.const_op(op[2], op[4]), self.const_op(op[3], op[4])
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op[1] in ("eq", "ne") and a.obj is not b.obj:
                if all(p.obj is None or t.is_const(p.off) and t.is_const(p.obj.size) and t.cval(p.off) < t.cval(p.obj.size) for p in (a, b)):
                    return t.boolc(op[1] == "ne")    # within different objects
            return self.icmp(op[1], to_int(a), to_int(b))
        if k == "str":
            return tuple(t.const(x, 8) for x in op[1])
        if k == "agg":
            return tuple(self.const_op(o, ty2) for ty2, o in op[1])
        if k == "fp":
            return ("fp", op[1])
        raise Unsupported("constant " + k)

    def zero(self, ty):
        ty = self.m.resolve(ty)
        k = ty[0]
        if k == "i":
            return t.FALSE if ty[1] == 1 else t.const(0, ty[1])
        if k == "ptr":
            return NULL
        if k in ("st", "arr", "vec"):
            return tuple(self.zero(e) for _, e in self.m.fields(ty))
        if k == "fp":
            return ("fp", "0")
        raise Unsupported("zero")

    def undef(self, ty):
        ty = self.m.resolve(ty)
        k = ty[0]
        if k == "i":
            return t.fresh("undef", 0 if ty[1] == 1 else ty[1])
        if k == "ptr":
            return NULL
        if k in ("st", "arr", "vec"):
            return tuple(self.undef(e) for _, e in self.m.fields(ty))
        return None

    # ------------------------------------------------------------------ operands
    def val(self, s, op, ty=None):
        k = op[0]
        if k == "l":
            return s.frames[-1].env[op[1]]
        return self.const_op(op, ty)

    def gep_off(self, sty, idx):
        off = C0
        ty = sty
        for j, (ity, iv) in enumerate(idx):
            iv = to_int(iv)
            if j == 0:
                off = t.add(off, t.mul(t.sext(iv, 64), c64(self.m.size(ty))))
                continue
            ty = self.m.resolve(ty)
            if ty[0] == "st":
                fo, ty = self.m.field(ty, t.cval(iv))
                off = t.add(off, c64(fo))
            else:
                ty = ty[2]
                off = t.add(off, t.mul(t.sext(iv, 64), c64(self.m.size(ty))))
        return off

    def cast(self, op, v, t1, t2):
        if t1[0] == "vec" or t2[0] == "vec":
            if t1[0] == "vec" and t2[0] == "vec" and t1[1] == t2[1]:
                return tuple(self.cast(op, x, t1[2], t2[2]) for x in v)
            if op == "bitcast":
                bs = []
                if t1[0] == "vec":
                    for x in v:
                        bs.append(to_int(x))
                    x = t.concat(bs)
                else:
                    x = to_int(v)
                if t2[0] == "vec":
                    w = self.m.size(t2[2]) * 8
                    return tuple(self.coerce(t.extract(x, i * w, w), t2[2]) for i in range(t2[1]))
                return self.coerce(x, t2)
            raise Unsupported("vector cast")
        if op == "ptrtoint":
            return to_int(v, t2[1])
        if op == "inttoptr":
            return to_ptr(v)
        if op == "bitcast":
            return v
        if t1[0] != "i" or t2[0] != "i":
            raise Unsupported("floating point")
        w = 0 if t2[1] == 1 else t2[1]
        v = to_int(v)
        if op == "trunc":
            return t.trunc(v, w)
        if op == "zext":
            return t.zext(v, w)
        return t.sext(v, w)

    def binop(self, op, a, b):
        f = {"add": t.add, "sub": t.sub, "mul": t.mul, "udiv": t.udiv, "sdiv": t.sdiv, "urem": t.urem, "srem": t.srem,
             "and": t.and_, "or": t.or_, "xor": t.xor, "shl": t.shl, "lshr": t.lshr, "ashr": t.ashr}.get(op)
        if f is None:
            raise Unsupported(op)
        if a.w == 0 and op in ("add", "sub"):
            return t.xor(a, b)
        if a.w == 0 and op == "mul":
            return t.band(a, b)
        return f(a, b)

    # ------------------------------------------------------------------ running
    def start(self, fname, args=()):
        f = self.m.fn(fname)
        s = State()
        s.frames, s.mem, s.pc, s.loops = [], {}, (), []
        s.inflight, s.caught, s.ghost, s.steps, s.uncaught, s.names = None, [], {}, 0, None, {}
        s.pending = None
        self.push(s, f, list(args), None, None, None)
        return s

    def push(self, s, f, args, dst, norm, unw):
        if len(s.frames) > 150:
            raise Unsupported("recursion depth in " + f.name)
        fr = Frame()
        fr.fn, fr.blk, fr.idx, fr.prev = f, f.order[0], 0, None
        fr.env = {}
        for (ty, nm, bv), a in zip(f.params, args):
            if bv is not None:
                o = self.new_obj(s, "byval", c64(self.m.size(bv)), "stack")
                self.mcopy(s, Ptr(o, C0), a, c64(self.m.size(bv)))
                a = Ptr(o, C0)
            fr.env[nm] = a
        fr.dst, fr.norm, fr.unw, fr.allocas, fr.site = dst, norm, unw, [], None
        s.frames.append(fr)
        self.funcs_run.add(f.name)

    def run(self, fname, procs=1):
        """explore every path of a harness; with procs > 1 the open paths are shared between processes"""
        s = self.start(fname)
        if procs <= 1:
            return self.explore([s])
        work = [s]
        t0 = time.time()
        while work and len(work) < 48 and not (len(work) >= 4 and time.time() - t0 > 5):
            w2 = []
            s = work.pop(0)
            if s.pending is not None:
                r = self.cont(s)
                if r == "done":
                    self.paths += 1
                    continue
                if r == "dead":
                    continue
                if r is not None:
                    work.extend(r)
                    continue
            self.run_state(s, w2)
            work.extend(w2)
            if time.time() > self.deadline:
                raise Budget("time budget exhausted")
        if len(work) < 4:
            return self.explore(work)
        return self.fan_out(work, procs)

    def result(self):
        return {"oblig": self.oblig, "failures": self.failures, "covers": self.covers, "paths": self.paths,
                "backends": self.backends, "funcs": self.funcs_run, "assumed": self.assumed,
                "loops": (self.loops_inv, self.loops_unrolled), "stats": dict(solve.STATS)}

    def merge(self, r):
        for k, (a, b) in r["oblig"].items():
            o = self.oblig.setdefault(k, [0, 0])
            o[0] += a
            o[1] += b
        self.failures += r["failures"]
        for k, v in r["covers"].items():
            self.covers[k] = self.covers.get(k, 0) + v
        for k, v in r["backends"].items():
            self.backends[k] = self.backends.get(k, 0) + v
        self.paths += r["paths"]
        self.funcs_run |= r["funcs"]
        self.assumed |= r["assumed"]
        self.loops_inv += r["loops"][0]
        self.loops_unrolled += r["loops"][1]
        solve.STATS["queries"] += r["stats"]["queries"]
        solve.STATS["time"] += r["stats"]["time"]

    def fan_out(self, work, procs):
        import multiprocessing as mp
        import os
        import pickle
        ctr = mp.Value("i", 0)
        kids = []
        for p in range(min(procs, len(work))):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                err = None
                self.oblig, self.failures, self.covers, self.paths, self.backends = {}, [], {}, 0, {}
                self.loops_inv = self.loops_unrolled = 0
                solve.STATS.update(queries=0, time=0.0)
                try:
                    while True:
                        with ctr.get_lock():
                            i = ctr.value
                            ctr.value += 1
                        if i >= len(work):
                            break
                        self.explore([work[i]])
                except (Unsupported, Budget) as e:
                    err = (type(e).__name__, str(e))
                except BaseException as e:
                    import traceback
                    err = ("Unsupported", "internal: " + traceback.format_exc()[-600:])
                try:
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump((self.result(), err), f)
                finally:
                    os._exit(0)
            os.close(wr)
            kids.append((pid, rd))
        errs = []
        for pid, rd in kids:
            with os.fdopen(rd, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                errs.append(("Unsupported", "a worker died"))
                continue
            r, e = pickle.loads(data)
            self.merge(r)
            if e:
                errs.append(e)
        if errs:
            raise (Budget if errs[0][0] == "Budget" else Unsupported)(errs[0][1])
        return self.paths

    def explore(self, work):
        n = 0
        while work:
            if time.time() > self.deadline:
                raise Budget("time budget exhausted")
            s = work.pop()
            if s.pending is not None:
                r = self.cont(s)
                if r == "done":
                    self.paths += 1
                    n += 1
                    continue
                if r == "dead":
                    continue
                if r is not None:
                    work.extend(r)
                    continue
            n += self.run_state(s, work)
            if self.paths > self.max_paths:
                raise Budget("path budget exhausted")
        return n

    def run_state(self, s, work):
        while True:
            fr = s.frames[-1]
            I = fr.fn.blocks[fr.blk][fr.idx]
            fr.idx += 1
            s.steps += 1
            if s.steps & 1023 == 0 and time.time() > self.deadline:
                raise Budget("time budget exhausted")
            r = getattr(self, "x_" + I.op, self.x_bin)(s, fr, I)
            if r is None:
                continue
            if r == "done":
                self.paths += 1
                return 1
            if r == "dead":
                return 0
            work.extend(r)
            return 0

    # ------------------------------------------------------------------ control flow
    def goto(self, s, label):
        """transfer inside the top frame.  None: go on; else a list of states or 'dead'"""
        fr = s.frames[-1]
        if s.loops:
            L = s.loops[-1]
            if L.depth == len(s.frames):
                if L.mode == "join":
                    if label == L.header:
                        s.pending = label
                        s.loops = s.loops[:-1]
                        L.exits.append(s)
                        return "dead"
                    if label in L.blocks:
                        for E in reversed(s.loops[:-1]):
                            if E.depth != L.depth:
                                break
                            if E.mode != "join":
                                if label not in E.blocks:
                                    # a block that never reaches the join leaves the loop as well
                                    s.loops = s.loops[:-1]
                                    return self.goto(s, label)
                                break
                        return self.enter(s, label)
                    # an exceptional edge leaves the region
                    s.loops = s.loops[:-1]
                    return self.goto(s, label)
                if label == L.header:
                    return self.at_back(s, L, label)
                if label not in L.blocks:
                    s.pending = label
                    s.loops = s.loops[:-1]
                    L.exits.append(s)
                    return "dead"
        loops = self.loops_of(fr.fn)
        if label in loops and not (s.loops and s.loops[-1].depth == len(s.frames) and s.loops[-1].header == label):
            return self.do_loop(s, label, loops[label])
        return self.enter(s, label)

    def enter(self, s, label, phis=None):
        fr = s.frames[-1]
        prev = fr.blk
        blk = fr.fn.blocks[label]
        vals = []
        i = 0
        while i < len(blk) and blk[i].op == "phi":
            I = blk[i]
            if phis is not None:
                vals.append((I.dst, phis[I.dst]))
            else:
                vals.append((I.dst, self.val(s, I.a[prev], I.ty)))
            i += 1
        for d, v in vals:
            fr.env[d] = v
        fr.prev, fr.blk, fr.idx = prev, label, i
        return None

    def phi_vals(self, s, label):
        fr = s.frames[-1]
        out = {}
        for I in fr.fn.blocks[label]:
            if I.op != "phi":
                break
            out[I.dst] = self.val(s, I.a[fr.blk], I.ty)
        return out

    def loops_of(self, f):
        if f.loops is None:
            f.loops = find_loops(f)
        return f.loops

    def x_br(self, s, fr, I):
        if len(I.a) == 1:
            return self.goto(s, I.a[0])
        c = self.val(s, I.a[0], ("i", 1))
        return self.branch(s, [(c, I.a[1]), (t.not_(c), I.a[2])])

    def x_switch(self, s, fr, I):
        v = to_int(self.val(s, I.a[0], I.ty))
        tg = {}
        rest = t.TRUE
        for cop, lab in I.a[2]:
            c = t.eq(v, to_int(self.const_op(cop, I.ty)))
            tg[lab] = t.bor(tg.get(lab, t.FALSE), c)
            rest = t.band(rest, t.not_(c))
        tg[I.a[1]] = t.bor(tg.get(I.a[1], t.FALSE), rest)
        return self.branch(s, [(c, l) for l, c in tg.items()])

    def branch(self, s, alts):
        L = s.loops[-1] if s.loops and s.loops[-1].depth == len(s.frames) else None
        live = []
        for c, l in alts:
            if c is t.FALSE:
                continue
            if c is t.TRUE:
                live = [(c, l)]
                break
            live.append((c, l))
        if L and L.mode == "unroll" and len(live) == 1 and any(
                l not in L.blocks and l in merge.returning(s.frames[-1].fn) for _, l in alts):
            s.ghost[("decn", L)] = s.ghost.get(("decn", L), 0) + 1
        if len(live) > 1:
            ok = []
            for i, (c, l) in enumerate(live):
                if i == len(live) - 1 and not ok:
                    ok.append((c, l))
                elif solve.feasible(s.pc, c):
                    ok.append((c, l))
            live = ok
        if not live:
            return "dead"
        if len(live) == 1:
            c, l = live[0]
            if c is not t.TRUE:
                if not self.assume(s, c):
                    return "dead"
            return self.goto(s, l)
        if self.merging:
            r = self.try_join(s, live)
            if r is not None:
                return r
        out = []
        for j, (c, l) in enumerate(live):
            n = s.fork() if j < len(live) - 1 else s
            if not self.add_fact(n, c):
                continue
            r = self.goto(n, l)
            if r is None:
                out.append(n)
            elif r not in ("dead", "done"):
                out.extend(r)
        return out

    def try_join(self, s, live):
        fr = s.frames[-1]
        rg = merge.region(fr.fn, fr.blk, self.loops_of(fr.fn))
        if rg is None:
            return None
        J, blocks = rg
        L = LoopCtx(len(s.frames), J, blocks, "join")
        work = []
        for c, l in live:
            n = s.fork()
            if not self.add_fact(n, c):
                continue
            n.loops = n.loops + [L]
            r = self.goto(n, l)
            if r is None:
                work.append(n)
            elif r not in ("dead", "done"):
                work.extend(r)
        self.explore(work)
        self.joins += 1
        if not L.exits:
            return "dead"
        return merge.join(self, s, L.exits, J)

    def add_fact(self, s, c):
        st = [c]
        add = []
        while st:
            x = st.pop()
            if x.op == "band":
                st += [x.args[1], x.args[0]]
            elif x is t.FALSE:
                return False
            else:
                add.append(x)
        s.pc = s.pc + tuple(add)
        return True

    def x_ret(self, s, fr, I):
        v = None
        if I.a[0] is not None:
            v = self.val(s, I.a[0], I.ty)
        return self.leave(s, v)

    def leave(self, s, v):
        fr = s.frames.pop()
        for o in fr.allocas:
            c = s.mem.get(o.id)
            if c is not None:
                del s.mem[o.id]
        if not s.frames:
            return "done"
        up = s.frames[-1]
        if fr.dst is not None:
            up.env[fr.dst] = v
        if fr.site is not None:
            r = fr.site(self, s, v)
            if r is not None:
                return r
        s.pending = fr.norm
        return self.cont(s)

    def cont(self, s):
        """perform the pending transfer, unless the state has left the loop under exploration"""
        while s.loops and s.loops[-1].mode == "join" and s.loops[-1].depth > len(s.frames):
            s.loops = s.loops[:-1]
        if s.loops and s.loops[-1].depth > len(s.frames):
            L = s.loops[-1]
            s.loops = s.loops[:-1]
            L.exits.append(s)
            return "dead"
        p, s.pending = s.pending, None
        if p is None:
            return None
        if p is UNWIND:
            return self.unwind(s)
        return self.goto(s, p)

    def x_unreachable(self, s, fr, I):
        self.check(s, t.FALSE, "unreachable code is not reached")
        return "dead"

    # ------------------------------------------------------------------ exceptions
    def throw(self, s, obj, tinfo):
        s.inflight = (obj, tinfo)
        s.ghost["uncaught"] = s.ghost.get("uncaught", 0) + 1
        return self.unwind(s)

    def unwind(self, s):
        """find a landing pad; ghost['_unw'] is the handler of the call the top frame is executing"""
        unw = s.ghost.pop("_unw", None)
        if unw is not None:
            return self.goto(s, unw)
        fr = s.frames.pop()
        for o in fr.allocas:
            s.mem.pop(o.id, None)
        if not s.frames:
            s.uncaught = s.inflight
            self.frames_guard(s)
            return "done"
        s.pending = fr.unw if fr.unw is not None else UNWIND
        return self.cont(s)

    def frames_guard(self, s):
        if not self.quiet:
            name = s.inflight[1]
            key = ("no exception escapes the harness", "-")
            o = self.oblig.setdefault(key, [0, 0])
            o[0] += 1
            self.failures.append(Failure("exception %s escapes the harness" % self.demangle(name), "-", "refuted",
                                         self.full_model(s, t.FALSE), s.pc, t.FALSE, dict(s.names)))

    def ti_bases(self, name):
        """[(base typeinfo name, offset)]"""
        name = self.m.aliases.get(name, name)
        if name not in self.m.globals:
            return []
        try:
            o = self.global_obj(name)
        except Unsupported:
            return []
        c = self.gcont[o.id]
        vt = c.cells.get(0)
        if not vt or not isinstance(vt[1], Ptr):
            return []
        kind = vt[1].obj.name
        if "__si_class_type_info" in kind:
            b = c.cells.get(16)
            return [(b[1].obj.name, 0)] if b and isinstance(b[1], Ptr) and b[1].obj else []
        if "__vmi_class_type_info" in kind:
            raw = mem.rd(c.node(), c64(20), 4, lambda q: None)
            n = t.cval(raw)
            out = []
            for i in range(n):
                b = c.cells.get(24 + 16 * i)
                fl = t.cval(mem.rd(c.node(), c64(32 + 16 * i), 8, lambda q: None))
                out.append((b[1].obj.name, (fl >> 8) if not fl & 1 else None))
            return out
        return []

    def ti_match(self, thrown, want):
        if thrown == want:
            return 0
        for b, off in self.ti_bases(thrown):
            r = self.ti_match(b, want)
            if r is not None and off is not None:
                return r + off
        return STD_BASES_MATCH(thrown, want)

    def x_landingpad(self, s, fr, I):
        obj, ti = s.inflight
        sel = None
        cleanup = False
        for k, op in I.a:
            if k == "cleanup":
                cleanup = True
            elif k == "catch":
                if op[0] == "null":
                    sel = t.const(self.typeid(None), 32)
                    break
                w = self.const_op(op, ("ptr",)).obj.name
                if self.ti_match(ti, w) is not None:
                    sel = t.const(self.typeid(w), 32)
                    break
            else:
                raise Unsupported("filter clause")
        if sel is None:
            if not cleanup:
                s.ghost.pop("_unw", None)
                return self.unwind(s)
            sel = t.const(0, 32)
        fr.env[I.dst] = (obj, sel)
        return None

    _tids = {None: 1}

    def typeid(self, name):
        if name not in self._tids:
            self._tids[name] = len(self._tids) + 1
        return self._tids[name]

    def x_resume(self, s, fr, I):
        s.ghost.pop("_unw", None)
        return self.unwind(s)

    # ------------------------------------------------------------------ plain instructions
    def x_bin(self, s, fr, I):
        if I.op in ir.BIN:
            a, b = self.val(s, I.a[0], I.ty), self.val(s, I.a[1], I.ty)
            ty = self.m.resolve(I.ty)
            if ty[0] == "vec":
                fr.env[I.dst] = tuple(self.binop(I.op, to_int(x), to_int(y)) for x, y in zip(a, b))
                return None
            if ty[0] == "fp":
                fr.env[I.dst] = ("fp", "expr")
                return None
            a, b = to_int(a), to_int(b)
            if I.op in ("udiv", "urem", "sdiv", "srem") and not (t.is_const(b) and t.cval(b)):
                if not self.check(s, t.ne(b, t.const(0, b.w)), "divisor is not zero"):
                    return "dead"
            fr.env[I.dst] = self.binop(I.op, a, b)
            return None
        if I.op in ir.CASTS:
            v = self.val(s, I.a[1], I.a[0])
            t1, t2 = self.m.resolve(I.a[0]), self.m.resolve(I.ty)
            if "fp" in (t1[0], t2[0]):
                fr.env[I.dst] = ("fp", "expr") if t2[0] == "fp" else t.fresh("fptoint", t2[1])
                return None
            fr.env[I.dst] = self.cast(I.op, v, t1, t2)
            return None
        raise Unsupported("instruction " + I.op)

    def x_icmp(self, s, fr, I):
        pred, a, b = I.a
        ty = self.m.resolve(I.ty)
        a, b = self.val(s, a, I.ty), self.val(s, b, I.ty)
        if ty[0] == "vec":
            fr.env[I.dst] = tuple(self.cmp(s, pred, x, y) for x, y in zip(a, b))
        else:
            fr.env[I.dst] = self.cmp(s, pred, a, b)
        return None

    def x_fcmp(self, s, fr, I):
        fr.env[I.dst] = t.fresh("fcmp", 0)

    def cmp(self, s, pred, a, b):
        if isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr)):
            if isinstance(a, T):
                a = to_ptr(a)
            if isinstance(b, T):
                b = to_ptr(b)
            if isinstance(a, FPtr) or isinstance(b, FPtr):
                r = isinstance(a, FPtr) and isinstance(b, FPtr) and a.name == b.name
                if pred == "eq":
                    return t.boolc(r)
                if pred == "ne":
                    return t.boolc(not r)
                return self.icmp(pred, to_int(a), to_int(b))
            if a.obj is b.obj:
                a, b = a.off, b.off
            elif pred in ("eq", "ne"):
                if (a.obj is None or b.obj is None) and not (t.is_const(a.off) and t.is_const(b.off)) \
                        and not ((a.obj is None and t.is_const(a.off) and t.cval(a.off) == 0) or
                                 (b.obj is None and t.is_const(b.off) and t.cval(b.off) == 0)):
                    a, b = to_int(a), to_int(b)
                else:
                    return t.boolc(pred == "ne")
            else:
                if a.obj is not None and b.obj is not None:
                    ca, cb = s.mem.get(a.obj.id), s.mem.get(b.obj.id)
                    if (ca is None or ca.alive) and (cb is None or cb.alive):
                        # objects that exist at the same time do not overlap
                        A, B = a.obj.addr, b.obj.addr
                        self.assume(s, t.bor(t.ult(t.add(A, a.obj.size), B), t.ult(t.add(B, b.obj.size), A)))
                a, b = to_int(a), to_int(b)
        if self.ibounds is not None and a.w >= 8:
            self.ibounds.add((a, b))
        return self.icmp(pred, a, b)

    def icmp(self, pred, a, b):
        if a.w == 0:
            if pred == "eq":
                return t.eq(a, b)
            if pred == "ne":
                return t.not_(t.eq(a, b))
            if pred in ("ult", "sgt"):
                return t.band(t.not_(a), b)
            if pred in ("ugt", "slt"):
                return t.band(a, t.not_(b))
            if pred in ("ule", "sge"):
                return t.bor(t.not_(a), b)
            return t.bor(a, t.not_(b))
        return {"eq": t.eq, "ne": t.ne, "ult": t.ult, "ule": t.ule, "slt": t.slt, "sle": t.sle,
                "ugt": lambda x, y: t.ult(y, x), "uge": lambda x, y: t.ule(y, x),
                "sgt": lambda x, y: t.slt(y, x), "sge": lambda x, y: t.sle(y, x)}[pred](a, b)

    def x_select(self, s, fr, I):
        c, a, b, ct = I.a
        c = self.val(s, c, ct)
        if isinstance(c, tuple):
            a, b = self.val(s, a, I.ty), self.val(s, b, I.ty)
            fr.env[I.dst] = tuple(t.ite(x, to_int(y), to_int(z)) for x, y, z in zip(c, a, b))
            return None
        a, b = self.val(s, a, I.ty), self.val(s, b, I.ty)
        if c is t.TRUE or c is t.FALSE:
            fr.env[I.dst] = a if c is t.TRUE else b
            return None
        if isinstance(a, T) and isinstance(b, T):
            fr.env[I.dst] = t.ite(c, a, b)
            return None
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            fr.env[I.dst] = Ptr(a.obj, t.ite(c, a.off, b.off))
            return None
        if mem.same(a, b):
            fr.env[I.dst] = a
            return None
        n = s.fork()
        out = []
        fr.env[I.dst] = a
        n.frames[-1].env[I.dst] = b
        if self.assume(s, c):
            out.append(s)
        if self.assume(n, t.not_(c)):
            out.append(n)
        return out

    def x_freeze(self, s, fr, I):
        fr.env[I.dst] = self.val(s, I.a[0], I.ty)

    def x_alloca(self, s, fr, I):
        n = c64(self.m.size(I.ty))
        if I.a[0] is not None:
            n = t.mul(n, t.zext(to_int(self.val(s, I.a[0], ("i", 64))), 64))
        o = self.new_obj(s, I.dst or "a", n, "stack")
        fr.allocas.append(o)
        fr.env[I.dst] = Ptr(o, C0)

    def ptr_val(self, s, op):
        p = self.val(s, op, ("ptr",))
        return to_ptr(p) if isinstance(p, T) else p

    def x_load(self, s, fr, I):
        p = self.ptr_val(s, I.a[0])
        v = self.load_ty(s, p, I.ty)
        if v is None:
            return "dead"
        if isinstance(v, T) and v.op == "ite" and self.m.resolve(I.ty)[0] == "ptr":
            v = to_ptr(v)
        if isinstance(v, Ptr) and v.obj is None and v.off.op == "ite":
            # a choice between addresses: split the path
            c = v.off.args[0]
            n = s.fork()
            out = []
            for st, f, x in ((s, c, v.off.args[1]), (n, t.not_(c), v.off.args[2])):
                if self.assume(st, f):
                    st.frames[-1].idx -= 1
                    out.append(st)
            if len(out) == 1 and out[0] is s:
                pass
            return out
        fr.env[I.dst] = v

    def x_store(self, s, fr, I):
        v = self.val(s, I.a[0], I.ty)
        p = self.ptr_val(s, I.a[1])
        if isinstance(p, FPtr):
            raise Unsupported("store to function")
        if v is None:
            v = t.fresh("undef", 8 * self.m.size(I.ty))
        if isinstance(v, tuple) and v and v[0] == "fp":
            v = t.fresh("fp", 8 * self.m.size(I.ty))
        if not self.store_ty(s, p, I.ty, v):
            return "dead"

    def x_getelementptr(self, s, fr, I):
        b = self.ptr_val(s, I.a[0])
        off = self.gep_off(I.ty, [(ty, self.val(s, o, ty)) for ty, o in I.a[1]])
        if isinstance(b, FPtr):
            raise Unsupported("gep on function")
        fr.env[I.dst] = Ptr(b.obj, t.add(b.off, off))

    def x_extractvalue(self, s, fr, I):
        v = self.val(s, I.a[0], I.ty)
        for i in I.a[1]:
            v = v[i]
        fr.env[I.dst] = v

    def x_insertvalue(self, s, fr, I):
        a = self.val(s, I.a[0], I.ty)
        v = self.val(s, I.a[1], None) if I.a[1][0] != "undef" else None

        def ins(a, ix):
            a = list(a)
            a[ix[0]] = v if len(ix) == 1 else ins(a[ix[0]], ix[1:])
            return tuple(a)
        if I.a[1][0] == "zero":
            v = None
        fr.env[I.dst] = ins(a, I.a[2])

    def x_extractelement(self, s, fr, I):
        v = self.val(s, I.a[0], I.ty)
        i = to_int(self.val(s, I.a[1], ("i", 64)))
        fr.env[I.dst] = v[t.cval(i)]

    def x_insertelement(self, s, fr, I):
        v = list(self.val(s, I.a[0], I.ty))
        i = to_int(self.val(s, I.a[2], ("i", 64)))
        v[t.cval(i)] = self.val(s, I.a[1], self.m.resolve(I.ty)[2])
        fr.env[I.dst] = tuple(v)

    def x_shufflevector(self, s, fr, I):
        a, b = self.val(s, I.a[0], I.ty), self.val(s, I.a[1], I.ty)
        allv = list(a) + list(b)
        mk = I.a[2]
        n = self.m.resolve(I.a[3])[1]
        if mk[0] == "zero":
            idx = [0] * n
        elif mk[0] == "undef":
            idx = [0] * n
        else:
            idx = [0 if o[0] == "undef" else o[2] for _, o in mk[1]]
        fr.env[I.dst] = tuple(allv[i] for i in idx)

    def x_fence(self, s, fr, I):
        return None

    def x_atomicrmw(self, s, fr, I):
        o, p, v = I.a
        p = self.ptr_val(s, p)
        v = self.val(s, v, I.ty)
        old = self.load_ty(s, p, I.ty)
        if old is None:
            return "dead"
        if o == "xchg":
            nv = v
        else:
            f = {"add": t.add, "sub": t.sub, "and": t.and_, "or": t.or_, "xor": t.xor}.get(o)
            if f is None:
                raise Unsupported("atomicrmw " + o)
            nv = f(to_int(old), to_int(v))
        if not self.store_ty(s, p, I.ty, nv):
            return "dead"
        fr.env[I.dst] = old

    def x_cmpxchg(self, s, fr, I):
        p, c, n = I.a
        p = self.ptr_val(s, p)
        c, n = self.val(s, c, I.ty), self.val(s, n, I.ty)
        old = self.load_ty(s, p, I.ty)
        if old is None:
            return "dead"
        e = self.cmp(s, "eq", old, c)
        if e is t.TRUE:
            if not self.store_ty(s, p, I.ty, n):
                return "dead"
        elif e is not t.FALSE:
            if not isinstance(old, T):
                raise Unsupported("symbolic cmpxchg")
            if not self.store_ty(s, p, I.ty, t.ite(e, n, old)):
                return "dead"
        fr.env[I.dst] = (old, e)

    # ------------------------------------------------------------------ calls
    def x_invoke(self, s, fr, I):
        return self.x_call(s, fr, I)

    def x_call(self, s, fr, I):
        callee, args, norm, unw = I.a
        if callee[0] == "asm":
            return self.call_asm(s, fr, I)
        if callee[0] == "g":
            name = self.m.aliases.get(callee[1], callee[1])
        else:
            f = self.val(s, callee, ("ptr",))
            if isinstance(f, T):
                f = to_ptr(f)
            if isinstance(f, Ptr):
                if f.obj is None and t.is_const(f.off):
                    self.check(s, t.FALSE, "call through a null function pointer")
                    return "dead"
                raise Unsupported("call through unknown pointer %r" % f)
            name = self.m.aliases.get(f.name, f.name)
        if name.startswith("llvm."):
            return self.intrinsic(s, fr, I, name, args)
        avs = []
        for ty, op, bv in args:
            v = self.val(s, op, ty) if op is not None else None
            if bv is not None:
                # by value: callee gets a copy
                o = self.new_obj(s, "byval", c64(self.m.size(bv)), "stack")
                fr.allocas.append(o)
                if not self.mcopy(s, Ptr(o, C0), v, c64(self.m.size(bv))):
                    return "dead"
                v = Ptr(o, C0)
            avs.append(v)
        return self.do_call(s, name, avs, I.dst, I.ty, norm, unw)

    def do_call(self, s, name, avs, dst, rty, norm, unw):
        from . import lib
        target = self.overrides.get(name, name)
        if "=" + name in self.overrides:
            target = self.overrides["=" + name]
        h = lib.find(target)
        if h is not None:
            s.ghost["_unw"] = unw
            r = h(self, s, avs, target, rty)
            return self.after(s, r, dst, norm)
        f = self.m.fn(target)
        if f is None or not f.defined:
            if any(re.search(p, target) for p in self.opaque):
                self.assumed.add("external %s returns an arbitrary value and has no other effect" % self.demangle(target))
                return self.after(s, self.fresh_of(rty), dst, norm)
            raise Unsupported("call to external " + self.demangle(target))
        # by-value copies were made already
        fr = Frame()
        fr.fn, fr.blk, fr.idx, fr.prev = f, f.order[0], 0, None
        fr.env = {}
        for (ty, nm, bv), a in zip(f.params, avs):
            fr.env[nm] = a
        fr.dst, fr.norm, fr.unw, fr.allocas, fr.site = dst, norm, unw, [], None
        if len(s.frames) > 150:
            raise Unsupported("recursion depth in " + f.name)
        s.frames.append(fr)
        self.funcs_run.add(f.name)
        return None

    def after(self, s, r, dst, norm):
        """r: value | ('states', [(state, value)]) | 'dead' | ('throw', obj, ti) | None (void)"""
        if isinstance(r, str) and r in ("dead", "done"):
            return r
        if isinstance(r, tuple) and r and r[0] == "throw":
            return self.throw(s, r[1], r[2])
        if isinstance(r, tuple) and r and r[0] == "raw":
            return r[1]
        if isinstance(r, tuple) and r and r[0] == "states":
            out = []
            for n, v in r[1]:
                x = self.after(n, v, dst, norm)
                if x is None:
                    out.append(n)
                elif x not in ("dead", "done"):
                    out.extend(x)
            return out
        s.ghost.pop("_unw", None)
        if dst is not None:
            s.frames[-1].env[dst] = r
        if norm is not None:
            return self.goto(s, norm)
        return None

    def fresh_of(self, ty, name="ext"):
        ty = self.m.resolve(ty)
        if ty[0] == "void":
            return None
        if ty[0] == "i":
            return t.fresh(name, 0 if ty[1] == 1 else ty[1])
        if ty[0] == "ptr":
            return NULL
        if ty[0] in ("st", "arr"):
            return tuple(self.fresh_of(e, name) for _, e in self.m.fields(ty))
        raise Unsupported("fresh value")

    def call_asm(self, s, fr, I):
        txt = I.a[0][1]
        if "rep" in txt and "stos" in txt:
            # securely zeroing a buffer that is about to be freed
            args = [self.val(s, op, ty) for ty, op, _ in I.a[1]]
            p = next((a for a in args if isinstance(a, Ptr) and a.obj is not None), None)
            if p is not None:
                o = p.obj
                s.mem[o.id] = Content({}, ("zero",), self.content(s, o).alive)
        if I.dst:
            rty = self.m.resolve(I.ty)
            fr.env[I.dst] = self.undef(rty)
        return None

    def intrinsic(self, s, fr, I, name, args):
        b = name[5:]
        if b.startswith(("lifetime", "dbg", "experimental.noalias", "assume", "invariant", "prefetch", "donothing",
                         "stackrestore", "var.annotation", "sideeffect")):
            return None
        av = [self.val(s, op, ty) if op is not None else None for ty, op, _ in args]
        if b.startswith(("memcpy", "memmove")):
            return None if self.mcopy(s, self._p(av[0]), self._p(av[1]), to_int(av[2])) else "dead"
        if b.startswith("memset"):
            return None if self.mset(s, self._p(av[0]), to_int(av[1]), t.zext(to_int(av[2]), 64)) else "dead"
        r = None
        ty = self.m.resolve(I.ty)
        if ty[0] == "vec":
            raise Unsupported("vector intrinsic " + name)
        k = b.split(".")[0]
        if b.startswith(("umin", "umax", "smin", "smax")):
            x, y = to_int(av[0]), to_int(av[1])
            lt = t.ult(x, y) if b[0] == "u" else t.slt(x, y)
            r = t.ite(lt, x, y) if "min" in k else t.ite(lt, y, x)
        elif k == "bswap":
            x = to_int(av[0])
            r = t.concat([t.extract(x, x.w - 8 - 8 * i, 8) for i in range(x.w // 8)])
        elif k == "abs":
            x = to_int(av[0])
            r = t.ite(t.slt(x, t.const(0, x.w)), t.neg(x), x)
        elif k == "expect":
            r = av[0]
        elif b.startswith("is.constant"):
            r = t.FALSE
        elif k == "objectsize":
            r = t.const(-1, ty[1])
        elif b.startswith("eh.typeid.for"):
            r = t.const(self.typeid(av[0].obj.name if av[0].obj else None), 32)
        elif k == "stacksave":
            r = NULL
        elif k == "trap" or b.startswith("ubsantrap"):
            self.check(s, t.FALSE, "trap is not reached")
            return "dead"
        elif b.startswith(("uadd.with.overflow", "usub.with.overflow", "umul.with.overflow", "sadd.with.overflow",
                           "ssub.with.overflow", "smul.with.overflow")):
            x, y = to_int(av[0]), to_int(av[1])
            w = x.w
            op = b[1:4]
            f = {"add": t.add, "sub": t.sub, "mul": t.mul}[op]
            if b[0] == "u":
                if op == "add":
                    o = t.ult(f(x, y), x)
                elif op == "sub":
                    o = t.ult(x, y)
                else:
                    X, Y = t.zext(x, 2 * w), t.zext(y, 2 * w)
                    o = t.ult(t.zext(t.const(t.mask(w), w), 2 * w), t.mul(X, Y))
            else:
                X, Y = t.sext(x, 2 * w), t.sext(y, 2 * w)
                o = t.ne(f(X, Y), t.sext(f(x, y), 2 * w))
            r = (f(x, y), o)
        elif b.startswith("uadd.sat"):
            x, y = to_int(av[0]), to_int(av[1])
            z = t.add(x, y)
            r = t.ite(t.ult(z, x), t.const(t.mask(x.w), x.w), z)
        elif b.startswith("usub.sat"):
            x, y = to_int(av[0]), to_int(av[1])
            r = t.ite(t.ult(x, y), t.const(0, x.w), t.sub(x, y))
        elif k in ("fshl", "fshr"):
            x, y, z = (to_int(v) for v in av)
            if not t.is_const(z):
                raise Unsupported("funnel shift by a variable")
            n = t.cval(z) % x.w
            if n == 0:
                r = x if k == "fshl" else y
            elif k == "fshl":
                r = t.or_(t.shl(x, t.const(n, x.w)), t.lshr(y, t.const(x.w - n, x.w)))
            else:
                r = t.or_(t.shl(x, t.const(x.w - n, x.w)), t.lshr(y, t.const(n, x.w)))
        elif k in ("ctlz", "cttz", "ctpop"):
            x = to_int(av[0])
            w = x.w
            if t.is_const(x):
                v = t.cval(x)
                r = t.const({"ctlz": w - v.bit_length(), "cttz": (v & -v).bit_length() - 1 if v else w,
                             "ctpop": bin(v).count("1")}[k], w)
            else:
                r = t.fresh(k, w)
                if not self.assume(s, t.ule(r, t.const(w, w))):
                    return "dead"
        elif k in ("ucmp", "scmp"):
            x, y = to_int(av[0]), to_int(av[1])
            lt = t.ult(x, y) if k == "ucmp" else t.slt(x, y)
            w = ty[1]
            r = t.ite(lt, t.const(-1, w), t.ite(t.eq(x, y), t.const(0, w), t.const(1, w)))
        elif k == "threadlocal":
            r = av[0]
        elif b.startswith("load.relative"):
            raise Unsupported(name)
        else:
            raise Unsupported("intrinsic " + name)
        if I.dst is not None:
            fr.env[I.dst] = r
        if I.op == "invoke":
            return self.goto(s, I.a[2])
        return None

    def _p(self, v):
        return to_ptr(v) if isinstance(v, T) else v

    # ------------------------------------------------------------------ loops
    def at_back(self, s, L, label):
        if L.mode == "unroll":
            n = s.ghost.get(("iter", L), 0) + 1
            before, now = s.ghost.get(("dec", L), 0), s.ghost.get(("decn", L), 0)
            if not L.hint and (n > L.limit or (now == before and n > s.ghost.get("tryunroll", 0))):
                raise NeedInvariant()
            if L.hint and n > L.hint:
                if not self.check(s, t.FALSE, "loop ends within the unwinding bound"):
                    return "dead"
            s.ghost[("iter", L)] = n
            s.ghost[("dec", L)] = now
            return self.enter(s, label)
        L.back.append(s)
        return "dead"

    def do_loop(self, s, label, blocks):
        fr = s.frames[-1]
        key = (fr.fn.name, label)
        depth = len(s.frames)
        hint = s.ghost.get("unroll", 0)
        save = (self.paths, len(self.failures), {k: list(v) for k, v in self.oblig.items()}, dict(self.backends),
                dict(self.covers))
        if hint or self.loopkeys.get(key) != "inv":
            L = LoopCtx(depth, label, blocks, "unroll", limit=max(72, hint))
            L.hint = hint
            try:
                n = s.fork()
                n.loops = n.loops + [L]
                self.enter(n, label)
                self.explore([n])
                self.loops_unrolled += 1
                for x in L.exits:
                    for k in ("iter", "dec", "decn"):
                        x.ghost.pop((k, L), None)
                return L.exits if L.exits else "dead"
            except NeedInvariant:
                if hint:
                    raise Unsupported("loop needs more than %d iterations" % hint)
                self.paths = save[0]
                del self.failures[save[1]:]
                self.oblig, self.backends, self.covers = save[2], save[3], save[4]
                self.loopkeys[key] = "inv"
        from . import loops
        return loops.invariant(self, s, label, blocks, depth)


def STD_BASES_MATCH(thrown, want):
    chain = {"_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12out_of_range": "_ZTISt11logic_error",
             "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt11logic_error": "_ZTISt9exception",
             "_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt11range_error": "_ZTISt13runtime_error",
             "_ZTISt14overflow_error": "_ZTISt13runtime_error", "_ZTISt9bad_alloc": "_ZTISt9exception",
             "_ZTISt8bad_cast": "_ZTISt9exception", "_ZTISt18bad_variant_access": "_ZTISt9exception",
             "_ZTISt17bad_function_call": "_ZTISt9exception", "_ZTISt12system_error": "_ZTISt13runtime_error",
             "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc", "_ZTISt12bad_weak_ptr": "_ZTISt9exception",
             "_ZTISt19bad_optional_access": "_ZTISt9exception"}
    x = thrown
    for _ in range(5):
        x = chain.get(x)
        if x is None:
            return None
        if x == want:
            return 0
    return None


def find_loops(f):
    """{header: set(blocks)} natural loops"""
    succ = {}
    for b, ins in f.blocks.items():
        I = ins[-1]
        if I.op == "br":
            succ[b] = [I.a[0]] if len(I.a) == 1 else [I.a[1], I.a[2]]
        elif I.op == "switch":
            succ[b] = [I.a[1]] + [l for _, l in I.a[2]]
        elif I.op == "invoke":
            succ[b] = [I.a[2], I.a[3]]
        else:
            succ[b] = []
    order, seen = [], set()
    st = [(f.order[0], iter(succ[f.order[0]]))]
    seen.add(f.order[0])
    while st:
        b, it = st[-1]
        for n in it:
            if n not in seen:
                seen.add(n)
                st.append((n, iter(succ[n])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for n in succ[b]:
            preds[n].append(b)
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in preds[b] if p in idom]
            if not ps:
                continue
            n = ps[0]
            for p in ps[1:]:
                x, y = n, p
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
    out = {}
    for b in order:
        for h in succ[b]:
            if dom(h, b):
                body = out.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(preds[x])
    return out
