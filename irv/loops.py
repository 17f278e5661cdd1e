"""Inductive loop invariants: inferred templates and harness predicates, kept only when proved inductive."""
import time

from . import mem, solve
from . import terms as t
from .exec import Budget, LoopCtx
from .mem import C0, Content, FPtr, Ptr, Unsupported, c64, to_int
from .terms import T


def simp(pc, v):
    """v with the conditions of its ites decided by pc"""
    if not isinstance(v, T) or v.op == "const":
        return v
    for _ in range(12):
        ites = [y for y in t.subterms([v]) if y.op == "ite" and y.w >= 8]
        if len(ites) > 40:
            return v
        mp = {}
        for y in ites:
            c = y.args[0]
            d = _dec(None, pc, c)
            if d is not None:
                mp[y] = y.args[1] if d else y.args[2]
                break
        if not mp:
            return v
        v = t.substitute(v, mp)
    return v


class LV:
    """a loop-modified scalar: a phi or a memory cell.  cur/entry are T (pointers: their offset)"""

    def __init__(self, kind, key, entry, obj=None, isptr=False):
        self.kind, self.key, self.entry, self.obj, self.isptr = kind, key, entry, obj, isptr
        self.w = entry.w
        self.fresh = t.fresh("loop_%s" % (key if kind == "phi" else "m%d_%d" % (key[0], key[1])), self.w)
        if kind != "phi" or True:
            pass

    def name(self):
        return "%s:%s" % (self.kind, self.key)


class Arr:
    def __init__(self, oid, obj, entry):
        self.oid, self.obj, self.entry = oid, obj, entry
        self.opts = []
        self.pos = 0
        self.name = "loop_arr%d_%d" % (oid, next(_n))


import itertools
_n = itertools.count()


def eval_fn(x, s, fname, args):
    """value of a pure harness function in state s -> term (bool as 0-width or integer)"""
    n = s.fork()
    n.frames, n.loops, n.pending = [], [], None
    base = len(n.pc)
    out = []

    def fin(xx, st, v):
        out.append((st.pc[base:], v))
        return "dead"
    f = x.m.fn(x.m.aliases.get(fname, fname))
    x.push(n, f, args, None, None, None)
    n.frames[-1].site = fin
    # a frame below so that leave() finds a caller
    from .exec import Frame
    top = n.frames[-1]
    dummy = Frame()
    dummy.fn, dummy.blk, dummy.idx, dummy.prev, dummy.env = f, f.order[0], 0, None, {}
    dummy.dst = dummy.norm = dummy.unw = dummy.site = None
    dummy.allocas = []
    n.frames = [dummy, top]
    x.quiet += 1
    ib, x.ibounds = x.ibounds, None
    try:
        x.explore([n])
    finally:
        x.quiet -= 1
        x.ibounds = ib
    return out


def eval_pred(x, s, fname, args):
    r = t.TRUE
    for facts, v in eval_fn(x, s, fname, args):
        v = to_int(v)
        if v.w:
            v = t.ne(v, t.const(0, v.w))
        r = t.band(r, t.implies(t.conj(facts), v))
    return r


def eval_byte(x, s, fname, args):
    outs = eval_fn(x, s, fname, args)
    r = None
    for facts, v in outs:
        v = t.trunc(to_int(v), 8)
        r = v if r is None else t.ite(t.conj(facts), v, r)
    if r is None:
        raise Unsupported("specification function has no result")
    return r


def body(x, h, label, blocks, depth, phis):
    L = LoopCtx(depth, label, blocks, "inv")
    h.loops = h.loops + [L]
    x.enter(h, label, phis)
    x.explore([h])
    return L


NMAX = 1 << 44


def eval_val(x, s, fname, args):
    r = None
    for facts, v in eval_fn(x, s, fname, args):
        v = to_int(v)
        r = v if r is None else t.ite(t.conj(facts), v, r)
    if r is None:
        raise Unsupported("specification function has no result")
    return r


def invariant(x, s, label, blocks, depth):
    """few templates first; all of them when the obligations of the loop do not hold with the few"""
    key = (s.frames[-1].fn.name, label)
    level = x.looplevel.get(key, x.minlevel)
    if level or x.quiet:
        return invariant1(x, s, label, blocks, depth, level)
    save = (x.paths, len(x.failures), {k: list(v) for k, v in x.oblig.items()}, dict(x.backends), dict(x.covers),
            x.loops_inv, x.loops_unrolled)
    r = invariant1(x, s.fork(), label, blocks, depth, 0)
    if len(x.failures) == save[1]:
        return r
    x.paths = save[0]
    del x.failures[save[1]:]
    x.oblig, x.backends, x.covers, x.loops_inv, x.loops_unrolled = save[2:]
    x.looplevel[key] = 1
    ml, x.minlevel = x.minlevel, 1
    try:
        return invariant1(x, s, label, blocks, depth, 1)
    finally:
        x.minlevel = ml


def invariant1(x, s, label, blocks, depth, level):
    x.loops_inv += 1
    entry_phis = x.phi_vals(s, label)
    fnname = s.frames[-1].fn.name
    t0 = time.time()
    paths0 = x.paths
    # ---- discovery: one iteration from the entry state
    x.quiet += 1
    bounds = set()
    save_ib, x.ibounds = x.ibounds, bounds
    try:
        L = body(x, s.fork(), label, blocks, depth, entry_phis)
    finally:
        x.quiet -= 1
        x.ibounds = save_ib
    if not L.back:
        x.paths = paths0
        L = body(x, s.fork(), label, blocks, depth, entry_phis)
        return L.exits or "dead"

    lvs, arrs = {}, {}
    fixed_phis = {}
    for nm, v in entry_phis.items():
        if isinstance(v, T):
            lvs["phi", nm] = LV("phi", nm, v)
        elif isinstance(v, Ptr):
            lvs["phi", nm] = LV("phi", nm, v.off, v.obj, True)
        else:
            fixed_phis[nm] = v

    def cell_of(st, oid, off, n):
        c = st.mem.get(oid) or x.gcont.get(oid)
        return mem.rd(c.node(), c64(off), n, x.dec(st))

    objs = {}

    def note_mods(back):
        """extends lvs/arrs by what the iteration changed; True when something was new"""
        new = False
        ids = set(s.mem) | set(k for k in back.mem if k in x.gcont)
        for oid in ids:
            a = s.mem.get(oid) or x.gcont.get(oid)
            b = back.mem.get(oid)
            if b is None or b is a:
                continue
            if b.alive != a.alive:
                raise Unsupported("object freed inside a loop")
            if oid in arrs:
                continue
            hb = head_mem.get(oid)
            if hb is b:
                continue
            if b.log is not a.log and not (hb is not None and b.log is hb.log):
                # symbolic writes: the whole object is abstracted
                o = find_obj(x, s, oid)
                arrs[oid] = Arr(oid, o, a)
                for k in [k for k in lvs if k[0] == "cell" and k[1][0] == oid]:
                    del lvs[k]
                new = True
                continue
            for off, (n, v) in b.cells.items():
                e = a.cells.get(off)
                if e is not None and e[0] == n and mem.same(e[1], v):
                    continue
                if ("cell", (oid, off, n)) in lvs:
                    continue
                if hb is not None:
                    q = hb.cells.get(off)
                    if q is not None and q[0] == n and mem.same(q[1], v):
                        continue
                ev = mem.rd(a.node(), c64(off), n, x.dec(s))
                key = ("cell", (oid, off, n))
                if isinstance(v, Ptr) and isinstance(ev, Ptr):
                    if v.obj is not ev.obj:
                        raise Unsupported("pointer cell changes object inside a loop")
                    lvs[key] = LV("cell", (oid, off, n), ev.off, ev.obj, True)
                elif isinstance(v, FPtr) or isinstance(ev, FPtr):
                    raise Unsupported("function pointer cell changes inside a loop")
                else:
                    lvs[key] = LV("cell", (oid, off, n), to_int(ev))
                new = True
            for off, (n, v) in a.cells.items():
                if off not in b.cells and not any(k[0] == "cell" and k[1][0] == oid and k[1][1] == off for k in lvs):
                    # cell was split; treat as array
                    o = find_obj(x, s, oid)
                    arrs[oid] = Arr(oid, o, a)
                    for k in [k for k in lvs if k[0] == "cell" and k[1][0] == oid]:
                        del lvs[k]
                    new = True
                    break
        return new

    head_mem = {}
    for b in L.back:
        note_mods(b)

    n0 = t.fresh("iter", 64)
    t.declare_bounds(n0, 0, NMAX)
    deltas = {}
    cands = {}
    dead = set()

    def back_vals(b):
        ph = x.phi_vals(b, label)
        out = {}
        for k, lv in lvs.items():
            if lv.kind == "phi":
                v = ph[lv.key]
            else:
                v = cell_of(b, *lv.key)
            if lv.isptr:
                if not isinstance(v, Ptr):
                    v = mem.to_ptr(v)
                if isinstance(v, FPtr) or v.obj is not lv.obj:
                    raise Unsupported("loop pointer changes object")
                v = v.off
            else:
                v = to_int(v)
            out[k] = simp(b.pc, v)
        for nm, v in fixed_phis.items():
            if not mem.same(ph[nm], v):
                raise Unsupported("loop function pointer changes")
        return out

    headV = [None]

    def note_deltas(b, first):
        bv = back_vals(b)
        loopvars = set(lv.fresh.args[0] for lv in lvs.values()) | {n0.args[0]} | set("@" + a.name for a in arrs.values())
        for k, lv in lvs.items():
            if lv.w < 8:
                continue
            cur = lv.entry if first else headV[0][k]
            d = t.sub(bv[k], cur)
            if not (t.freevars(d) & loopvars):
                deltas.setdefault(k, {})[d.id] = d
            # v' invariant: a bound it may be clamped to
            if not (t.freevars(bv[k]) & loopvars) and not first and closed(k) is None:
                bounds.add((bv[k], lv.fresh))

    forms = {}

    def closed(k):
        """the value of the scalar as a function of the iteration number, when it has one"""
        for nm, f in forms.get(k, ()):
            if nm in cands:
                return f
        return None

    def plain(k):
        return any(nm in cands and nm[1] in ("same", "lin") for nm, _ in forms.get(k, ()))

    def values(n):
        V = {}
        for k, lv in lvs.items():
            f = closed(k)
            V[k] = lv.fresh if f is None else f(n)
        return V

    def add_templates():
        loopvars = set(lv.fresh.args[0] for lv in lvs.values()) | {n0.args[0]} | set("@" + a.name for a in arrs.values())
        bs = {}
        for a, b in list(bounds):
            for q in (a, b):
                if isinstance(q, T) and q.w >= 8 and not (t.freevars(q) & loopvars):
                    bs.setdefault(q.w, {})[q.id] = q
        items = [(k, lv) for k, lv in lvs.items() if lv.w >= 8]

        def add(name, f):
            if name not in cands and name not in dead:
                cands[name] = f
        nn = lambda n, w: n if w == 64 else t.trunc(n, w) if w < 64 else t.zext(n, w)
        for k, lv in lvs.items():
            add((k, "same"), lambda V, n, k=k, lv=lv: t.eq(V[k], lv.entry))
            forms.setdefault(k, []).append(((k, "same"), lambda n, lv=lv: lv.entry))
        for k, lv in items:
            for d in deltas.get(k, {}).values():
                if t.is_const(d) and t.cval(d) == 0:
                    continue
                f = lambda n, lv=lv, d=d: t.add(lv.entry, t.mul(nn(n, lv.w), d))
                add((k, "lin", d.id), lambda V, n, k=k, f=f: t.eq(V[k], f(n)))
                forms.setdefault(k, []).append(((k, "lin", d.id), f))
                if lv.w == 64:
                    for q in bs.get(64, {}).values():
                        add((k, "lim", d.id, q.id), lambda V, n, k=k, lv=lv, d=d, q=q: t.bor(
                            t.eq(n, C0), t.ult(t.add(lv.entry, t.mul(t.sub(n, c64(1)), d)), q)))
            if lv.w in (32, 64):
                for it, (pf, ctx) in enumerate(s.ghost.get("tracks", ())):
                    f = lambda n, lv=lv, pf=pf, ctx=ctx: t.add(lv.entry, t.trunc(eval_val(x, s, pf, [ctx, n]), lv.w)
                                                               if lv.w < 64 else eval_val(x, s, pf, [ctx, n]))
                    add((k, "track", it), lambda V, n, k=k, f=f: t.eq(V[k], f(n)))
                    forms.setdefault(k, []).append(((k, "track", it), f))
        for k, lv in items:
            if not level and lv.w < 32:
                continue
            if not level and closed(k) is not None:
                if (k, "same") not in cands:
                    for q in bs.get(lv.w, {}).values():
                        add((k, "ule", q.id), lambda V, n, k=k, q=q: t.ule(V[k], q))
                continue
            add((k, "ge0"), lambda V, n, k=k, lv=lv: t.ule(lv.entry, V[k]))
            add((k, "le0"), lambda V, n, k=k, lv=lv: t.ule(V[k], lv.entry))
            for q in bs.get(lv.w, {}).values():
                add((k, "ult", q.id), lambda V, n, k=k, q=q: t.ult(V[k], q))
                add((k, "ule", q.id), lambda V, n, k=k, q=q: t.ule(V[k], q))
                add((k, "uge", q.id), lambda V, n, k=k, q=q: t.ule(q, V[k]))
                add((k, "ne", q.id), lambda V, n, k=k, q=q: t.ne(V[k], q))
            if lv.w == 64:
                for d in deltas.get(k, {}).values():
                    if t.is_const(d) and t.cval(d) == 0:
                        continue
                    for q in bs.get(64, {}).values():
                        add((k, "min", d.id, q.id), lambda V, n, k=k, lv=lv, d=d, q=q: t.eq(
                            V[k], t.ite(t.ule(t.add(lv.entry, t.mul(n, d)), q), t.add(lv.entry, t.mul(n, d)), q)))
        for i, (k, lv) in enumerate(items):
            for k2, lv2 in items[i + 1:]:
                if lv.w != lv2.w:
                    continue
                if not level and (lv.w < 32 or closed(k) is not None and closed(k2) is not None):
                    continue
                add((k, k2, "eqd"), lambda V, n, k=k, k2=k2, a=lv, b=lv2: t.eq(
                    t.sub(V[k], a.entry), t.sub(V[k2], b.entry)))
                add((k, k2, "opp"), lambda V, n, k=k, k2=k2, a=lv, b=lv2: t.eq(
                    t.sub(V[k], a.entry), t.sub(b.entry, V[k2])))
        for ip, (pf, ctx) in enumerate(s.ghost.get("invs", ())):
            # progress measured by each scalar, or none at all
            add(("inv", ip, None), ("pred", pf, ctx, lambda V, n: c64((1 << 64) - 1)))
            for k, lv in items:
                if lv.w == 64 and (level or closed(k) is None or not plain(k)):
                    add(("inv", ip, k), ("pred", pf, ctx, lambda V, n, k=k, lv=lv: t.sub(V[k], lv.entry)))
            add(("inv", ip, "n"), ("pred", pf, ctx, lambda V, n: n))
        for a in arrs.values():
            if a.opts:
                continue
            los = {}
            for b in L.back:
                for nd in new_nodes(b.mem[a.oid], a.entry):
                    if nd[0] in ("st", "cp", "set"):
                        los[nd[1].id] = nd[1]
                    elif nd[0] == "cells":
                        for o in list(nd[1])[:4]:
                            los[c64(o).id] = c64(o)
            for k, lv in items:
                if lv.isptr and lv.obj is not None and lv.obj.id == a.oid:
                    los[lv.entry.id] = lv.entry
            progs = [(k, lv) for k, lv in items if lv.w == 64]
            progs.sort(key=lambda kv: 0 if kv[1].isptr and kv[1].obj is not None and kv[1].obj.id == a.oid else 1)
            for p, fn, ctx, na in s.ghost.get("expects", ()):
                if p.obj is not None and p.obj.id != a.oid:
                    continue
                for lo in los.values():
                    for k, lv in progs:
                        a.opts.append(("expect", p, fn, ctx, lo, k))
            for p, fn, ctx, na in s.ghost.get("expects", ()):
                if p.obj is not None and p.obj.id != a.oid:
                    continue
                for lo in los.values():
                    for k, lv in progs:
                        a.opts.append(("expany", p, fn, ctx, lo, k))
            for lo in los.values():
                for k, lv in progs:
                    a.opts.append(("frame", lo, k))
            a.opts.append(("any",))

    def prog(V, k):
        return t.sub(V[k], lvs[k].entry)

    def arr_node(a, V, st, fresh_name):
        o = a.opts[a.pos]
        ent = a.entry.node()
        dec = x.dec(st)
        if o[0] == "any":
            return ("arr", fresh_name)
        if o[0] == "frame":
            _, lo, k = o
            ln = prog(V, k)
            return ("cp", lo, ln, ("arr", fresh_name), lo, ent)
        _, p, fn, ctx, lo, k = o
        ln = prog(V, k)
        base = p.off if p.obj is not None else C0
        snap = st.fork()
        if o[0] == "expany":
            ent = ("arr", fresh_name)
        return ("cp", lo, ln, ("fn", lambda off: eval_byte(x, snap, fn, [ctx, t.sub(off, base)])), lo, ent)

    def cval(c, V, n, st):
        if isinstance(c, tuple):
            return eval_pred(x, st, c[1], [c[2], c[3](V, n)])
        return c(V, n)

    def pr(pc, g, budget=0.35):
        if g is t.TRUE:
            return True
        if g is t.FALSE:
            return False
        ng = t.not_(g)
        if solve.pooled(solve.relevant(pc, ng) + [ng]) is not None:
            return False
        r, _, m = solve.prove(pc, g, budget * 2, cheap=True)
        if r == "refuted":
            solve.remember(m)
        return r == "proved"

    def filter_cands(pc, items):
        """items: [(name, goal)] -> names that are not consequences of pc"""
        out = [nm for nm, g in items if g is t.FALSE]
        items = [(nm, g) for nm, g in items if g is not t.FALSE and g is not t.TRUE]
        for _ in range(40):
            if not items:
                return out
            if len(items) == 1:
                break
            g = t.conj([g for _, g in items])
            ng = t.not_(g)
            p = solve.pooled(solve.relevant(pc, ng) + [ng])
            if p is None:
                r, _, m = solve.prove(pc, g, 1.0, cheap=True)
                if r == "proved":
                    return out
                if r != "refuted" or m is None:
                    break
                solve.remember(m)
                p = solve.POOL[-1]
                if any(p.ev(f) is not t.TRUE for f in solve.relevant(pc, ng)):
                    break
            bad = [nm for nm, g in items if p.ev(g) is t.FALSE]
            if not bad:
                break
            out += bad
            items = [(nm, g) for nm, g in items if nm not in bad]
        return out + [nm for nm, g in items if not pr(pc, g)]

    entryV = lambda: {k: lv.entry for k, lv in lvs.items()}

    def prune_base(names):
        V = entryV()
        for nm in filter_cands(s.pc, [(nm, cval(cands[nm], V, C0, s)) for nm in names if nm in cands]):
            del cands[nm]
            dead.add(nm)

    def head():
        """the arbitrary iteration"""
        h = s.fork()
        V = values(n0)
        phis = dict(fixed_phis)
        for k, lv in lvs.items():
            val = Ptr(lv.obj, V[k]) if lv.isptr else V[k]
            if lv.kind == "phi":
                phis[lv.key] = val
            else:
                oid, off, n = lv.key
                c = h.mem.get(oid) or x.gcont[oid]
                h.mem[oid] = Content(mem.put_cell(c.cells, off, n, val), c.log)
        
        for a in arrs.values():
            h.mem[a.oid] = Content({}, arr_node(a, V, h, a.name))
        facts = []
        for nm, c in cands.items():
            if not isinstance(c, tuple):
                f = c(V, n0)
                if f is t.FALSE:
                    facts.append(t.FALSE)
                elif f is not t.TRUE:
                    facts.append(f)
        h.pc = h.pc + tuple(facts)
        pf = []
        for nm, c in cands.items():
            if isinstance(c, tuple):
                f = cval(c, V, n0, h)
                if f is not t.TRUE:
                    pf.append(f)
        h.pc = h.pc + tuple(pf)
        return h, phis, V

    def purge():
        """scalars that became part of an abstracted object are gone"""
        def gone(e):
            return isinstance(e, tuple) and len(e) == 2 and e[0] in ("phi", "cell") and e not in lvs
        for nm in list(cands):
            if any(gone(e) for e in nm):
                del cands[nm]
                dead.add(nm)
        for k in list(deltas):
            if k not in lvs:
                del deltas[k]
        for a in arrs.values():
            cur = a.opts[a.pos] if a.opts else None
            keep = [o for o in a.opts[a.pos:] if not any(gone(e) for e in o)]
            if cur is not None:
                a.opts, a.pos = keep, 0

    for b in L.back:
        note_deltas(b, True)
    add_templates()
    prune_base(list(cands))
    L0 = L
    rounds = 0
    lastclosed = None
    while True:
        rounds += 1
        if rounds > 60:
            raise Unsupported("loop invariant search did not converge")
        h, phis, V = head()
        headV[0] = V
        head_mem.clear()
        head_mem.update(h.mem)
        x.quiet += 1
        save_ib, x.ibounds = x.ibounds, (bounds if rounds <= 3 else None)
        pths = x.paths
        try:
            L = body(x, h, label, blocks, depth, phis)
        finally:
            x.quiet -= 1
            x.ibounds = save_ib
            x.paths = pths
        new = False
        for b in L.back:
            new |= note_mods(b)
        if new:
            purge()
            before = set(cands)
            for b in L0.back:
                note_deltas(b, True)
            add_templates()
            prune_base([c for c in cands if c not in before])
            continue
        changed = False
        isclosed = frozenset(k for k in lvs if closed(k) is not None)
        if rounds <= 3 or isclosed != lastclosed:
            lastclosed = isclosed
            before = set(cands)
            for b in L.back:
                note_deltas(b, False)
            add_templates()
            added = [c for c in cands if c not in before]
            prune_base(added)
            added = [c for c in added if c in cands]
        else:
            added = []
        drop = []
        n1 = t.add(n0, c64(1))
        for b in L.back:
            bv = back_vals(b)
            drop += filter_cands(b.pc, [(nm, cval(c, bv, n1, b)) for nm, c in cands.items()
                                        if nm not in drop and nm not in added])
            for a in arrs.values():
                if a.opts[a.pos][0] == "any":
                    continue
                k = t.fresh("arrk", 64)
                want_node = arr_node(a, bv, b, a.name + "_next")
                o = a.opts[a.pos]
                facts = (t.ult(k, a.obj.size), t.ule(prog(bv, o[-1]), c64(1 << 62)))
                got = mem.rd_byte(b.mem[a.oid].node(), k, lambda q, pc=b.pc + facts: _dec(x, pc, q))
                if o[0] == "frame":
                    lo = o[1]
                    d = t.sub(k, lo)
                    outside = t.not_(t.ult(d, prog(bv, o[2])))
                    ent = mem.rd_byte(a.entry.node(), k, lambda q, pc=b.pc + facts: _dec(x, pc, q))
                    g = t.implies(outside, t.eq(got, ent))
                else:
                    w = mem.rd_byte(want_node, k, lambda q, pc=b.pc + facts: _dec(x, pc, q))
                    g = t.eq(got, w)
                    if o[0] == "expany":
                        g = t.implies(t.ult(t.sub(k, o[4]), prog(bv, o[5])), g)
                if not pr(b.pc + facts, g, 0.6):
                    a.pos += 1
                    changed = True
        for nm in drop:
            cands.pop(nm, None)
            dead.add(nm)
        if x.debug:
            print("  loop %s/%s round %d: %d candidates, dropped %d, backs %d exits %d (%.1fs) %s" % (
                x.demangle(fnname)[:60], label, rounds, len(cands), len(drop), len(L.back), len(L.exits), time.time() - t0,
                [a.opts[a.pos] for a in arrs.values()]))
        if not drop and not changed and not added:
            break
    # ---- final pass with obligations
    if not x.quiet:
        key = ("loop invariant is inductive", x.where(s))
        o = x.oblig.setdefault(key, [0, 0])
        k = len(cands) + len(arrs)
        o[0] += max(k, 1)
        o[1] += max(k, 1)
        x.backends["houdini"] = x.backends.get("houdini", 0) + max(k, 1)
    if x.debug:
        for nm, c in cands.items():
            if not isinstance(c, tuple):
                print("     inv", nm, c(V, n0))
            else:
                print("     inv", nm)
    h, phis, V = head()
    base = len(h.pc)
    mark = t.fresh("mark", 1).args[0]
    L = body(x, h, label, blocks, depth, phis)
    history(x, s, L, lvs, arrs, deltas, cands, n0, base, mark)
    return L.exits or "dead"


def _serial(name):
    i = name.rfind("!")
    return int(name[i + 1:]) if i >= 0 and name[i + 1:].isdigit() else -1


def history(x, s, L, lvs, arrs, deltas, cands, n0, base, mark):
    """what every earlier iteration m < n satisfied (some path back to the head), instantiated at the focus terms"""
    foc = s.ghost.get("focus", ())
    if not foc or not L.back or not L.exits:
        return
    open_ = set("@" + a.name for a in arrs.values()) | {lv.fresh.args[0] for lv in lvs.values()}
    step = 1
    for k, lv in lvs.items():
        d = next((d for d in deltas.get(k, {}).values() if (k, "lin", d.id) in cands), None)
        if d is not None and lv.isptr and t.is_const(d) and 1 < t.cval(d) <= 64:
            step = max(step, t.cval(d))
    m0 = _serial(mark)
    o0 = max(s.mem, default=0)

    def bad(f):
        for v in t.freevars(f):
            if v.startswith("@uninit") and int(v[7:].split("_")[0]) > o0:
                return True
            if v in open_:
                return True
            if _serial(v) > m0:
                return True
            if v in known_new:
                return True
        return False
    alts = []
    for b in L.back:
        known_new = set()
        for nm, e in b.names.items():
            if nm not in s.names:
                known_new.add(e[1].args[0] if e[0] == "u" and e[1].op == "var" else "@" + str(e[1]))
        alts.append([f for f in b.pc[base:] if not bad(f)])
    if any(not a for a in alts):
        return
    for f in foc:
        m = f if step == 1 else t.udiv(f, c64(step))
        mp = {n0: m}
        g = t.FALSE
        for a in alts:
            g = t.bor(g, t.conj([t.substitute(q, mp) for q in a]))
        fact = t.implies(t.ult(m, n0), g)
        for e in L.exits:
            x.add_fact(e, fact)


def new_nodes(c, entry):
    """log nodes on top of the entry content"""
    stop = entry.log
    out, seen = [], set()

    def go(node):
        while node is not stop and node[0] in ("st", "cp", "set", "cells", "ite"):
            if node[0] == "cells" and node[1] is entry.cells or id(node) in seen:
                return
            seen.add(id(node))
            if node[0] == "ite":
                go(node[2])
                node = node[3]
                continue
            out.append(node)
            node = node[-1]
    go(c.node())
    return out


def _dec(x, pc, c):
    if c is t.TRUE:
        return True
    if c is t.FALSE:
        return False
    if not solve.feasible(pc, c):
        return False
    if not solve.feasible(pc, t.not_(c)):
        return True
    return None


def find_obj(x, s, oid):
    o = OBJS.get(oid)
    if o is None:
        raise Unsupported("object %d" % oid)
    return o


OBJS = {}
_old = mem.Obj.__init__


def _init(self, *a):
    _old(self, *a)
    OBJS[self.id] = self


mem.Obj.__init__ = _init
