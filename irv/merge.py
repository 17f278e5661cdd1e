"""Joins the two arms of a branch at the immediate post-dominator instead of exploring both to the end.

Sound: the joined state is (arm condition ? first : second) for every value and byte that differs; a pair of arms
that cannot be expressed that way is left apart."""
from . import mem, solve
from . import terms as t
from .mem import Content, FPtr, Ptr, Unsupported
from .terms import T

MAXBLOCKS = 60


def succs(I):
    if I.op == "br":
        return [I.a[0]] if len(I.a) == 1 else [I.a[1], I.a[2]]
    if I.op == "switch":
        return [I.a[1]] + [l for _, l in I.a[2]]
    if I.op == "invoke":
        return [I.a[2]]
    return []


def returning(f):
    """the blocks from which the function can return"""
    try:
        return f.pdom_good
    except AttributeError:
        f.pdom, f.pdom_good = postdom(f)
        return f.pdom_good


def region(f, b, loops):
    """(join block, blocks strictly between) of the branch ending block b, or None"""
    try:
        c = f.regions
    except AttributeError:
        f.regions = c = {}
        returning(f)
    if b in c:
        return c[b]
    c[b] = None
    j = f.pdom.get(b)
    if j is None or j == EXIT:
        return None
    blocks, st = set(), [l for l in succs(f.blocks[b][-1]) if l != j]
    while st:
        x = st.pop()
        if x in blocks:
            continue
        if x in loops or x == b or len(blocks) > MAXBLOCKS:
            return None
        blocks.add(x)
        st.extend(l for l in succs(f.blocks[x][-1]) if l != j)
    mine = [h for h, bl in loops.items() if b in bl]
    for x in list(blocks) + [j]:
        # (blocks that cannot return, such as those that throw, may lie outside the loop: they never reach j)
        if x in f.pdom_good and any(x not in loops[h] for h in mine):
            return None
    if j in loops:
        return None
    c[b] = (j, blocks)
    return c[b]


EXIT = "<exit>"


def postdom(f):
    """immediate post-dominators, paths that end in `unreachable` or `resume` not counted"""
    succ = {b: succs(ins[-1]) for b, ins in f.blocks.items()}
    # blocks that can return
    good = set(b for b, ins in f.blocks.items() if ins[-1].op == "ret")
    ch = True
    while ch:
        ch = False
        for b, ss in succ.items():
            if b not in good and any(x in good for x in ss):
                good.add(b)
                ch = True
    preds = {b: [] for b in good}
    preds[EXIT] = []
    rs = {}
    for b in good:
        ss = [x for x in succ[b] if x in good]
        if f.blocks[b][-1].op == "ret":
            ss = [EXIT]
        rs[b] = ss
        for x in ss:
            preds[x].append(b)
    order, seen = [], {EXIT}
    st = [(EXIT, iter(preds[EXIT]))]
    while st:
        b, it = st[-1]
        for n in it:
            if n not in seen:
                seen.add(n)
                st.append((n, iter(preds[n])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {EXIT: EXIT}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in rs[b] if p in idom]
            if not ps:
                continue
            n = ps[0]
            for p in ps[1:]:
                x, y = n, p
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                ch = True
    idom.pop(EXIT)
    return idom, good


class NoMerge(Exception):
    pass


def mval(c, a, b):
    if mem.same(a, b):
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not (a and a[0] == "fp"):
        return tuple(mval(c, x, y) for x, y in zip(a, b))
    if isinstance(a, T) and isinstance(b, T):
        if a.w != b.w:
            raise NoMerge()
        return t.ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.obj is not None:
        return Ptr(a.obj, t.ite(c, a.off, b.off))
    raise NoMerge()


def mcontent(x, c, s1, s2, a, b):
    if a is b:
        return a
    if a.alive != b.alive:
        raise NoMerge()
    if a.log is not b.log:
        # pointers are not merged through the log
        for k in set(a.cells) | set(b.cells):
            p, q = a.cells.get(k), b.cells.get(k)
            for e, o in ((p, q), (q, p)):
                if e is not None and not isinstance(e[1], T) and (o is None or not mem.same(e[1], o[1])):
                    raise NoMerge()
        return Content({}, ("ite", c, a.node(), b.node()), a.alive)
    cells = dict(a.cells)
    for k in set(a.cells) | set(b.cells):
        p, q = a.cells.get(k), b.cells.get(k)
        if p is not None and q is not None and p[0] == q[0]:
            cells[k] = (p[0], mval(c, wide(p), wide(q)))
            continue
        if p is None:
            n = q[0]
            if any(o < k + n and k < o + m for o, (m, _) in a.cells.items()):
                raise NoMerge()
            v = mem.rd(a.log, t.const(k, 64), n, x.dec(s1))
            cells[k] = (n, mval(c, wide((n, v)), wide(q)))
        elif q is None:
            n = p[0]
            if any(o < k + n and k < o + m for o, (m, _) in b.cells.items()):
                raise NoMerge()
            v = mem.rd(b.log, t.const(k, 64), n, x.dec(s2))
            cells[k] = (n, mval(c, wide(p), wide((n, v))))
        else:
            raise NoMerge()
    return Content(cells, a.log, a.alive)


def wide(e):
    n, v = e
    if isinstance(v, T) and v.w < 8 * n:
        return t.zext(v, 8 * n)
    return v


MAXK = ("n:",)


def merge2(x, base, a, b, keys, npc):
    """a, b: states in the same frame at the same point; npc: length of the common path condition"""
    if len(a.frames) != len(b.frames) or a.inflight is not b.inflight or a.uncaught is not b.uncaught:
        raise NoMerge()
    if len(a.caught) != len(b.caught) or any(p is not q for p, q in zip(a.caught, b.caught)):
        raise NoMerge()
    g = {}
    for k in set(a.ghost) | set(b.ghost):
        p, q = a.ghost.get(k), b.ghost.get(k)
        if k == "strlens":    # a cache: what both know
            g[k] = tuple(e for e in p or () if any(e is f for f in q or ()))
        elif p is q or p == q:
            g[k] = p
        elif (isinstance(k, str) and (k.startswith("n:") or k == "nalloc")) or isinstance(k, tuple):
            g[k] = max(p or 0, q or 0)
        else:
            raise NoMerge()
    names = dict(a.names)
    for k, v in b.names.items():
        o = names.get(k)
        if o is not None and o is not v and not (o[0] == v[0] and o[1] is v[1] or o == v):
            raise NoMerge()
        names[k] = v
    ea, eb = a.pc[npc:], b.pc[npc:]
    ia, ib = {f.id for f in ea}, {f.id for f in eb}
    both = ia & ib
    ea = [f for f in ea if f.id not in both]
    eb = [f for f in eb if f.id not in both]
    sel = None
    for f in ea:
        if t.not_(f).id in ib:
            sel = f
            break
    if sel is None:
        if not ea or not eb:
            raise NoMerge()
        sel = t.conj(ea)
    fa, fb = a.frames[-1], b.frames[-1]
    env = {}
    for k in keys:
        if k in fa.env and k in fb.env:
            env[k] = mval(sel, fa.env[k], fb.env[k])
    n = a.fork()
    n.frames[-1].env = env
    mm = {}
    for o in set(a.mem) | set(b.mem):
        p, q = a.mem.get(o), b.mem.get(o)
        if p is None or q is None:
            gp = x.gcont.get(o)
            if gp is not None:
                p, q = p or gp, q or gp
            else:
                mm[o] = p or q
                continue
        mm[o] = mcontent(x, sel, a, b, p, q)
    n.mem = mm
    n.ghost = g
    n.names = names
    n.steps = max(a.steps, b.steps)
    pc = list(a.pc[:npc]) + [f for f in a.pc[npc:] if f.id in both]
    ra = t.conj([f for f in ea if f is not sel])
    rb = t.conj([f for f in eb if f is not t.not_(sel)])
    if sel.op != "band" or True:
        p = t.implies(sel, ra)
        q = t.implies(t.not_(sel), rb)
        for f in (p, q):
            if f is not t.TRUE:
                pc.append(f)
    n.pc = tuple(pc)
    return n


def join(x, base, states, label):
    """states waiting to enter `label`; -> list of states that entered it"""
    out = []
    keys = None
    npc = len(base.pc)
    for s in states:
        s.pending = None
        x.enter(s, label)
        fr = s.frames[-1]
        if keys is None:
            keys = set(base.frames[-1].env)
            for I in fr.fn.blocks[label]:
                if I.op != "phi":
                    break
                keys.add(I.dst)
        done = False
        for i, o in enumerate(out):
            try:
                out[i] = merge2(x, base, o, s, keys, npc)
                done = True
                break
            except NoMerge:
                pass
        if not done:
            out.append(s)
    return out
