"""Symbolic memory: objects, pointer values and persistent object contents."""
import itertools

from . import terms as t
from .terms import T

_oid = itertools.count(1)


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ("id", "name", "size", "kind", "addr", "seq")

    def __init__(self, name, size, kind):
        self.id = next(_oid)
        self.name, self.size, self.kind = name, size, kind
        v = t.var("addr%d" % self.id, 64)
        t.declare_bounds(v, 4096, (1 << 43) - 1)
        self.addr = t.mul(v, t.const(16, 64))
        ADDR[v] = self
        self.seq = None

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


ADDR = {}


class Ptr:
    """obj None: the integer address `off` itself (null is Ptr(None, 0))"""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "&%r+%s" % (self.obj, self.off)

    def key(self):
        return (self.obj.id if self.obj else 0, self.off.id)


class FPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "@" + self.name


NULL = Ptr(None, t.const(0, 64))
C0 = t.const(0, 64)
_fnaddr = {}


def c64(v):
    return t.const(v, 64)


def to_int(v, w=64):
    if isinstance(v, T):
        return v
    if isinstance(v, Ptr):
        r = v.off if v.obj is None else t.add(v.obj.addr, v.off)
    elif isinstance(v, FPtr):
        r = _fnaddr.get(v.name)
        if r is None:
            r = t.var("fnaddr_" + v.name, 64)
            t.declare_bounds(r, 4096, (1 << 46))
            _fnaddr[v.name] = r
            _fnrev[r] = v
    else:
        raise Unsupported("integer view of %r" % (v,))
    return r if w == 64 else t.trunc(r, w)


_fnrev = {}


def to_ptr(x):
    if not isinstance(x, T):
        return x
    if t.is_const(x):
        return Ptr(None, x)
    if x in _fnrev:
        return _fnrev[x]
    c, ms = t._poly_parts(x)
    for m, k in ms.items():
        if len(m) == 1 and m[0] in ADDR and k == 16:
            o = ADDR[m[0]]
            return Ptr(o, t.sub(x, o.addr))
    return Ptr(None, x)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and a.off is b.off
    if isinstance(a, FPtr) and isinstance(b, FPtr):
        return a.name == b.name
    return False


def byte_i(v, n, i):
    """byte i (python int) of an n byte value"""
    x = to_int(v)
    if x.w == 0:
        x = t.zext(x, 8)
    if x.w < 8 * n:
        x = t.zext(x, 8 * n)
    return t.extract(x, 8 * i, 8)


# ---- log nodes: tuples, newest first through the last element (parent)
#   ('arr', name) ('zero',) ('bytes', b) ('fn', f)
#   ('cells', {off: (n, v)}, parent)
#   ('st', off, n, v, parent) ('cp', off, len, srcnode, srcoff, parent) ('set', off, len, byte, parent)
#   ('ite', cond, nodeA, nodeB)

class Content:
    __slots__ = ("cells", "log", "alive")

    def __init__(self, cells, log, alive=True):
        self.cells, self.log, self.alive = cells, log, alive

    def node(self):
        return ("cells", self.cells, self.log) if self.cells else self.log


def inside(off, m, so, n):
    """whether [off, off+m) is within (True) or apart from (False) [so, so+n), from the bounds of the terms alone"""
    lo, hi = t.ubound(off)
    a, b = t.ubound(so)
    x, y = (n, n) if isinstance(n, int) else t.ubound(n)
    if hi + m >= 1 << 64 or b + y >= 1 << 64:
        return None
    if hi + m <= a or lo >= b + y:
        return False
    if lo >= b and hi + m <= a + x:
        return True
    return None


def rd_bytes(node, off, n, dec):
    return [rd_byte(node, t.add(off, c64(i)), dec) for i in range(n)]


def rd_byte(node, off, dec):
    while True:
        k = node[0]
        if k == "cells":
            cells, par = node[1], node[2]
            if t.is_const(off):
                o = t.cval(off)
                r = None
                for co, (cn, cv) in cells.items():
                    if co <= o < co + cn:
                        r = byte_i(cv, cn, o - co)
                        break
                if r is not None:
                    return r
                node = par
                continue
            # symbolic offset over concrete cells
            hit = []
            lo, hi = t.ubound(off)
            for co, (cn, cv) in sorted(cells.items()):
                for i in range(cn):
                    if co + i < lo or co + i > hi:
                        continue
                    c = t.eq(off, c64(co + i))
                    hit.append((c, cv, cn, i))
            if hit:
                lo_c = c64(min(cells))
                if dec(t.ult(off, lo_c)) is True or dec(t.ule(c64(max(o + n for o, (n, _) in cells.items())), off)) is True:
                    hit = []
            if len(hit) > 16:
                kept = []
                for h in hit:
                    d = dec(h[0])
                    if d is True:
                        return byte_i(h[1], h[2], h[3])
                    if d is None:
                        kept.append(h)
                hit = kept
            r = rd_byte(par, off, dec) if True else None
            for c, cv, cn, i in reversed(hit):
                if c is t.FALSE:
                    continue
                r = t.ite(c, byte_i(cv, cn, i), r)
            return r
        if k == "st":
            _, so, n, v, par = node
            d = t.sub(off, so)
            if t.is_const(d):
                i = t.cval(d)
                if i < n:
                    return byte_i(v, n, i)
                node = par
                continue
            c = t.ult(d, c64(n))
            x = inside(off, 1, so, n)
            if x is None:
                x = dec(c)
            if x is False:
                node = par
                continue
            if n == 1:
                bv = byte_i(v, 1, 0)
            else:
                xv = to_int(v)
                bv = byte_i(v, n, 0)
                for i in range(1, n):
                    bv = t.ite(t.eq(d, c64(i)), byte_i(v, n, i), bv)
            if x is True:
                return bv
            return t.ite(c, bv, rd_byte(par, off, dec))
        if k in ("cp", "set"):
            so, ln, par = node[1], node[2], node[-1]
            d = t.sub(off, so)
            c = t.ult(d, ln)
            x = inside(off, 1, so, ln)
            if x is None:
                x = dec(c)
            if x is False:
                node = par
                continue
            if k == "set":
                bv = node[3]
            else:
                if x is True:
                    node, off = node[3], t.add(d, node[4])
                    continue
                bv = rd_byte(node[3], t.add(d, node[4]), lambda q, dec=dec: dec(q))
            if x is True:
                return bv
            return t.ite(c, bv, rd_byte(par, off, dec))
        if k == "arr":
            return t.sel(node[1], off, 8)
        if k == "zero":
            return t.const(0, 8)
        if k == "bytes":
            b = node[1]
            if t.is_const(off):
                o = t.cval(off)
                return t.const(b[o] if o < len(b) else 0, 8)
            lo, hi = t.ubound(off)
            hi = min(hi, len(b) - 1)
            if hi - lo > 300:
                raise Unsupported("symbolic index into a large constant")
            r = t.const(0, 8)
            for i in range(hi, lo - 1, -1):
                r = t.ite(t.eq(off, c64(i)), t.const(b[i], 8), r)
            return r
        if k == "fn":
            return node[1](off)
        if k == "ite":
            return t.ite(node[1], rd_byte(node[2], off, dec), rd_byte(node[3], off, dec))
        raise AssertionError(k)


def rd(node, off, n, dec):
    """n byte value at off: T (8n bits), Ptr or FPtr"""
    start = node, off
    while True:
        k = node[0]
        if k == "cells":
            if not t.is_const(off):
                # typed exact hits through the solver for pointer cells
                cells = node[1]
                cand = [co for co, (cn, _) in cells.items() if cn == n]
                rel = False
                for co in cand:
                    e = t.eq(off, c64(co))
                    if e is t.FALSE:
                        continue
                    if dec(e) is True:
                        return cells[co][1]
                    rel = True
                lo, hi = min(cells), max(o + m for o, (m, _) in cells.items())
                if dec(t.bor(t.ule(c64(hi), off), t.ule(t.add(off, c64(n)), c64(lo)))) is True \
                        and dec(t.ule(off, c64(1 << 62))) is True:
                    node = node[2]
                    continue
                break
            o = t.cval(off)
            c = node[1].get(o)
            if c is not None and c[0] == n:
                return c[1]
            if c is not None and c[0] > n:
                break
            if any(co < o + n and o < co + cn for co, (cn, _) in node[1].items()):
                break
            node = node[2]
            continue
        if k == "st":
            _, so, sn, v, par = node
            d = t.sub(off, so)
            if t.is_const(d):
                i = t.sval(d)
                if i == 0 and sn == n:
                    return v
                if i >= sn or i + n <= 0:
                    node = par
                    continue
                break
            if inside(off, n, so, sn) is False:
                node = par
                continue
            dis = t.bor(t.ule(c64(sn), d), t.FALSE) if n == 1 else t.band(
                t.ule(c64(sn), d), t.ule(d, c64((1 << 64) - n)))
            if dec(dis) is True:
                node = par
                continue
            if n > 1 and sn == n and dec(t.eq(d, C0)) is True:
                return v
            break
        if k in ("cp", "set"):
            so, ln, par = node[1], node[2], node[-1]
            d = t.sub(off, so)
            ins = t.band(t.ult(d, ln), t.ule(c64(n), t.sub(ln, d)))
            x = inside(off, n, so, ln)
            if x is False:
                node = par
                continue
            if x or dec(ins) is True:
                if k == "set":
                    b = node[3]
                    return t.concat([b] * n)
                node, off = node[3], t.add(d, node[4])
                continue
            dis = t.band(t.ule(ln, d), t.ule(d, c64((1 << 64) - n)))
            if dec(dis) is True:
                node = par
                continue
            break
        if k == "ite":
            x = dec(node[1])
            if x is not None:
                node = node[2] if x else node[3]
                continue
            a = rd(node[2], off, n, dec)
            b = rd(node[3], off, n, dec)
            if same(a, b):
                return a
            if isinstance(a, T) and isinstance(b, T):
                return t.ite(node[1], a, b)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return Ptr(a.obj, t.ite(node[1], a.off, b.off))
            return t.ite(node[1], to_int(a), to_int(b))
        break
    bs = rd_bytes(node, off, n, dec)
    return t.concat(bs)


def put_cell(cells, o, n, v):
    """new dict with bytes [o, o+n) := v"""
    out = dict(cells)
    old = out.get(o)
    if old is not None and old[0] == n:
        out[o] = (n, v)
        return out
    for co, (cn, cv) in list(cells.items()):
        if co < o + n and o < co + cn:
            del out[co]
            for i in range(cn):
                if not (o <= co + i < o + n):
                    out[co + i] = (1, byte_i(cv, cn, i))
    out[o] = (n, v)
    return out
