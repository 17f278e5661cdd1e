"""Hash-consed terms over booleans and fixed-width machine integers.

Integer arithmetic (add, sub, mul, shl by a constant, urem) is kept in a polynomial normal form over
Z/2^w: a term of kind 'poly' is  c + sum(coeff * monomial)  where a monomial is a sorted tuple of
atoms.  This makes address arithmetic syntactically comparable.
"""
import itertools

_table = {}
_ids = itertools.count()


class T:
    __slots__ = ("op", "args", "w", "id", "_h", "fv")

    def __repr__(self):
        return show(self)


def _mk(op, args, w):
    key = (op, w) + tuple(a.id if isinstance(a, T) else ("k", a) for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.w = op, args, w
        t.id = next(_ids)
        t.fv = None
        _table[key] = t
    return t


def show(t, d=0):
    if t.op == "const":
        return str(t.args[0]) if t.w else ("T" if t.args[0] else "F")
    if t.op == "var":
        return t.args[0]
    if d > 7:
        return "..."
    if t.op == "poly":
        out = []
        c, ms = t.args
        for m, k in ms:
            s = "*".join(show(a, d + 1) for a in m)
            k = k if k < (1 << (t.w - 1)) else k - (1 << t.w)
            out.append(s if k == 1 else "-" + s if k == -1 else "%d*%s" % (k, s))
        c = c if c < (1 << (t.w - 1)) else c - (1 << t.w)
        if c:
            out.append(str(c))
        return "(" + " + ".join(out) + ")"
    return "%s(%s)" % (t.op, ",".join(show(a, d + 1) if isinstance(a, T) else str(a) for a in t.args))


def mask(w):
    return (1 << w) - 1


def const(v, w):
    return _mk("const", (v & mask(w),), w)


TRUE = _mk("const", (True,), 0)
FALSE = _mk("const", (False,), 0)


def boolc(b):
    return TRUE if b else FALSE


def var(name, w):
    return _mk("var", (name,), w)


_fresh = itertools.count()


def fresh(name, w):
    return var("%s!%d" % (name, next(_fresh)), w)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def sval(t):
    v = t.args[0]
    return v if v < (1 << (t.w - 1)) else v - (1 << t.w)


# ---- polynomials
def _poly_parts(t):
    """-> (const, {monomial: coeff})"""
    if t.op == "const":
        return t.args[0], {}
    if t.op == "poly":
        return t.args[0], dict(t.args[1])
    return 0, {(t,): 1}


def _poly_build(c, ms, w):
    m = mask(w)
    c &= m
    items = [(k, v & m) for k, v in ms.items() if v & m]
    if not items:
        return const(c, w)
    if c == 0 and len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    items.sort(key=lambda kv: tuple(a.id for a in kv[0]))
    key = ("poly", w, c) + tuple((tuple(a.id for a in k), v) for k, v in items)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.w, t.id, t.fv = "poly", (c, tuple(items)), w, next(_ids), None
        _table[key] = t
    return t


def add(a, b):
    if a.op == "const" and a.args[0] == 0:
        return b
    if b.op == "const" and b.args[0] == 0:
        return a
    ca, ma = _poly_parts(a)
    cb, mb = _poly_parts(b)
    for k, v in mb.items():
        ma[k] = ma.get(k, 0) + v
    return _poly_build(ca + cb, ma, a.w)


def neg(a):
    c, ms = _poly_parts(a)
    return _poly_build(-c, {k: -v for k, v in ms.items()}, a.w)


def sub(a, b):
    if a is b:
        return const(0, a.w)
    return add(a, neg(b))


def mul(a, b):
    ca, ma = _poly_parts(a)
    cb, mb = _poly_parts(b)
    if len(ma) * len(mb) > 40:
        return _poly_build(0, {tuple(sorted((_atom(a), _atom(b)), key=lambda x: x.id)): 1}, a.w)
    out = {}
    ma[()] = ca
    mb[()] = cb
    for k1, v1 in ma.items():
        if not v1:
            continue
        for k2, v2 in mb.items():
            if not v2:
                continue
            k = tuple(sorted(k1 + k2, key=lambda x: x.id))
            out[k] = out.get(k, 0) + v1 * v2
    c = out.pop((), 0)
    return _poly_build(c, out, a.w)


def _atom(a):
    return _mk("wrap", (a,), a.w) if a.op == "poly" else a


# ---- intervals (unsigned), cheap facts used by the simplifier
_bounds = {}


def ubound(t):
    """(lo, hi) unsigned bounds that hold in every model."""
    r = _bounds.get(t.id)
    if r is not None:
        return r
    w = t.w
    lo, hi = 0, mask(w)
    op = t.op
    if op == "const":
        lo = hi = t.args[0]
    elif op == "zext":
        lo, hi = ubound(t.args[0]) if t.args[0].w else (0, 1)
    elif op == "ite":
        a, b = ubound(t.args[1]), ubound(t.args[2])
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
    elif op == "sel":
        pass
    elif op == "and":
        hi = min(ubound(t.args[0])[1], ubound(t.args[1])[1])
    elif op == "or" or op == "xor":
        m = max(ubound(t.args[0])[1], ubound(t.args[1])[1])
        hi = min(hi, (1 << m.bit_length()) - 1)
    elif op == "lshr" and is_const(t.args[1]):
        l, h = ubound(t.args[0])
        k = cval(t.args[1])
        lo, hi = l >> k, h >> k
    elif op == "shl" and is_const(t.args[1]):
        l, h = ubound(t.args[0])
        k = cval(t.args[1])
        if (h << k) <= hi:
            lo, hi = l << k, h << k
    elif op == "udiv":
        l, h = ubound(t.args[0])
        bl, bh = ubound(t.args[1])
        if bl > 0:
            lo, hi = l // bh, h // bl
    elif op == "trunc":
        l, h = ubound(t.args[0])
        if h <= hi:
            lo, hi = l, h
    elif op == "poly":
        l = h = t.args[0]
        neg_ok = False
        tot = [(t.args[0], t.args[0])]
        l = h = t.args[0] if t.args[0] < (1 << (w - 1)) else t.args[0] - (1 << w)
        for m, k in t.args[1]:
            ml, mh = 1, 1
            for a in m:
                al, ah = ubound(a)
                ml *= al
                mh *= ah
            if k < (1 << (w - 1)):
                l += k * ml
                h += k * mh
            else:
                k -= 1 << w
                l += k * mh
                h += k * ml
        if l >= 0 and h <= mask(w):
            lo, hi = l, h
    _bounds[t.id] = (lo, hi)
    return lo, hi


_declared = {}


def declare_bounds(t, lo, hi):
    _bounds[t.id] = (lo, hi)
    _declared[t.id] = (lo, hi)


# ---- bitwise / other integer ops
def _split_multiple(a, b):
    """(quotient part, rest) with a = quotient * b + rest, no wrap-around anywhere; None when nothing splits off"""
    if a.op != "poly" and a is not b:
        return None
    c, ms = _poly_parts(a)
    half = 1 << (a.w - 1)
    hi = c
    for m, k in ms.items():
        if k >= half:
            return None
        h = k
        for x in m:
            h *= ubound(x)[1]
        hi += h
    if c >= half or hi > mask(a.w):
        return None
    qc, qm, rc, rm = 0, {}, 0, {}
    if is_const(b):
        d = cval(b)
        qc, rc = divmod(c, d)
        for m, k in ms.items():
            if k % d == 0:
                qm[m] = k // d
            else:
                rm[m] = k
    else:
        rc = c
        for m, k in ms.items():
            if b in m:
                l = list(m)
                l.remove(b)
                if l:
                    qm[tuple(l)] = k
                else:
                    qc += k
            else:
                rm[m] = k
    if not qm and not qc:
        return None
    return _poly_build(qc, qm, a.w), _poly_build(rc, rm, a.w)


def udiv(a, b):
    if ubound(b)[0] > 0 and not (is_const(b) and cval(b) & (cval(b) - 1) == 0):
        sp = _split_multiple(a, b)
        if sp is not None:
            if ubound(sp[1])[1] < ubound(b)[0]:
                return sp[0]
            return add(sp[0], udiv(sp[1], b))
    if is_const(b):
        if cval(b) == 1:
            return a
        if cval(b) and is_const(a):
            return const(cval(a) // cval(b), a.w)
        if cval(b) and cval(b) & (cval(b) - 1) == 0:
            return lshr(a, const(cval(b).bit_length() - 1, a.w))
    return _mk("udiv", (a, b), a.w)


def urem(a, b):
    if is_const(b) and cval(b):
        if is_const(a):
            return const(cval(a) % cval(b), a.w)
        if cval(b) & (cval(b) - 1) == 0:
            return and_(a, const(cval(b) - 1, a.w))
        return sub(a, mul(udiv(a, b), b))
    return sub(a, mul(udiv(a, b), b))


def sdiv(a, b):
    if is_const(a) and is_const(b) and cval(b):
        x, y = sval(a), sval(b)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.w)
    if ubound(a)[1] < (1 << (a.w - 1)) and ubound(b)[1] < (1 << (a.w - 1)):
        return udiv(a, b)
    return _mk("sdiv", (a, b), a.w)


def srem(a, b):
    if ubound(a)[1] < (1 << (a.w - 1)) and ubound(b)[1] < (1 << (a.w - 1)):
        return urem(a, b)
    return sub(a, mul(sdiv(a, b), b))


def and_(a, b):
    if a.w == 0:
        return band(a, b)
    if is_const(a) and is_const(b):
        return const(cval(a) & cval(b), a.w)
    if is_const(a):
        a, b = b, a
    if a is b:
        return a
    if is_const(b):
        v = cval(b)
        if v == 0:
            return b
        if v == mask(a.w):
            return a
        if (v & (v + 1)) == 0:
            if ubound(a)[1] <= v:
                return a
            k = v.bit_length()
            return zext(trunc(a, k), a.w)
        if a.op == "and" and is_const(a.args[1]):
            return and_(a.args[0], const(cval(a.args[1]) & v, a.w))
    elif a.id > b.id:
        a, b = b, a
    return _mk("and", (a, b), a.w)


def _bitsdisjoint(a, b):
    # a < 2^k and b is a multiple of 2^k
    for x, y in ((a, b), (b, a)):
        h = ubound(x)[1].bit_length()
        if _low_zeros(y) >= h:
            return True
    return False


_lz = {}


def _low_zeros(t):
    r = _lz.get(t.id)
    if r is None:
        r = _lz[t.id] = _low_zeros0(t)
    return r


def _low_zeros0(t):
    if is_const(t):
        v = cval(t)
        return t.w if v == 0 else (v & -v).bit_length() - 1
    if t.op == "shl" and is_const(t.args[1]):
        return min(t.w, cval(t.args[1]) + _low_zeros(t.args[0]))
    if t.op == "poly":
        r = _low_zeros(const(t.args[0], t.w))
        for m, k in t.args[1]:
            r = min(r, _low_zeros(const(k, t.w)) + sum(_low_zeros(a) for a in m))
        return min(r, t.w)
    if t.op in ("zext",) and t.args[0].w:
        return min(t.w, _low_zeros(t.args[0]) if _low_zeros(t.args[0]) < t.args[0].w else t.w)
    if t.op in ("or", "xor", "ite"):
        xs = t.args if t.op != "ite" else t.args[1:]
        return min(_low_zeros(x) for x in xs)
    if t.op == "and":
        return max(_low_zeros(x) for x in t.args)
    return 0


def or_(a, b):
    if a.w == 0:
        return bor(a, b)
    if is_const(a) and is_const(b):
        return const(cval(a) | cval(b), a.w)
    if is_const(a):
        a, b = b, a
    if is_const(b):
        if cval(b) == 0:
            return a
        if cval(b) == mask(a.w):
            return b
    if a is b:
        return a
    if _bitsdisjoint(a, b):
        return add(a, b)
    if not is_const(b) and a.id > b.id:
        a, b = b, a
    return _mk("or", (a, b), a.w)


def xor(a, b):
    if a.w == 0:
        if is_const(a):
            return not_(b) if cval(a) else b
        if is_const(b):
            return not_(a) if cval(b) else a
        return not_(eq(a, b))
    if is_const(a) and is_const(b):
        return const(cval(a) ^ cval(b), a.w)
    if a is b:
        return const(0, a.w)
    # cancel a xor chain
    xs = _xor_args(a) + _xor_args(b)
    c = 0
    cnt = {}
    for x in xs:
        if is_const(x):
            c ^= cval(x)
        else:
            cnt[x] = cnt.get(x, 0) ^ 1
    xs = sorted((x for x, n in cnt.items() if n), key=lambda x: x.id)
    if not xs:
        return const(c, a.w)
    if c == mask(a.w) and len(xs) == 1:
        return sub(const(-1, a.w), xs[0])
    if c:
        xs.append(const(c, a.w))
    r = xs[0]
    for x in xs[1:]:
        r = _mk("xor", (r, x), a.w)
    return r


def _xor_args(t):
    if t.op == "xor":
        return _xor_args(t.args[0]) + _xor_args(t.args[1])
    return [t]


def shl(a, b):
    if is_const(b):
        k = cval(b)
        if k >= a.w:
            return const(0, a.w)
        return mul(a, const(1 << k, a.w))
    if is_const(a) and cval(a) == 0:
        return a
    return _mk("shl", (a, b), a.w)


def lshr(a, b):
    if is_const(b):
        k = cval(b)
        if k == 0:
            return a
        if k >= a.w:
            return const(0, a.w)
        if is_const(a):
            return const(cval(a) >> k, a.w)
        if ubound(a)[1] >> k == 0:
            return const(0, a.w)
        if a.op == "lshr" and is_const(a.args[1]):
            return lshr(a.args[0], const(min(a.w, cval(a.args[1]) + k), a.w))
        if a.op == "zext" and a.args[0].w and k < a.args[0].w:
            return zext(lshr(a.args[0], const(k, a.args[0].w)), a.w)
        # (x << n + small) >> k
        if a.op == "poly":
            r = _split_shift(a, k)
            if r is not None:
                return r
    return _mk("lshr", (a, b), a.w)


def _split_shift(a, k):
    """a = hi*2^k + lo with lo < 2^k and no overflow -> hi"""
    w = a.w
    hi_c, lo_c = a.args[0] >> k, a.args[0] & mask(k)
    hi, lo = {}, {}
    for m, v in a.args[1]:
        if v < (1 << (w - 1)) and v >> k << k == v:
            hi[m] = v >> k
        else:
            lo[m] = v
    if not hi:
        return None
    lo_t = _poly_build(lo_c, lo, w)
    if ubound(lo_t)[1] >= (1 << k):
        return None
    # no overflow of the whole: upper bound of the sum below 2^w
    tot = a.args[0]
    for m, v in a.args[1]:
        if v >= (1 << (w - 1)):
            return None
        p = v
        for x in m:
            p *= ubound(x)[1]
        tot += p
    if tot >= (1 << w):
        return None
    return _poly_build(hi_c, hi, w)


def ashr(a, b):
    if is_const(a) and is_const(b):
        return const(sval(a) >> min(cval(b), a.w - 1), a.w)
    if ubound(a)[1] < (1 << (a.w - 1)):
        return lshr(a, b)
    return _mk("ashr", (a, b), a.w)


def zext(a, w):
    if a.w == w:
        return a
    if a.w == 0:
        return ite(a, const(1, w), const(0, w))
    if is_const(a):
        return const(cval(a), w)
    if a.op == "zext":
        return zext(a.args[0], w)
    if a.op == "trunc" and a.args[0].w == w and ubound(a.args[0])[1] <= mask(a.w):
        return a.args[0]
    return _mk("zext", (a,), w)


def sext(a, w):
    if a.w == w:
        return a
    if a.w == 0:
        return ite(a, const(-1, w), const(0, w))
    if is_const(a):
        return const(sval(a), w)
    if ubound(a)[1] < (1 << (a.w - 1)):
        return zext(a, w)
    return _mk("sext", (a,), w)


def trunc(a, w):
    if a.w == w:
        return a
    if w == 0:
        return ne(and_(a, const(1, a.w)), const(0, a.w))
    if is_const(a):
        return const(cval(a), w)
    if a.op in ("zext", "sext"):
        b = a.args[0]
        if b.w == w:
            return b
        if b.w > w:
            return trunc(b, w)
        return zext(b, w) if a.op == "zext" else sext(b, w)
    if a.op == "trunc":
        return trunc(a.args[0], w)
    if a.op == "poly":
        c, ms = a.args
        if all(all(x.op in ("zext", "sext", "const", "var", "trunc") or True for x in m) for m, _ in ms):
            out = const(c, w)
            for m, k in ms:
                p = const(k, w)
                if is_const(p) and cval(p) == 0:
                    continue
                for x in m:
                    p = mul(p, trunc(x, w))
                out = add(out, p)
            return out
    if a.op in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor}[a.op]
        return f(trunc(a.args[0], w), trunc(a.args[1], w))
    if a.op == "ite":
        return ite(a.args[0], trunc(a.args[1], w), trunc(a.args[2], w))
    if a.op == "lshr" and is_const(a.args[1]):
        k = cval(a.args[1])
        b = a.args[0]
        if b.op == "concat":
            return extract(b, k, w)
    if a.op == "concat":
        return extract(a, 0, w)
    return _mk("trunc", (a,), w)


def extract(a, lo, w):
    """bits [lo, lo+w) of a"""
    if lo == 0 and w == a.w:
        return a
    if a.op == "concat":
        # concat args: low byte first, each 8 bits
        n = len(a.args)
        ew = a.args[0].w
        if lo % ew == 0 and w % ew == 0:
            return concat(a.args[lo // ew:(lo + w) // ew])
        if lo // ew == (lo + w - 1) // ew:
            return extract(a.args[lo // ew], lo % ew, w)
    return trunc(lshr(a, const(lo, a.w)), w)


def concat(bs):
    """little-endian list of equal width terms"""
    bs = tuple(bs)
    if len(bs) == 1:
        return bs[0]
    w = sum(b.w for b in bs)
    if all(is_const(b) for b in bs):
        v = 0
        for i, b in enumerate(bs):
            v |= cval(b) << (i * bs[0].w)
        return const(v, w)
    # bytes of one term in order
    src = _byte_of(bs[1])
    if src is not None and src[1] == bs[0].w:
        base = src[0]
        ok = trunc(base, bs[0].w) is bs[0]
        for i, b in enumerate(bs):
            if not i:
                continue
            s = _byte_of(b)
            if s is None or s[0] is not base or s[1] != i * b.w:
                ok = False
                break
        if ok:
            if base.w == w:
                return base
            if base.w > w:
                return trunc(base, w)
    # high bytes zero
    n = len(bs)
    while n > 1 and is_const(bs[n - 1]) and cval(bs[n - 1]) == 0:
        n -= 1
    if n < len(bs):
        return zext(concat(bs[:n]), w)
    return _mk("concat", bs, w)


def _byte_of(b):
    if b.op == "trunc":
        a = b.args[0]
        if a.op == "lshr" and is_const(a.args[1]):
            return a.args[0], cval(a.args[1])
        return a, 0
    return None


# ---- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "ult":
        return ule(a.args[1], a.args[0])
    if a.op == "ule":
        return ult(a.args[1], a.args[0])
    return _mk("not", (a,), 0)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if a is not_(b):
        return FALSE
    return _mk("band", (a, b), 0)


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    if a is not_(b):
        return TRUE
    return _mk("bor", (a, b), 0)


def conj(xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def implies(a, b):
    return bor(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.w == 0:
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(not_(c), b)
        if b is TRUE:
            return bor(not_(c), a)
        if b is FALSE:
            return band(c, a)
        return _mk("ite", (c, a, b), 0)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b), a.w)


def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 0:
        if is_const(a):
            return b if cval(a) else not_(b)
        if is_const(b):
            return a if cval(b) else not_(a)
        if a.id > b.id:
            a, b = b, a
        return _mk("eq", (a, b), 0)
    if is_const(a) and is_const(b):
        return boolc(cval(a) == cval(b))
    la, ha = ubound(a)
    lb, hb = ubound(b)
    if ha < lb or hb < la:
        return FALSE
    if is_const(a):
        a, b = b, a
    if is_const(b):
        v = cval(b)
        if a.op == "zext":
            x = a.args[0]
            if v > mask(x.w):
                return FALSE
            return eq(x, const(v, x.w))
        if a.op == "sext":
            x = a.args[0]
            t = const(v, x.w)
            if sval(t) & mask(a.w) != v:
                return FALSE
            return eq(x, t)
        if a.op == "ite" and (is_const(a.args[1]) or is_const(a.args[2])):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if a.op == "or" and v == 0:
            return band(eq(a.args[0], b), eq(a.args[1], b))
        if a.op == "xor" and v == 0:
            return eq(a.args[0], a.args[1])
        if a.op == "concat":
            ew = a.args[0].w
            return conj(eq(x, const(v >> (i * ew), ew)) for i, x in enumerate(a.args))
        if a.op == "poly" and a.args[0]:
            return eq(sub(a, const(a.args[0], a.w)), const(v - a.args[0], a.w))
        if a.op == "poly" and v == 0 and len(a.args[1]) == 2:
            # x - y == 0
            (m1, k1), (m2, k2) = a.args[1]
            if len(m1) == 1 and len(m2) == 1 and (k1 + k2) & mask(a.w) == 0 and (k1 == 1 or k2 == 1):
                return eq(m1[0], m2[0])
        if a.op == "poly" and v == 0 and len(a.args[1]) == 1 and len(a.args[1][0][0]) == 1:
            m, k = a.args[1][0]
            if k == mask(a.w):
                return eq(m[0], b)
            if k & 1 == 0 and ubound(a)[1] < mask(a.w) and k < (1 << (a.w - 1)):
                return eq(m[0], b)
    elif a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    elif a.op == "concat" and b.op == "concat" and len(a.args) == len(b.args):
        return conj(eq(x, y) for x, y in zip(a.args, b.args))
    else:
        if a.op == "poly" or b.op == "poly":
            d = sub(a, b)
            if is_const(d):
                return boolc(cval(d) == 0)
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), 0)


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    if a is b:
        return FALSE
    la, ha = ubound(a)
    lb, hb = ubound(b)
    if ha < lb:
        return TRUE
    if la >= hb:
        return FALSE
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return ult(a.args[0], b.args[0])
    if is_const(b) and cval(b) == 1:
        return eq(a, const(0, a.w))
    if is_const(a) and cval(a) == 0:
        return ne(b, a)
    if a.op == "zext" and is_const(b) and cval(b) <= mask(a.args[0].w):
        return ult(a.args[0], const(cval(b), a.args[0].w))
    return _mk("ult", (a, b), 0)


def ule(a, b):
    if a is b:
        return TRUE
    la, ha = ubound(a)
    lb, hb = ubound(b)
    if ha <= lb:
        return TRUE
    if la > hb:
        return FALSE
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return ule(a.args[0], b.args[0])
    if is_const(b) and cval(b) == 0:
        return eq(a, b)
    if is_const(a) and cval(a) == 1:
        return ne(b, const(0, a.w))
    return _mk("ule", (a, b), 0)


def slt(a, b):
    if a is b:
        return FALSE
    h = 1 << (a.w - 1)
    if is_const(a) and is_const(b):
        return boolc(sval(a) < sval(b))
    if ubound(a)[1] < h and ubound(b)[1] < h:
        return ult(a, b)
    if a.op == "sext" and b.op == "sext" and a.args[0].w == b.args[0].w:
        return slt(a.args[0], b.args[0])
    if a.op == "sext" and is_const(b) and -(1 << (a.args[0].w - 1)) <= sval(b) < (1 << (a.args[0].w - 1)):
        return slt(a.args[0], const(cval(b), a.args[0].w))
    if b.op == "sext" and is_const(a) and -(1 << (b.args[0].w - 1)) <= sval(a) < (1 << (b.args[0].w - 1)):
        return slt(const(cval(a), b.args[0].w), b.args[0])
    if is_const(b) and cval(b) == 0:
        if ubound(a)[1] < h:
            return FALSE
    return ult(add(a, const(h, a.w)), add(b, const(h, a.w))) if False else _mk("slt", (a, b), 0)


def sle(a, b):
    return not_(slt(b, a))


# ---- arrays: select of an unknown byte array at an index
def sel(arr, idx, w=8):
    return _mk("sel", (arr, idx), w)


def uf(name, args, w):
    return _mk("uf", (name,) + tuple(args), w)


def subterms(roots):
    seen = set()
    stack = list(roots)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        yield t
        stack.extend(kids(t))


def kids(t):
    if t.op == "poly":
        return [a for m, _ in t.args[1] for a in m]
    return [a for a in t.args if isinstance(a, T)]


def freevars(t):
    """frozenset of variable / array names in t"""
    if t.fv is not None:
        return t.fv
    stack = [t]
    while stack:
        x = stack[-1]
        if x.fv is not None:
            stack.pop()
            continue
        ks = kids(x)
        todo = [k for k in ks if k.fv is None]
        if todo:
            stack.extend(todo)
            continue
        s = set()
        if x.op == "var":
            s.add(x.args[0])
        elif x.op == "sel":
            s.add("@" + x.args[0])
        elif x.op == "uf":
            s.add("@" + x.args[0])
        for k in ks:
            s |= k.fv
        x.fv = frozenset(s)
        stack.pop()
    return t.fv


def substitute(t, mp, memo=None):
    """mp: {T: T} replacing atoms"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t in mp:
        r = mp[t]
    elif t.op in ("const", "var"):
        r = t
    elif t.op == "poly":
        r = const(t.args[0], t.w)
        for m, k in t.args[1]:
            p = const(k, t.w)
            for a in m:
                p = mul(p, substitute(a, mp, memo))
            r = add(r, p)
    else:
        r = rebuild(t, [substitute(a, mp, memo) if isinstance(a, T) else a for a in t.args])
    memo[t.id] = r
    return r


_re = {}


def rebuild(t, a):
    op, w = t.op, t.w
    f = {"udiv": udiv, "sdiv": sdiv, "and": and_, "or": or_, "xor": xor, "shl": shl, "lshr": lshr,
         "ashr": ashr, "band": band, "bor": bor, "eq": eq, "ult": ult, "ule": ule, "slt": slt}.get(op)
    if f:
        return f(a[0], a[1])
    if op == "not":
        return not_(a[0])
    if op == "ite":
        return ite(*a)
    if op == "zext":
        return zext(a[0], w)
    if op == "sext":
        return sext(a[0], w)
    if op == "trunc":
        return trunc(a[0], w)
    if op == "concat":
        return concat(a)
    if op == "sel":
        return sel(a[0], a[1], w)
    return _mk(op, tuple(a), w)
