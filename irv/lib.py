"""Models (assumed contracts) of the C/C++ runtime and the specification primitives irv_*."""
import re

from . import terms as t
from . import mem, solve
from .mem import C0, NULL, Content, FPtr, Obj, Ptr, Unsupported, c64, to_int, to_ptr

H = {}
PFX = []


def model(*names):
    def d(f):
        for n in names:
            if n.endswith("*"):
                PFX.append((n[:-1], f))
            else:
                H[n] = f
        return f
    return d


def find(name):
    h = H.get(name)
    if h is None:
        for p, f in PFX:
            if name.startswith(p):
                return f
    return h


def P(v):
    return to_ptr(v) if isinstance(v, t.T) else v


def cstr(x, s, p):
    p = P(p)
    c = x.content(s, p.obj)
    out = bytearray()
    off = p.off
    for i in range(4096):
        b = mem.rd(c.node(), t.add(off, c64(i)), 1, x.dec(s))
        if not t.is_const(b):
            raise Unsupported("symbolic C string")
        if t.cval(b) == 0:
            break
        out.append(t.cval(b))
    return out.decode("latin-1")


MAXALLOC = 1 << 46


# ---------------------------------------------------------------- allocation
def alloc(x, s, n, name, log=None):
    n = to_int(n)
    if not t.is_const(n) or t.cval(n) > MAXALLOC:
        # a larger request fails with bad_alloc: that path ends here (assumption on the allocator)
        x.assumed.add("allocation succeeds for at most 2^46 bytes; paths on which it fails are not followed")
        if not x.assume(s, t.ule(n, c64(MAXALLOC))):
            return None
    s.ghost["nalloc"] = s.ghost.get("nalloc", 0) + 1
    o = x.new_obj(s, name, n, "heap", log)
    if not t.is_const(n):
        s.ghost["lastalloc"] = o
    return Ptr(o, C0)


@model("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t",
       "_ZnamSt11align_val_t", "_ZN8CryptoPP15AlignedAllocateEm", "_ZN8CryptoPP17UnalignedAllocateEm")
def m_new(x, s, a, nm, rty):
    return alloc(x, s, a[0], "heap") or "dead"


@model("calloc")
def m_calloc(x, s, a, nm, rty):
    return alloc(x, s, t.mul(to_int(a[0]), to_int(a[1])), "heap", ("zero",)) or "dead"


@model("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
       "_ZdaPvSt11align_val_t", "_ZN8CryptoPP17AlignedDeallocateEPv", "_ZN8CryptoPP19UnalignedDeallocateEPv")
def m_delete(x, s, a, nm, rty):
    p = P(a[0])
    if p.obj is None:
        if t.is_const(p.off) and t.cval(p.off) == 0:
            return None
        x.check(s, t.FALSE, "delete of an invalid pointer")
        return "dead"
    c = x.content(s, p.obj)
    if c is None or not c.alive or p.obj.kind != "heap":
        x.check(s, t.FALSE, "delete of an object that is not allocated")
        return "dead"
    if not x.check(s, t.eq(p.off, C0), "delete of the start of an object"):
        return "dead"
    s.mem[p.obj.id] = Content(c.cells, c.log, False)
    return None


# ---------------------------------------------------------------- string.h
@model("memcpy", "memmove", "__memcpy_chk", "__memmove_chk")
def m_memcpy(x, s, a, nm, rty):
    return a[0] if x.mcopy(s, P(a[0]), P(a[1]), to_int(a[2])) else "dead"


@model("memset", "__memset_chk")
def m_memset(x, s, a, nm, rty):
    return a[0] if x.mset(s, P(a[0]), t.trunc(to_int(a[1]), 8), to_int(a[2])) else "dead"


@model("explicit_bzero", "bzero")
def m_bzero(x, s, a, nm, rty):
    return None if x.mset(s, P(a[0]), t.const(0, 8), to_int(a[1])) else "dead"


def byte_at(x, s, p, off):
    return mem.rd_byte(x.content(s, p.obj).node(), t.add(p.off, off), x.dec(s))


@model("memcmp", "bcmp", "strncmp_raw")
def m_memcmp(x, s, a, nm, rty):
    p, q, n = P(a[0]), P(a[1]), to_int(a[2])
    if t.is_const(n) and t.cval(n) == 0:
        return t.const(0, 32)
    if not x.access_ok(s, p, n, "read") or not x.access_ok(s, q, n, "read"):
        return "dead"
    if p.obj is None or q.obj is None:
        return t.const(0, 32)
    if p.obj is q.obj and p.off is q.off:
        return t.const(0, 32)
    if t.is_const(n) and t.cval(n) <= 64:
        r = t.const(0, 32)
        for i in reversed(range(t.cval(n))):
            u, v = byte_at(x, s, p, c64(i)), byte_at(x, s, q, c64(i))
            r = t.ite(t.eq(u, v), r, t.ite(t.ult(u, v), t.const(-1, 32), t.const(1, 32)))
        return r
    # unbounded: decide by extensionality
    k = t.fresh("memcmp_k", 64)
    u, v = byte_at(x, s, p, k), byte_at(x, s, q, k)
    st, _, _ = solve.prove(s.pc + (t.ult(k, n),), t.eq(u, v))
    if st == "proved":
        return t.const(0, 32)
    r = t.fresh("memcmp", 32)
    w = t.fresh("memcmp_w", 64)
    du, dv = byte_at(x, s, p, w), byte_at(x, s, q, w)
    wit = t.conj([t.ult(w, n), t.ne(du, dv), t.implies(t.slt(r, t.const(0, 32)), t.ult(du, dv)),
                  t.implies(t.slt(t.const(0, 32), r), t.ult(dv, du))])
    f = t.implies(t.ne(r, t.const(0, 32)), wit)
    for fk in s.ghost.get("focus", ()):
        f = t.band(f, t.implies(t.band(t.eq(r, t.const(0, 32)), t.ult(fk, n)),
                                t.eq(byte_at(x, s, p, fk), byte_at(x, s, q, fk))))
    if not x.assume(s, f):
        return "dead"
    return r


@model("strcmp")
def m_strcmp(x, s, a, nm, rty):
    p, q = P(a[0]), P(a[1])
    if p.obj is None or q.obj is None:
        x.check(s, t.FALSE, "strcmp of an invalid pointer")
        return "dead"
    pairs = []
    same = t.TRUE
    for i in range(64):
        for r in (p, q):
            if not x.check(s, t.implies(same, t.ult(t.add(r.off, c64(i)), r.obj.size)), "strcmp reads within the text"):
                return "dead"
        u, v = byte_at(x, s, p, c64(i)), byte_at(x, s, q, c64(i))
        pairs.append((u, v))
        same = t.conj([same, t.eq(u, v), t.ne(u, t.const(0, 8))])
        if any(t.is_const(b) and t.cval(b) == 0 for b in (u, v)):
            break
    else:
        raise Unsupported("strcmp of two texts of unknown length")
    r = t.const(0, 32)
    for u, v in reversed(pairs):
        r = t.ite(t.eq(u, v), t.ite(t.eq(u, t.const(0, 8)), t.const(0, 32), r),
                  t.ite(t.ult(u, v), t.const(-1, 32), t.const(1, 32)))
    return r


@model("strlen")
def m_strlen(x, s, a, nm, rty):
    p = P(a[0])
    c = x.content(s, p.obj) if p.obj else None
    if c is None:
        x.check(s, t.FALSE, "strlen of an invalid pointer")
        return "dead"
    for i in range(4096):
        b = mem.rd(c.node(), t.add(p.off, c64(i)), 1, x.dec(s))
        if not t.is_const(b):
            d = x.decide(s, t.eq(b, t.const(0, 8)))
            if d is None:
                # symbolic length: smallest index of a zero byte; the same text has the same length
                key = None if c.cells else (c.log, t.add(p.off, c64(0)))
                for kl, ko, kn in s.ghost.get("strlens", ()):
                    if key and kl is key[0] and ko is key[1]:
                        return kn
                room = t.sub(p.obj.size, p.off)
                if t.is_const(room) and t.cval(room) > i:
                    n = t.fresh("strlen_%d_%d" % (i, t.cval(room) - 1), 64)
                    t.declare_bounds(n, i, t.cval(room) - 1)
                else:
                    n = t.fresh("strlen", 64)
                if key:
                    s.ghost["strlens"] = s.ghost.get("strlens", ()) + ((key[0], key[1], n),)
                if not x.assume(s, t.conj([t.ule(c64(i), n), t.ult(n, t.sub(p.obj.size, p.off)),
                                           t.eq(byte_at(x, s, p, n), t.const(0, 8))])):
                    return "dead"
                for fk in s.ghost.get("focus", ()):
                    if not x.assume(s, t.implies(t.ult(fk, n), t.ne(byte_at(x, s, p, fk), t.const(0, 8)))):
                        return "dead"
                return n
            if d:
                return c64(i)
        elif t.cval(b) == 0:
            return c64(i)
    raise Unsupported("long C string")


@model("strchr", "_ZSt6strchrPci", "_ZSt6strchrPKci")
def m_strchr(x, s, a, nm, rty):
    p, b = P(a[0]), t.trunc(to_int(a[1]), 8)
    n = m_strlen(x, s, [p], nm, rty)
    if n == "dead":
        return n
    if not t.is_const(n) or t.cval(n) > 64:
        raise Unsupported("strchr in a string of unknown length")
    rest, off = t.TRUE, c64(t.cval(n))
    es = []
    for i in range(t.cval(n) + 1):
        es.append(t.eq(byte_at(x, s, p, c64(i)), b))
    for i in reversed(range(len(es))):
        off = t.ite(es[i], c64(i), off)
    found = t.FALSE
    for e in es:
        found = t.bor(found, e)
    out = []
    m = s.fork()
    if x.assume(s, found):
        out.append((s, Ptr(p.obj, t.add(p.off, off))))
    if x.assume(m, t.not_(found)):
        out.append((m, Ptr(None, C0)))
    return ("states", out)


@model("memchr")
def m_memchr(x, s, a, nm, rty):
    p, b, n = P(a[0]), t.trunc(to_int(a[1]), 8), to_int(a[2])
    if not x.access_ok(s, p, n, "read"):
        return "dead"
    if t.is_const(n) and t.cval(n) <= 48:
        out = []
        rest = t.TRUE
        for i in range(t.cval(n)):
            e = t.eq(byte_at(x, s, p, c64(i)), b)
            c = t.band(rest, e)
            if c is not t.FALSE:
                st = s.fork()
                if x.assume(st, c):
                    out.append((st, Ptr(p.obj, t.add(p.off, c64(i)))))
            rest = t.band(rest, t.not_(e))
        if x.assume(s, rest):
            out.append((s, NULL))
        return ("states", out)
    st = s.fork()
    i = t.fresh("memchr", 64)
    out = []
    f = t.band(t.ult(i, n), t.eq(byte_at(x, s, p, i), b))
    for fk in s.ghost.get("focus", ()):
        f = t.band(f, t.implies(t.ult(fk, i), t.ne(byte_at(x, s, p, fk), b)))
    if x.assume(st, f):
        out.append((st, Ptr(p.obj, t.add(p.off, i))))
    g = t.TRUE
    for fk in s.ghost.get("focus", ()):
        g = t.band(g, t.implies(t.ult(fk, n), t.ne(byte_at(x, s, p, fk), b)))
    if x.assume(s, g):
        out.append((s, NULL))
    return ("states", out)


@model("strchr")
def m_strchr(x, s, a, nm, rty):
    p, b = P(a[0]), t.trunc(to_int(a[1]), 8)
    txt = cstr(x, s, p).encode("latin-1") + b"\0"
    out = []
    rest = t.TRUE
    for i, ch in enumerate(txt):
        e = t.eq(b, t.const(ch, 8))
        c = t.band(rest, e)
        if c is not t.FALSE:
            st = s.fork()
            if x.assume(st, c):
                out.append((st, Ptr(p.obj, t.add(p.off, c64(i)))))
        rest = t.band(rest, t.not_(e))
    if x.assume(s, rest):
        out.append((s, NULL))
    return ("states", out)


# ---------------------------------------------------------------- exceptions
@model("__cxa_allocate_exception")
def m_alloc_exc(x, s, a, nm, rty):
    o = x.new_obj(s, "exception", to_int(a[0]), "exception")
    return Ptr(o, C0)


@model("__cxa_free_exception")
def m_free_exc(x, s, a, nm, rty):
    return None


@model("__cxa_throw")
def m_throw(x, s, a, nm, rty):
    ti = P(a[1])
    return ("throw", P(a[0]), ti.obj.name)


@model("__cxa_begin_catch")
def m_begin(x, s, a, nm, rty):
    s.caught.append(s.inflight)
    n = s.ghost.pop("uncaught", 1) - 1
    if n > 0:
        s.ghost["uncaught"] = n
    return P(a[0])


@model("_ZSt19uncaught_exceptionsv")
def m_uncaught(x, s, a, nm, rty):
    return t.const(s.ghost.get("uncaught", 0), 32)


@model("_ZSt18uncaught_exceptionv")
def m_uncaught1(x, s, a, nm, rty):
    return t.const(1 if s.ghost.get("uncaught", 0) else 0, 1)


@model("__cxa_get_exception_ptr")
def m_getexc(x, s, a, nm, rty):
    return P(a[0])


@model("__cxa_end_catch")
def m_end(x, s, a, nm, rty):
    if s.caught:
        s.caught.pop()
    return None


@model("__cxa_rethrow")
def m_rethrow(x, s, a, nm, rty):
    o, ti = s.caught[-1]
    return ("throw", o, ti)


@model("__clang_call_terminate", "_ZSt9terminatev", "abort", "__assert_fail", "exit", "_exit")
def m_term(x, s, a, nm, rty):
    x.check(s, t.FALSE, "the program is not terminated (%s)" % nm)
    return "dead"


STD_THROW = {
    "_ZSt20__throw_length_errorPKc": "_ZTISt12length_error",
    "_ZSt19__throw_logic_errorPKc": "_ZTISt11logic_error",
    "_ZSt20__throw_out_of_rangePKc": "_ZTISt12out_of_range",
    "_ZSt24__throw_out_of_range_fmtPKcz": "_ZTISt12out_of_range",
    "_ZSt24__throw_invalid_argumentPKc": "_ZTISt16invalid_argument",
    "_ZSt17__throw_bad_allocv": "_ZTISt9bad_alloc",
    "_ZSt28__throw_bad_array_new_lengthv": "_ZTISt20bad_array_new_length",
    "_ZSt16__throw_bad_castv": "_ZTISt8bad_cast",
    "_ZSt26__throw_bad_variant_accessPKc": "_ZTISt18bad_variant_access",
    "_ZSt25__throw_bad_function_callv": "_ZTISt17bad_function_call",
    "_ZSt20__throw_system_errori": "_ZTISt12system_error",
    "_ZSt21__throw_runtime_errorPKc": "_ZTISt13runtime_error",
    "__cxa_throw_bad_array_new_length": "_ZTISt20bad_array_new_length",
    "_ZSt27__throw_bad_optional_accessv": "_ZTISt19bad_optional_access",
}


@model(*STD_THROW)
def m_stdthrow(x, s, a, nm, rty):
    ti = STD_THROW[nm]
    o = x.new_obj(s, ti, c64(64), "exception", ("zero",))
    return ("throw", Ptr(o, C0), ti)


@model("_ZNSt11range_errorC1EPKc", "_ZNSt11range_errorD1Ev", "_ZNSt14overflow_errorC1EPKc",
       "_ZNSt14overflow_errorD1Ev", "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt11logic_errorC1EPKc",
       "_ZNSt16invalid_argumentC1EPKc", "_ZNSt12length_errorC1EPKc", "_ZNSt12out_of_rangeC1EPKc",
       "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt16invalid_argumentC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev",
       "_ZNSt11logic_errorD2Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12length_errorD1Ev",
       "__cxa_atexit", "__cxa_guard_release", "__cxa_guard_abort", "_ZNSt8ios_base4InitC1Ev", "sched_yield",
       "pthread_mutex_lock_void", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev")
def m_noop(x, s, a, nm, rty):
    return x.fresh_of(rty)


@model("_ZNKSt9exception4whatEv", "_ZNKSt13runtime_error4whatEv", "_ZNKSt11logic_error4whatEv")
def m_what(x, s, a, nm, rty):
    o = Obj("what", c64(8), "const")
    s.mem[o.id] = Content({0: (1, t.const(ord("e"), 8))}, ("zero",))
    return Ptr(o, C0)


@model("__cxa_guard_acquire")
def m_guard(x, s, a, nm, rty):
    p = P(a[0])
    v = x.load(s, p, 1)
    if t.is_const(v) and t.cval(v):
        return t.const(0, 32)
    x.poke(s, p, 1, t.const(1, 8))
    return t.const(1, 32)


@model("__cxa_pure_virtual")
def m_pure(x, s, a, nm, rty):
    x.check(s, t.FALSE, "no pure virtual call")
    return "dead"


@model("__errno_location")
def m_errno(x, s, a, nm, rty):
    o = s.ghost.get("errno")
    if o is None:
        o = x.new_obj(s, "errno", c64(4), "global")
        s.ghost["errno"] = o
    return Ptr(o, C0)


@model("__dynamic_cast")
def m_dyncast(x, s, a, nm, rty):
    p = P(a[0])
    if p.obj is None:
        return NULL
    vp = x.load(s, p, 8)
    if vp is None:
        return "dead"
    want = P(a[2]).obj.name
    ot = x.load(s, Ptr(vp.obj, t.sub(vp.off, c64(16))), 8)
    ti = x.load(s, Ptr(vp.obj, t.sub(vp.off, c64(8))), 8)
    top = Ptr(p.obj, t.add(p.off, to_int(ot)))
    r = ti_find(x, ti.obj.name, want)
    if r is None:
        return NULL
    return Ptr(top.obj, t.add(top.off, c64(r)))


def ti_find(x, frm, want):
    if frm == want:
        return 0
    for b, off in x.ti_bases(frm):
        r = ti_find(x, b, want)
        if r is not None and off is not None:
            return r + off
    return None


# ---------------------------------------------------------------- specification primitives
def uniq(s, name):
    k = "n:" + name
    n = s.ghost.get(k, 0)
    s.ghost[k] = n + 1
    return name if n == 0 else "%s.%d" % (name, n)


@model("irv_var")
def m_var(x, s, a, nm, rty):
    name = uniq(s, cstr(x, s, a[0]))
    v = t.var(x.prefix + name, 64)
    lo, hi = to_int(a[1]), to_int(a[2])
    if not (t.is_const(lo) and t.is_const(hi)):
        s.names[name] = ("u", v)
        return v if x.assume(s, t.band(t.ule(lo, v), t.ule(v, hi))) else "dead"
    # the bounds are part of the name: the same name may be drawn with other bounds on another path
    v = t.var("%s%s@%d_%d" % (x.prefix, name, t.cval(lo), t.cval(hi)), 64)
    t.declare_bounds(v, t.cval(lo), t.cval(hi))
    s.names[name] = ("u", v)
    if t.cval(lo) == t.cval(hi):
        return lo
    return v


@model("irv_array")
def m_array(x, s, a, nm, rty):
    name = uniq(s, cstr(x, s, a[0]))
    n = to_int(a[1])
    o = x.new_obj(s, name, n, "heap", ("arr", "in_" + x.prefix + name))
    s.names[name] = ("a", "in_" + x.prefix + name, n)
    return Ptr(o, C0)


@model("irv_havoc")
def m_havoc(x, s, a, nm, rty):
    """irv_havoc(p, n, name): n arbitrary bytes at p"""
    p, n = P(a[0]), to_int(a[1])
    name = uniq(s, cstr(x, s, a[2]))
    if not x.access_ok(s, p, n, "write"):
        return "dead"
    if p.obj is None:
        return None
    c = x.content(s, p.obj)
    s.names[name] = ("a", "in_" + x.prefix + name, n)
    if t.is_const(n) and t.is_const(p.off) and t.cval(n) <= 64:
        cells = c.cells
        for i in range(t.cval(n)):
            cells = mem.put_cell(cells, t.cval(p.off) + i, 1, t.sel("in_" + x.prefix + name, c64(i)))
        s.mem[p.obj.id] = Content(cells, c.log)
    else:
        s.mem[p.obj.id] = Content({}, ("cp", p.off, n, ("arr", "in_" + x.prefix + name), C0, c.node()))
    return None


@model("irv_assume")
def m_assume(x, s, a, nm, rty):
    c = to_int(a[0])
    if c.w:
        c = t.ne(c, t.const(0, c.w))
    return None if x.assume(s, c) else "dead"


@model("irv_assert")
def m_assert(x, s, a, nm, rty):
    c = to_int(a[0])
    if c.w:
        c = t.ne(c, t.const(0, c.w))
    name = cstr(x, s, a[1])
    return None if x.check(s, c, name) else "dead"


@model("irv_cover")
def m_cover(x, s, a, nm, rty):
    name = cstr(x, s, a[0])
    if not x.quiet:
        x.covers[name] = x.covers.get(name, 0) + 1
    return None


@model("irv_uf")
def m_uf(x, s, a, nm, rty):
    """irv_uf(name, bits, a, b, c, d)"""
    name = cstr(x, s, a[0])
    w = t.cval(to_int(a[1]))
    r = t.uf("uf_%s_%d" % (name, w), [to_int(v) for v in a[2:]], w)
    return t.zext(r, 64)


@model("irv_focus")
def m_focus(x, s, a, nm, rty):
    s.ghost["focus"] = s.ghost.get("focus", ()) + (to_int(a[0]),)
    return None


@model("irv_unroll")
def m_unroll(x, s, a, nm, rty):
    s.ghost["unroll"] = t.cval(to_int(a[0]))
    return None


@model("irv_try_unroll")
def m_tryunroll(x, s, a, nm, rty):
    """loops are first unrolled this many times; those that go on are cut by an invariant as usual"""
    s.ghost["tryunroll"] = t.cval(to_int(a[0]))
    return None


@model("irv_inv")
def m_inv(x, s, a, nm, rty):
    """irv_inv(bool (*pred)(void* ctx, uint64_t progress), ctx): a candidate loop invariant"""
    s.ghost["invs"] = s.ghost.get("invs", ()) + ((a[0].name, P(a[1])),)
    return None


@model("irv_track")
def m_track(x, s, a, nm, rty):
    """irv_track(uint64_t (*spec)(void* ctx, uint64_t n), ctx): some loop variable has advanced by spec(n) after n iterations"""
    s.ghost["tracks"] = s.ghost.get("tracks", ()) + ((a[0].name, P(a[1])),)
    return None


@model("irv_inv_clear")
def m_invclear(x, s, a, nm, rty):
    s.ghost["invs"] = ()
    s.ghost["tracks"] = ()
    s.ghost["expects"] = ()
    return None


@model("irv_expect")
def m_expect(x, s, a, nm, rty):
    """irv_expect(p, uint8_t (*spec)(void* ctx, uint64_t k), ctx): byte k written by loops at p+k is spec(k);
    a null p stands for any heap object allocated later"""
    p = P(a[0])
    s.ghost["expects"] = s.ghost.get("expects", ()) + ((p, a[1].name, P(a[2]), s.ghost.get("nalloc", 0)),)
    return None


@model("irv_fill")
def m_fill(x, s, a, nm, rty):
    """irv_fill(p, n, uint8_t (*spec)(void* ctx, uint64_t k), ctx): byte k of p becomes spec(k)"""
    from . import loops
    d, n = P(a[0]), to_int(a[1])
    if not x.access_ok(s, d, n, "write"):
        return "dead"
    if d.obj is None:
        return None
    cd = x.content(s, d.obj)
    snap, fn, ctx, base = s.fork(), a[2].name, P(a[3]), d.off
    s.mem[d.obj.id] = mem.Content({}, ("cp", d.off, n, (
        "fn", lambda off: loops.eval_byte(x, snap, fn, [ctx, t.sub(off, base)])), d.off, cd.node()))
    return None


@model("irv_last_alloc")
def m_lastalloc(x, s, a, nm, rty):
    """start of the heap object of variable size allocated last"""
    o = s.ghost.get("lastalloc")
    return Ptr(o, C0) if o is not None else Ptr(None, C0)


@model("irv_is_symbolic")
def m_issym(x, s, a, nm, rty):
    return t.const(1, 32)


@model("irv_size_of")
def m_sizeof(x, s, a, nm, rty):
    p = P(a[0])
    if p.obj is None:
        return C0
    c = x.content(s, p.obj)
    if c is None or not c.alive:
        return C0
    return t.sub(p.obj.size, p.off)


@model("irv_split")
def m_split(x, s, a, nm, rty):
    """case split on a condition"""
    c = to_int(a[0])
    if c.w:
        c = t.ne(c, t.const(0, c.w))
    if c is t.TRUE or c is t.FALSE:
        return t.const(1 if c is t.TRUE else 0, 32)
    n = s.fork()
    out = []
    if x.assume(s, c):
        out.append((s, t.const(1, 32)))
    if x.assume(n, t.not_(c)):
        out.append((n, t.const(0, 32)))
    return ("states", out)


@model("irv_concretize")
def m_conc(x, s, a, nm, rty):
    """case split on every value of a small range variable"""
    v = to_int(a[0])
    if t.is_const(v):
        return v
    lo, hi = t.ubound(v)
    if hi - lo > 300:
        raise Unsupported("concretize over a large range")
    out = []
    for k in range(lo, hi + 1):
        n = s.fork()
        if x.assume(n, t.eq(v, t.const(k, v.w))):
            out.append((n, t.const(k, v.w)))
    return ("states", out)
