"""Reader for the textual LLVM 18 IR that clang/opt emit.  Functions are parsed lazily.

Types:  ('i', n) | ('ptr',) | ('void',) | ('fp', n) | ('arr', n, T) | ('st', (T...), packed) | ('vec', n, T)
        | ('fn',) | ('label',) | ('metadata',) | ('token',)
Operands: ('l', name) local, ('g', name) global, ('c', T, value) literal, ('null',), ('undef',), ('zero',),
          ('agg', [..]), ('str', bytes), ('gep', srcT, base, [(T, op)]), ('cast', op, T1, operand, T2),
          ('bin', op, a, b, T), ('blockaddr',)
"""
import re

TOK = re.compile(r'''\s*(?:
   (c?"(?:[^"\\]|\\.)*")              # strings
 | ([%@!](?:"[^"]*"|[-\w$.]+))        # names
 | (\#\d+)
 | (\.\.\.)
 | (-?\d+(?:\.\d+(?:e[-+]?\d+)?)?)
 | (0x[0-9A-Fa-fKLMH]+)
 | ([\w.$]+:?)
 | (.)
)''', re.X)


def unescape(s):
    out = bytearray()
    i = 0
    b = s.encode("latin-1") if isinstance(s, str) else s
    while i < len(b):
        if b[i] == 92 and i + 2 < len(b) + 0 and i + 2 <= len(b) - 1 + 0:
            if b[i + 1] == 92:
                out.append(92)
                i += 2
                continue
            try:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
                continue
            except ValueError:
                pass
        out.append(b[i])
        i += 1
    return bytes(out)


def tokens(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        r = m(s, pos)
        if not r:
            break
        pos = r.end()
        g = r.group(r.lastindex)
        out.append(g)
    return out


PARAM_ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "zeroext", "signext",
               "returned", "immarg", "inreg", "swiftself", "nofree", "nest", "dead_on_unwind", "writable", "noext",
               "allocptr", "allocalign", "inalloca"}
PAREN_ATTRS = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "elementtype", "range",
               "nofpclass", "memory", "captures", "initializes"}
LINKAGE = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak",
           "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "default", "hidden", "protected",
           "unnamed_addr", "local_unnamed_addr", "externally_initialized", "thread_local", "fastcc", "ccc", "coldcc"}


class Fn:
    __slots__ = ("name", "params", "ret", "blocks", "order", "defined", "text", "parsed", "loops", "dbg", "line0", "attrs",
                 "regions", "pdom", "pdom_good",)


class Module:
    def __init__(self, text):
        self.types = {}
        self.fns = {}
        self.globals = {}
        self.aliases = {}
        self.md = {}
        self._mdtext = {}
        self._tmemo = {}
        self.attrs = {}
        self._split(text)

    # ---- file level
    def _split(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                j = i
                while lines[j] != "}":
                    j += 1
                f = Fn()
                f.defined, f.parsed, f.text = True, False, lines[i:j + 1]
                self._header(f, l)
                self.fns[f.name] = f
                i = j + 1
                continue
            if l.startswith("declare "):
                f = Fn()
                f.defined, f.parsed, f.text = False, True, [l]
                self._header(f, l)
                self.fns[f.name] = f
            elif l.startswith("%") and " = type " in l:
                nm, _, body = l.partition(" = type ")
                self.types[nm[1:].strip('"') if nm[1] == '"' else nm[1:]] = body
            elif l.startswith("@"):
                nm, _, body = l.partition(" = ")
                nm = nm[1:].strip('"')
                self.globals[nm] = body
            elif l.startswith("attributes #"):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", l)
                if m:
                    self.attrs[m.group(1)] = m.group(2)
            elif l.startswith("!"):
                m = re.match(r"!(\d+) = (.*)", l)
                if m:
                    self._mdtext[m.group(1)] = m.group(2)
            i += 1
        gl = {}
        for nm, body in self.globals.items():
            if re.search(r"(^|\s)alias\s", body):
                m = re.search(r"@(\"[^\"]*\"|[-\w$.]+)\s*$", body.split(", comdat")[0].split(", !")[0])
                if m:
                    self.aliases[nm] = m.group(1).strip('"')
            else:
                gl[nm] = body
        self.globals = gl

    def _header(self, f, l):
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
        f.name = m.group(1).strip('"')
        toks = tokens(l[m.end():])
        p = P(self, toks)
        f.params = []
        pre = tokens(re.sub(r"!dbg !\d+", "", l[:m.start()]))
        q = P(self, pre[1:])
        q.skip_attrs(LINKAGE)
        f.ret = q.type()
        f.loops = None
        while p.peek() != ")":
            if p.peek() == "...":
                p.next()
                continue
            ty = p.type()
            byval = p.param_attrs()
            nm = None
            if p.peek() and p.peek()[0] == "%":
                nm = p.next()[1:].strip('"')
            f.params.append((ty, nm, byval))
            if p.peek() == ",":
                p.next()
        m = re.search(r"!dbg !(\d+)", l)
        f.dbg = m.group(1) if m else None
        f.attrs = re.findall(r"#\d+", l[l.rindex(")"):])

    # ---- types
    def resolve(self, ty):
        if ty[0] == "named":
            r = self._tmemo.get(ty[1])
            if r is None:
                body = self.types.get(ty[1])
                if body is None or body.strip() == "opaque":
                    r = ("st", (), False)
                else:
                    r = P(self, tokens(body)).type()
                self._tmemo[ty[1]] = r
            return r
        return ty

    def size(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == "i":
            n = (ty[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return p
        if k == "ptr":
            return 8
        if k == "arr":
            return ty[1] * self.size(ty[2])
        if k == "vec":
            return ty[1] * self.size(ty[2])
        if k == "st":
            off = 0
            for e in ty[1]:
                a = 1 if ty[2] else self.align(e)
                off = (off + a - 1) // a * a + self.size(e)
            a = 1 if ty[2] else self.align(ty)
            return (off + a - 1) // a * a
        if k == "fp":
            return {80: 16}.get(ty[1], ty[1] // 8)
        return 0

    def align(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == "arr":
            return self.align(ty[2])
        if k == "st":
            if ty[2]:
                return 1
            return max([self.align(e) for e in ty[1]] or [1])
        return max(1, min(16, self.size(ty)))

    def field(self, ty, i):
        """offset and type of element i of an aggregate"""
        ty = self.resolve(ty)
        if ty[0] in ("arr", "vec"):
            return i * self.size(ty[2]), ty[2]
        off = 0
        for j, e in enumerate(ty[1]):
            a = 1 if ty[2] else self.align(e)
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += self.size(e)
        raise IndexError

    def fields(self, ty):
        ty = self.resolve(ty)
        n = ty[1] if ty[0] in ("arr", "vec") else len(ty[1])
        return [self.field(ty, i) for i in range(n)]

    # ---- globals
    def global_init(self, name):
        """-> (type, operand or None, constant?)"""
        body = self.globals[name]
        toks = tokens(body)
        p = P(self, toks)
        p.skip_attrs(LINKAGE | {"thread_local", "comdat"})
        kind = p.next()
        while kind not in ("global", "constant"):
            if kind == "(":
                pass
            kind = p.next()
            if kind is None:
                return None
        ty = p.type()
        ext = "external" in toks[:6] or "extern_weak" in toks[:6] or p.peek() in (None, ",")
        op = None if ext else p.operand(ty)
        return ty, op, kind == "constant"

    # ---- metadata (source locations)
    def loc(self, mdid):
        r = self.md.get(mdid)
        if r is None:
            s = self._mdtext.get(mdid, "")
            m = re.search(r"DILocation\(line: (\d+)", s)
            line = int(m.group(1)) if m else 0
            m = re.search(r"scope: !(\d+)", s)
            file = self._file(m.group(1)) if m else ""
            m = re.search(r"inlinedAt: !(\d+)", s)
            r = self.md[mdid] = (file, line, m.group(1) if m else None)
        return r

    def _file(self, scope):
        for _ in range(20):
            s = self._mdtext.get(scope, "")
            m = re.search(r"DIFile\(filename: \"([^\"]*)\"", s)
            if m:
                return m.group(1)
            m = re.search(r"file: !(\d+)", s) or re.search(r"scope: !(\d+)", s)
            if not m:
                return ""
            scope = m.group(1)
        return ""

    # ---- functions
    def fn(self, name):
        name = self.aliases.get(name, name)
        f = self.fns.get(name)
        if f is None:
            return None
        if not f.parsed:
            self._parse(f)
        return f

    def _parse(self, f):
        f.blocks, f.order = {}, []
        cur = None
        lines = f.text
        i = 1
        first = True
        while i < len(lines) - 1:
            l = lines[i]
            i += 1
            if not l:
                continue
            if l[0] != " ":
                m = re.match(r'("[^"]*"|[-\w$.]+):', l)
                if m:
                    cur = m.group(1).strip('"')
                    f.blocks[cur] = []
                    f.order.append(cur)
                continue
            if cur is None:
                # entry block without a label takes the next unnamed number
                n = 0
                for _, nm, _ in f.params:
                    if nm is not None and nm.isdigit():
                        n = max(n, int(nm) + 1)
                    elif nm is None:
                        n += 1
                cur = str(n)
                f.blocks[cur] = []
                f.order.append(cur)
            s = l.strip()
            if s.startswith("switch ") and not s.rstrip().endswith("]") and "]" not in s:
                while "]" not in lines[i]:
                    s += " " + lines[i].strip()
                    i += 1
                s += " " + lines[i].strip()
                i += 1
            elif " invoke " in " " + s and " unwind label" not in s:
                s += " " + lines[i].strip()
                i += 1
            elif "landingpad " in s:
                while i < len(lines) and re.match(r"\s+(cleanup|catch|filter)\b", lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
            f.blocks[cur].append(self._instr(s))
        for k, (ty, nm, bv) in enumerate(f.params):
            if nm is None:
                f.params[k] = (ty, str(k), bv)
        f.parsed = True
        f.text = None

    def _instr(self, s):
        dbg = None
        m = re.search(r", !dbg !(\d+)", s)
        if m:
            dbg = m.group(1)
        k = s.find(", !")
        while k >= 0:
            # strip trailing metadata attachments (not inside strings: IR strings do not occur in instructions except asm)
            if re.match(r", !\w+ ", s[k:]):
                s = s[:k]
                break
            k = s.find(", !", k + 1)
        toks = tokens(s)
        p = P(self, toks)
        dst = None
        if len(toks) > 1 and toks[1] == "=":
            dst = toks[0][1:].strip('"')
            p.i = 2
        op = p.next()
        I = Instr(op, dst, dbg)
        if op in ("tail", "musttail", "notail"):
            op = p.next()
            I.op = op
        getattr(self, "_i_" + op, self._i_other)(I, p)
        return I

    def _i_other(self, I, p):
        op = I.op
        if op in BIN:
            while p.peek() in ("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract",
                               "afn", "reassoc"):
                I.flags = (I.flags or ()) + (p.next(),)
            I.ty = p.type()
            a = p.operand(I.ty)
            p.expect(",")
            b = p.operand(I.ty)
            I.a = (a, b)
            return
        if op in CASTS:
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            t1 = p.type()
            a = p.operand(t1)
            p.expect("to")
            I.ty = p.type()
            I.a = (t1, a)
            return
        I.ty = None
        I.a = ()

    def _i_icmp(self, I, p):
        while p.peek() in ("samesign",):
            p.next()
        pred = p.next()
        I.ty = p.type()
        a = p.operand(I.ty)
        p.expect(",")
        b = p.operand(I.ty)
        I.a = (pred, a, b)

    _i_fcmp = _i_icmp

    def _i_ret(self, I, p):
        I.ty = p.type()
        I.a = (None,) if I.ty == ("void",) else (p.operand(I.ty),)

    def _i_br(self, I, p):
        if p.peek() == "label":
            p.next()
            I.a = (p.label(),)
            return
        p.type()
        c = p.operand(("i", 1))
        p.expect(",")
        p.expect("label")
        t = p.label()
        p.expect(",")
        p.expect("label")
        I.a = (c, t, p.label())

    def _i_switch(self, I, p):
        I.ty = p.type()
        v = p.operand(I.ty)
        p.expect(",")
        p.expect("label")
        d = p.label()
        p.expect("[")
        cs = []
        while p.peek() != "]":
            ty = p.type()
            c = p.operand(ty)
            p.expect(",")
            p.expect("label")
            cs.append((c, p.label()))
        I.a = (v, d, cs)

    def _i_phi(self, I, p):
        while p.peek() in ("fast", "nnan", "nsz"):
            p.next()
        I.ty = p.type()
        ins = {}
        while True:
            p.expect("[")
            v = p.operand(I.ty)
            p.expect(",")
            l = p.next()[1:].strip('"')
            p.expect("]")
            ins[l] = v
            if p.peek() == ",":
                p.next()
            else:
                break
        I.a = ins

    def _i_alloca(self, I, p):
        if p.peek() == "inalloca":
            p.next()
        I.ty = p.type()
        n = None
        if p.peek() == ",":
            p.next()
            if p.peek() not in ("align", "addrspace"):
                t = p.type()
                n = p.operand(t)
        I.a = (n,)

    def _i_load(self, I, p):
        while p.peek() in ("atomic", "volatile"):
            p.next()
        I.ty = p.type()
        p.expect(",")
        p.type()
        I.a = (p.operand(("ptr",)),)

    def _i_store(self, I, p):
        while p.peek() in ("atomic", "volatile"):
            p.next()
        I.ty = p.type()
        v = p.operand(I.ty)
        p.expect(",")
        p.type()
        I.a = (v, p.operand(("ptr",)))

    def _i_getelementptr(self, I, p):
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        if p.peek() == "inrange":
            p.next()
            p.parens()
        st = p.type()
        p.expect(",")
        bt = p.type()
        b = p.operand(bt)
        idx = []
        while p.peek() == ",":
            p.next()
            t = p.type()
            idx.append((t, p.operand(t)))
        I.ty = st
        I.a = (b, idx)

    def _i_select(self, I, p):
        while p.peek() in ("fast", "nnan", "nsz"):
            p.next()
        ct = p.type()
        c = p.operand(ct)
        p.expect(",")
        I.ty = p.type()
        a = p.operand(I.ty)
        p.expect(",")
        p.type()
        I.a = (c, a, p.operand(I.ty), ct)

    def _i_freeze(self, I, p):
        I.ty = p.type()
        I.a = (p.operand(I.ty),)

    def _i_extractvalue(self, I, p):
        I.ty = p.type()
        a = p.operand(I.ty)
        ix = []
        while p.peek() == ",":
            p.next()
            ix.append(int(p.next()))
        I.a = (a, ix)

    def _i_insertvalue(self, I, p):
        I.ty = p.type()
        a = p.operand(I.ty)
        p.expect(",")
        t = p.type()
        v = p.operand(t)
        ix = []
        while p.peek() == ",":
            p.next()
            ix.append(int(p.next()))
        I.a = (a, v, ix)

    def _i_extractelement(self, I, p):
        I.ty = p.type()
        a = p.operand(I.ty)
        p.expect(",")
        t = p.type()
        I.a = (a, p.operand(t))

    def _i_insertelement(self, I, p):
        I.ty = p.type()
        a = p.operand(I.ty)
        p.expect(",")
        t = p.type()
        v = p.operand(t)
        p.expect(",")
        t2 = p.type()
        I.a = (a, v, p.operand(t2))

    def _i_shufflevector(self, I, p):
        I.ty = p.type()
        a = p.operand(I.ty)
        p.expect(",")
        t = p.type()
        b = p.operand(t)
        p.expect(",")
        t3 = p.type()
        I.a = (a, b, p.operand(t3), t3)

    def _i_landingpad(self, I, p):
        I.ty = p.type()
        cl = []
        while p.peek():
            k = p.next()
            if k == "cleanup":
                cl.append(("cleanup", None))
            elif k in ("catch", "filter"):
                t = p.type()
                cl.append((k, p.operand(t)))
            else:
                break
        I.a = cl

    def _i_resume(self, I, p):
        I.ty = p.type()
        I.a = (p.operand(I.ty),)

    def _i_unreachable(self, I, p):
        I.a = ()

    def _i_fence(self, I, p):
        I.a = ()

    def _i_atomicrmw(self, I, p):
        while p.peek() == "volatile":
            p.next()
        o = p.next()
        p.type()
        ptr = p.operand(("ptr",))
        p.expect(",")
        I.ty = p.type()
        I.a = (o, ptr, p.operand(I.ty))

    def _i_cmpxchg(self, I, p):
        while p.peek() in ("weak", "volatile"):
            p.next()
        p.type()
        ptr = p.operand(("ptr",))
        p.expect(",")
        I.ty = p.type()
        c = p.operand(I.ty)
        p.expect(",")
        p.type()
        I.a = (ptr, c, p.operand(I.ty))

    def _i_call(self, I, p):
        while p.peek() in ("fast", "nnan", "nsz", "ninf") or p.peek() in LINKAGE:
            p.next()
        p.param_attrs()
        rt = p.type()
        if p.peek() == "(":   # varargs function type
            p.parens()
        if p.peek() == "asm":
            s = []
            while p.peek() != "(":
                s.append(p.next())
            callee = ("asm", " ".join(s))
        else:
            callee = p.operand(("ptr",))
        p.expect("(")
        args = []
        while p.peek() != ")":
            t = p.type()
            if t == ("metadata",):
                p.skip_until((",", ")"))
                args.append((t, None, None))
            else:
                bv = p.param_attrs()
                args.append((t, p.operand(t), bv))
            if p.peek() == ",":
                p.next()
        p.next()
        I.ty = rt
        norm = unw = None
        if I.op == "invoke":
            while p.peek() not in ("to", None):
                p.next()
            p.expect("to")
            p.expect("label")
            norm = p.label()
            p.expect("unwind")
            p.expect("label")
            unw = p.label()
        rest = []
        while p.peek() and I.op == "call":
            rest.append(p.next())
        I.flags = tuple(r for r in rest if r.startswith("#"))
        I.a = (callee, args, norm, unw)

    _i_invoke = _i_call


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "fptoui", "fptosi", "uitofp",
         "sitofp", "fpext", "fptrunc"}


class Instr:
    __slots__ = ("op", "dst", "dbg", "ty", "a", "flags")

    def __init__(self, op, dst, dbg):
        self.op, self.dst, self.dbg, self.flags, self.ty, self.a = op, dst, dbg, None, None, None


class P:
    __slots__ = ("m", "t", "i")

    def __init__(self, m, toks):
        self.m, self.t, self.i = m, toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            return None
        r = self.t[self.i]
        self.i += 1
        return r

    def expect(self, x):
        r = self.next()
        if r != x:
            raise SyntaxError("expected %s got %s in %s" % (x, r, " ".join(self.t)))

    def label(self):
        return self.next()[1:].strip('"')

    def parens(self):
        d = 0
        while True:
            x = self.next()
            if x in "([{<":
                d += 1
            elif x in ")]}>":
                d -= 1
                if d == 0:
                    return

    def skip_until(self, stops):
        d = 0
        while True:
            x = self.peek()
            if d == 0 and x in stops:
                return
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1
            self.next()

    def skip_attrs(self, extra):
        while True:
            x = self.peek()
            if x in extra or x in PARAM_ATTRS:
                self.next()
                if self.peek() == "(":
                    self.parens()
            elif x in PAREN_ATTRS:
                self.next()
                if self.peek() == "(":
                    self.parens()
                else:
                    self.next()
            elif x == "addrspace":
                self.next()
                self.parens()
            else:
                return

    def param_attrs(self):
        byval = None
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
            elif x in PAREN_ATTRS:
                self.next()
                if self.peek() == "(":
                    if x == "byval":
                        self.next()
                        byval = self.type()
                        self.expect(")")
                    else:
                        self.parens()
                elif x == "align":
                    self.next()
            elif x and x[0] == '"' and self.i + 1 < len(self.t):
                self.next()
                if self.peek() == "=":
                    self.next()
                    self.next()
            else:
                return byval

    def type(self):
        x = self.next()
        t = None
        if x is None:
            raise SyntaxError("type expected")
        c = x[0]
        if c == "i" and x[1:].isdigit():
            t = ("i", int(x[1:]))
        elif x == "ptr":
            t = ("ptr",)
            if self.peek() == "addrspace":
                self.next()
                self.parens()
        elif x == "void":
            t = ("void",)
        elif c == "%":
            t = ("named", x[1:].strip('"'))
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif x == "{":
            es = []
            while self.peek() != "}":
                es.append(self.type())
                if self.peek() == ",":
                    self.next()
            self.next()
            t = ("st", tuple(es), False)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                es = []
                while self.peek() != "}":
                    es.append(self.type())
                    if self.peek() == ",":
                        self.next()
                self.next()
                self.expect(">")
                t = ("st", tuple(es), True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif x == "float":
            t = ("fp", 32)
        elif x == "double":
            t = ("fp", 64)
        elif x == "x86_fp80":
            t = ("fp", 80)
        elif x == "half":
            t = ("fp", 16)
        elif x in ("label", "metadata", "token", "opaque"):
            t = (x,)
        else:
            raise SyntaxError("type %s in %s" % (x, " ".join(self.t)[:300]))
        return t

    def operand(self, ty):
        x = self.next()
        if x is None:
            raise SyntaxError("operand expected: " + " ".join(self.t)[:300])
        c = x[0]
        if c == "%":
            return ("l", x[1:].strip('"'))
        if c == "@":
            return ("g", x[1:].strip('"'))
        if c == "-" or c.isdigit():
            if ty[0] == "fp":
                return ("fp", x)
            return ("c", ty, int(x))
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer" or x == "none":
            return ("zero",)
        if x == "true":
            return ("c", ("i", 1), 1)
        if x == "false":
            return ("c", ("i", 1), 0)
        if c == "c" and x[1:2] == '"':
            return ("str", unescape(x[2:-1]))
        if x in ("dso_local_equivalent", "no_cfi"):
            return self.operand(ty)
        if x == "[" or x == "{":
            return self._agg({"[": "]", "{": "}"}[x])
        if x == "<":
            if self.peek() == "{":
                self.next()
                r = self._agg("}")
                self.expect(">")
                return r
            return self._agg(">")
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            if self.peek() == "inrange":
                self.next()
                self.parens()
            self.expect("(")
            st = self.type()
            self.expect(",")
            bt = self.type()
            b = self.operand(bt)
            idx = []
            while self.peek() == ",":
                self.next()
                while self.peek() in ("inrange",):
                    self.next()
                t = self.type()
                idx.append((t, self.operand(t)))
            self.expect(")")
            return ("gep", st, b, idx)
        if x in CASTS:
            self.expect("(")
            t1 = self.type()
            a = self.operand(t1)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", x, t1, a, t2)
        if x in BIN:
            while self.peek() in ("nuw", "nsw", "exact"):
                self.next()
            self.expect("(")
            t = self.type()
            a = self.operand(t)
            self.expect(",")
            self.type()
            b = self.operand(t)
            self.expect(")")
            return ("bin", x, a, b, t)
        if x == "icmp":
            pred = self.next()
            self.expect("(")
            t = self.type()
            a = self.operand(t)
            self.expect(",")
            self.type()
            b = self.operand(t)
            self.expect(")")
            return ("icmp", pred, a, b, t)
        if x == "blockaddress":
            self.parens()
            return ("blockaddr",)
        raise SyntaxError("operand %s in %s" % (x, " ".join(self.t)[:300]))

    def _agg(self, close):
        es = []
        while self.peek() != close:
            t = self.type()
            es.append((t, self.operand(t)))
            if self.peek() == ",":
                self.next()
        self.next()
        return ("agg", es)
