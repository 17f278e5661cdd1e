"""Compiles a proof harness (which includes the real sources) to the IR the verifier reads."""
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SECUREFS_REPO", "/repo")
CLANG = "clang++-18"
CFLAGS = ["-std=c++17", "-D_FILE_OFFSET_BITS=64", "-DFUSE_USE_VERSION=26", "-DNDEBUG", "-fno-access-control", "-w"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    return r.stdout


def demangle_all(names):
    r = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names) + "\n", capture_output=True, text=True)
    out = r.stdout.split("\n")
    return dict(zip(names, out))


def parse_directives(src):
    """// irv: contract <regex over demangled name> => <extern "C" function>
       // irv: opaque <regex over mangled name>
       // irv: noinline <regex over demangled name>"""
    con, opq, noi, org = [], [], [], []
    for l in open(src):
        m = re.match(r"\s*//\s*irv:\s*(\w+)\s+(.*?)\s*$", l)
        if not m:
            continue
        if m.group(1) == "contract":
            a, b = m.group(2).split(" => ")
            con.append((a.strip(), b.strip()))
        elif m.group(1) == "original":
            a, b = m.group(2).split(" => ")
            org.append((a.strip(), b.strip()))
        elif m.group(1) == "opaque":
            opq.append(m.group(2))
        elif m.group(1) == "noinline":
            noi.append(m.group(2))
    return con, opq, noi, org


def build_ir(src, outdir, harness=None):
    """-> (IR text, contracts {mangled: harness fn}, opaque patterns)"""
    con, opq, noi, org = parse_directives(src)
    base = os.path.join(outdir, os.path.basename(src)[:-4])
    raw = base + ".raw.ll"
    inc = ["-I" + VERIF + "/proofs/shim", "-I" + VERIF + "/native/include", "-I" + VERIF + "/proofs",
           "-I" + REPO + "/sources", "-I/usr/include/fuse", "-I" + outdir + "/gen"]
    sh([CLANG] + CFLAGS + ["-DIRV", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_LIBCPP_DISABLE_AVAILABILITY", "-gline-tables-only",
       "-O2", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
       "-fno-threadsafe-statics", "-fno-builtin-strlen", "-S", "-emit-llvm", src, "-o", raw] + inc)
    txt = open(raw).read()
    names = re.findall(r'^(?:define|declare) [^\n]*?@("[^"]*"|[-\w$.]+)\(', txt, re.M)
    names = [n.strip('"') for n in names]
    dm = demangle_all(names)
    contracts = {}
    for n in names:
        for pat, fn in con:
            if re.search(pat, dm[n]):
                contracts[n] = fn
    originals = {}
    for n in names:
        for pat, fn in org:
            if re.search(pat, dm[n]):
                originals[fn] = n
    keep = set(contracts) | set(contracts.values()) | set(originals.values())
    for n in names:
        if any(re.search(p, dm[n]) for p in noi):
            keep.add(n)
    used = set(contracts.values())
    out = []
    for l in txt.split("\n"):
        if l.startswith("define "):
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
            n = m.group(1).strip('"')
            if n in keep:
                i = l.rindex(" #") if " #" in l else l.rindex(" {")
                l = l[:i] + " noinline" + l[i:]
                if n in originals.values():    # called by the harness under another name
                    l = l.replace("define linkonce_odr ", "define weak_odr ")
        out.append(l)
    # contracts targets replaced by harness functions must not vanish
    mid = base + ".mid.ll"
    open(mid, "w").write("\n".join(out).replace("alwaysinline noinline", "noinline"))
    contracts.update({"=" + f: n for f, n in originals.items()})
    public = sorted(originals.values()) + [n for n in names if n.startswith("proof_")] + sorted(used) + sorted(c for c in contracts if c[0] != '=') + \
             [n for n in names if n.startswith("irvfn_")]
    opt = base + ".ll"
    passes = "internalize,globaldce,default<O2>,globaldce"
    sh(["opt-18", "-S", "-passes=" + passes, "--internalize-public-api-list=" + ",".join(public),
        "--vectorize-loops=false", "--vectorize-slp=false", "--inline-threshold=400", mid, "-o", opt])
    return open(opt).read(), contracts, opq
