"""Native build of a harness: the real sources, the real libraries, AddressSanitizer."""
import glob
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from .build import CFLAGS, CLANG, REPO, VERIF, BuildError

INC = ["-I" + VERIF + "/native/include", "-I" + VERIF + "/proofs"]
LIBS = ["-lcryptopp", "-largon2", "-lprotobuf", "-lsqlite3", "-lfuse", "-lpthread", "-ldl"]
NFLAGS = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DHAS_MAP_FILL"]


def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), (r.stderr or r.stdout)[-3000:]))


def gen_proto(outdir):
    gen = outdir + "/gen"
    if not os.path.exists(gen + "/params.pb.h"):
        os.makedirs(gen, exist_ok=True)
        sh(["protoc", "-I" + REPO + "/protos", "--cpp_out=" + gen, REPO + "/protos/params.proto"])
    return gen


class Native:
    def __init__(self, outdir, jobs=8):
        self.out = outdir
        self.jobs = jobs
        self.objs = {}
        os.makedirs(outdir, exist_ok=True)

    def compile(self, src, obj, extra=()):
        sh([CLANG] + CFLAGS + NFLAGS + list(extra) + INC +
           ["-I" + REPO + "/sources", "-I/usr/include/fuse", "-I" + self.out + "/gen", "-MMD", "-MF", obj + ".d",
            "-c", src, "-o", obj])
        return obj

    def build(self, srcs):
        """-> {src: binary or BuildError}"""
        need = set(os.path.basename(p) for p in glob.glob(REPO + "/sources/*.cpp")) - {"win.cpp"}
        need.add("params.pb.cc")
        gen = gen_proto(self.out)
        jobs = []
        res = {}
        with ThreadPoolExecutor(self.jobs) as ex:
            hs = {s: ex.submit(self.compile, s, self.out + "/" + os.path.basename(s)[:-4] + ".h.o") for s in srcs}
            rt = ex.submit(self.compile, VERIF + "/native/irv_rt.cpp", self.out + "/irv_rt.o")
            ob = {}
            for n in sorted(need):
                p = gen + "/" + n if n.endswith(".cc") else REPO + "/sources/" + n
                if os.path.exists(p):
                    x = [] if n != "main.cpp" else ["-Dmain=securefs_main"]
                    ob[n] = ex.submit(self.compile, p, self.out + "/" + n.rsplit(".", 1)[0] + ".r.o", x)
            liberr = None
            objs = []
            for n, f in ob.items():
                try:
                    objs.append(f.result())
                except BuildError as e:
                    liberr = e
            ver = self.out + "/ver.cpp"
            open(ver, "w").write('namespace securefs{extern const char* const GIT_VERSION;'
                                 'const char* const GIT_VERSION="x";}')
            sh([CLANG, "-c", ver, "-o", self.out + "/ver.o"])
            objs.append(self.out + "/ver.o")
            for o in objs:
                sh(["objcopy", "--weaken", o])
            rto = rt.result()

            def link(s):
                o = hs[s].result()
                b = self.out + "/" + os.path.basename(s)[:-4] + ".bin"
                if liberr is not None:
                    raise liberr
                # sources the harness includes itself are left out; the other objects' symbols are weak, so a
                # harness may define a function of the repository itself
                inc = set(re.findall(r'/(\w+)\.cpp\b', open(o + ".d").read())) - {os.path.basename(s)[:-4]}
                use = [q for q in objs if os.path.basename(q)[:-4] not in inc]
                sh([CLANG, "-fsanitize=address", "-rdynamic", o, rto, "-o", b] + use + LIBS)
                return b
            ls = {s: ex.submit(link, s) for s in srcs}
            for s, f in ls.items():
                try:
                    res[s] = f.result()
                except BuildError as e:
                    res[s] = e
        return res
