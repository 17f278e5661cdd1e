#!/usr/bin/env python3
"""mkseed.py ID: seeds/ID.py style builder.  Reads a spec file (python): prop, needs, breaks, edits=[(file, old, new)],
demo (C++ text), srcs (sources of the repository the demo links; 'ALL' = everything but win/main).
Writes seeded/ID/ and confirms: the patch applies, the stable test passes, the demo passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tarfile, tempfile
V = "/verif"
DEMO = r'''#!/bin/bash
# builds a small program from the working tree (cwd) and runs it: exit 0 when the property holds in this history
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
R=$PWD
tar -xJf "$D/include.tar.xz" -C "$T"
mkdir "$T/gen" "$T/scratch"
F="-std=c++17 -O1 -w -D_FILE_OFFSET_BITS=64 -DFUSE_USE_VERSION=26 -DNDEBUG -DHAS_MAP_FILL -fno-access-control -I$T/include -I$R/sources -I/usr/include/fuse -I$T/gen"
S="@SRCS@"
[ "$S" = ALL ] && S=$(cd "$R/sources" && ls *.cpp | grep -v '^win.cpp$')
protoc -I"$R/protos" --cpp_out="$T/gen" "$R/protos/params.proto" || exit 99
echo 'namespace securefs{extern const char* const GIT_VERSION;const char* const GIT_VERSION="x";}' > "$T/ver.cpp"
{ for s in $S; do echo "$R/sources/$s"; done; echo "$T/gen/params.pb.cc"; echo "$T/ver.cpp"; echo "$D/demo.cpp"; } |
  xargs -P 8 -I{} sh -c 'g++ '"$F"' -c {} -o '"$T"'/$(basename {}).o' || exit 98
g++ -rdynamic "$T"/*.o -o "$T/demo" -lcryptopp -largon2 -lprotobuf -lsqlite3 -lfuse -lpthread -ldl || exit 97
cd "$T/scratch" && timeout 200 "$T/demo" "$T/scratch"
'''


def run(*c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


def main(spec, keep_on_fail=False):
    ns = {}
    exec(open(spec).read(), ns)
    sid = os.path.basename(spec)[:-3]
    out = V + "/seeded/" + sid
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        run("cp", "-a", "/repo", w + "/repo")
        r = w + "/repo"
        for f, old, new in ns["edits"]:
            p = r + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, "occurrences", s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(out + "/patch.diff", "w").write(run("git", "-C", r, "diff").stdout)
        os.makedirs(w + "/inc/include")
        run("sh", "-c", "cp -r %s/native/include/. %s/inc/include/" % (V, w))
        for h in ("demo_util.h", "demo_fs.h"):
            shutil.copy(V + "/tools/" + h, w + "/inc/include/" + h)
        with tarfile.open(out + "/include.tar.xz", "w:xz") as t:
            t.add(w + "/inc/include", "include")
        open(out + "/demo.cpp", "w").write(ns["demo"])
        open(out + "/demo.sh", "w").write(DEMO.replace("@SRCS@", ns.get("srcs", "ALL")))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        good = run("bash", out + "/demo.sh", cwd="/repo")
        bad = run("bash", out + "/demo.sh", cwd=r)
        print(sid, "clean rc", good.returncode, (good.stdout + good.stderr)[-300:].strip(), "| patched rc", bad.returncode,
              (bad.stdout + bad.stderr)[-300:].strip())
        ok = good.returncode == 0 and bad.returncode not in (0, 97, 98, 99)
        print(sid, "OK" if ok else "*** NOT USABLE ***")
        return ok
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(0 if all([main(s) for s in sys.argv[1:]]) else 1)
