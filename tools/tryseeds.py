#!/usr/bin/env python3
"""tryseeds.py [ID prefix...]: runs the check of each planted change against a scratch copy with the change applied."""
import glob, json, os, shutil, subprocess, sys, tempfile, time
V = "/verif"
pre = sys.argv[1:] or [""]
for d in sorted(glob.glob(V + "/seeded/*")):
    sid = os.path.basename(d)
    if not any(sid.startswith(p) for p in pre) or not os.path.exists(d + "/patch.diff"):
        continue
    m = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="try_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"])
        a = subprocess.run(["git", "-C", w + "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
        t = time.time()
        r = subprocess.run(["python3-vt", "check.py", m["property"], "quick"], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, SECUREFS_REPO=w + "/repo", VERIF_SEED="1"))
        v = [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "failed:"))]
        print(sid, "apply", a.returncode, "rc", r.returncode, "%.0fs" % (time.time() - t), " | ".join(v)[:300], r.stderr[-200:], flush=True)
        if r.returncode != 1 or "-v" in os.environ.get("TRY", ""):
            print(r.stdout[-1500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
