#!/usr/bin/env python3
"""mk.py [ID...]: writes /verif/seeded/<id>/ from seeds.py (all, or those named)."""
import json, os, shutil, subprocess, sys, tempfile
D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(D))
S = {}
ENV = {}
def seed(id, prop, edits, demo, needs, breaks, extra=(), env=""):
    S[id] = (prop, edits, demo, needs, breaks, extra)
    ENV[id] = env
exec(open(os.path.join(D, "seeds.py")).read())
want = sys.argv[1:] or list(S)
base = tempfile.mkdtemp(prefix="seedmk.")
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", base + "/r"])
    for id in want:
        prop, edits, demo, needs, breaks, extra = S[id]
        subprocess.check_call(["git", "-C", base + "/r", "checkout", "-q", "--", "."])
        for f, old, new in edits:
            p = os.path.join(base, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", base + "/r", "diff"])
        out = os.path.join(V, "seeded", id)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "wb").write(diff)
        for x in ["lib.sh", "show.go"] + list(extra):
            shutil.copy(os.path.join(D, x), out)
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# Exits 0 when the property holds on this repository, 1 when it is shown broken.\n' + (ENV[id] + '\n' if ENV[id] else '') + '. "$(dirname "$0")/lib.sh"\n' + demo.strip() + "\n")
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + "/meta.json", "w"), indent=1)
        # lines removed must be original ones
        for f, _, _ in edits:
            bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", f], text=True).split("\n")
            rm = subprocess.check_output(["git", "-C", base + "/r", "diff", "-U0", f], text=True).split("\n")
            for h in rm:
                if h.startswith("@@"):
                    a = h.split()[1][1:].split(",")
                    n = int(a[1]) if len(a) > 1 else 1
                    for i in range(int(a[0]), int(a[0]) + n):
                        if not bl[i-1].startswith(("b224ccc", "^b224cc")):
                            print(id, "touches a line of ours:", bl[i-1])
finally:
    shutil.rmtree(base)
