#!/usr/bin/env python3
"""mut.py 'C15 C16' file <<'E' old ==== new E : runs checks on a copy of /repo with one text replaced (our own experiments)."""
import sys, os, shutil, subprocess, tempfile
props, blocks = sys.argv[1].split(), sys.stdin.read().split("####\n")
d = tempfile.mkdtemp(prefix="mut-"); shutil.copytree(os.environ.get("BASE", "/repo"), d + "/r", symlinks=True, ignore=shutil.ignore_patterns(".git"))
for b in blocks:
    f, rest = b.split("\n", 1); old, new = rest.split("====\n", 1); old = old.rstrip("\n"); new = new.rstrip("\n")
    p = os.path.join(d, "r", f); s = open(p).read()
    if s.count(old) != 1: print("not unique:", f, s.count(old), repr(old)); shutil.rmtree(d); sys.exit(2)
    open(p, "w").write(s.replace(old, new))
for x in props:
    r = subprocess.run(["python3", os.environ.get("V", "/verif") + "/check.py", x], env=dict(os.environ, VERIF_REPO=d + "/r"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    print(x, "exit", r.returncode, r.stderr[-1200:] if r.returncode > 1 else ""); print("\n".join(l[:330] for l in r.stdout.splitlines()[:int(os.environ.get("L", 4))]))
shutil.rmtree(d)
