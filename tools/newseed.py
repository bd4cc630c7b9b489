#!/usr/bin/env python3
"""newseed.py ID PROP 'needs' 'breaks' FILE <<< python expression pairs: reads old/new from stdin separated by lines '====' and '----' ;
writes seeded/ID with patch.diff, meta.json; demo.c is taken from seeded/ID/demo.c (written by hand)."""
import sys, os, json, subprocess, tempfile, shutil
sid, prop, needs, breaks = sys.argv[1:5]
text = sys.stdin.read()
d = tempfile.mkdtemp(prefix="seed-")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", d + "/w", "HEAD"])
try:
    for blk in text.split("\n####\n"):
        blk = blk.strip("\n")
        f, rest = blk.split("\n", 1)
        old, new = rest.split("\n====\n") if "\n====\n" in rest else (rest[:-5], "")
        p = d + "/w/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", d + "/w", "diff"], text=True)
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", d + "/w"])
    shutil.rmtree(d)
o = "/verif/seeded/" + sid
os.makedirs(o, exist_ok=True)
open(o + "/patch.diff", "w").write(diff)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
if not os.path.exists(o + "/demo.sh"):
    shutil.copy("/verif/tools/demo.sh", o + "/demo.sh")
