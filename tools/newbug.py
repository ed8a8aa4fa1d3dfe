#!/usr/bin/env python3
"""newbug.py SPEC.py: SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)],
DEMO (python text).  Writes seeded/ID/ from the scratch clone /tmp/bw."""
import sys, os, subprocess, json, shutil
W = "/tmp/bw"
g = {}
exec(open(sys.argv[1]).read(), g)
d = os.environ.get("SEEDED", "/verif/seeded") + "/" + g["ID"]
os.makedirs(d, exist_ok=True)
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
for f, old, new in g["EDITS"]:
    p = W + "/" + f
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit("%s: %d matches of %r" % (f, s.count(old), old[:80]))
    open(p, "w").write(s.replace(old, new))
for f in sorted({e[0] for e in g["EDITS"]}):
    subprocess.call(["rustfmt", "--edition", "2021", "--config-path", W, "--check", W + "/" + f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
diff = subprocess.check_output(["git", "-C", W, "diff"]).decode()
open(d + "/patch.diff", "w").write(diff)
mine = []
for f, old, new in g["EDITS"]:
    bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f]).decode().splitlines()
    txt = open("/repo/" + f).read()
    i = txt.index(old)
    a = txt[:i].count("\n"); b = a + old.count("\n") + 1
    # only the lines that really change
    import difflib
    sm = difflib.SequenceMatcher(None, old.splitlines(), new.splitlines())
    for tag, i1, i2, _, _ in sm.get_opcodes():
        if tag in ("replace", "delete"):
            for k in range(i1, i2):
                l = bl[a + k]
                if not (l.startswith("^7ab87a4") or l.startswith("7ab87a4")):
                    mine.append((f, l))
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
if mine:
    print("lines of my own commits:", mine)
shutil.copy("/verif/tools/p11.py", d)
open(d + "/demo.py", "w").write(g["DEMO"])
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n')
json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
