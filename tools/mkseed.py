#!/usr/bin/env python3
"""mkseed.py <id> <property> <json: {"needs","what_it_breaks","edits":[[file,old,new],...]}>
Writes seeded/<id>/patch.diff and meta.json from edits to /repo's HEAD (in a scratch copy of the files)."""
import difflib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
spec = json.load(open(sys.argv[3])) if len(sys.argv) > 3 else json.load(sys.stdin)
files = {}
for f, old, new in spec["edits"]:
    s = files.get(f) or subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True)
    assert s.count(old) == 1, (f, s.count(old), old)
    files[f] = s.replace(old, new)
out = ""
for f, s in files.items():
    o = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True)
    out += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(o.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
d = os.path.join(V, "seeded", sid)
os.makedirs(d, exist_ok=True)
open(os.path.join(d, "patch.diff"), "w").write(out)
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
