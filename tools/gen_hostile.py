#!/usr/bin/env python3
"""Writes spec/HostileDocs.tla: the positions of the documents that the hostile harness knows, with the kind of value
each holds. Run it when a document of harness/hostile changes; the harness refuses to run against other positions."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
import run
w = tempfile.mkdtemp()
h = run.build_harness("hostile", w)
out = w + "/out"
subprocess.run([h, "-mode", "positions", "-out", out], check=True)
docs = {}
for l in open(out):
    r = json.loads(l)
    docs[r["t"]] = r["e"]
q = json.dumps
with open(os.path.join(os.path.dirname(__file__), "../spec/HostileDocs.tla"), "w") as f:
    f.write("---- MODULE HostileDocs ----\n\\* Written by tools/gen_hostile.py: for every target the positions of its document and the kind of value there.\n\n")
    names = sorted(docs)
    for n in names:
        f.write("d_%s == <<\n" % n)
        f.write(",\n".join("  [p |-> <<%s>>, k |-> %s]" % (", ".join(q(x) for x in p), q(k)) for p, k in docs[n]))
        f.write(" >>\n\n")
    f.write("Docs == [\n" + ",\n".join("  %s |-> d_%s" % (n, n) for n in names) + " ]\n====\n")
print({n: len(docs[n]) for n in sorted(docs)}, sum(map(len, docs.values())))
subprocess.run(["rm", "-rf", w])
