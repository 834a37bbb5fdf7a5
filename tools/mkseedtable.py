#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
H = "## Planted bugs\n"
s = s.split(H)[0].rstrip("\n") + "\n\n" + H
s += ("Each was written from a property's text and the code, passes the existing tests, and has a demonstration; each is caught by the quick check\n"
      "of its own property. `(was missed)`: by the check as it was when the bug was planted, which was then extended.\n\n| bug | property | what it needs |\n|---|---|---|\n")
missed = {"p14-comment-eof", "p05-file-last-value", "p17-autoload-prefix", "p22-substring-order", "p22-write-null", "p16-peek-soft"} | set(json.load(open(os.path.join(V, "tools/missed.json"))))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    s += "| %s | %s | %s%s |\n" % (i, m["property"], m["needs"], " (was missed)" if i in missed else "")
open(p, "w").write(s)
