#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json; arguments name bugs missed at first."""
import glob, json, os, re, sys
p = "/verif/DESIGN.md"
s = open(p).read()
starred = set(re.findall(r"^\| ([\w-]+)\* \|", s, re.M)) | set(sys.argv[1:])
head = "| planted bug | property | needs |\n"
rows = []
for d in sorted(glob.glob("/verif/seeded/*")):
    b, m = os.path.basename(d), json.load(open(d + "/meta.json"))
    rows.append(f"| {b}{'*' if b in starred else ''} | {m['property']} | {m['needs']} |\n")
open(p, "w").write(s[:s.index(head)] + head + "|---|---|---|\n" + "".join(rows))
