#!/usr/bin/env python3
"""regenerates the per-property and planted-bug sections of DESIGN.md"""
import os, sys, json, re
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.path.insert(0, HERE + "/meta")
from props import P
from properties import PROPS, NA
try: from design import D
except ImportError: D = {}
s = open(HERE + "/DESIGN.md").read()
sec = "<!--props-->\n## Properties\n\n"
for p in PROPS:
    i = p["id"]; sec += "### %s %s\n" % (i, p["title"])
    if i in P: sec += "%s\nEntries: %s. Bounds: %s.\n\n" % (D.get(i, "Oracle: see the head of hx/src/%s.rs." % P[i]["feature"]), ", ".join(e["name"] for e in P[i]["entries"]), P[i]["bounds"])
    else: sec += "not applicable: %s\n\n" % dict(NA).get(i, "")
sec += "<!--/props-->"
s = s.replace("@PROPS@", "<!--props--><!--/props-->").replace("@SEEDS@", "<!--seeds--><!--/seeds-->")
s = re.sub(r"<!--props-->.*<!--/props-->", lambda m: sec, s, flags=re.S)
try: caught = json.load(open(HERE + "/meta/caught.json"))
except OSError: caught = {}
t = "<!--seeds-->\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, d))); t += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], caught.get(d, "?"))
t += "<!--/seeds-->"
s = re.sub(r"<!--seeds-->.*<!--/seeds-->", lambda m: t, s, flags=re.S)
open(HERE + "/DESIGN.md", "w").write(s)
