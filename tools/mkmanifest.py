#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl and checks/*.c, and the
per-property table of DESIGN.md (between the GENERATED markers)."""
import json, re, os, glob
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TECH = {
 "C07": "exhaustive enumeration of all operation histories and all random levels of the real skip list against a reference map",
 "C08": "exhaustive enumeration of operation histories of the real string pools against a reference model",
 "C18": "exhaustive enumeration of operation histories with real child processes (crash/exit/signal outcomes chosen by the explorer)",
 "C19": "exhaustive exploration of all pipe schedules (partial reads/writes, polls, EINTR, exit points) of the real pr_readwrite against a simulated kernel and child",
 "C20": "exhaustive enumeration of logging histories x kernel answers (short writes, errors, time) of the real code",
 "C22": "exhaustive single- and lasting-allocation-failure injection at every allocation of every enumerated history",
 "C23": "exhaustive enumeration of module-use subsets, orders and shutdown cycles of the real library",
}
DEF = "stateless exhaustive exploration (model checking of the real code) of all operation histories and environment answers within bounds, in lock step with a reference model"
def cstr(src, name):
    m = re.search(r'const char \*' + name + r' = ((?:"(?:[^"\\]|\\.)*"\s*)+);', src)
    return "".join(json.loads('"%s"' % x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))) if m else ""
def source(id):
    t = open("checks/%s.c" % id).read()
    for inc in re.findall(r'#include "(\w+\.h)"', t):
        if os.path.exists("checks/" + inc): t = open("checks/" + inc).read() + t
    return t
checks, na, table = [], [], []
NA = {}
for l in open("properties.jsonl"):
    p = json.loads(l); id = p["id"]
    if not os.path.exists("checks/%s.c" % id):
        na.append(dict(property=id, reason=NA.get(id, "no check yet"))); continue
    s = source(id)
    bounds = cstr(s, "mc_bounds"); level = cstr(s, "mc_level")
    m = re.search(r'mc_assumptions\[\] = \{(.*?)NULL \};', s, re.S)
    ass = [json.loads('"%s"' % x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))] if m else []
    assert bounds and level in ("model_checking", "fault_enumeration"), (id, bounds, level)
    note = "Holds for everything within: " + bounds + "."
    if ass: note += " Assumes: " + "; ".join(ass) + "."
    checks.append(dict(property=id, quick_cmd="./check " + id, thorough_cmd="VERIF_TIER=thorough ./check " + id,
        technique="model checking: " + TECH.get(id, DEF), level=level, level_note=note))
    table.append("### %s %s\n\n%s\n%s" % (id, p["title"], "*Bounds:* " + bounds + ".", ("\n*Assumptions:* " + "; ".join(ass) + ".\n") if ass else ""))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
  notes="Every check rebuilds the library from /repo's working tree (no hooks: the library is observed through its API and through linker-level wrapping of libc)."),
  open("MANIFEST.json", "w"), indent=1)
d = open("DESIGN.md").read()
b, e = "<!-- GENERATED by tools/mkmanifest.py -->\n", "<!-- END GENERATED -->"
if b in d:
    d = d[:d.index(b) + len(b)] + "\n".join(table) + "\n" + d[d.index(e):]
    open("DESIGN.md", "w").write(d)
print(len(checks), "checks,", len(na), "not applicable")
