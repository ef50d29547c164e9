#!/usr/bin/env python3
"""Run every planted bug's check against a mutated copy and put the table of the
scenarios that report them into DESIGN.md.  seedtable.py [ids...] (default: those
that are not in the table yet; 'all' for every one)."""
import concurrent.futures, json, os, re, subprocess, sys, shutil, glob
V = "/verif"
T = V + "/tools/seedtable.json"
tab = json.load(open(T)) if os.path.exists(T) else {}
ids = sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + "/seeded/*/meta.json"))
tab = {k: v for k, v in tab.items() if k in ids}
want = sys.argv[1:] or [i for i in ids if i not in tab]
if want == ["all"]: want = ids
def run(i):
    m = json.load(open(V + "/seeded/%s/meta.json" % i)); w = "/tmp/st.work." + i
    shutil.rmtree(w, ignore_errors=True); subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "apply", V + "/seeded/%s/patch.diff" % i], check=True)
    r = subprocess.run([V + "/check", m["property"]], env=dict(os.environ, MC_REPO=w), capture_output=True, text=True)
    v = re.search(r"VIOLATION property=(\S+) replay=(\S+)", r.stdout)
    sc = "-"
    if v:
        try: sc = re.search(r"scenario[ =:]+(.+)", open(v[2]).read())[1]
        except Exception as e: sc = "?"
    tab[i] = [m["property"], sc, m["needs"]]
    print(i, tab[i][:2], r.returncode, flush=True)
    shutil.rmtree(w, ignore_errors=True)
# one property's check at a time, several properties side by side
groups = {}
for i in want: groups.setdefault(json.load(open(V + "/seeded/%s/meta.json" % i))["property"], []).append(i)
with concurrent.futures.ThreadPoolExecutor(4) as ex: list(ex.map(lambda g: [run(i) for i in g], groups.values()))
json.dump(tab, open(T, "w"), indent=0, sort_keys=True)
d = open(V + "/DESIGN.md").read(); b, e = "<!-- SEEDS -->\n", "<!-- END SEEDS -->"
rows = "| bug | property | reported by | needs |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % (k, v[0], v[1] if v[1] != "-" else "**missed**", v[2]) for k, v in sorted(tab.items()))
open(V + "/DESIGN.md", "w").write(d[:d.index(b) + len(b)] + rows + d[d.index(e):])
