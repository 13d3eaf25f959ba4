#!/usr/bin/env python3
"""Runs the analyser over mutated scratch copies of /repo.
mutants/*.txt hold blocks:
  == name | file | P1,P2 (expected properties; '-' for a behaviour preserving edit)
  <<<<
  old text
  ====
  new text
  >>>>
(several <<<< blocks per mutant, optionally preceded by '@ file' to switch files)
usage: mutate.py [-p P1,P2] [-b (go build)] [name-substring...]"""
import sys, os, re, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
BIN = tempfile.mkdtemp(prefix="mutbin") + "/checker"; shutil.copy(here + "/../bin/checker", BIN)
def parse():
    ms = []
    for f in sorted(glob.glob(here + "/mutants/*.txt")):
        cur = None; fil = None
        lines = open(f).read().split("\n"); i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("== "):
                n, fl, ps = [x.strip() for x in l[3:].split("|")]
                cur = {"name": n, "props": ps, "edits": [], "src": os.path.basename(f)}; fil = fl; ms.append(cur)
            elif l.startswith("@ "): fil = l[2:].strip()
            elif l == "<<<<":
                old = []; i += 1
                while lines[i] != "====": old.append(lines[i]); i += 1
                new = []; i += 1
                while lines[i] != ">>>>": new.append(lines[i]); i += 1
                cur["edits"].append((fil, "\n".join(old), "\n".join(new)))
            i += 1
    return ms
def run(m, props, build):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        t = d + "/r"
        subprocess.run(["git", "-C", "/repo", "worktree", "list"], capture_output=True)
        shutil.copytree("/repo", t, ignore=shutil.ignore_patterns(".git"))
        for f, o, n in m["edits"]:
            s = open(t + "/" + f).read()
            if o not in s: return m, "STALE", f + ": " + o[:60]
            s = s.replace(o, n, 1); open(t + "/" + f, "w").write(s)
        if build:
            r = subprocess.run(["go", "build", "./..."], cwd=t, capture_output=True, text=True)
            if r.returncode: return m, "NOBUILD", r.stderr[:300]
        want = "all" if m["props"] == "-" else m["props"]
        if props: want = props
        r = subprocess.run([BIN, "-property", want, "-summary", "-repo", t, "-out", here + "/.."], capture_output=True, text=True)
        return m, "", r.stdout + r.stderr
    finally: shutil.rmtree(d)
props = None; build = False; names = []; a = sys.argv[1:]; v = False
while a:
    x = a.pop(0)
    if x == "-p": props = a.pop(0)
    elif x == "-b": build = True
    elif x == "-v": v = True
    else: names.append(x)
ms = [m for m in parse() if not names or any(n in m["name"] or n == m["src"] for n in names)]
bad = 0
with ThreadPoolExecutor(6) as ex:
    for m, st, out in ex.map(lambda m: run(m, props, build), ms):
        if st: print("%-8s %s: %s" % (st, m["name"], out)); bad += 1; continue
        hit = re.findall(r"^(C\d\d) [1-9]\d* viol", out, re.M)
        if "violations" not in out: print("ERROR   ", m["name"], out[:300]); bad += 1; continue
        if m["props"] == "-":
            if hit: print("ALARM    %s: %s" % (m["name"], hit)); print(out if v else "\n".join(l for l in out.split("\n") if l.startswith("   "))[:1500]); bad += 1
            elif v: print("quiet    " + m["name"])
        else:
            miss = [p for p in (props or m["props"]).split(",") if p not in hit]
            if miss: print("MISSED   %s: %s" % (m["name"], miss)); bad += 1
            elif v: print("caught   %s %s\n%s" % (m["name"], hit, "\n".join(l for l in out.split("\n") if l.startswith("   "))[:600]))
print(len(ms), "mutants,", bad, "problems")

shutil.rmtree(os.path.dirname(BIN))
