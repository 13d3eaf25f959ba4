#!/bin/bash
# mutcopy.sh NAME DIR: writes a copy of /repo with the named mutant applied (for debugging)
here=$(cd "$(dirname "$0")" && pwd)
python3 - "$here" "$1" "$2" <<'P'
import sys, shutil, importlib.util, io, contextlib
here, name, d = sys.argv[1:4]
src = open(here + "/mutate.py").read().split("\nprops = None;")[0].replace("os.path.abspath(__file__)", repr(here + "/mutate.py"))
g = {}; exec(src, g)
m = [m for m in g["parse"]() if m["name"] == name][0]
shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
for f, o, n in m["edits"]:
    s = open(d + "/" + f).read(); assert o in s, o
    open(d + "/" + f, "w").write(s.replace(o, n, 1))
P
