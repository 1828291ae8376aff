#!/usr/bin/env python3
"""one.py MUTANT DIR: lay out a mutant of tools/mutants in DIR (a copy of /repo)."""
import os, sys, shutil
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutate.py")).read()
src = src[:src.rindex("\nmain()")]
here0 = os.path.abspath(__file__)
exec(compile(src, here0, "exec"))
m = [m for m in load() if m["id"] == sys.argv[1]][0]
d = sys.argv[2]
shutil.rmtree(d, ignore_errors=True)
shutil.copytree(repo, d, ignore=shutil.ignore_patterns(".git"))
for fil, old, new, star in m["edits"]:
    p = os.path.join(d, fil)
    s = open(p).read()
    assert old in s
    open(p, "w").write(s.replace(old, new))
