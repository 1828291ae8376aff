#!/usr/bin/env python3
"""Self-test of the checker: apply each mutant of tools/mutants/*.txt to a scratch copy of
/repo and compare what the checks say with what is expected.

Format of a mutant:
@@ id | property[,property..] or quiet | note
--- file
<<<
old text (must occur exactly once, or N times with <<<*)
===
new text
>>>
"""
import sys, os, re, shutil, subprocess, glob, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get("VERIF_REPO", "/repo")
chk = os.environ.get("CHK", os.path.join(here, "../.bin/chk"))
scratch = "/tmp/mutscratch.%d" % os.getpid()

def load():
    out = []
    for f in sorted(glob.glob(os.path.join(here, "mutants", "*.txt"))):
        cur = None; fil = None; mode = None; buf = []; old = None; star = False
        for l in open(f):
            l = l.rstrip("\n")
            if mode is None and l.startswith("@@ "):
                p = [x.strip() for x in l[3:].split("|")]
                cur = dict(id=p[0], props=p[1].split(","), note=p[2] if len(p) > 2 else "", edits=[])
                out.append(cur)
            elif mode is None and l.startswith("--- "):
                fil = l[4:].strip()
            elif mode is None and l in ("<<<", "<<<*"):
                mode = "old"; buf = []; star = l == "<<<*"
            elif mode == "old" and l == "===":
                old = "\n".join(buf); buf = []; mode = "new"
            elif mode == "new" and l == ">>>":
                cur["edits"].append((fil, old, "\n".join(buf), star)); mode = None
            elif mode:
                buf.append(l)
    return out

def run(m):
    d = os.path.join(scratch, m["id"])
    o = d + ".out"
    os.makedirs(o, exist_ok=True)
    shutil.copytree(repo, d, ignore=shutil.ignore_patterns(".git"))
    kf = os.path.join(here, "../known_findings.txt")
    if os.path.exists(kf): shutil.copy(kf, o)
    try:
        for fil, old, new, star in m["edits"]:
            p = os.path.join(d, fil)
            s = open(p).read()
            n = s.count(old)
            if n == 0 or n > 1 and not star:
                return m, "BROKEN", "text occurs %d times in %s: %s" % (n, fil, old[:60])
            open(p, "w").write(s.replace(old, new))
        r = subprocess.run(["go", "build", "./delivery", "./transports", "./waiter"], cwd=d, capture_output=True, text=True)
        if r.returncode: return m, "BROKEN", r.stderr[:600]
        which = os.environ.get("QPROPS", "all") if m["props"] == ["quiet"] or os.environ.get("ALL") else None
        hits = []; det = ""
        for p in ([which] if which else m["props"]):
            r = subprocess.run([chk, "-prop", p, "-repo", d, "-out", o, "-tier", os.environ.get("TIER", "quick")], capture_output=True, text=True)
            hits += re.findall(r"^VIOLATION property=(\S+)", r.stdout, re.M)
            det += "\n".join(l[:230] for l in r.stdout.splitlines() if l.startswith("  "))
            if r.returncode not in (0, 1): return m, "ERROR", r.stderr[-600:]
        if m["props"] == ["quiet"]:
            return m, ("ok" if not hits else "FALSE-ALARM"), " ".join(hits) + "\n" + det
        return m, ("ok" if set(m["props"]) & set(hits) else "MISSED"), " ".join(hits) + "\n" + det
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(o, ignore_errors=True)

def main():
    ms = load()
    pat = sys.argv[1:]
    if pat: ms = [m for m in ms if any(re.search(p, m["id"]) or p in m["props"] for p in pat)]
    cnt = {}
    try:
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            for m, st, det in ex.map(run, ms):
                cnt[st] = cnt.get(st, 0) + 1
                v = os.environ.get("V")
                if st != "ok" or v:
                    print(st, m["id"], ",".join(m["props"]), "--", m["note"])
                    print("    " + det.strip().replace("\n", "\n    "))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(cnt)
main()
