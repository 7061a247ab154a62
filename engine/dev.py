"""development entry: dev.py [-j N] name-substring..."""
import sys, os, time, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from check import *
import contracts_all
import argparse
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=8)
ap.add_argument("--repo", default="/repo")
ap.add_argument("-a", default="amd64")
ap.add_argument("-r", action="store_true", help="refute failures")
ap.add_argument("-d", type=int, default=0, help="differential candidates")
ap.add_argument("-v", action="store_true")
ap.add_argument("pats", nargs="*")
ap.add_argument("-m", default=None, help="mode")
A = ap.parse_args()
check.MODE = A.m
t0 = time.time()
archs = A.a.split(",")
WD = os.environ.get("VW", "/tmp/vw_dev")
for a in archs:
    os.makedirs(os.path.join(WD, a), exist_ok=True)
worlds = [load(A.repo, a, os.path.join(WD, a)) for a in archs]
print("load %.1fs" % (time.time() - t0))
jobs = []
for wi, w in enumerate(worlds):
    for n, c in CONTRACTS.items():
        if exists(w, n) and archs[wi] in c.archs and not c.trusted and any(re.search(p, short(n)) for p in A.pats):
            jobs.append((wi, n))
t1 = time.time()
res = verify(worlds, jobs, procs=A.j)
bad = 0
for (wi, n), r in sorted(res.items(), key=lambda x: -x[1].time):
    if r.fails or A.v or r.time > 20:
        print("%-5s %-6s %-40s ok=%d inf=%d obl=%d cases=%d t=%.1f z3=%d/%.1fs" % ("FAIL" if r.fails else "ok", archs[wi], short(n), r.ok, r.inf, r.nobl, r.cases, r.time, r.stats.get("z3_queries", 0), r.stats.get("z3_time", 0)))
    for b in r.bounded:
        print("   BOUNDED", short(n), b)
    for ci, o in r.fails[:2]:
        bad += 1
        print("   case", ci, o.what[:300], "|", str(o.detail)[:1500] if A.v else str(o.detail)[-300:], o.where, "trail", [t[:int(os.environ.get("TL","120"))] for t in o.trail[-6:]])
    if r.fails and A.r:
        print("   ->", str(refute(worlds[wi], r.c, r.fails, 1, ncand=max(r.c.ncand, 600), budget=40))[:900])
    if A.d and not r.fails:
        rr = refute(worlds[wi], r.c, [], 1, ncand=A.d)
        if rr[0] or rr[2] or not rr[1]:
            print("   DIFF", short(n), str(rr)[:900])
print("functions %d failed paths %d wall %.1fs" % (len(res), bad, time.time() - t1))
