"""Property check: run.py PROPERTY [--tier quick|thorough]   |   run.py --replay FILE

Discharges every obligation of every contract the property consists of, and of the contracts those rest on, from
/repo's current source.  Exit 0: all discharged.  Exit 1: a VIOLATION line.  Exit 2: the check could not run."""
import sys, os, time, json, tempfile, shutil, traceback, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import argparse
T0 = time.time()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

TRUSTED = [
    "Go compiler, runtime and standard library; golang.org/x/tools/go/ssa lifting the source to SSA (frontend/main.go)",
    "the verification-condition generator in engine/ (symbolic execution of SSA and of the .s files; exact polynomial arithmetic over Z and over the two prime fields)",
    "z3 (python3-vt) for linear integer facts",
    "package variables have the values package initialisation gives them (read from the real binary in this run; every contract forbids writing them)",
    "q and r are prime",
]

GROUP = "mathematics: the points of y^2 = x^3 + 4 over Fq and of y^2 = x^3 + 4(u + 1) over Fq2 form commutative groups under the chord-and-tangent law; their r-torsion subgroups have prime order r (sums of points are kept as formal sums of basis points)"
PAIR = "mathematics: the ate pairing is bilinear and non-degenerate on the subgroups of order r (the Miller loop and the final exponentiation are proved to be its defining products; products of pairings are kept as formal powers)"
ISO = "mathematics: the constants of the 11- and 3-isogeny describe homomorphisms (the image is proved to be on the curve; additivity is not used)"
SHA = "SHA-256 is an uninterpreted function of the byte string"
MATH = {
    "C04": ["mathematics: u^2 + 1, v^3 - (u + 1) and w^2 - v are irreducible (an element is invertible exactly when its norm is not zero)"],
    "C05": ["mathematics: Euler's criterion; -1 is not a square in Fq and u + 1 is neither a square nor a cube in Fq2"],
    "C06": [GROUP], "C07": [GROUP], "C08": [GROUP], "C09": [GROUP], "C10": [GROUP], "C11": [GROUP, PAIR], "C12": [GROUP, PAIR, SHA],
    "C13": [GROUP, PAIR, SHA, "sort.Sort sorts through Len, Less and Swap (those methods are proved to be the order and the exchange of byte strings)"],
    "C14": [GROUP, ISO, SHA], "C17": [GROUP], "C18": [SHA],
}
for _p in ("C15", "C16"):
    MATH[_p] = [GROUP, PAIR, SHA]


def known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) function=(\S+) case=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 4))
    A = ap.parse_args()
    import check
    from check import CONTRACTS, load, verify, refute, short, exists
    import contracts_all
    work = tempfile.mkdtemp(prefix="verif_")
    try:
        if A.replay:
            return replay(A.replay, work)
        return run(A, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path, work):
    import check
    from check import load, short
    d = json.load(open(path))
    bad = 0
    for f in d["failures"]:
        print("function", f["function"])
        for o in f["obligations"]:
            print("  failed obligation:", o["what"], "at", o["where"])
        if f.get("input"):
            w = load(REPO, f["arch"], work)
            call = f["input"]["call"]
            pkg = w.prog.funcs[call["fn"]]["pkg"]
            r = w.drv.run(pkg, [call])["results"][0]
            same = r == f["input"]["result"]
            print("  inputs:", f["input"]["inputs"])
            print("  difference from the contract:", f["input"]["difference"])
            print("  the code under test %s" % ("still gives the recorded result" if same else "now gives another result: %s" % json.dumps(r)[:1000]))
            bad |= same
    return 1 if bad else 0


def run(A, work):
    import check
    from check import CONTRACTS, load, verify, refute, short, exists
    prop = A.prop
    tier = A.tier if A.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = 740 if tier == "quick" else 7200
    deadline = T0 + limit
    # C15 and C16 speak about every function: the frame and the absence of panics under every contract
    check.MODE = {"C15": "frame", "C16": "panic"}.get(prop)
    if check.MODE:
        roots = [n for n, c in CONTRACTS.items() if not c.lemma]
    else:
        roots = [n for n, c in CONTRACTS.items() if prop in c.props]
    if not roots:
        print("no contracts for property", prop)
        return 2
    archs = []
    for n in roots:
        for a in (CONTRACTS[n].archs if not check.MODE else ("amd64",)):
            if a not in archs:
                archs.append(a)
    archs = sorted(archs, key=lambda a: a != "amd64")
    if "amd64" not in archs:
        archs.insert(0, "amd64")
    worlds = []
    for a in archs:
        worlds.append(load(REPO, a, os.path.join(work)))
    tl = time.time() - T0
    missing = [n for n in roots if not exists(worlds[0], n)]
    done = {}
    deferred = set()
    todo = [(wi, n) for n in roots for wi, w in enumerate(worlds) if exists(w, n) and archs[wi] in CONTRACTS[n].archs]
    externs_used, inlined = set(), set()
    while todo:
        jobs = [t for t in todo if not CONTRACTS[t[1]].trusted]
        res = verify(worlds, jobs, procs=A.j, deadline=deadline)
        done.update(res)
        nxt = set()
        for (wi, n), r in res.items():
            inlined |= set(r.inlined)
            for u in r.used:
                if u.startswith("extern:"):
                    externs_used.add(u[7:])
                elif u in CONTRACTS:
                    for wj, w in enumerate(worlds):
                        if (wj, u) in done or not exists(w, u) or archs[wj] not in CONTRACTS[u].archs:
                            continue
                        if tier == "quick" and CONTRACTS[u].heavy and prop not in CONTRACTS[u].props:
                            deferred.add(u)
                            continue
                        nxt.add((wj, u))
        if any(r.fails for r in res.values()):
            break
        todo = sorted(nxt)
    trusted_contracts = sorted(n for n, c in CONTRACTS.items() if c.trusted and n in set().union(*[r.used for r in done.values()] or [set()]))
    failures = []
    kn = known()
    for (wi, n), r in done.items():
        fails = []
        for ci, o in r.fails:
            lab = CONTRACTS[n].cases(worlds[wi].prog)[ci].get("label", str(ci))
            k = [x for x in kn if x[0] == prop and x[1] == short(n) and x[2] == re.sub(r"\s+", "_", str(lab))]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[0][3]))
            else:
                fails.append((ci, o))
        if fails:
            failures.append((wi, n, r, fails))
    out = []
    # search for an input that shows the failure on the real code
    concrete = False
    for wi, n, r, fails in failures[:6]:
        ent = {"function": n, "arch": archs[wi], "obligations": [{"what": o.what, "detail": str(o.detail)[:3000], "where": str(o.where), "path": [str(t)[:400] for t in o.trail[-20:]]} for ci, o in fails[:4]]}
        if not concrete and time.time() < T0 + limit + 20:
            try:
                x, tried, err = refute(worlds[wi], CONTRACTS[n], [f for f in fails if not f[1].what.endswith("time limit reached before all paths were decided")], seed, ncand=max(CONTRACTS[n].ncand, 600), budget=40)
                ent["inputs_tried"] = tried
                if err:
                    ent["search_error"] = err
                if x:
                    ent["input"] = x
                    concrete = True
            except Exception as x:
                ent["search_error"] = "%s: %s" % (type(x).__name__, x)
        out.append(ent)
    # bounded cross-check of the contracts against the running code
    tried = 0
    ndiff = 0
    for (wi, n), r in done.items():
        if not failures and r.bounded and not CONTRACTS[n].bounded and time.time() < T0 + limit + 20:
            try:
                x, t, err = refute(worlds[wi], CONTRACTS[n], r.soft + r.fell, seed, ncand=400, budget=40)
            except Exception as x:
                continue
            tried += t
            if x:
                out.append({"function": n, "arch": archs[wi], "obligations": [{"what": "%s: %s" % (short(n), x["difference"]), "where": "executed", "detail": "", "path": []}], "input": x})
                concrete = True
                failures.append((wi, n, None, []))
    if not failures:
        for wi, n in [(wi, n) for n in roots for wi, w in enumerate(worlds) if exists(w, n) and archs[wi] in CONTRACTS[n].archs]:
            if time.time() > min(deadline, T0 + ((200 if check.MODE else 400) if tier == "quick" else 3000)):
                break
            try:
                x, t, err = refute(worlds[wi], CONTRACTS[n], [], seed, ncand=(4 if check.MODE else 12) if tier == "quick" else 200, budget=6 if tier == "quick" else 120)
            except Exception as x:
                continue
            tried += t
            ndiff += 1
            if x:
                out.append({"function": n, "arch": archs[wi], "obligations": [{"what": "%s: %s" % (short(n), x["difference"]), "where": "executed", "detail": "", "path": []}], "input": x})
                concrete = True
                failures.append((wi, n, None, []))
                break
    nob = sum(r.nobl for r in done.values())
    nfail = sum(len(r.fails) for r in done.values())
    bounded = sorted("%s: %s" % (short(n), CONTRACTS[n].bounded) for (wi, n) in done if CONTRACTS[n].bounded)
    bounded += sorted("%s: %s" % (short(n), b) for (wi, n), r in done.items() for b in r.bounded)
    cov = {
        "obligations": nob, "discharged": nob - nfail, "checker_cmd": "python3-vt engine/run.py %s --tier %s" % (prop, tier),
        "trusted_base": TRUSTED,
        "functions_under_contract": sorted(set("%s [%s]" % (short(n), archs[wi]) for (wi, n) in done)),
        "own_contracts": sorted(short(n) for n in roots if n not in missing),
        "contracts_no_longer_in_the_code": [short(n) for n in missing],
        "inlined_functions": sorted(short(x) for x in inlined),
        "paths": sum(r.paths for r in done.values()), "infeasible_paths": sum(r.inf for r in done.values()), "cases": sum(r.cases for r in done.values()),
        "backends": {k: (round(v, 2) if isinstance(v, float) else v) for k, v in merge_stats(done).items()},
        "cpu_s": round(sum(r.time for r in done.values()), 1),
        "bounded": bounded,
        "crosscheck": {"bounded": True, "functions": ndiff, "executions_of_the_real_code": tried},
        "architectures": archs, "load_s": round(tl, 1),
    }
    ass = ["external function assumed as specified: " + x for x in sorted(externs_used)]
    ass += MATH.get(prop, [])
    ass += ["contract assumed, discharged by another property's check (and by this one at tier thorough): " + short(x) for x in sorted(deferred)]
    ass += ["assumed contract: %s (%s)" % (short(x), CONTRACTS[x].trusted) for x in trusted_contracts]
    if check.MODE:
        ass.append("the functional part of every contract, discharged by the checks of the other properties: a caller's proof uses the values its callees return")
    ass += ["bounded part: " + x for x in bounded]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": ass, "wall_s": round(time.time() - T0, 1), "violations": len(failures)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if failures:
        rp = os.path.join(VERIF, "evidence", "replay_%s.json" % prop)
        json.dump({"property": prop, "tier": tier, "failures": out}, open(rp, "w"), indent=1)
        for e in out:
            for o in e["obligations"][:2]:
                print("failed obligation: %s at %s  %s" % (o["what"], o["where"], o["detail"][:400]))
            if e.get("input"):
                print("  input: %s\n  difference: %s" % (json.dumps(e["input"]["inputs"])[:600], e["input"]["difference"][:600]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if concrete else " no-failing-input-found"))
        return 1
    print("property %s: %d obligations discharged, %d functions under contract, %.0f s" % (prop, nob, len(done), time.time() - T0))
    return 0


def merge_stats(done):
    t = {}
    for r in done.values():
        for k, v in r.stats.items():
            t[k] = t.get(k, 0) + v
    return t


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
