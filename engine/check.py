"""Verification of contracts against the code, path by path, and search for failing inputs."""
import sys, os, time, random, traceback, copy, json, threading, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import spec
from spec import *
from world import *
import world as _w
import dom

SPECBASE = 1_000_000
NOMERGE_ALL = "ALL"


def new_interp(w, ctx, nomerge=()):
    I = Interp(w.prog, ctx, CONTRACTS, nomerge)
    I.mem = dict(w.mem)
    I.mtype = dict(w.mtype)
    I.gobj = w.gobj
    I.next = w.next
    I.world = w
    return I


def clone_spec(I):
    Is = Interp(I.prog, I.ctx, I.contracts, I.nomerge)
    Is.mem = dict(I.mem)
    Is.mtype = dict(I.mtype)
    Is.gobj = I.gobj
    Is.next = I.next + SPECBASE
    Is.world = I.world
    Is.flex = {}
    Is.incheck = True
    return Is


def copy_opq(v):
    if isinstance(v, Opq):
        return Opq(v.tag, copy.copy(v.v))
    return v


class Outcome:
    """what happened on one path"""
    __slots__ = ("kind", "what", "detail", "nobl", "where", "env", "trail")

    def __init__(self, kind, what="", detail="", nobl=0, where="", env=None, trail=()):
        self.kind, self.what, self.detail, self.nobl, self.where, self.env, self.trail = kind, what, detail, nobl, where, env, trail


def build_inputs(I, c, case, conc=None):
    inp = In(I, conc)
    inp.case = case
    if c.inputs_fn:
        args = c.inputs_fn(inp, case)
    else:
        args = default_inputs(inp, c, case, I.prog)
    return inp, list(args)


def run_spec(Is, c, sargs):
    Is.cur.append(c.name)
    Is.spec_depth = 1
    try:
        try:
            return ("ret", c.fn(S(Is, "check"), *sargs))
        except GoPanic as p:
            return ("panic", p.what)
    finally:
        Is.cur.pop()


def exists(w, name):
    return name in w.prog.funcs or (name in CONTRACTS and CONTRACTS[name].lemma is not None)


def result_types(w, name):
    if CONTRACTS[name].lemma:
        return w.prog.funcs[CONTRACTS[name].results]["results"]
    return w.prog.funcs[name]["results"] or []


MODE = None         # None: everything; "frame": what is left unchanged; "panic": returning normally


def compare(w, c, Ib, Is, first, args, bres, sres, names, init=None):
    cmp = Compare(Ib, Is, first, short(c.name)) if MODE != "frame" else FrameCompare(Ib, Is, first, short(c.name), init)
    cmp.names = names
    if MODE == "panic":
        cmp.n += 1
        if bres[0] == "panic" and sres[0] != "panic":
            raise Failed("%s: returns without panicking" % short(c.name), bres[1])
        return cmp
    if MODE == "frame" and "panic" in (bres[0], sres[0]):
        return cmp
    if bres[0] != sres[0]:
        if bres[0] == "panic":
            raise Failed("%s: returns without panicking" % short(c.name), bres[1])
        raise Failed("%s: panics as specified" % short(c.name), sres[1])
    if bres[0] == "panic":
        cmp.n += 1
        return cmp
    ts = result_types(w, c.name)
    if len(ts) == 1:
        cmp.val(ts[0], bres[1], sres[1], "result")
    elif len(ts) > 1:
        for i, t in enumerate(ts):
            cmp.val(t, bres[1][i], sres[1][i], "result %d" % i)
    cmp.drain()
    if not (c.share_ok and getattr(c, "noframe", False)):
        cmp.frame(None, names)
    cmp.n += 1
    if c.check_fn and MODE is None:
        c.check_fn(cmp, args, bres[1])
    return cmp


def run_path(w, c, case, prefix, nomerge, maxsteps=6_000_000):
    """returns (Outcome, ctx, interp)"""
    ctx = Ctx(prefix)
    nm = nomerge
    I = new_interp(w, ctx, nm)
    I.maxsteps = maxsteps
    I.nomerge_all = NOMERGE_ALL in nm
    out = None
    Is = None
    nobl = 0
    where = ""
    try:
        try:
            inp, args = build_inputs(I, c, case)
            first = I.next
            I.start_id = first
            names = dict(w.gnames)
            name_args(w, c, args, names)
            Is = clone_spec(I)
            init = dict(Is.mem)
            sargs = [copy_opq(a) for a in args]
            sres = run_spec(Is, c, sargs)
            I.skip_contract = {c.name}
            if c.induct:
                import loops
                if getattr(c.induct, "fold", False):
                    import folds
                    I.loops = folds.FoldLoops(I, nm)
                elif getattr(c.induct, "make", False):
                    I.loops = c.induct(I, args)
                elif not getattr(c.induct, "scan", False):
                    I.loops = loops.Loops(c.induct, args, nm)
                elif "NOSCAN" not in nm:
                    tpl = c.induct(I, args)
                    if tpl is not None:
                        I.loops = loops.ScanLoops(tpl, nm)
                        ctx.memo["scan"] = I.loops.scan
            if c.inline:
                I.skip_contract |= c.inline
            try:
                I.line = None
                if c.lemma:
                    bres = ("ret", c.lemma(I, *args))
                else:
                    bres = ("ret", I.run(c.name, args) if w.prog.funcs[c.name]["blocks"] else I.call(c.name, args))
            except GoPanic as p:
                bres = ("panic", p.what)
            if "scan" in ctx.memo:
                ctx.memo["scan"].finish()
            if "lists" in ctx.memo:
                import folds
                folds.finish(ctx)
            cmp = compare(w, c, I, Is, first, args, bres, sres, names, init)
            nobl = cmp.n + len(I.callobl)
            out = Outcome("ok", nobl=nobl)
        except Infeasible:
            out = Outcome("infeasible")
        except PathClosed as p:
            nobl = p.n + len(I.callobl)
            out = Outcome("closed", nobl=nobl)
        except Restart as p:
            out = Outcome("restart", what=p.what)
        except PoisonUse as p:
            if p.ifid is not None and p.ifid not in nomerge:
                out = Outcome("restart", what=p.ifid)
            elif NOMERGE_ALL not in nomerge:
                out = Outcome("restart", what=NOMERGE_ALL)
            else:
                out = Outcome("fail", "%s: %s" % (short(c.name), "outside the verifier's reach: " + I.unknown if I.unknown else "value depends on a branch the verifier joined"))
        except Failed as x:
            out = Outcome("fail", x.what, x.detail)
        except ToolLimit as x:
            out = Outcome("fail", "%s: outside the verifier's reach: %s" % (short(c.name), x))
        except MergeFail as x:
            out = Outcome("fail", "%s: outside the verifier's reach: merge: %s" % (short(c.name), x))
        except RecursionError:
            out = Outcome("fail", "%s: outside the verifier's reach: recursion" % short(c.name))
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, ZeroDivisionError, NameError) as x:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            out = Outcome("fail", "%s: outside the verifier's reach: %s: %s" % (short(c.name), type(x).__name__, x),
                          traceback.format_exc()[-1500:])
    finally:
        pass
    if out.kind == "fail" and case.get("fallback") and "outside the verifier's reach" in out.what:
        out.kind = "fallback"
    if out.kind == "fail" and "scan" in ctx.memo and not case.get("sym"):
        if os.environ.get("LOOPDEBUG"):
            print("NOSCAN", out.what, out.detail, "line", I.line, file=sys.stderr)
        out = Outcome("restart", what=frozenset({"NOSCAN"}))      # go through all bit lengths instead
    if out.kind == "fail":
        out.where = "line %s" % I.line
        out.trail = ["%s=%s" % (l, d) for l, d in ctx.labels][-12:] + ctx.trail[-12:]
        try:
            out.env = path_envs(ctx, I)
        except Exception:
            out.env = []
    out.nobl = nobl
    return out, ctx, I


def name_args(w, c, args, names):
    if c.lemma:
        return
    ps = w.prog.funcs[c.name]["params"] or []
    for p, a in zip(ps, args):
        if isinstance(a, (Ptr, Sl)) and a.o not in names:
            names[a.o] = "argument %s" % p["n"]


def path_envs(ctx, I):
    """candidate assignments of the input atoms for the (failing) path"""
    envs = []
    rng = random.Random(7)
    for k in range(3):
        env = {}
        # integers from a model of the linear facts
        m = None
        if k == 0 and len(ctx.facts) < 400:
            m = ctx.z3_model(timeout=3000)
        if m:
            for a, v in m.items():
                env[a] = v
            for f in ("q", "r"):
                for key, (e, a) in ctx.montint[f].items():
                    if isinstance(a, U):
                        nm = next(iter(a.p.atoms()))
                        if nm in m and isinstance(e, E) and e.nterms() == 1 and not e.B.d:
                            (kk, vv), = e.A.d.items()
                            if len(kk) == 1 and kk[0][1] == 1:
                                mont = key[1]
                                env[kk[0][0]] = m[nm] * (MONTINV[f] if mont else 1) * pow(vv, -1, MOD[f]) % MOD[f]
        elif k == 0:
            continue
        # field atoms fixed by equations on the path
        def val(a, f, depth=0):
            if a in env:
                return env[a]
            if a in ctx.esub and depth < 60:
                r = ev(ctx.esub[a], depth + 1)
                if r is not None and r[1] == 0:
                    env[a] = r[0]
                    return r[0]
            env[a] = rng.randrange(1, MOD[f]) if f else 0
            if "#" in a and a in ctx.bounds:
                env[a] = rng.randrange(ctx.bounds[a][0], ctx.bounds[a][1] + 1)
            return env[a]

        def ev(e, depth=0):
            if not isinstance(e, E):
                return None
            mm = MOD[e.f]
            r = [0, 0]
            for i, part in enumerate((e.A, e.B)):
                for kk, v in part.d.items():
                    t = v
                    for a, x in kk:
                        if a[0] == "@":
                            return None
                        b = val(a, e.f, depth)
                        if x < 0 and b % mm == 0:
                            return None
                        t = t * pow(b, x, mm) % mm
                    r[i] = (r[i] + t) % mm
            return r
        for a in list(ctx.esub):
            try:
                r = ev(ctx.esub[a])
            except RecursionError:
                r = None
            if r is not None and r[1] == 0:
                env[a] = r[0]
        envs.append({a: int(v) for a, v in env.items()})
    return envs


# ------------------------------------------------------------------ failing inputs

def concrete_case(w, c, case, rng, env=None):
    """one concrete input: (json call, checker) or None when outside the precondition"""
    ctx = Ctx(())
    ctx.concrete = True
    I = new_interp(w, ctx)
    conc = Conc(rng, env)
    inp, args = build_inputs(I, c, case, conc)
    first = I.next
    Is = clone_spec(I)
    init = dict(Is.mem)
    names = dict(w.gnames)
    name_args(w, c, args, names)
    try:
        sres = run_spec(Is, c, [copy_opq(a) for a in args])
    except Infeasible:
        return None
    tj = ToJson(I)
    ps = w.prog.funcs[c.name]["params"] or []
    jargs = [tj.val(p["t"], a) for p, a in zip(ps, args)]
    call = {"fn": c.name, "objs": tj.objs, "args": jargs, "globals": True}

    def check(res):
        """None when the real result is as specified, else a description"""
        Ib = new_interp(w, ctx)
        Ib.mem = dict(I.mem)
        Ib.mtype = dict(I.mtype)
        Ib.next = I.next
        if res.get("error"):
            return None
        if res.get("timeout") and MODE == "frame":
            return None
        if res.get("timeout"):
            return "does not return within 60 s"
        if "panic" in res:
            bres = ("panic", res["panic"])
        else:
            fj = from_result(w.prog, Ib, None, res)
            ts = result_types(w, c.name)
            vals = [fj.val(t, v) for t, v in zip(ts, res["ret"])]
            bres = ("ret", None if not vals else vals[0] if len(vals) == 1 else tuple(vals))
        try:
            compare(w, c, Ib, Is, first, args, bres, sres, names, init)
        except Failed as x:
            return "%s %s" % (x.what, x.detail)
        if MODE == "panic":
            return None
        for k, o in tj.objs.items():
            if k[0] == "s" and k in res.get("objs", {}) and res["objs"][k]["v"] != o["v"]:
                return "%s: a byte slice of the caller was changed (%s -> %s)" % (short(c.name), o["v"], res["objs"][k]["v"])
        if res.get("globals_changed"):
            return "%s: a package variable was changed" % short(c.name)
        if res.get("shared"):
            return "%s: the result shares storage with a package variable" % short(c.name)
        return None
    return call, check, conc.out, bool(ctx.pending)


def refute(w, c, failures, seed, ncand=None, budget=60):
    """search for a concrete input on which the real code differs from the contract"""
    if c.lemma:
        return None, 0, "a lemma over contracts has no body to run"
    rng = random.Random(seed)
    t0 = time.time()
    pkg = w.prog.funcs[c.name]["pkg"]
    cases = c.cases(w.prog)
    todo = []
    for (ci, out) in failures:
        for env in out.env or []:
            for _ in range(2):
                todo.append((ci, env))
    seen = set()
    fi = [ci for ci, _ in failures]
    n = ncand or c.ncand
    allc = list(range(len(cases)))
    for k in range(n):
        todo.append(((rng.choice(fi) if fi and rng.random() < 0.7 else rng.choice(allc)), None))
    tried = 0
    B = 40
    err = None
    for i in range(0, len(todo), B):
        batch = []
        for ci, env in todo[i:i + B]:
            try:
                r = concrete_case(w, c, cases[ci], rng, env)
            except (ToolLimit, Failed, PoisonUse, GoPanic, MergeFail, KeyError, TypeError, AttributeError, ValueError) as x:
                err = "%s: %s" % (type(x).__name__, x)
                continue
            if r is None or r[3]:
                continue
            batch.append((ci,) + r)
            if time.time() - t0 > budget:
                break
        if not batch:
            if time.time() - t0 > budget:
                break
            continue
        res = w.drv.run(pkg, [b[1] for b in batch])
        for b, r in zip(batch, res["results"]):
            tried += 1
            try:
                d = b[2](r)
            except (ToolLimit, PoisonUse, GoPanic, MergeFail, KeyError, TypeError, AttributeError, Infeasible) as x:
                err = "%s: %s" % (type(x).__name__, x)
                continue
            if d is not None:
                return {"function": c.name, "case": cases[b[0]].get("label", str(cases[b[0]])), "call": b[1], "inputs": {k: str(v) for k, v in b[3].items()},
                        "difference": d, "result": r}, tried, err
        if time.time() - t0 > budget:
            break
    return None, tried, err


# ------------------------------------------------------------------ exploration

def explore_chunk(args):
    """worker: runs paths for at most `slice_s` seconds"""
    (wi, cname, ci, prefixes, nomerge, slice_s, maxpaths) = args
    w = WORLDS[wi]
    c = CONTRACTS[cname]
    case = c.cases(w.prog)[ci]
    t0 = time.time()
    st0 = dict(dom.STATS)
    stack = [list(p) for p in prefixes]
    res = {"ok": 0, "inf": 0, "fails": [], "nobl": 0, "used": set(), "inlined": set(), "restart": None, "rest": [], "paths": 0, "callobl": {}}
    while stack:
        if time.time() - t0 > slice_s or res["paths"] >= maxpaths:
            break
        p = stack.pop()
        out, ctx, I = run_path(w, c, case, p, nomerge)
        res["paths"] += 1
        stack.extend(ctx.pending)
        res["used"] |= I.used
        res["inlined"] |= I.inlined
        if out.kind == "ok":
            res["ok"] += 1
            res["nobl"] += out.nobl
        elif out.kind == "infeasible":
            res["inf"] += 1
        elif out.kind == "closed":
            res["nobl"] += out.nobl
            res["closed"] = res.get("closed", 0) + 1
        elif out.kind == "restart":
            new = set(out.what) if isinstance(out.what, frozenset) else {out.what}
            if any(isinstance(h, tuple) and h and h[0] == "FCUT" for h in new):
                # learn what else is needed on this path before all paths are gone through again
                # (the outcome of these runs does not count)
                for _ in range(60):
                    out, _, _ = run_path(w, c, case, p, nomerge | new)
                    if out.kind != "restart" or time.time() - t0 > 2 * slice_s:
                        break
                    more = set(out.what) if isinstance(out.what, frozenset) else {out.what}
                    if more <= new:
                        break
                    new |= more
            res["restart"] = frozenset(new)
            break
        elif out.kind == "fallback":
            if os.environ.get("LOOPDEBUG"):
                print("FALLBACK", out.what, out.detail, out.where, file=sys.stderr)
            # beyond the verifier's reach: the other cases are a bounded check, and reported as such
            res["fallback"] = out.what
            stack = []
            break
        else:
            res["nobl"] += 1
            res["fails"].append((ci, out))
            if len(res["fails"]) >= 4:
                stack = []
                break
    res["rest"] = stack
    res["time"] = time.time() - t0
    res["stats"] = {k: dom.STATS[k] - st0.get(k, 0) for k in dom.STATS}
    return (wi, cname, ci, res)


WORLDS = []


class FnResult:
    def __init__(self, c, arch):
        self.c, self.arch = c, arch
        self.ok = self.inf = self.nobl = self.paths = 0
        self.fails = []
        self.used, self.inlined = set(), set()
        self.time = 0.0
        self.cases = 0
        self.stats = {}
        self.vacuous = []
        self.bounded = []
        self.soft = []
        self.fell = []      # cases that fell back to a bounded check


def verify(worlds, jobs, procs=8, deadline=None, progress=None):
    """jobs: list of (world index, contract name).  Returns {(wi,name): FnResult}"""
    global WORLDS
    WORLDS = worlds
    results = {}
    state = {}
    queue = []
    for wi, name in jobs:
        c = CONTRACTS[name]
        r = FnResult(c, worlds[wi].arch)
        results[(wi, name)] = r
        cs = c.cases(worlds[wi].prog)
        r.cases = len(cs)
        for ci in range(len(cs)):
            state[(wi, name, ci)] = {"nomerge": frozenset(), "gen": 0, "acc": [], "open": 0}
            queue.append((1 if not c.heavy else 0, wi, name, ci, [[]]))
    queue.sort(key=lambda q: q[0])

    def start(ex, item):
        _, wi, name, ci, prefixes = item
        st = state[(wi, name, ci)]
        st["open"] += 1
        return (wi, name, ci, prefixes, st["nomerge"], 3.0, 100000), st["gen"]

    if procs <= 1:
        ex = None
    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(procs, initializer=_init_worker) if procs > 1 else None
    import collections
    q = collections.deque(queue)
    running = []
    expired = False
    while q or running:
        if deadline and time.time() > deadline:
            expired = True
            break
        while q and len(running) < procs * 2:
            a, gen = start(None, q.popleft())
            if pool:
                running.append((pool.apply_async(explore_chunk, (a,)), gen))
            else:
                running.append((_Done(explore_chunk(a)), gen))
        done = [r for r in running if r[0].ready()]
        if not done:
            time.sleep(0.005)
            continue
        for rr in done:
            running.remove(rr)
            wi, name, ci, res = rr[0].get()
            st = state[(wi, name, ci)]
            st["open"] -= 1
            if rr[1] != st["gen"]:
                continue
            if res["restart"] is not None:
                st["gen"] += 1
                st["acc"] = []
                st["nomerge"] = st["nomerge"] | (res["restart"] if isinstance(res["restart"], frozenset) else {res["restart"]})
                q.append((0, wi, name, ci, [[]]))
                continue
            st["acc"].append(res)
            rest = res["rest"]
            if rest and not (sum(len(a["fails"]) for a in st["acc"]) >= 4):
                k = max(1, min(len(rest), procs))
                for i in range(k):
                    q.append((0, wi, name, ci, rest[i::k]))
            if progress:
                progress(wi, name, ci, res, len(rest))
    if pool:
        pool.terminate()
        pool.join()
    if expired:
        for it in q:
            state[it[1:4]]["open"] += 1
    for (wi, name, ci), st in state.items():
        r = results[(wi, name)]
        okc = 0
        cs = r.c.cases(worlds[wi].prog)[ci]
        if cs.get("fallback") and any("fallback" in a for a in st["acc"]):
            for a in st["acc"]:
                r.soft += a["fails"]       # not all of the iterations were gone through: no verdict without an input
            r.fell.append((ci, Outcome("fail", "")))
            r.bounded.append("%s (%s)" % (cs["fallback"], next(a["fallback"] for a in st["acc"] if "fallback" in a)))
            continue
        for a in st["acc"]:
            r.ok += a["ok"]
            okc += a["ok"]
            r.inf += a["inf"]
            r.nobl += a["nobl"]
            r.paths += a["paths"]
            r.fails += a["fails"]
            r.used |= a["used"]
            r.inlined |= a["inlined"]
            r.time += a["time"]
            for k, v in a["stats"].items():
                r.stats[k] = r.stats.get(k, 0) + v
        if okc == 0 and not any(a["fails"] for a in st["acc"]):
            cs = r.c.cases(worlds[wi].prog)[ci]
            if expired:
                r.fails.append((ci, Outcome("fail", "%s: time limit reached before all paths were decided" % short(name))))
            elif not cs.get("vacuous_ok"):
                r.fails.append((ci, Outcome("fail", "%s: no execution satisfies the precondition (case %d)" % (short(name), ci))))
        elif expired and st["open"]:
            r.fails.append((ci, Outcome("fail", "%s: time limit reached before all paths were decided" % short(name))))
    return results


class _Done:
    def __init__(self, v):
        self.v = v

    def ready(self):
        return True

    def get(self):
        return self.v


def _init_worker():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(200000)
