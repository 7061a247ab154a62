"""Contracts, their verification (check mode) and their use at call sites (call mode)."""
import sys, time, json, random, traceback, itertools
from dom import *
from interp import *
import interp as _ip
from externs import Big, Str, BLen, Sgn
import externs

CONTRACTS = {}


def FN(x):
    """FN('FQ.MulAssign*') -> full name.  'T.M*' pointer receiver, 'T.M' value receiver, 'F' function;
    a leading 'g1:' or 'g2:' selects the package."""
    pkg = BLS
    if x[:3] in ("g1:", "g2:"):
        pkg = BLS + "/" + x[:2] + "pubs"
        x = x[3:]
    if "." in x:
        t, m = x.split(".")
        if m.endswith("*"):
            return "(*%s.%s).%s" % (pkg, t, m[:-1])
        return "(%s.%s).%s" % (pkg, t, m)
    return pkg + "." + x


class Contract:
    def __init__(self, name, fn, props=(), cases=None, inputs=None, readonly=False, share_ok=False, callable=None,
                 check=None, cands=None, noglobals=False, optional=True, archs=("amd64",), bounded=None, ncand=60,
                 nochk=False, inline=(), heavy=False, trusted=None, hints=None, nomodel=False, induct=None, lemma=None, results=()):
        self.lemma = lemma          # python composition of contract calls instead of a Go body
        self.results = results
        self.induct = induct
        self.name = name
        self.fn = fn
        self.props = tuple(props)
        self.cases_fn = cases
        self.inputs_fn = inputs
        self.readonly = readonly
        self.share_ok = share_ok
        self.callable_fn = callable
        self.check_fn = check
        self.cands_fn = cands
        self.archs = archs
        self.bounded = bounded
        self.ncand = ncand
        self.nochk = nochk
        self.inline = set(inline)
        self.heavy = heavy
        self.trusted = trusted
        self.hints = hints

    def callable(self, I, args):
        return True if self.callable_fn is None else self.callable_fn(I, args)

    def apply(self, I, args):
        if not (self.readonly or self.share_ok):
            sep_check(I, self, args)
        I.cur.append(self.name)
        try:
            return self.fn(S(I, "call"), *args)
        finally:
            I.cur.pop()

    def cases(self, prog):
        if self.cases_fn:
            return list(self.cases_fn(prog))
        if self.lemma:
            return [{}]
        return default_cases(prog, self.name)


def contract(name, **kw):
    full = FN(name) if not name.startswith("(") and "/" not in name else name

    def d(fn):
        CONTRACTS[full] = Contract(full, fn, **kw)
        return fn
    return d


def reach(I, v, acc):
    if isinstance(v, Ptr):
        if v.o in acc:
            return
        acc.add(v.o)
        x = I.mem.get(v.o)
        if isinstance(x, LazyIte):
            x = I.force(x)
        reach(I, x, acc)
    elif isinstance(v, Sl):
        if v.o in acc:
            return
        acc.add(v.o)
        reach(I, I.mem.get(v.o), acc)
    elif isinstance(v, tuple):
        for y in v:
            if isinstance(y, (Ptr, Sl, tuple)):
                reach(I, y, acc)


def sep_check(I, c, args):
    ps = [(i, a) for i, a in enumerate(args) if isinstance(a, (Ptr, Sl)) or isinstance(a, tuple)]
    for (i, p), (j, q) in itertools.combinations(ps, 2):
        if isinstance(p, Ptr) and isinstance(q, Ptr) and p == q:
            continue
        if isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o:
            n = min(len(p.path), len(q.path))
            if p.path[:n] != q.path[:n]:
                continue
            I.obligation("arguments %d and %d of %s do not overlap partially" % (i, j, short(c.name)), False)
        a, b = set(), set()
        reach(I, p, a)
        reach(I, q, b)
        if a & b:
            # a value argument that shares sub-objects with a pointed-to argument: only whole sharing
            if isinstance(p, Ptr) and isinstance(q, tuple) and I.mem.get(p.o) == q:
                continue
            if isinstance(q, Ptr) and isinstance(p, tuple) and I.mem.get(q.o) == p:
                continue
            if isinstance(p, tuple) and isinstance(q, tuple) and p == q:
                continue
            I.obligation("arguments %d and %d of %s share no storage" % (i, j, short(c.name)), False)


def default_cases(prog, name):
    f = prog.funcs[name]
    ps = f["params"] or []
    groups = {}
    for i, p in enumerate(ps):
        ty = prog.types[p["t"]]
        if ty["kind"] == "ptr":
            groups.setdefault(ty["elem"], []).append(i)
    parts = [{}]
    for t, idx in groups.items():
        new = []
        for base in parts:
            for asg in _partitions(len(idx)):
                d = dict(base)
                for k, g in enumerate(asg):
                    if g < k and asg.index(g) < k:
                        d[idx[k]] = idx[asg.index(g)]
                new.append(d)
        parts = new
    return [{"alias": d} for d in parts]


def _partitions(n):
    def rec(i, mx, cur):
        if i == n:
            yield tuple(cur)
            return
        for g in range(mx + 1):
            cur.append(g)
            yield from rec(i + 1, max(mx, g + 1), cur)
            cur.pop()
    yield from rec(0, 0, [])


# ------------------------------------------------------------------ matchers

class SomeInt:
    """any integer in [lo,hi] that is congruent to e modulo the field modulus"""

    def __init__(self, lo, hi, f=None, e=None):
        self.lo, self.hi, self.f, self.e = lo, hi, f, e


class AnyVal:
    """no constraint"""


ANY = AnyVal()


class Pred:
    """matcher given by a python predicate (cmp, body value) -> raises Failed"""

    def __init__(self, f, call=None):
        self.f = f
        self.call = call


def some_text(s):
    """a string whose text is not specified"""
    if s.check:
        return ANY
    import externs
    return externs.Str([("?s", 0, None)])


class S:
    """what a contract sees: live memory (call) or the specification copy (check)"""

    def __init__(self, I, mode):
        self.I = I
        self.c = I.ctx
        self.mode = mode

    @property
    def check(self):
        return self.mode == "check"

    # requirements on the caller
    def require(self, cond, what):
        if isinstance(cond, bool):
            ok = cond
        else:
            if self.mode == "check":
                self.c.assume(cond)
                return
            ok = self.c.test(cond) is True
        if self.mode == "check":
            if not ok:
                raise Infeasible()
            return
        self.I.obligation("precondition: " + what, ok)

    def decide(self, cond, label=""):
        if isinstance(cond, bool):
            return cond
        return self.c.decide(cond, label)

    # fixed width integers
    def rep(self, v):
        """integer value of a limb array, or of the one pointed to"""
        if v is None:
            raise GoPanic("nil pointer dereference")
        if isinstance(v, Ptr):
            v = self.I.load(v)
        return self.I.repint(v)

    def mk(self, p, lo=None, hi=None):
        return self.c.mk(zp(p), lo, hi)

    def mkrep(self, x, n):
        return RInt(x, n)

    def some(self, lo, hi, f, e, key=None):
        """an integer in [lo,hi] congruent to e"""
        if self.mode == "check":
            return SomeInt(lo, hi, f, e)
        c = self.c
        cv = c.en(e).cv() if not isinstance(e, PW) else None
        if cv is not None and hi < MOD[f]:
            return cv[0] % MOD[f]
        k = ("some", lo, hi, f, e.key() if key is None else key)
        if k not in c.memo:
            if cv is not None:
                m = MOD[f]
                base = cv[0] % m
                n = (hi - base) // m
                if n <= 0:
                    c.memo[k] = base
                    return base
                t = c.zatom("k", 0, n)
                c.memo[k] = c.mk(zp(t).scale(m) + base, base, hi)
                return c.memo[k]
            if isinstance(e, PW):
                raise ToolLimit("unreduced power product")
            a = c.zatom("m", lo, hi)
            nm = next(iter(a.p.atoms()))
            c.moddef[f][nm] = e
            c.memo[k] = a
        v = c.memo[k]
        return c.mk(v.p, v.lo, v.hi) if isinstance(v, U) else v

    # base fields
    def fq(self, v):
        if isinstance(v, Ptr):
            v = self.I.load(v)
        return self.I.repfe(self.I.fld(v, 0), "q")

    def mkfq(self, e):
        return (RMont("q", e),)

    def setfq(self, p, e):
        self.I.store(p, self.mkfq(e))

    def f2(self, v):
        if isinstance(v, Ptr):
            v = self.I.load(v)
        return self.I.f2(v)

    def setf2(self, p, e):
        self.I.store(p, F2(e))

    def fr(self, v):
        """element held by an FR value or *FR"""
        if v is None:
            raise GoPanic("nil pointer dereference")
        if isinstance(v, Ptr):
            v = self.I.load(v)
        return self.I.repfe(self.I.load(self.I.fld(v, 0)), "r")

    def newrep(self, v, tn):
        return self.I.alloc(v, self.I.prog.byname[BLS + "." + tn])

    def newfr(self, e):
        n = self.newrep(RMont("r", e), "FRRepr")
        return self.I.alloc((n,), self.I.prog.byname[BLS + ".FR"])

    def fz(self, e):
        return self.c.cfz(e)

    def iszero(self, e):
        """decided zero test"""
        if isinstance(e, bool):
            return e
        return self.decide(self.c.cfz(e))

    def inv(self, e):
        if isinstance(e, PW):
            return e.power(-1)
        return self.c.e_inv(e)

    def cint(self, f, e):
        """canonical integer"""
        return self.c.e_int(f, e, False)

    def bytes(self, v):
        return self.I.sl_items(v)

    def newbytes(self, items):
        items = tuple(items)
        p = self.I.alloc(items, ("arr", self.I.prog.byname.get("uint8", self.I.prog.byname.get("byte"))))
        return Sl(p.o, (), 0, len(items), len(items))

    def elem(self, f, x):
        """field element of an integer known to be below the modulus; long sums (of bytes, say) get a name"""
        c = self.c
        if not isinstance(x, U):
            return E.const(f, x)
        p = c.nz(x.p)
        if len(p.d) <= 8:
            return self.I.maybe_pw(c.z2e(f, x))
        k = ("named", f, p.key())
        if k not in c.memo and c.moddef[f]:
            e = c.en(c.z2e(f, x))
            if e.nterms() <= 4:
                c.memo[k] = e
        if k not in c.memo:
            nm = c.fresh("v")
            c.memo[k] = E.atom(f, nm)
            c.memo.setdefault("namedint", {})[nm] = c.mk(p, max(0, x.lo), min(x.hi, MOD[f] - 1))
        return c.memo[k]

    def sgn(self, x, y=0):
        """-1, 0, 1"""
        return externs.sgn(self.I, zp(x) - zp(y))

    def eq(self, x, y):
        return self.I.intcmp("==", x, y)

    def lt(self, x, y):
        return self.I.intcmp("<", x, y)

    def split(self, x, k):
        return self.c.split(x, k)

    def modw(self, p, w):
        return self.c.modW(zp(p), w)

    def new(self, v, tn):
        return self.I.alloc(v, self.I.prog.byname[tn if "." in tn else BLS + "." + tn])


# ------------------------------------------------------------------ symbolic inputs

class Conc:
    """source of concrete inputs: given values first, then random and boundary values"""

    def __init__(self, rng, env=None):
        self.rng = rng
        self.env = env or {}
        self.out = {}
        self.pool = {"q": [], "r": []}
        self.zpool = []
        self.wild = rng.random() < 0.85      # boundary-heavy or plain random
        self.sparse = rng.random() < 0.2
        self.run = 0

    def z(self, name, lo, hi):
        if name in self.env and lo <= self.env[name] <= hi:
            v = self.env[name]
        elif name in self.out:
            v = self.out[name]
        else:
            v = self.zrand(lo, hi)
        self.out[name] = v
        self.zpool.append(v)
        return v

    def zrand(self, lo, hi):
        r = self.rng
        if lo == hi:
            return lo
        if isinstance(lo, Inf) or isinstance(hi, Inf):
            b = 1 << r.choice((64, 256, 384, 448, 1000))
            return self.zrand(max(lo, -b), min(hi, b))
        for _ in range(50):
            k = r.randrange(13)
            if not self.wild:
                k = 12
            if k == 0:
                v = lo
            elif k == 1:
                v = hi
            elif k == 2:
                v = lo + r.randrange(4)
            elif k == 3:
                v = hi - r.randrange(4)
            elif k == 4 and self.zpool:
                v = r.choice(self.zpool) + r.choice((-1, 0, 0, 0, 1))
            elif k == 5:
                v = r.choice((Q, R_ORD, R384, R256, W, Q >> 1, R_ORD >> 1, 2 * Q, MONT["q"], MONT["r"])) + r.choice((-1, 0, 1))
            elif k == 6:
                v = (1 << r.randrange(max(1, hi.bit_length()))) + r.choice((-1, 0, 0, 1))
            elif k == 7:
                v = sum(r.choice((0, 0, W - 1, W - 2, 1, 2, r.getrandbits(64))) << (64 * i) for i in range((hi.bit_length() + 63) // 64))
            elif k == 8:
                v = sum(r.getrandbits(64) << (64 * i) for i in range((hi.bit_length() + 63) // 64) if r.random() < 0.5)
            elif k == 9:
                v = r.getrandbits(max(1, r.randrange(1, hi.bit_length() + 1)))
            elif k == 10:
                v = r.randrange(0, 64)
            else:
                v = r.randrange(lo, hi + 1)
            if lo <= v <= hi:
                return v
        return r.randrange(lo, hi + 1)

    def e(self, f, name):
        m = MOD[f]
        if name in self.env:
            v = self.env[name] % m
        elif name in self.out:
            v = self.out[name]
        else:
            v = self.erand(f)
        self.out[name] = v
        self.pool[f].append(v)
        return v

    def erand(self, f):
        r = self.rng
        m = MOD[f]
        if self.sparse:              # runs of zero coefficients
            if self.run:
                self.run -= 1
                return 0
            if r.random() < 0.35:
                self.run = r.choice((1, 2, 3, 4, 6)) - 1
                return 0
        p = self.pool[f]
        k = r.randrange(12) if self.wild else 11
        if k == 0:
            return 0
        if k == 1:
            return r.choice((1, m - 1, 2, m - 2, (m + 1) // 2, (m - 1) // 2))
        if k in (2, 3) and p:
            v = r.choice(p)
            return r.choice((v, m - v, 2 * v, v + 1)) % m
        if k == 4:
            return r.randrange(64)
        if k == 5:
            return self.zrand(0, m - 1) * MONTINV[f] % m
        if k == 6:
            return self.zrand(0, m - 1)
        if k == 7:      # Montgomery form close to a boundary
            return (r.choice((0, m - 1, m >> 1, 1 << (64 * r.randrange(NL[f])))) + r.choice((-2, -1, 0, 1, 2))) * MONTINV[f] % m
        if k == 8:
            return pow(r.randrange(1, m), 2, m)
        return r.randrange(m)


class In:
    """builds the inputs of a call: symbolic (conc is None), or concrete"""

    def __init__(self, I, conc=None):
        self.I = I
        self.c = I.ctx
        self.conc = conc
        self.zatoms = []
        self.eatoms = []

    def z(self, name, lo, hi):
        if self.conc:
            return self.conc.z(name + "#", lo, hi)
        a = self.c.zatom("", lo, hi, name=name + "#")
        self.zatoms.append(name + "#")
        return a

    def e(self, f, name):
        if self.conc:
            return E.const(f, self.conc.e(f, name))
        self.eatoms.append((f, name))
        return E.atom(f, name)

    def zrep(self, name, n, top=None):
        """n-limb integer"""
        if self.conc:
            return self.conc.z(name + "#", 0, (1 << (64 * n)) - 1)
        p = P({})
        for i in range(n):
            p = p + zp(self.z("%s_%d" % (name, i), 0, W - 1)).scale(1 << (64 * i))
        return self.c.mk(p, 0, (1 << (64 * n)) - 1)

    def bits(self, name, n):
        """n-bit integer given by its bits"""
        if self.conc:
            return self.conc.z(name + "#", 0, (1 << n) - 1)
        p = P({})
        for i in range(n):
            p = p + zp(self.c.zatom("", 0, 1, name="bit%s_%d#0" % (name, i))).scale(1 << i)
        return self.c.mk(p, 0, (1 << n) - 1)

    def bool(self, name):
        if self.conc:
            return bool(self.conc.z("b:" + name, 0, 1))
        return Cond("op", None, False, ("inbool", name))

    def choice(self, n, label):
        """case split over input shapes"""
        if self.conc:
            return self.conc.z("c:" + label, 0, n - 1)
        return self.c.choose(n, "input " + label)

    def fq(self, name):
        return (RMont("q", self.e("q", name)),)

    def f2(self, name):
        return F2(e_from(self.e("q", name + "0"), self.e("q", name + "1")))

    def f2c(self, name):
        if self.conc:
            return F2(E.const("q", self.conc.e("q", "@" + name + ".0"), self.conc.e("q", "@" + name + ".1")))
        self.eatoms.append(("2", "@" + name))
        return F2(E.atom("q", "@" + name))

    def val(self, t, name):
        prog = self.I.prog
        ty = prog.types[t]
        tn = ty["str"].replace(BLS + ".", "")
        h = getattr(self, "t_" + tn.replace("/", "_").replace(".", "_"), None) if tn.replace("_", "").isalnum() else None
        if h:
            return h(t, name)
        u = prog.ty(t)
        k = u["kind"]
        if k == "basic":
            if u["name"] in INTKINDS:
                w, sg = INTKINDS[u["name"]]
                return self.z(name, -(1 << (w - 1)) if sg else 0, (1 << (w - 1 if sg else w)) - 1)
            if u["name"] == "bool":
                return self.bool(name)
            raise ToolLimit("symbolic input of type " + u["name"])
        if k == "array":
            if prog.isrep(t):
                return RInt(self.zrep(name, u["len"]), u["len"])
            return tuple(self.val(u["elem"], "%s_%d" % (name, i)) for i in range(u["len"]))
        if k == "struct":
            return tuple(self.val(f["type"], "%s_%s" % (name, f["name"])) for f in u["fields"])
        if k == "ptr":
            return self.I.alloc(self.val(u["elem"], name), u["elem"])
        if k == "interface":
            if "Reader" in ty["str"]:
                return self.reader(name)
        raise ToolLimit("symbolic input of type " + ty["str"])

    def reader(self, name):
        if self.conc:
            r = self.conc.rng
            return Opq("reader", {"id": name, "n": 0, "data": bytes(r.getrandbits(8) for _ in range(512)),
                                  "fail": r.choice((-1, -1, -1, -1, 0, 1, 2, -2, -2, -3))})
        return Opq("reader", {"id": name, "n": 0})

    def t_FQ(self, t, name):
        return self.fq(name)

    def t_FQ2(self, t, name):
        return self.f2(name)

    def t_FR(self, t, name):
        p = self.I.alloc(RMont("r", self.e("r", name)), self.I.prog.byname[BLS + ".FRRepr"])
        return (p,)


def default_inputs(inp, c, case, prog):
    f = prog.funcs[c.name]
    args = []
    alias = case.get("alias", {})
    over = case.get("args", {})
    for i, p in enumerate(f["params"] or []):
        if i in over:
            args.append(over[i](inp) if callable(over[i]) else over[i])
        elif i in alias:
            args.append(args[alias[i]])
        else:
            args.append(inp.val(p["t"], p["n"] or "p%d" % i))
    return args


# ------------------------------------------------------------------ comparison

class Compare:
    def __init__(self, Ib, Is, first, what):
        self.b = Ib
        self.s = Is
        self.first = first          # objects below this id existed before the call
        self.c = Ib.ctx
        self.pair = {}
        self.rev = {}
        self.n = 0
        self.what = what
        self.queue = []
        self.seen = set()

    def fail(self, where, detail=""):
        raise Failed("%s: %s" % (self.what, where), detail)

    def eqint(self, x, y, where):
        self.n += 1
        c = self.c
        if isinstance(y, SomeInt):
            if isinstance(x, U) or isinstance(x, int):
                p = zp(x)
                lo, hi = c.interval(p) if isinstance(x, U) else (x, x)
                if isinstance(x, U):
                    lo, hi = max(lo, x.lo), min(hi, x.hi)
                if not (lo >= y.lo or c.prove_ge0(p - y.lo)) or not (hi <= y.hi or c.prove_ge0(pconst(y.hi) - p)):
                    self.fail(where + " stays in its range", repr(x)[:300])
                if y.f is not None and c.is_zero(c.z2e(y.f, x) - y.e) is not True:
                    self.fail(where + " has the right residue", repr(x)[:300])
                return
            self.fail(where)
        if isinstance(x, (BLen, Sgn)) or isinstance(y, (BLen, Sgn)):
            x, y = self.b.special("conv", x, y)
        if isinstance(x, bool) or isinstance(y, bool) or not isinstance(x, (int, U)) or not isinstance(y, (int, U)):
            self.fail(where, "%r vs %r" % (x, y))
        if not isinstance(x, U) and not isinstance(y, U):
            if x != y:
                self.fail(where, "%#x, specified %#x" % (x, y))
            return
        d = c.nz(zp(x) - zp(y))
        if d.is_zero():
            return
        lo, hi = c.interval(d)
        lo = max(lo, ulo(x) - uhi(y))
        hi = min(hi, uhi(x) - ulo(y))
        if lo == 0 == hi:
            return
        for f in ("q", "r"):
            if c.moddef[f] and -MOD[f] < lo and hi < MOD[f] and c.is_zero(c.z2e(f, d)) is True:
                return
        for f in ("q", "r"):
            if c.moddef[f] and c.is_zero(c.z2e(f, d)) is True and c.prove_ge0(pconst(MOD[f] - 1) - d) and c.prove_ge0(pconst(MOD[f] - 1) + d):
                return
        t = c.test(c.ceq0(d))
        if t is not True:
            self.fail(where, "%r, specified %r" % (x, y))

    def eqbool(self, x, y, where):
        self.n += 1
        ones = self.c.memo.get("one12")
        if ones:
            import c_pair
            x, y = (c_pair.again12(S(self.b, "check"), v) if isinstance(v, Cond) and v.key in ones else v for v in (x, y))
        if isinstance(x, Cond) and isinstance(y, Cond) and x.key == y.key:
            if x.neg != y.neg:
                self.fail(where)
            return
        yv = y if isinstance(y, bool) else self.c.decide(y)
        xv = x if isinstance(x, bool) else self.c.decide(x)
        if xv != yv:
            self.fail(where, "returns %s, specified %s" % (xv, yv))

    def eqe(self, x, y, where):
        self.n += 1
        c = self.c
        x, y = c.pw_simplify(x) if isinstance(x, PW) else x, c.pw_simplify(y) if isinstance(y, PW) else y
        if isinstance(x, E) and isinstance(y, E):
            if x.key() == y.key():
                return
            z = c.is_zero(x - y)
            if z is None and c.settle(c.en(x - y).atoms()):
                z = c.is_zero(c.en(x - y))
            if z is not True:
                self.fail(where, "%s; body %r, specified %r" % ("differs" if z is False else "not provably equal", x, y))
            return
        r = self.b.cdiff(x, y)
        if r is not True:
            self.fail(where, "body %r, specified %r" % (x, y))

    def val(self, t, x, y, where):
        if y is ANY or isinstance(y, AnyVal):
            return
        if isinstance(x, LazyIte):
            x = self.b.force(x)
        if isinstance(y, LazyIte):
            y = self.s.force(y)
        if isinstance(x, Poison):
            raise PoisonUse()
        if isinstance(y, Pred):
            self.n += 1
            y.f(self, x, where)
            return
        if x is y and not isinstance(x, (Ptr, Sl, tuple)):
            self.n += 1
            return
        prog = self.b.prog
        ty = prog.types[t] if not isinstance(t, tuple) else {"kind": "arr"}
        if isinstance(t, tuple) and (hasattr(x, "log") or hasattr(y, "log")):
            self.n += 1
            if not (hasattr(x, "log") and x.same(self.b, y)):
                self.fail(where)
            return
        if isinstance(t, tuple):       # slice storage
            if len(x) != len(y):
                self.fail(where + " (length)")
            for i, (a, b) in enumerate(zip(x, y)):
                self.val(t[1], a, b, "%s[%d]" % (where, i))
            return
        u = prog.ty(t)
        k = u["kind"]
        name = ty["str"]
        if isinstance(y, Big) or isinstance(x, Big):
            return self.eqint(x.v, y.v, where)
        if k == "basic":
            if u["name"] in INTKINDS:
                return self.eqint(x, y, where)
            if u["name"] in ("bool", "untyped bool"):
                return self.eqbool(x, y, where)
            if u["name"] == "string":
                self.n += 1
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        self.fail(where)
                    return
                return self.eqstr(x, y, where)
        if isinstance(x, Opq) or isinstance(y, Opq):
            self.n += 1
            if not (isinstance(x, Opq) and isinstance(y, Opq) and x.tag == y.tag):
                self.fail(where)
            return
        if isinstance(x, A12) or isinstance(y, A12):
            import tower
            self.n += 1
            x, y = tower.as_a12(self.b, x), tower.as_a12(self.s, y)
            if self.c.memo.get("folds"):
                import folds
                x, y = A12(folds.pe_norm(self.c, x.pw)), A12(folds.pe_norm(self.c, y.pw))
            if not tower.same12(self.c, x, y):
                self.fail(where, "body %r, specified %r" % (x, y))
            return
        if isinstance(x, (GP, GA)) or isinstance(y, (GP, GA)):
            from curves import cmp_abstract
            return cmp_abstract(self, t, x, y, where)
        if k == "array":
            if prog.isrep(t) or isinstance(y, (RInt, RMont)):
                return self.rep(x, y, where)
            if isinstance(x, Seq) or isinstance(y, Seq):
                self.fail(where)
            for i in range(u["len"]):
                self.val(u["elem"], self.b.sub(x, i), self.s.sub(y, i), "%s[%d]" % (where, i))
            return
        if k == "struct":
            if name == BLS + ".FQ2":
                if isinstance(x, F2) or isinstance(y, F2):
                    return self.eqe(self.b.f2(x), self.s.f2(y), where)
            for i, f in enumerate(u["fields"]):
                self.val(f["type"], self.b.sub(x, i), self.s.sub(y, i), "%s.%s" % (where, f["name"]))
            return
        if k == "ptr":
            self.n += 1
            if x is None or y is None:
                if x is not y:
                    self.fail(where + " is nil exactly when specified", "%r vs %r" % (x, y))
                return
            if not isinstance(x, Ptr):
                self.fail(where, repr(x))
            return self.ptr(x.o, x.path, y.o, y.path, where, u["elem"])
        if k == "slice":
            self.n += 1
            if isinstance(x, Seq) or isinstance(y, Seq):
                if externs.seqof(self.b, x) != externs.seqof(self.s, y):
                    self.fail(where)
                return
            lx = 0 if x is None else x.len
            ly = 0 if y is None else y.len
            if isinstance(lx, U) or isinstance(ly, U):
                self.eqint(lx, ly, where + " (length)")
                if (x.o, x.path) != (y.o, y.path) or x.o >= self.first:
                    raise ToolLimit("comparison of lists of unknown length")
                return
            if lx != ly:
                self.fail(where + " (length)", "%d vs %d" % (lx, ly))
            if lx == 0:
                return
            if y.o < self.first or x.o < self.first:
                if (x.o, x.path, x.off) != (y.o, y.path, y.off):
                    self.fail(where + " shares storage exactly as specified")
                return
            a, b = self.b.sl_items(x), self.s.sl_items(y)
            for i in range(lx):
                self.val(u["elem"], a[i], b[i], "%s[%d]" % (where, i))
            return
        if k == "interface":
            self.n += 1
            if (x is None) != (y is None):
                self.fail(where + " is nil exactly when specified", "%r vs %r" % (x, y))
            return
        raise ToolLimit("comparison at type " + name)

    def eqstr(self, x, y, where):
        def norm(s):
            out = []
            for p in s.parts if isinstance(s, Str) else (s,):
                if isinstance(p, tuple) and p[0] == "x" and isinstance(p[2], int):
                    p = "%0*x" % (p[1], p[2])
                if isinstance(p, str) and out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            return [p for p in out if p != ""]
        a, b = norm(x), norm(y)
        if len(a) != len(b):
            self.fail(where)
        for p, q in zip(a, b):
            if isinstance(p, str) or isinstance(q, str):
                if p != q:
                    self.fail(where)
            elif p[0] != q[0] or p[1] != q[1]:
                self.fail(where)
            elif p[0] == "x":
                self.eqint(p[2], q[2], where)

    def rep(self, x, y, where):
        if isinstance(y, RMont):
            return self.eqe(self.b.repfe(x, y.f), y.e, where)
        if isinstance(x, RMont) and isinstance(y, RInt) and not isinstance(y.v, (U, SomeInt)) and y.v < MOD[x.f]:
            return self.eqe(x.e, E.const(x.f, y.v * MONTINV[x.f]), where)
        yv = y.v if isinstance(y, RInt) and isinstance(y.v, SomeInt) else self.s.repint(y)
        return self.eqint(self.b.repint(x), yv, where)

    def ptr(self, xo, xp, yo, yp, where, elem):
        if xp != yp:
            self.fail(where + " points where specified")
        flex = getattr(self.s, "flex", {})
        xold, yold = xo < self.first, yo < self.first
        if yo in flex and not xold:
            # body replaced an owned sub-object by a fresh one
            pass
        elif yo in flex and xold:
            if flex[yo] is not None and flex[yo] != xo:
                self.fail(where + " keeps its own storage")
        elif xold or yold:
            if xo != yo:
                self.fail(where + " shares storage exactly as specified", "%r vs %r" % (xo, yo))
            return
        if xo in self.pair:
            if self.pair[xo] != yo:
                self.fail(where + " is not shared with another result")
            return
        if yo in self.rev:
            self.fail(where + " is shared as specified")
        self.pair[xo] = yo
        self.rev[yo] = xo
        self.queue.append((xo, yo, where, elem))

    def drain(self):
        while self.queue:
            xo, yo, where, t = self.queue.pop()
            xv, yv = self.b.mem[xo], self.s.mem[yo]
            if not isinstance(xv, Sl) and isinstance(self.b.mtype.get(xo), int):
                t = self.b.mtype[xo]
            self.val(t, xv, yv, where + " (contents)")

    def frame(self, base, names):
        """every object that existed before has the specified content"""
        flexold = set(v for v in getattr(self.s, "flex", {}).values() if v is not None)
        kept = set(self.pair)
        for o in range(1, self.first):
            if o not in self.b.mem:
                continue
            x, y = self.b.mem[o], self.s.mem[o]
            if x is y:
                continue
            if isinstance(y, Poison):
                continue
            t = self.b.mtype.get(o)
            if t is None:
                t = ("arr", self.b.prog.byname.get("uint8"))
            self.val(t, x, y, names.get(o, "object %d" % o) + " after the call")
        self.drain()


class FrameCompare(Compare):
    """only what a call leaves unchanged, and which storage its results share (property C15)

    Objects the specification leaves alone have to keep their content; of all others only the pointers count."""

    def __init__(self, Ib, Is, first, what, init):
        Compare.__init__(self, Ib, Is, first, what)
        self.init = init
        self.strict = False

    def val(self, t, x, y, where):
        if self.strict:
            return Compare.val(self, t, x, y, where)
        if y is ANY or isinstance(y, (AnyVal, Pred, GP, GA, A12, Opq, Poison, Big)):
            return
        if isinstance(x, LazyIte):
            x = self.b.force(x)
        if isinstance(y, LazyIte):
            y = self.s.force(y)
        if isinstance(x, (GP, GA, A12, Opq, Poison, Big, Pred)) or isinstance(y, (GP, GA, A12, Opq, Poison, Big, Pred)) or x is None or y is None:
            return
        prog = self.b.prog
        if isinstance(t, tuple) and (hasattr(x, "log") or hasattr(y, "log")):
            return
        if isinstance(t, tuple):
            for i, (a, b) in enumerate(zip(x, y)):
                self.val(t[1], a, b, "%s[%d]" % (where, i))
            return
        u = prog.ty(t)
        k = u["kind"]
        if k == "array":
            if prog.isrep(t) or not isinstance(x, tuple) or not isinstance(y, tuple):
                return
            for i in range(u["len"]):
                self.val(u["elem"], x[i], y[i], "%s[%d]" % (where, i))
        elif k == "struct":
            if isinstance(x, tuple) and isinstance(y, tuple):
                for i, f in enumerate(u["fields"]):
                    self.val(f["type"], x[i], y[i], "%s.%s" % (where, f["name"]))
        elif k == "ptr":
            self.n += 1
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                self.ptr(x.o, x.path, y.o, y.path, where, u["elem"])
        elif k == "slice":
            self.n += 1
            if not isinstance(x, Sl) or not isinstance(y, Sl) or not x.len or not y.len or isinstance(x.len, U) or isinstance(y.len, U):
                return
            if x.o < self.first:
                if x.o != y.o:
                    self.fail(where + " shares storage exactly as specified")
                return
            if y.o < self.first:
                return
            a, b = self.b.sl_items(x), self.s.sl_items(y)
            for i in range(min(x.len, y.len)):
                self.val(u["elem"], a[i], b[i], "%s[%d]" % (where, i))

    def ptr(self, xo, xp, yo, yp, where, elem):
        flex = getattr(self.s, "flex", {})
        if xo >= self.first and yo < self.first and yo not in flex:
            return                      # a fresh object where the specification shares one
        if xo >= self.first and xp != yp:
            return
        if yo in self.rev and xo not in self.pair:
            return                      # two objects where the specification has one
        Compare.ptr(self, xo, xp, yo, yp, where, elem)

    def frame(self, base, names):
        for o in range(1, self.first):
            if o not in self.b.mem:
                continue
            x, y = self.b.mem[o], self.s.mem[o]
            if x is y or isinstance(y, Poison):
                continue
            t = self.b.mtype.get(o)
            if t is None:
                t = ("arr", self.b.prog.byname.get("uint8"))
            self.strict = y is self.init.get(o)
            self.n += 1
            try:
                self.val(t, x, y, names.get(o, "object %d" % o) + " after the call")
            finally:
                self.strict = False
        self.drain()
