"""Symbolic interpreter for the go/ssa dump."""
import sys
from poly import P, ONE
from dom import *
from consts import *

BLS = "github.com/phoreproject/bls"


class Poison:
    def __repr__(self):
        return "Poison"


POISON = Poison()


class PoisonUse(Exception):
    def __init__(self, ifid=None):
        self.ifid = ifid


class Restart(Exception):
    """explore this case again with more verification hints"""

    def __init__(self, what):
        Exception.__init__(self, "restart")
        self.what = what


class PathClosed(Exception):
    """the path reached the head of a loop again with its invariant re-established"""

    def __init__(self, n):
        Exception.__init__(self, "closed")
        self.n = n


class GoPanic(Exception):
    def __init__(self, what):
        Exception.__init__(self, what)
        self.what = what


class Ptr:
    __slots__ = ("o", "path")

    def __init__(self, o, path=()):
        self.o = o
        self.path = path

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.o == x.o and self.path == x.path

    def __hash__(self):
        return hash((self.o, self.path))

    def __repr__(self):
        return "&%s%s" % (self.o, "".join(".%s" % x for x in self.path))


class Sl:
    """slice over an array stored at (o,path)"""
    __slots__ = ("o", "path", "off", "len", "cap")

    def __init__(self, o, path, off, ln, cap):
        self.o, self.path, self.off, self.len, self.cap = o, path, off, ln, cap

    def __repr__(self):
        return "Sl(%s%r,%s,%s,%s)" % (self.o, self.path, self.off, self.len, self.cap)

    def __eq__(self, x):
        return isinstance(x, Sl) and (self.o, self.path, self.off, self.len) == (x.o, x.path, x.off, x.len)

    def __hash__(self):
        return hash((self.o, self.path, self.off, self.len))


class Seq:
    """byte string of unknown length: parts are ('b', value) single bytes or ('s', name) opaque"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def key(self):
        return ("seq",) + tuple(p if p[0] == "s" else ("b", vkey(p[1])) for p in self.parts)

    def __eq__(self, o):
        return isinstance(o, Seq) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "Seq(%r)" % (self.parts,)


class Iface:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __repr__(self):
        return "Iface(%s,%r)" % (self.t, self.v)


class Err:
    """non-nil error"""
    __slots__ = ("msg",)

    def __init__(self, msg="error"):
        self.msg = msg

    def __repr__(self):
        return "Err(%r)" % (self.msg,)


class Opq:
    """opaque library object with python payload"""
    __slots__ = ("tag", "v")

    def __init__(self, tag, v=None):
        self.tag, self.v = tag, v

    def __repr__(self):
        return "Opq(%s,%r)" % (self.tag, self.v)


class Clo:
    __slots__ = ("fn", "b")

    def __init__(self, fn, b):
        self.fn, self.b = fn, b


class RInt:
    """[n]uint64 holding the integer v"""
    __slots__ = ("v", "n")

    def __init__(self, v, n):
        self.v, self.n = v, n

    def __repr__(self):
        return "RInt(%r)" % (self.v if isinstance(self.v, U) else hex(self.v),)


class RMont:
    """[n]uint64 holding the Montgomery form of the field element e"""
    __slots__ = ("f", "e")

    def __init__(self, f, e):
        self.f, self.e = f, e

    @property
    def n(self):
        return NL[self.f]

    def __repr__(self):
        return "RMont(%s,%r)" % (self.f, self.e)


class F2:
    """FQ2 value"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "F2(%r)" % (self.e,)


class GP:
    """projective point value given as a combination of basis points. g: 1 or 2"""
    __slots__ = ("g", "form")

    def __init__(self, g, form):
        self.g, self.form = g, form

    def __repr__(self):
        return "GP%d(%r)" % (self.g, self.form)


class GA:
    __slots__ = ("g", "form")

    def __init__(self, g, form):
        self.g, self.form = g, form

    def __repr__(self):
        return "GA%d(%r)" % (self.g, self.form)


class A12:
    """Fq12 value as a power product of opaque elements"""
    __slots__ = ("pw",)

    def __init__(self, pw):
        self.pw = pw

    def __repr__(self):
        return "A12(%r)" % (self.pw,)


class LazyIte:
    __slots__ = ("c", "a", "b", "ifid", "r")

    def __init__(self, c, a, b, ifid):
        self.c, self.a, self.b, self.ifid = c, a, b, ifid
        self.r = None


def vkey(v):
    if isinstance(v, U):
        return v.p.key()
    return v


INTKINDS = {"int": (64, True), "int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True),
            "uint": (64, False), "uint8": (8, False), "uint16": (16, False), "uint32": (32, False),
            "uint64": (64, False), "uintptr": (64, False), "byte": (8, False), "rune": (32, True),
            "untyped int": (64, True), "untyped rune": (32, True)}


class Prog:
    def __init__(self, d):
        self._heads = {}
        self.funcs = d["funcs"]
        self.types = d["types"]
        self.globals = d["globals"]
        self.files = d["files"]
        self.repo = "/repo"
        self.asmfiles = set()
        self._ipd = {}
        self._zero = {}
        self.byname = {t["str"]: i for i, t in enumerate(self.types)}

    def under(self, t):
        ty = self.types[t]
        while ty["kind"] == "named":
            t = ty["under"]
            ty = self.types[t]
        return t

    def ty(self, t):
        return self.types[self.under(t)]

    def tname(self, t):
        return self.types[t]["str"]

    def isrep(self, t):
        ty = self.ty(t)
        return ty["kind"] == "array" and ty["len"] in (4, 6) and self.types[ty["elem"]].get("name") == "uint64"

    def zero(self, t):
        if self.types[t]["str"] == "math/big.Int":
            from externs import Big
            return Big(0)
        ty = self.ty(t)
        k = ty["kind"]
        if k == "basic":
            n = ty["name"]
            if n in ("bool", "untyped bool"):
                return False
            if n in ("string", "untyped string"):
                return ""
            return 0
        if k == "array":
            if self.isrep(t):
                return RInt(0, ty["len"])
            z = self.zero(ty["elem"])
            return (z,) * ty["len"]
        if k == "struct":
            return tuple(self.zero(f["type"]) for f in ty["fields"])
        return None

    def loopheads(self, fname):
        """targets of back edges"""
        if fname not in self._heads:
            bl = self.funcs[fname]["blocks"]
            heads = set()
            color = {}
            st = [(0, iter(bl[0]["succs"] or []))]
            color[0] = 1
            while st:
                b, it = st[-1]
                for x in it:
                    if color.get(x) == 1:
                        heads.add(x)
                    elif x not in color:
                        color[x] = 1
                        st.append((x, iter(bl[x]["succs"] or [])))
                        break
                else:
                    color[b] = 2
                    st.pop()
            self._heads[fname] = heads
        return self._heads[fname]

    def loopbody(self, fname, h):
        """blocks of the loop with head h: those that reach h without leaving through it"""
        bl = self.funcs[fname]["blocks"]
        # forward reachable from h
        seen = {h}
        st = [h]
        while st:
            for x in bl[st.pop()]["succs"] or []:
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        body = {h}
        st = [p for p in bl[h]["preds"] or [] if p in seen]
        # natural loop: only back edges from blocks dominated by h count
        dom = self.dominators(fname)
        st = [p for p in st if h in dom[p]]
        while st:
            b = st.pop()
            if b in body:
                continue
            body.add(b)
            st.extend(bl[b]["preds"] or [])
        return body

    def dominators(self, fname):
        bl = self.funcs[fname]["blocks"]
        n = len(bl)
        dom = {b: set(range(n)) for b in range(n)}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in range(1, n):
                ps = bl[b]["preds"] or []
                d = set.intersection(*[dom[p] for p in ps]) if ps else set()
                d = d | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        return dom

    def ipdom(self, fname):
        """immediate post-dominators; exit = -1"""
        if fname in self._ipd:
            return self._ipd[fname]
        bl = self.funcs[fname]["blocks"]
        n = len(bl)
        import networkx as nx
        g = nx.DiGraph()
        g.add_nodes_from(range(n))
        g.add_node(-1)
        for i, b in enumerate(bl):
            su = b["succs"] or []
            if not su:
                g.add_edge(-1, i)
            for s in su:
                g.add_edge(s, i)
        r = nx.immediate_dominators(g, -1)
        r = {k: v for k, v in r.items() if k != -1}
        self._ipd[fname] = r
        return r


class Interp:
    def __init__(self, prog, ctx, contracts, nomerge=(), globals_mem=None):
        self.prog = prog
        self.ctx = ctx
        self.contracts = contracts
        self.mem = {}
        self.mtype = {}
        self.site = {}      # objects made by an instruction of the code
        self.next = 1
        self.gobj = {}
        self.nomerge = set(nomerge)
        self.steps = 0
        self.maxsteps = 6_000_000
        self.depth = 0
        self.checking = None
        self.used = set()
        self.inlined = set()
        self.line = None
        self.poisonsrc = {}
        self.callobl = []
        self.cur = []
        self.skip_contract = set()
        self.start_id = 0
        self.from_block = self.unknown = None
        self.loops = None
        self.nact = 0

    # ---------------------------------------------------------------- memory
    def alloc(self, val, t):
        o = self.next
        self.next += 1
        self.mem[o] = val
        self.mtype[o] = t
        return Ptr(o)

    def globalptr(self, name):
        if name not in self.gobj and not name.startswith(BLS):
            # variable of a library package: opaque, never changed
            k = ("extglobal", name)
            if k not in self.ctx.memo:
                self.ctx.memo[k] = -len(self.ctx.memo) - 1
            o = self.ctx.memo[k]
            if o not in self.mem:
                self.mem[o] = Opq("reader", {"id": "sys", "n": 0}) if name.endswith("rand.Reader") else Opq("lib:" + name)
                self.mtype[o] = None
            return Ptr(o)
        if name not in self.gobj:
            raise ToolLimit("unknown global " + name)
        return Ptr(self.gobj[name])

    def load(self, p):
        if p is None:
            raise GoPanic("nil pointer dereference")
        if isinstance(p, Poison):
            raise PoisonUse()
        if not isinstance(p, Ptr):
            raise ToolLimit("load through %r" % (p,))
        v = self.mem[p.o]
        if isinstance(v, LazyIte):
            v = self.force(v)
            self.mem[p.o] = v
        if isinstance(v, Poison):
            raise PoisonUse(self.poisonsrc.get(p.o))
        for i in p.path:
            v = self.sub(v, i)
            if isinstance(v, LazyIte):
                v = self.force(v)
        return v

    def sub(self, v, i):
        if isinstance(v, tuple):
            if i >= len(v) or i < 0:
                raise GoPanic("index out of range")
            return v[i]
        if isinstance(v, (RInt, RMont)):
            return self.limbs(v)[i]
        if isinstance(v, F2):
            e = self.simple_e(v.e)
            return (RMont("q", e_re(e) if i == 0 else e_im(e)),)
        if isinstance(v, LazyIte):
            return self.sub(self.force(v), i)
        if isinstance(v, Poison):
            raise PoisonUse()
        if isinstance(v, (GP, GA)):
            return self.expand_point(v)[i]
        if hasattr(v, "base") and hasattr(v, "log"):
            return v.get(self, i)
        raise ToolLimit("component %r of abstract value %r" % (i, type(v).__name__))

    def expand_point(self, v):
        raise ToolLimit("coordinates of an abstract point")

    def simple_e(self, e):
        if isinstance(e, PW):
            s = self.ctx.pw_simplify(e)
            if isinstance(s, PW):
                # opaque complex atom standing for the power product
                k = ("pwE", s.key())
                if k not in self.ctx.memo:
                    nm = self.ctx.fresh("@P")
                    self.ctx.memo[k] = E.atom("q", nm)
                    self.ctx.memo.setdefault("pwatom", {})[nm] = s
                return self.ctx.memo[k]
            return s
        return e

    def explode(self, v):
        """abstract aggregate -> tuple of components"""
        if isinstance(v, tuple):
            return v
        if isinstance(v, (RInt, RMont)):
            return self.limbs(v)
        if isinstance(v, F2):
            return (self.sub(v, 0), self.sub(v, 1))
        if isinstance(v, (GP, GA)):
            return tuple(self.expand_point(v))
        if isinstance(v, LazyIte):
            return self.explode(self.force(v))
        raise ToolLimit("cannot write into %s" % type(v).__name__)

    def store(self, p, val):
        if p is None:
            raise GoPanic("nil pointer dereference")
        if not isinstance(p, Ptr):
            if isinstance(p, Poison):
                raise PoisonUse()
            raise ToolLimit("store through %r" % (p,))
        if not p.path:
            self.mem[p.o] = val
            return
        v = self.mem[p.o]
        if isinstance(v, Poison):
            raise PoisonUse(self.poisonsrc.get(p.o))
        self.mem[p.o] = self._upd(v, p.path, val)

    def _upd(self, v, path, val):
        i = path[0]
        if hasattr(v, "base") and hasattr(v, "log"):
            return v.set(self, i, val if len(path) == 1 else self._upd(v.get(self, i), path[1:], val))
        v = self.explode(v)
        if i >= len(v):
            raise GoPanic("index out of range")
        return v[:i] + ((val if len(path) == 1 else self._upd(v[i], path[1:], val)),) + v[i + 1:]

    def limbs(self, v):
        if isinstance(v, tuple):
            return v
        c = self.ctx
        if isinstance(v, RMont):
            x = c.e_int(v.f, v.e, True)
            return c.limbs(x, NL[v.f])
        return c.limbs(v.v, v.n)

    def repint(self, v):
        """the integer held in an array of uint64"""
        c = self.ctx
        if isinstance(v, LazyIte):
            v = self.force(v)
        if isinstance(v, Poison):
            raise PoisonUse()
        if isinstance(v, RInt):
            return c.mk(v.v.p, v.v.lo, v.v.hi) if isinstance(v.v, U) else v.v
        if isinstance(v, RMont):
            return c.e_int(v.f, v.e, True)
        s = P({})
        lo = hi = 0
        for i, l in enumerate(v):
            if isinstance(l, (LazyIte, Poison)):
                l = self.force(l)
            s = s + zp(l).scale(1 << (64 * i))
            lo += ulo(l) << (64 * i)
            hi += uhi(l) << (64 * i)
        return c.mk(s, lo, hi)

    def repfe(self, v, f):
        """field element whose Montgomery form is held in v"""
        if isinstance(v, LazyIte):
            v = self.force(v)
        if isinstance(v, Poison):
            raise PoisonUse()
        if isinstance(v, RMont):
            if v.f != f:
                raise ToolLimit("field mix-up")
            return v.e
        x = self.repint(v)
        return self.int_mont_fe(x, f)

    def int_mont_fe(self, x, f):
        c = self.ctx
        if not isinstance(x, U):
            if x >= MOD[f]:
                self.obligation("field value is below the modulus", False, hex(x))
            return E.const(f, x * MONTINV[f])
        if not (x.lo >= 0 and x.hi < MOD[f]):
            ok = c.prove_ge0(pconst(MOD[f] - 1) - x.p) and c.prove_ge0(x.p)
            self.obligation("field value is below the modulus", ok, repr(x)[:300])
        return self.maybe_pw(c.z2e(f, x) * MONTINV[f])

    def maybe_pw(self, e):
        """replace the stand-in atom of a power product by the product itself"""
        pa = self.ctx.memo.get("pwatom")
        if pa and isinstance(e, E) and e.nterms() == 1 and not e.B.d:
            (k, v), = e.A.d.items()
            if len(k) == 1 and k[0][1] == 1 and k[0][0] in pa:
                return PW.of(E.const(e.f, v)) * pa[k[0][0]] if v != 1 else pa[k[0][0]]
        return e

    def f2(self, v):
        if isinstance(v, LazyIte):
            v = self.force(v)
        if isinstance(v, Poison):
            raise PoisonUse()
        if isinstance(v, F2):
            return v.e
        re = self.repfe(self.fld(v, 0)[0], "q")
        im = self.repfe(self.fld(v, 1)[0], "q")
        if isinstance(re, PW) or isinstance(im, PW):
            re, im = self.simple_e(re), self.simple_e(im)
            if isinstance(im, E) and im.is0():
                return self.maybe_pw(re)
            if isinstance(re, PW) or isinstance(im, PW):
                raise ToolLimit("power product as a component")
        return self.maybe_pw(e_from(re, im))

    def fld(self, v, i):
        x = self.sub(v, i)
        if isinstance(x, LazyIte):
            x = self.force(x)
        return x

    # ---------------------------------------------------------------- obligations
    def obligation(self, what, ok, detail=""):
        fn = self.cur[-1] if self.cur else "?"
        self.callobl.append((fn, what, bool(ok)))
        if not ok:
            raise Failed("%s: %s" % (short(fn), what), detail)

    # ---------------------------------------------------------------- calls
    def call(self, name, args):
        c = self.contracts.get(name)
        if c is not None and name not in self.skip_contract and c.callable(self, args):
            self.used.add(name)
            return c.apply(self, args)
        f = self.prog.funcs.get(name)
        if f is None or not f["blocks"]:
            from externs import EXT
            if name in EXT:
                return EXT[name](self, args)
            if f is not None:
                from asm import run_asm
                return run_asm(self, name, args)
            raise ToolLimit("no contract and no body for " + name)
        self.inlined.add(name)
        return self.run(name, args)

    def run(self, name, args, fv=()):
        f = self.prog.funcs[name]
        self.nact += 1
        env = {"$act": (self.nact, self.line or 0)}
        for p, a in zip(f["params"] or [], args):
            env[p["k"]] = a
        for p, a in zip(f["freevars"] or [], fv):
            env[p["k"]] = a
        self.depth += 1
        if self.depth > 400:
            raise ToolLimit("call depth")
        self.cur.append(name)
        try:
            r = self.blocks(name, f, env, 0, None, None)
        finally:
            self.cur.pop()
            self.depth -= 1
        assert r[0] == "ret"
        vals = r[1]
        if self.loops is not None and hasattr(self.loops, "returned"):
            self.loops.returned(self)
        if len(vals) == 0:
            return None
        if len(vals) == 1:
            return vals[0]
        return tuple(vals)

    def val(self, env, v):
        k = v["k"]
        if k == "local":
            x = env[v["n"]]
            if isinstance(x, LazyIte):
                x = self.force(x)
                env[v["n"]] = x
            return x
        if k == "const":
            c = v["v"]
            if c is None:
                t = self.prog.ty(v["t"])
                if t["kind"] in ("struct", "array"):
                    return self.prog.zero(v["t"])
                return None
            if isinstance(c, bool):
                return c
            if "i" in c:
                n = int(c["i"])
                t = self.prog.ty(v["t"])
                if t["kind"] == "basic" and t["name"] in INTKINDS:
                    w, sg = INTKINDS[t["name"]]
                    n = wrapc(n, w, sg)
                return n
            if "s" in c:
                return c["s"]
            raise ToolLimit("constant %r" % (c,))
        if k == "global":
            return self.globalptr(v["n"])
        if k == "func":
            return Clo(v["n"], ())
        raise ToolLimit("value kind " + k)

    def force(self, x):
        if isinstance(x, LazyIte):
            if x.r is None:
                a, b = x.a, x.b
                # iterative descent on the right spine
                if isinstance(a, LazyIte):
                    a = self.force(a)
                if isinstance(b, LazyIte):
                    b = self.force(b)
                try:
                    x.r = self.ite(x.c, a, b)
                except MergeFail:
                    raise PoisonUse(x.ifid)
                if isinstance(x.r, Poison):
                    raise PoisonUse(x.ifid)
            return x.r
        return x

    def ipd_of(self, name, b):
        return self.prog.ipdom(name).get(b, -1)

    def blocks(self, name, f, env, b, prev, stop):
        """run from block b (entered from prev) until block `stop` or a return"""
        bl = f["blocks"]
        while True:
            if stop is not None and b == stop:
                return ("stop", prev, env)
            blk = bl[b]
            ins = blk["ins"]
            # phis first, simultaneously
            i = 0
            newv = None
            while i < len(ins) and ins[i]["op"] == "phi":
                if newv is None:
                    newv = {}
                    pi = blk["preds"].index(prev)
                e = ins[i]["e"][pi]
                if e["k"] == "local":
                    newv[ins[i]["n"]] = env.get(e["n"], POISON)
                else:
                    newv[ins[i]["n"]] = self.val(env, e)
                i += 1
            if newv:
                env.update(newv)
            if self.loops is not None and len(blk["preds"] or ()) > 1 and b in self.prog.loopheads(name):
                self.from_block = prev
                self.loops.arrive(self, name, b, env, newv or {})
            r = self.body(name, f, env, b, ins, i, stop)
            if r[0] == "goto":
                prev, b = b, r[1]
                continue
            if r[0] == "joined":
                # arms already merged, continue at the join block after its phis
                b = r[1]
                env = r[2]
                if stop is not None and b == stop:
                    return ("stop", None, env)
                blk = bl[b]
                ins = blk["ins"]
                i = 0
                while i < len(ins) and ins[i]["op"] == "phi":
                    i += 1
                r = self.body(name, f, env, b, ins, i, stop)
                while r[0] == "joined":
                    b = r[1]
                    env = r[2]
                    if stop is not None and b == stop:
                        return ("stop", None, env)
                    ins = bl[b]["ins"]
                    i = 0
                    while i < len(ins) and ins[i]["op"] == "phi":
                        i += 1
                    r = self.body(name, f, env, b, ins, i, stop)
                if r[0] == "goto":
                    prev, b = b, r[1]
                    continue
                return r
            return r

    def body(self, name, f, env, b, ins, i, stop):
        ctx = self.ctx
        while True:
            I = ins[i]
            i += 1
            self.steps += 1
            if self.steps > self.maxsteps:
                raise ToolLimit("step limit")
            if "line" in I:
                self.line = I["line"]
            op = I["op"]
            if op == "jump":
                return ("goto", f["blocks"][b]["succs"][0])
            if op == "if":
                c = self.val(env, I["x"])
                su = f["blocks"][b]["succs"]
                if isinstance(c, bool):
                    t = c
                elif not mergeable(c):
                    t = ctx.decide(c, "%s:%s" % (short(name), I.get("line", self.line)))
                else:
                    t = ctx.test(c)
                if t is None:
                    ifid = (name, b)
                    if ifid not in self.nomerge and "ALL" not in self.nomerge and mergeable(c):
                        r = self.try_merge(name, f, env, b, c, su, ifid, stop)
                        if r is not None:
                            return r
                    t = ctx.decide(c, "%s:%s %r" % (short(name), I.get("line", self.line), c))
                return ("goto", su[0] if t else su[1])
            if op == "return":
                return ("ret", [self.val(env, x) for x in I["r"]])
            if op == "panic":
                raise GoPanic("explicit panic in %s (line %s)" % (short(name), I.get("line")))
            h = getattr(self, "op_" + op, None)
            if h is None:
                raise ToolLimit("instruction %s in %s" % (op, name))
            r = h(env, I)
            if "n" in I:
                env[I["n"]] = r

    # ---------------------------------------------------------------- merging
    def try_merge(self, name, f, env, b, c, su, ifid, stop):
        ctx = self.ctx
        J = self.ipd_of(name, b)
        if J == -1:
            return None     # only merge inside a function
        saved_mem = self.mem
        saved_next = self.next
        key = c.key
        ctx.inmerge += 1
        arms = []
        ok = True
        try:
            for val in (True, False):
                tgt = su[0] if val else su[1]
                self.mem = dict(saved_mem)
                e2 = dict(env)
                old = ctx.known.get(key)
                ctx.known[key] = (val != c.neg)
                try:
                    r = self.blocks(name, f, e2, tgt, b, J)
                    if r[0] == "stop":
                        pv, e3 = r[1], r[2]
                        # phi values of J for this arm
                        if pv is not None:
                            e3 = dict(e3)
                            newv = {}
                            for I in f["blocks"][J]["ins"]:
                                if I["op"] != "phi":
                                    break
                                e = I["e"][f["blocks"][J]["preds"].index(pv)]
                                newv[I["n"]] = e3.get(e["n"], POISON) if e["k"] == "local" else self.val(e3, e)
                            e3.update(newv)
                        arms.append((e3, self.mem))
                    else:
                        raise MergeFail("return in arm")
                finally:
                    if old is None:
                        ctx.known.pop(key, None)
                    else:
                        ctx.known[key] = old
            (e1, m1), (e2, m2) = arms
            env = self.merge_env(c, e1, e2, ifid)
            self.mem = self.merge_mem(c, m1, m2, saved_mem, env, ifid)
            return ("joined", J, env)
        except (MergeFail, GoPanic) as x:
            self.mem = saved_mem
            if ctx.inmerge > 1:
                raise MergeFail(str(x))
            self.nomerge.add(ifid)
            return None
        finally:
            ctx.inmerge -= 1

    def merge_env(self, c, e1, e2, ifid):
        out = {}
        for k, v in e1.items():
            if k in e2:
                w = e2[k]
                if v is w or (type(v) is int and type(w) is int and v == w):
                    out[k] = v
                else:
                    out[k] = LazyIte(c, v, w, ifid)
        return out

    def merge_mem(self, c, m1, m2, base, env, ifid):
        out = {}
        for o in set(m1) | set(m2):
            if o in m1 and o in m2:
                a, b = m1[o], m2[o]
                if a is b:
                    out[o] = a
                else:
                    out[o] = self.lazy_slot(c, a, b, ifid)
            else:
                out[o] = m1.get(o, m2.get(o))
        return out

    def lazy_slot(self, c, a, b, ifid):
        return LazyIte(c, a, b, ifid)

    def ite(self, c, a, b):
        """value equal to a when c holds, b otherwise"""
        if isinstance(a, LazyIte):
            a = self.force(a)
        if isinstance(b, LazyIte):
            b = self.force(b)
        if a is b:
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return POISON
        if c.neg:
            vnz, vz = a, b
        else:
            vz, vnz = a, b
        p = c.x       # vz when p == 0, vnz when p != 0
        return self.ite0(p, vz, vnz)

    def ite0(self, p, vz, vnz):
        if vz is vnz:
            return vz
        if isinstance(vz, LazyIte):
            vz = self.force(vz)
        if isinstance(vnz, LazyIte):
            vnz = self.force(vnz)
        if isinstance(vz, Poison) or isinstance(vnz, Poison):
            return POISON
        if isinstance(vz, tuple) and isinstance(vnz, tuple) and len(vz) == len(vnz):
            return tuple(self.ite0(p, x, y) for x, y in zip(vz, vnz))
        tb = (bool, Cond)
        if isinstance(vz, tb) and isinstance(vnz, tb):
            return self.ite_bool(p, vz, vnz)
        ti = (int, U)
        if isinstance(vz, ti) and isinstance(vnz, ti) and not isinstance(vz, bool):
            r = merge_poly(self.ctx, p, zp(vz), zp(vnz))
            if r is None:
                return POISON
            return self.ctx.mk(r, min(ulo(vz), ulo(vnz)), max(uhi(vz), uhi(vnz)))
        if isinstance(vz, (RInt, RMont, tuple)) and isinstance(vnz, (RInt, RMont, tuple)):
            if isinstance(vz, RMont) or isinstance(vnz, RMont):
                f = vz.f if isinstance(vz, RMont) else vnz.f
                try:
                    e = self.ite_e(p, self.repfe(vz, f), self.repfe(vnz, f))
                except Failed:
                    return POISON
                return POISON if e is None else RMont(f, e)
            x, y = self.repint(vz), self.repint(vnz)
            r = merge_poly(self.ctx, p, zp(x), zp(y))
            if r is None:
                return POISON
            n = vz.n if isinstance(vz, RInt) else len(vz)
            return RInt(self.ctx.mk(r, min(ulo(x), ulo(y)), max(uhi(x), uhi(y))), n)
        if isinstance(vz, F2) or isinstance(vnz, F2):
            try:
                e = self.ite_e(p, self.f2(vz), self.f2(vnz))
            except (Failed, ToolLimit):
                return POISON
            return POISON if e is None else F2(e)
        if isinstance(vz, (GP, GA)) or isinstance(vnz, (GP, GA)):
            g = vz if isinstance(vz, (GP, GA)) else vnz
            from curves import as_form
            try:
                fa, fb = as_form(self, vz, g), as_form(self, vnz, g)
            except (Failed, ToolLimit):
                return POISON
            r = {}
            for k in set(fa) | set(fb):
                m = merge_poly(self.ctx, p, fa.get(k, pconst(0)), fb.get(k, pconst(0)))
                if m is None:
                    return POISON
                if not m.is_zero():
                    r[k] = m
            return type(g)(g.g, r)
        if isinstance(vz, A12) and isinstance(vnz, A12):
            e = self.ite_e(p, vz.pw, vnz.pw)
            return POISON if e is None else A12(e)
        if isinstance(vz, A12) or isinstance(vnz, A12):
            from tower import as_a12
            try:
                vz, vnz = as_a12(self, vz), as_a12(self, vnz)
            except ToolLimit:
                return POISON
            e = self.ite_e(p, vz.pw, vnz.pw)
            return POISON if e is None else A12(e)
        if isinstance(vz, Ptr) and isinstance(vnz, Ptr):
            if vz == vnz:
                return vz
            return self.ite_ptr(p, vz, vnz)
        if vz == vnz:
            return vz
        return POISON

    def ite_ptr(self, p, a, b):
        """join of two pointers: a new object with the joined content; both targets
        become inaccessible"""
        if a.path or b.path or a.o < self.start_id or b.o < self.start_id:
            return POISON
        va, vb = self.mem.get(a.o), self.mem.get(b.o)
        if va is None or vb is None:
            return POISON
        v = self.ite0(p, va, vb)
        if isinstance(v, Poison):
            return POISON
        r = self.alloc(v, self.mtype[a.o])
        self.mem[a.o] = POISON
        self.mem[b.o] = POISON
        return r

    def ite_e(self, p, ez, enz):
        c = self.ctx
        if isinstance(ez, E) and isinstance(enz, E) and ez.key() != enz.key() and mono1(ez) and mono1(enz) \
                and list(ez.A.d.values()) == list(enz.A.d.values()):
            ez, enz = PW.of(ez), PW.of(enz)
        if isinstance(ez, PW) or isinstance(enz, PW):
            x, y = PW.of(ez), PW.of(enz)
            if x.ring == "12":
                if x.c != y.c:
                    return None
            elif x.c.key() != y.c.key():
                return None
            out = {}
            for k in set(x.b) | set(y.b):
                m = merge_poly(c, p, x.b[k][1] if k in x.b else pconst(0), y.b[k][1] if k in y.b else pconst(0))
                if m is None:
                    return None
                if not m.is_zero():
                    out[k] = ((x.b.get(k) or y.b.get(k))[0], m)
            return PW(x.c, out, x.ring)
        if ez.key() == enz.key():
            return ez
        at = bit_of(p)
        f = ez.f
        if at is not None:
            m = MOD[f]
            s1 = {at: P.const(1, m)}
            s0 = {at: P.const(0, m)}
            bb = E.atom(f, at)
            e1 = E(f, enz.A.subst(s1), enz.B.subst(s1))
            e0 = E(f, ez.A.subst(s0), ez.B.subst(s0))
            if e0.key() == e1.key():
                return e0
            return e0 + bb * (e1 - e0)
        z = {a: P.const(0, MOD[f]) for a in p.atoms()}
        e0 = E(f, ez.A.subst(z), ez.B.subst(z))
        e1 = E(f, enz.A.subst(z), enz.B.subst(z))
        if e0.key() == e1.key():
            return enz
        return None

    def ite_bool(self, p, vz, vnz):
        if isinstance(vz, bool) and isinstance(vnz, bool):
            if vz == vnz:
                return vz
            return Cond("eq0", p, neg=not vz)
        if isinstance(vz, Cond) and isinstance(vnz, Cond) and vz.key == vnz.key and vz.neg == vnz.neg:
            return vz
        if vnz is True and isinstance(vz, Cond) and vz.k == "eq0" and vz.neg and mergeable(vz):
            return Cond("eq0", p + vz.x, neg=True)
        if vz is False and isinstance(vnz, Cond) and vnz.k == "eq0" and vnz.neg:
            # p != 0 and q != 0 : no normal form
            return POISON
        if vnz is False and isinstance(vz, Cond) and vz.k == "eq0" and not vz.neg and mergeable(vz):
            return Cond("eq0", p + vz.x, neg=False)
        return POISON

    # ---------------------------------------------------------------- instructions
    def op_alloc(self, env, I):
        p = self.alloc(self.prog.zero(I["et"]), I["et"])
        self.site[p.o] = ("site", self.line, I.get("n"))
        return p

    def op_store(self, env, I):
        self.store(self.val(env, I["addr"]), self.val(env, I["v"]))

    def op_fieldaddr(self, env, I):
        p = self.val(env, I["x"])
        if p is None:
            raise GoPanic("nil pointer dereference")
        if isinstance(p, Poison):
            raise PoisonUse()
        if not isinstance(p, Ptr):
            raise ToolLimit("field of %r" % (p,))
        return Ptr(p.o, p.path + (I["i"],))

    def op_field(self, env, I):
        return self.fld(self.val(env, I["x"]), I["i"])

    def concrete_index(self, i, n, what="index"):
        if isinstance(i, U):
            i = self.ctx.mk(i.p, i.lo, i.hi)
        if isinstance(i, U):
            ok = self.ctx.prove_ge0(pconst(n - 1) - i.p)
            if not ok:
                raise GoPanic("index may be out of range")
            # enumerate
            k = self.ctx.choose(n, "index")
            self.ctx.assume(self.ctx.ceq0(i.p - k))
            return k
        if i < 0 or i >= n:
            raise GoPanic("index out of range [%d] with length %d" % (i, n))
        return i

    def op_indexaddr(self, env, I):
        x = self.val(env, I["x"])
        i = self.val(env, I["i"])
        if x is None:
            raise GoPanic("index of nil slice/pointer")
        if isinstance(x, Sl):
            if hasattr(self.mem.get(x.o), "log"):
                from folds import mkidx, prove_pos
                if not self.ctx.prove_ge0(zp(i)) or not prove_pos(self.ctx, zp(x.len) - zp(i)):
                    raise GoPanic("index may be out of range")
                return Ptr(x.o, x.path + (mkidx(self.ctx, zp(x.off) + zp(i)),))
            i = self.concrete_index(i, x.len)
            return Ptr(x.o, x.path + (x.off + i,))
        if isinstance(x, Ptr):
            t = self.prog.ty(I["x"]["t"])
            n = self.prog.ty(t["elem"])["len"]
            i = self.concrete_index(i, n)
            return Ptr(x.o, x.path + (i,))
        if isinstance(x, Poison):
            raise PoisonUse()
        if isinstance(x, Seq):
            raise ToolLimit("indexing a byte string of unknown length")
        raise ToolLimit("indexaddr on %r" % (x,))

    def op_index(self, env, I):
        x = self.val(env, I["x"])
        i = self.val(env, I["i"])
        if isinstance(x, str):
            i = self.concrete_index(i, len(x))
            return ord(x[i])
        t = self.prog.ty(I["x"]["t"])
        i = self.concrete_index(i, t["len"])
        return self.fld(x, i)

    def op_lookup(self, env, I):
        x = self.val(env, I["x"])
        if isinstance(x, str):
            i = self.concrete_index(self.val(env, I["i"]), len(x))
            return ord(x[i])
        raise ToolLimit("map lookup")

    def op_unop(self, env, I):
        x = self.val(env, I["x"])
        t = I["tok"]
        if t == "*":
            return self.load(x)
        if t == "!":
            return cnot(x)
        w, sg = INTKINDS[self.prog.ty(I["t"])["name"]]
        if t == "-":
            if isinstance(x, U):
                if sg:
                    raise ToolLimit("signed negation")
                return self.ctx.modW(-x.p, w)
            return wrapc(-x, w, sg)
        if t == "^":
            if isinstance(x, U):
                return self.ctx.mk(pconst((1 << w) - 1) - x.p, (1 << w) - 1 - x.hi, (1 << w) - 1 - x.lo)
            return wrapc(~x, w, sg)
        raise ToolLimit("unop " + t)

    def op_binop(self, env, I):
        x = self.val(env, I["x"])
        y = self.val(env, I["y"])
        return self.binop(I["tok"], x, y, I["x"], I["t"], I["y"])

    def special(self, tok, x, y):
        """comparisons of symbolic bit lengths and signs with constants"""
        import externs
        B, S = externs.BLen, externs.Sgn
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
        c = self.ctx
        if tok in flip:
            if isinstance(y, (B, S)) and not isinstance(x, (B, S)):
                x, y, tok = y, x, flip[tok]
            if isinstance(x, B) and isinstance(y, int):
                if tok in ("==", "!="):
                    r = externs.forkbitlen(self, x, 10 ** 9) == y
                    return r if tok == "==" else not r
                if tok == "<":
                    return self.blt(x, y)
                if tok == "<=":
                    return self.blt(x, y + 1)
                if tok == ">":
                    return cnot(self.blt(x, y + 1))
                return cnot(self.blt(x, y))
            if isinstance(x, S) and isinstance(y, int):
                p = x.p
                neg, zero, pos = (lambda: c.cge0(-p - 1)), (lambda: c.ceq0(p)), (lambda: c.cge0(p - 1))
                vals = tuple(v for v in (-1, 0, 1) if {"==": v == y, "!=": v != y, "<": v < y, "<=": v <= y, ">": v > y, ">=": v >= y}[tok])
                return {(): lambda: False, (-1,): neg, (0,): zero, (1,): pos, (-1, 0): lambda: cnot(pos()),
                        (0, 1): lambda: cnot(neg()), (-1, 1): lambda: cnot(zero()), (-1, 0, 1): lambda: True}[vals]()
        def conc(v):
            if isinstance(v, B):
                return externs.forkbitlen(self, v, 10 ** 9)
            if isinstance(v, S):
                if c.decide(c.ceq0(v.p)):
                    return 0
                return 1 if c.decide(c.cge0(v.p - 1)) else -1
            return v
        return conc(x), conc(y)

    def blt(self, b, k):
        """bitlen(v) < k"""
        if k <= 0:
            return False
        return cnot(self.ctx.cge0(b.v.p - (1 << (k - 1))))

    def binop(self, tok, x, y, xv, rt, yv=None):
        if type(x).__name__ in ("BLen", "Sgn") or type(y).__name__ in ("BLen", "Sgn"):
            r = self.special(tok, x, y)
            if not isinstance(r, tuple):
                return r
            x, y = r
        if isinstance(x, (int, U)) and not isinstance(x, bool) and isinstance(y, (int, U)) and not isinstance(y, bool):
            if tok in ("==", "!=", "<", "<=", ">", ">="):
                return self.intcmp(tok, x, y)
            nm = self.prog.ty(rt)["name"]
            w, sg = INTKINDS[nm]
            return self.intop(tok, x, y, w, sg)
        if tok in ("==", "!="):
            r = self.equal(x, y, xv)
            return r if tok == "==" else cnot(r)
        if tok == "+" and (isinstance(x, str) or type(x).__name__ == "Str") and (isinstance(y, str) or type(y).__name__ == "Str"):
            if isinstance(x, str) and isinstance(y, str):
                return x + y
            from externs import Str
            return Str((x.parts if not isinstance(x, str) else (x,)) + (y.parts if not isinstance(y, str) else (y,)))
        raise ToolLimit("binop %s on %r, %r" % (tok, type(x).__name__, type(y).__name__))

    def equal(self, x, y, xv):
        if isinstance(x, (bool, Cond)) and isinstance(y, (bool, Cond)):
            if isinstance(y, bool):
                return x if y else cnot(x)
            if isinstance(x, bool):
                return y if x else cnot(y)
            a = self.ctx.decide(x)
            return y if a else cnot(y)
        if x is None or y is None:
            return x is None and y is None
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            return x == y
        if isinstance(x, (RInt, RMont)) or isinstance(y, (RInt, RMont)):
            return self.repeq(x, y)
        if isinstance(x, F2) or isinstance(y, F2):
            return self.cdiff(self.f2(x), self.f2(y))
        if isinstance(x, tuple) and isinstance(y, tuple):
            for a, b in zip(x, y):
                r = self.equal(a, b, None) if not isinstance(a, (int, U)) else self.intcmp("==", a, b)
                if r is True:
                    continue
                if r is False or not self.ctx.decide(r):
                    return False
            return True
        if isinstance(x, Iface) and isinstance(y, Iface):
            return x.t == y.t and x.v == y.v
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if isinstance(x, (int, U)) and isinstance(y, (int, U)):
            return self.intcmp("==", x, y)
        raise ToolLimit("comparison of %r and %r" % (type(x).__name__, type(y).__name__))

    def repeq(self, x, y):
        """equality of two limb arrays"""
        c = self.ctx
        fx = x.f if isinstance(x, RMont) else None
        fy = y.f if isinstance(y, RMont) else None
        if fx and fy:
            return self.cdiff(x.e, y.e)
        if fx or fy:
            f = fx or fy
            m, o = (x, y) if fx else (y, x)
            v = self.repint(o)
            if not isinstance(v, U):
                if v >= MOD[f]:
                    return False
                return self.cdiff(m.e, E.const(f, v * MONTINV[f]))
        return c.ceq0(zp(self.repint(x)) - zp(self.repint(y)))

    def cdiff(self, a, b):
        """condition a == b for two field elements (E or power products)"""
        c = self.ctx
        a, b = c.pw_simplify(a), c.pw_simplify(b)
        if not isinstance(a, PW) and not isinstance(b, PW):
            return c.cfz(a - b)
        if a.key() == b.key():
            return True
        if isinstance(a, E) and a.is0():
            return c.cfz(b)
        if isinstance(b, E) and b.is0():
            return c.cfz(a)
        za, zb = c.cfz(a), c.cfz(b)
        za = za if isinstance(za, bool) else c.decide(za)
        zb = zb if isinstance(zb, bool) else c.decide(zb)
        if za or zb:
            return za and zb
        a, b = c.pw_simplify(a), c.pw_simplify(b)
        if not isinstance(a, PW) and not isinstance(b, PW):
            return c.cfz(a - b)
        quo = c.pw_simplify(PW.of(a) * PW.of(b).power(-1))
        if isinstance(quo, E):
            return c.cfz(quo - 1)
        t = c.pw_one(quo)
        if t is not None:
            return t
        return Cond("pwone", quo)

    def intcmp(self, tok, x, y):
        if not isinstance(x, U) and not isinstance(y, U):
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[tok]
        c = self.ctx
        if tok in ("==", "!="):
            if ulo(x) > uhi(y) or uhi(x) < ulo(y):
                r = False
            elif isinstance(x, U) and not isinstance(y, U) and x.hi == x.lo + 1 and y == x.hi:
                r = cnot(c.ceq0(zp(x) - x.lo))
            elif isinstance(y, U) and not isinstance(x, U) and y.hi == y.lo + 1 and x == y.hi:
                r = cnot(c.ceq0(zp(y) - y.lo))
            else:
                r = c.ceq0(zp(x) - zp(y))
            return r if tok == "==" else cnot(r)
        if tok == ">":
            return self.intcmp("<", y, x)
        if tok == ">=":
            return cnot(self.intcmp("<", x, y))
        if tok == "<=":
            return cnot(self.intcmp("<", y, x))
        # x < y
        if uhi(x) < ulo(y):
            return True
        if ulo(x) >= uhi(y):
            return False
        # comparisons with zero / one are (non)zero tests
        if not isinstance(x, U) and x == 0 and ulo(y) >= 0:
            return cnot(c.ceq0(zp(y)))
        if not isinstance(y, U) and y == 1 and ulo(x) >= 0:
            return c.ceq0(zp(x))
        return c.cge0(zp(y) - zp(x) - 1)

    def intop(self, tok, x, y, w, sg):
        M = 1 << w
        if not isinstance(x, U) and not isinstance(y, U):
            if tok == "+":
                r = x + y
            elif tok == "-":
                r = x - y
            elif tok == "*":
                r = x * y
            elif tok == "/":
                if y == 0:
                    raise GoPanic("division by zero")
                r = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            elif tok == "%":
                if y == 0:
                    raise GoPanic("division by zero")
                r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            elif tok == "&":
                r = x & y
            elif tok == "|":
                r = x | y
            elif tok == "^":
                r = x ^ y
            elif tok == "&^":
                r = x & ~y
            elif tok == "<<":
                if y < 0:
                    raise GoPanic("negative shift")
                r = (x << y) if y < w else 0
            elif tok == ">>":
                if y < 0:
                    raise GoPanic("negative shift")
                r = x >> min(y, w)
            else:
                raise ToolLimit("int op " + tok)
            return wrapc(r, w, sg)
        c = self.ctx
        if sg:
            if tok in ("+", "-", "*"):
                p = zp(x) + zp(y) if tok == "+" else (zp(x) - zp(y) if tok == "-" else zp(x) * zp(y))
                l, h = c.interval(p)
                if -(M // 2) <= l and h < M // 2:
                    return c.mk(p)
                if (l >= -(M // 2) or c.prove_ge0(p + M // 2)) and (h < M // 2 or c.prove_ge0(pconst(M // 2 - 1) - p)):
                    return c.mk(p, max(l, -(M // 2)), min(h, M // 2 - 1))
                raise ToolLimit("signed overflow possible")
            x, y = (c.mk(v.p, 0, v.hi) if isinstance(v, U) and v.lo < 0 and c.prove_ge0(v.p) else v for v in (x, y))
            if ulo(x) < 0 or ulo(y) < 0:
                raise ToolLimit("signed operation on symbolic value")
            w2 = w - 1
        else:
            w2 = w
        if tok == "+":
            return c.modW(zp(x) + zp(y), w, "c", ulo(x) + ulo(y), uhi(x) + uhi(y))
        if tok == "-":
            return c.modW(zp(x) - zp(y), w, "b", ulo(x) - uhi(y), uhi(x) - ulo(y))
        if tok == "*":
            return c.modW(zp(x) * zp(y), w, "w", ulo(x) * ulo(y), uhi(x) * uhi(y))
        if tok in ("<<", ">>"):
            if isinstance(y, U):
                y = c.mk(y.p, y.lo, y.hi)
            if isinstance(y, U):
                if y.hi > 2 * w:
                    k = c.decide(c.cge0(y.p - w))
                    if k:
                        return 0
                n = w if y.hi > 2 * w else y.hi + 1
                k = c.choose(n, "shift amount")
                c.assume(c.ceq0(y.p - k))
                y = k
            if not isinstance(x, U):
                return self.intop(tok, x, y, w, sg)
            if y >= w:
                return 0
            if tok == ">>":
                return c.split(x, y)[0]
            if x.hi << y < (M // 2 if sg else M):
                return c.mk(x.p.scale(1 << y), x.lo << y, x.hi << y)
            if sg:
                raise ToolLimit("signed shift may overflow")
            lowpart = c.split(x, w - y)[1]
            if not isinstance(lowpart, U):
                return lowpart << y
            return c.mk(lowpart.p.scale(1 << y), 0, M - 1)
        if tok == "&":
            if not isinstance(x, U):
                x, y = y, x
            if not isinstance(y, U):
                return self.andconst(x, y, w)
            if bitlike(x) and bitlike(y):
                if not (is_bit_atom(x) and is_bit_atom(y)) and not c.inmerge:
                    return 0 if c.decide(c.ceq0(zp(y))) else c.mk(zp(x), 0, 1)
                return c.mk(x.p * y.p, 0, 1)
            return self.opaque_bits("and", x, y, min(x.hi, y.hi))
        if tok == "&^":
            if not isinstance(y, U):
                return self.intop("&", x, (M - 1) & ~y, w, sg)
            return self.opaque_bits("andnot", x, y, uhi(x))
        if tok == "|" or tok == "^":
            if c.zsub:
                x, y = (c.mk(v.p, v.lo, v.hi) if isinstance(v, U) else v for v in (x, y))
                if not isinstance(x, U) and not isinstance(y, U):
                    return self.intop(tok, x, y, w, sg)
            for a, b in ((x, y), (y, x)):
                if not isinstance(b, U) and b == 0:
                    return a
                tz = trailing_zeros(zp(a))
                if uhi(b) < (1 << tz):
                    return c.mk(zp(a) + zp(b), ulo(a) + ulo(b), uhi(a) + uhi(b))
            # x | const : clear the bits of the constant first
            for a, b in ((x, y), (y, x)):
                if not isinstance(b, U):
                    m = self.andconst(a, b, w)
                    if tok == "|":
                        p = zp(a) - zp(m) + b
                    else:
                        p = zp(a) + b - zp(m).scale(2)
                    return c.mk(p, 0, M - 1)
            if bitlike(x) and bitlike(y):
                if not (is_bit_atom(x) and is_bit_atom(y)) and not c.inmerge:
                    y = 0 if c.decide(c.ceq0(zp(y))) else 1
                    x = c.mk(zp(x), 0, 1)
                    if y == 0:
                        return x
                    return 1 if tok == "|" else c.mk(pconst(1) - zp(x), 0, 1)
                if tok == "|":
                    return c.mk(zp(x) + zp(y) - zp(x) * zp(y), 0, 1)
                return c.mk(zp(x) + zp(y) - (zp(x) * zp(y)).scale(2), 0, 1)
            return self.opaque_bits("or" if tok == "|" else "xor", x, y, (1 << max(uhi(x).bit_length(), uhi(y).bit_length())) - 1)
        if tok in ("/", "%") and not isinstance(y, U) and y > 0:
            if y & (y - 1) == 0:
                h, l = c.split(x, y.bit_length() - 1)
                return h if tok == "/" else l
            k = ("div", zp(x).key(), y)
            if k not in c.memo:
                qa = c.zatom("dq", ulo(x) // y, uhi(x) // y)
                c.memo[k] = qa
                c.fact(zp(x) - zp(qa).scale(y), 0, y - 1)
            qa = c.memo[k]
            return qa if tok == "/" else c.mk(zp(x) - zp(qa).scale(y), 0, y - 1)
        raise ToolLimit("symbolic int op " + tok)

    def andconst(self, x, m, w):
        """x & m for constant m: sum over the runs of ones"""
        c = self.ctx
        if not isinstance(x, U):
            return x & m
        m &= (1 << max(x.hi.bit_length(), 1)) - 1
        out = P({})
        i = 0
        while m >> i:
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1:
                    j += 1
                h, _ = c.split(x, i)
                _, l = c.split(h, j - i)
                out = out + zp(l).scale(1 << i)
                i = j
            else:
                i += 1
        return c.mk(out, 0, m)

    def opaque_bits(self, tag, x, y, hi):
        c = self.ctx
        if isinstance(x, U) and isinstance(y, U) and (c.nz(x.p) - c.nz(y.p)).is_zero():
            return x if tag in ("or", "and") else 0
        k = (tag, vkey(x) if isinstance(x, U) else x, vkey(y) if isinstance(y, U) else y)
        if k not in c.memo:
            o = c.memo[k] = c.zatom("o" + tag, 0, hi)
            if tag != "andnot":
                c.memo[(tag, k[2], k[1])] = o
            if ulo(x) >= 0 and ulo(y) >= 0:
                p, q, o = zp(x), zp(y), zp(o)
                (mo, _), = o.d.items()
                if tag == "or":
                    c.orargs[mo[0][0]] = (p, q)
                elif tag == "xor":
                    c.xorargs[mo[0][0]] = p - q
                full = (1 << max(uhi(x).bit_length(), uhi(y).bit_length())) - 1
                for d in {"or": (o - p, o - q, p + q - o), "and": (p - o, q - o, o - p - q + full),
                          "xor": (p + q - o, o - p + q, o + p - q), "andnot": (p - o, o - p + q)}[tag]:
                    c.fact(d, 0, None)
                if tag == "or" and (c.differs0(p) or c.differs0(q)):
                    c.or_nonzero(mo[0][0])
        return c.memo[k]

    def op_convert(self, env, I):
        x = self.val(env, I["x"])
        if type(x).__name__ in ("BLen", "Sgn"):
            x = self.special("conv", x, 0)[0]
        ft = self.prog.ty(I["x"]["t"])
        tt = self.prog.ty(I["t"])
        if tt["kind"] == "basic" and tt["name"] in INTKINDS and isinstance(x, (int, U)):
            w, sg = INTKINDS[tt["name"]]
            if isinstance(x, U):
                if x.lo >= 0 and x.hi < (1 << (w - 1 if sg else w)):
                    return x
                if sg:
                    raise ToolLimit("signed conversion")
                return self.ctx.modW(x.p, w)
            return wrapc(x, w, sg)
        if isinstance(x, str) and tt["kind"] == "slice":
            vals = tuple(x.encode())
            p = self.alloc(vals, None)
            return Sl(p.o, (), 0, len(vals), len(vals))
        if ft["kind"] == tt["kind"]:
            return x
        raise ToolLimit("conversion to %s" % self.prog.tname(I["t"]))

    def op_changetype(self, env, I):
        return self.val(env, I["x"])

    def op_changeiface(self, env, I):
        return self.val(env, I["x"])

    def op_makeiface(self, env, I):
        v = self.val(env, I["x"])
        if isinstance(v, (Err, Opq)):
            return v
        return Iface(I["xt"], v)

    def op_typeassert(self, env, I):
        x = self.val(env, I["x"])
        if isinstance(x, Iface):
            ok = x.t == I["at"] or self.prog.tname(x.t) == self.prog.tname(I["at"])
            if self.prog.ty(I["at"])["kind"] == "interface":
                raise ToolLimit("interface assertion")
            if I["commaok"]:
                return (x.v if ok else self.prog.zero(I["at"]), ok)
            if not ok:
                raise GoPanic("type assertion")
            return x.v
        raise ToolLimit("type assertion on %r" % (x,))

    def op_extract(self, env, I):
        x = self.val(env, I["x"])
        v = x[I["i"]]
        if isinstance(v, LazyIte):
            v = self.force(v)
        return v

    def op_makeclosure(self, env, I):
        return Clo(I["fn"], tuple(self.val(env, b) for b in I["b"]))

    def op_makeslice(self, env, I):
        n = self.val(env, I["len"])
        cp = self.val(env, I["cap"])
        if isinstance(n, U) and isinstance(cp, U):
            for k, v in list(self.ctx.memo.items()):
                if isinstance(k, tuple) and k and k[0] == "seqlen" and (self.ctx.nz(v.p) - self.ctx.nz(n.p)).is_zero() and \
                   (self.ctx.nz(cp.p) - self.ctx.nz(n.p)).is_zero():
                    p = self.alloc(Seq([("s", ("zeros", k[1]))]), None)
                    return SeqRef(p.o)
            if "lists" in self.ctx.memo and (self.ctx.nz(cp.p) - self.ctx.nz(n.p)).is_zero():
                import folds
                et = self.prog.ty(I["t"])["elem"]
                return folds.make_list(self, n, self.prog.zero(et), et)
            raise ToolLimit("slice of symbolic length")
        if isinstance(n, SeqLen) or isinstance(n, U):
            raise ToolLimit("slice of unknown length")
        if isinstance(cp, U):
            if n == 0 and "lists" in self.ctx.memo and self.ctx.prove_ge0(zp(cp)):
                import folds
                et = self.prog.ty(I["t"])["elem"]
                return Sl(self.alloc(folds.Arr(pconst(0), folds.ConstArr(self.prog.zero(et))), ("arr", et)).o, (), 0, 0, cp)
            nm = self.prog.ty(self.prog.ty(I["t"])["elem"])
            if n == 0 and cp.lo >= 0 and nm.get("name") in ("uint8", "byte"):
                r = Seq(())
                self.ctx.memo.setdefault("seqown", {})[id(r)] = (r, False)
                return r
            raise ToolLimit("slice of unknown capacity")
        if n < 0 or cp < n:
            raise GoPanic("makeslice: len out of range")
        et = self.prog.ty(I["t"])["elem"]
        p = self.alloc((self.prog.zero(et),) * cp, ("arr", et))
        return Sl(p.o, (), 0, n, cp)

    def op_slice(self, env, I):
        x = self.val(env, I["x"])
        lo = self.val(env, I["lo"]) if I["lo"] else 0
        hi = self.val(env, I["hi"]) if I["hi"] else None
        mx = self.val(env, I["max"]) if I["max"] else None
        if isinstance(x, Ptr):
            n = self.prog.ty(self.prog.ty(I["x"]["t"])["elem"])["len"]
            base = Sl(x.o, x.path, 0, n, n)
        elif isinstance(x, Sl):
            base = x
        elif x is None:
            base = Sl(0, (), 0, 0, 0)
            if (lo or 0) == 0 and (hi or 0) == 0:
                return None
        elif isinstance(x, str):
            h = len(x) if hi is None else hi
            if isinstance(lo, U) or isinstance(h, U) or lo > h or h > len(x):
                raise GoPanic("slice bounds")
            return x[lo:h]
        elif isinstance(x, Seq):
            if lo == 0 and hi is None:
                return x
            raise ToolLimit("slicing a byte string of unknown length")
        else:
            raise ToolLimit("slice of %r" % (x,))
        if isinstance(base.len, U) or isinstance(base.off, U) or hasattr(self.mem.get(base.o), "log"):
            c = self.ctx
            hi = base.len if hi is None else hi
            cp = base.cap if mx is None else mx
            if not all(c.prove_ge0(y) for y in (zp(lo), zp(hi) - zp(lo), zp(cp) - zp(hi), zp(base.cap) - zp(cp))):
                raise GoPanic("slice bounds may be out of range")
            f = lambda p: c.mk(c.nz(p))
            return Sl(base.o, base.path, f(zp(base.off) + zp(lo)), f(zp(hi) - zp(lo)), f(zp(cp) - zp(lo)))
        if isinstance(lo, U) or isinstance(hi, U):
            raise ToolLimit("symbolic slice bounds")
        if hi is None:
            hi = base.len
        cp = base.cap if mx is None else mx
        if not (0 <= lo <= hi <= cp <= base.cap):
            raise GoPanic("slice bounds out of range")
        return Sl(base.o, base.path, base.off + lo, hi - lo, cp - lo)

    def op_range(self, env, I):
        raise ToolLimit("range over map or string")

    def op_rundefers(self, env, I):
        return None

    def op_slice2arrptr(self, env, I):
        raise ToolLimit("slice to array pointer")

    def op_call(self, env, I):
        c = I["call"]
        args = [self.val(env, a) for a in c["args"]]
        if "invoke" in c:
            r = self.val(env, c["recv"])
            from externs import invoke
            return invoke(self, r, c["invoke"], args, I)
        fn = c["fn"]
        if fn["k"] == "builtin":
            from externs import builtin
            return builtin(self, fn["n"], args, c["args"], I)
        if fn["k"] == "func":
            return self.call(fn["n"], args)
        f = self.val(env, fn)
        if isinstance(f, Clo):
            if f.b:
                return self.run(f.fn, args, f.b)
            return self.call(f.fn, args)
        if f is None:
            raise GoPanic("call of nil function")
        raise ToolLimit("call of %r" % (f,))

    # slice content -------------------------------------------------------------
    def sl_items(self, s):
        if s is None:
            return ()
        if isinstance(s, Seq):
            raise ToolLimit("content of a byte string of unknown length")
        if isinstance(s.len, U):
            raise ToolLimit("all entries of a list of unknown length")
        if s.len == 0:
            return ()
        base = self.load(Ptr(s.o, s.path))
        if hasattr(base, "log"):
            from folds import mkidx
            return tuple(base.get(self, mkidx(self.ctx, zp(s.off) + i)) for i in range(s.len))
        base = self.explode(base) if not isinstance(base, tuple) else base
        return tuple(base[s.off + i] for i in range(s.len))


class SeqRef:
    """a slice made with the length of a byte string of unknown length; its content is a memory object"""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o


class SeqLen:
    """length of an opaque byte string"""

    def __init__(self, s):
        self.s = s


def mono1(e):
    return not e.B.d and len(e.A.d) == 1


def short(n):
    return n.replace("github.com/phoreproject/", "")


def wrapc(n, w, sg):
    n &= (1 << w) - 1
    if sg and n >> (w - 1):
        n -= 1 << w
    return n


def trailing_zeros(p):
    t = None
    for v in p.d.values():
        k = (v & -v).bit_length() - 1
        t = k if t is None or k < t else t
    return 4096 if t is None else t


def bitlike(x):
    return ulo(x) >= 0 and uhi(x) <= 1


def is_bit_atom(x):
    return bit_of(zp(x)) is not None


def bit_of(p):
    """the atom when p is c*atom"""
    if len(p.d) == 1:
        (k, v), = p.d.items()
        if len(k) == 1 and k[0][1] == 1 and k[0][0].startswith("bit"):
            return k[0][0]
    return None


def mergeable(c):
    """zero test of a non-negative combination of single bits"""
    if not isinstance(c, Cond) or c.k != "eq0":
        return False
    for k, v in c.x.d.items():
        if v <= 0 or len(k) != 1 or k[0][1] != 1 or not k[0][0].startswith("bit"):
            return False
    return True


def merge_poly(ctx, p, pz, pnz):
    if pz == pnz:
        return pz
    at = bit_of(p)
    if at is not None:
        a1 = pnz.subst({at: pconst(1)})
        a0 = pz.subst({at: pconst(0)})
        if a0 == a1:
            return a0
        return a0 + P.atom(at) * (a1 - a0)
    z = {a: pconst(0) for a in p.atoms()}
    if pz.subst(z) == pnz.subst(z):
        return pnz
    return None
