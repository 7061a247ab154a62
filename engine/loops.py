"""Loops with an unknown number of iterations: cut at the loop head, with inductive invariants.

The invariants are drawn from templates over the integers the loop changes; a template that does not hold on
entry, or is not preserved by some iteration, is withdrawn and the function is checked again (Houdini).  What
remains is proved on entry and for every iteration.  One measure has to decrease with every iteration."""
from dom import *
from interp import *
import itertools, os, sys
DEBUG = os.environ.get('LOOPDEBUG')


def coprime_basis(c, p, r):
    """facts about the coprime pairs known on this path; returns False when contradictory"""
    p, r = c.nz(p), c.nz(r)
    if p.d and r.d and all(v % 2 == 0 for v in p.d.values()) and all(v % 2 == 0 for v in r.d.values()):
        raise Infeasible()
    if p.is_zero() and r.is_zero():
        raise Infeasible()
    if (p - r).is_zero():
        c.assume(c.ceq0(p - 1))
    elif p.is_zero():
        c.assume(c.ceq0(r - 1))
    elif r.is_zero():
        c.assume(c.ceq0(p - 1))


def lincomb(olds, news):
    """are both old polynomials integer combinations of the new ones?  (then gcd(new) divides gcd(old))"""
    ks = sorted(set().union(*[set(p.d) for p in olds + news]))
    import sympy
    A = sympy.Matrix([[n.d.get(k, 0) for n in news] for k in ks])
    for o in olds:
        b = sympy.Matrix([o.d.get(k, 0) for k in ks])
        xs = sympy.symbols("x0:2")
        sol = sympy.linsolve((A, b), *xs)
        if not sol:
            return False
        s = list(sol)[0]
        s = [v.subs({x: 0 for x in xs}) for v in s]
        if not all(v.is_integer for v in s):
            return False
    return True


class Loops:
    def __init__(self, induct, args, hints):
        self.induct = induct
        self.args = args
        self.cuts = {}
        self.gen = sum(1 for h in hints if isinstance(h, tuple) and h and (h[0] == "CUT" or h[0] == "CUTX" and h[4] != "drop"))
        for h in hints:
            if isinstance(h, tuple) and h and h[0] == "CUTX" and h[4] == "drop" and h[6] != self.gen:
                continue        # the set of changed objects has grown since
            if isinstance(h, tuple) and h and h[0] == "CUT":
                self.cut(h[1:4]).setdefault("on", True)
            elif isinstance(h, tuple) and h and h[0] == "CUTX":
                self.cut(h[1:4])[h[4]].add(h[5])
        self.visits = {}
        self.active = {}
        self.copr = []
        self.n = 0

    def cut(self, k):
        return self.cuts.setdefault(tuple(k), {"obj": set(), "phi": set(), "drop": set()})

    def sync(self, I):
        c = I.ctx
        for p, r in list(self.copr):
            coprime_basis(c, p, r)

    def arrive(self, I, name, b, env, phis):
        k = (name, b, env["$act"][1])
        act = (k, env["$act"][0])
        if k not in self.cuts:
            n, t = self.visits.get(act, (0, -1))
            t2 = len([d for d in I.ctx.taken if d < 2])
            n = n + 1 if t2 > t else n
            self.visits[act] = (n, t2)
            if n >= 4:
                heads = [h for h in I.prog.loopheads(name) if h == b or b in I.prog.loopbody(name, h)]
                raise Restart(frozenset(("CUT", name, h, k[2]) for h in heads))
            return
        if I.ctx.inmerge:
            raise MergeFail("loop head inside a merged branch")
        if act not in self.active:
            return self.enter(I, k, act, env, phis)
        self.back(I, k, act, env, phis)

    # ---- state
    def cells(self, I, k, env):
        """integer valued state changed by the loop: list of (key, polynomial, limbs)"""
        cut = self.cut(k)
        out = []
        objs = set()
        for kk, cc in self.cuts.items():
            objs |= cc["obj"]
        for o in sorted(objs):
            if o not in I.mem:
                continue
            v = I.mem[o]
            for path, r in leaves(v):
                out.append((("o", o, path), zp(I.repint(r))))
        for n in sorted(cut["phi"]):
            v = env[n]
            if isinstance(v, (int, U)) and not isinstance(v, bool):
                out.append((("p", n), zp(v)))
            else:
                for path, r in leaves(v):
                    out.append((("p", n, path), zp(I.repint(r))))
        return out

    def havoc(self, I, v, name, t=None):
        c = I.ctx
        if isinstance(v, (RInt, RMont)):
            n = v.n
            return RInt(c.zatom("", 0, (1 << (64 * n)) - 1, name="%s#0" % name), n)
        if isinstance(v, tuple):
            if len(v) in (4, 6) and all(isinstance(x, (int, U)) for x in v):
                n = len(v)
                return RInt(c.zatom("", 0, (1 << (64 * n)) - 1, name="%s#0" % name), n)
            return tuple(self.havoc(I, x, "%s_%d" % (name, i)) for i, x in enumerate(v))
        if isinstance(v, F2):
            return (self.havoc(I, I.sub(v, 0), name + "_0"), self.havoc(I, I.sub(v, 1), name + "_1"))
        if isinstance(v, bool) or isinstance(v, Cond):
            return Cond("op", None, False, ("havoc", name))
        if isinstance(v, (int, U)) and t is not None:
            lo, hi = (-(1 << 63), (1 << 63) - 1) if t else (0, W - 1)
            return c.zatom("", lo, hi, name="%s#0" % name)
        raise ToolLimit("loop changes a value of kind %s" % type(v).__name__)

    def candidates(self, cs, cut, entry=None):
        out = []
        mine = set(k for k, _ in cs if (k[0] == "o" and k[1] in cut["obj"]) or (k[0] == "p" and k[1] in cut["phi"]))
        for k, _ in cs:
            if k not in mine:
                continue
            out += [("ltm", k), ("lem", k), ("pos", k)]
            if entry is not None and zp(entry[k]).const_val() is None:
                out += [("leentry", k)]
        ks = [k for k, _ in cs]
        for x, y in itertools.permutations(ks, 2):
            out.append(("cong", x, y))
        for x, y in itertools.combinations(ks, 2):
            out.append(("copr", x, y))
        for x, y in itertools.permutations(ks, 2):
            out.append(("J", x, y))
        return [c for c in out if any(k in mine for k in c[1:])]

    def holds(self, I, cand, val, entry):
        c = I.ctx
        m, f = self.tpl["mod"], self.tpl["f"]
        x = c.nz(val[cand[1]])
        if cand[0] == "ltm":
            return c.prove_ge0(pconst(m - 1) - x)
        if cand[0] == "lem":
            return c.prove_ge0(pconst(m) - x)
        if cand[0] == "pos":
            if c.prove_ge0(x - 1):
                return True
            if c.prove_ge0(x):
                for p, q in self.copr:      # equal coprime numbers are both 1
                    d = c.nz(p) - c.nz(q)
                    if ((x - d).is_zero() or (x + d).is_zero()) and (c.test(c.ceq0(c.nz(p) - 1)) is False or c.test(c.ceq0(c.nz(q) - 1)) is False):
                        return True
            return False
        if cand[0] == "leentry":
            return c.prove_ge0(entry[cand[1]] - x)
        y = c.nz(val[cand[2]])
        if cand[0] == "cong":
            l, r = self.tpl["cong"]
            return c.is_zero(c.z2e(f, x) * l - c.z2e(f, y) * r) is True
        if cand[0] == "copr":
            if x.const_val() == 1 or y.const_val() == 1:
                return True
            for p, q in self.copr:
                if lincomb([c.nz(p), c.nz(q)], [x, y]):
                    return True
            for u, v in ((x, y), (y, x)):
                # a prime and a positive smaller number
                if u.const_val() == m and c.prove_ge0(v - 1) and c.prove_ge0(pconst(m - 1) - v):
                    return True
            return False
        if cand[0] == "J":
            if c.test(c.ceq0(x - 1)) is False:
                return True
            if c.test(c.ceq0(y - 1)) is False and self.odd(I, y):
                return True
            return False

    def odd(self, I, y):
        c = I.ctx
        cv = y.const_val()
        if cv is not None:
            return cv % 2 == 1
        for p, q in self.copr:
            for u, v in ((p, q), (q, p)):
                if (c.nz(u) - y).is_zero():
                    v = c.nz(v)
                    if v.d and all(k % 2 == 0 for k in v.d.values()):
                        return True         # coprime to an even number
        h, b = c.split(c.mk(y), 1)
        return c.test(c.ceq0(zp(b) - 1)) is True

    def enter(self, I, k, act, env, phis):
        c = I.ctx
        cut = self.cut(k)
        self.tpl = self.induct(I, self.args)
        cs = self.cells(I, k, env)
        val = dict(cs)
        self.sync(I)
        drop = set()
        for cand in self.candidates(cs, cut, val):
            if cand in cut["drop"]:
                continue
            if not self.holds(I, cand, val, val):
                drop.add(cand)
        # the J template is only useful for coprime pairs
        for cand in self.candidates(cs, cut, val):
            if cand[0] == "J" and cand not in cut["drop"] and cand not in drop:
                p = ("copr", cand[1], cand[2])
                q = ("copr", cand[2], cand[1])
                if all(z in drop or z in cut["drop"] or z not in self.candidates(cs, cut, val) for z in (p, q)):
                    drop.add(cand)
            if cand[0] == "cong" and cand not in cut["drop"] and cand not in drop:
                if ("ltm", cand[1]) in drop | cut["drop"] or uhi(c.mk(val[cand[1]])) >= self.tpl["mod"] and ("ltm", cand[1]) not in self.candidates(cs, cut, val):
                    drop.add(cand)
        if drop and DEBUG:
            print("DROP", k, I.line, drop, "\n   ", {a: c.nz(b) for a, b in val.items()}, "\n   copr", [(c.nz(x), c.nz(y)) for x, y in self.copr], "\n   facts", c.trail[-8:], file=sys.stderr)
        if drop:
            raise Restart(frozenset(("CUTX",) + k + ("drop", d, self.gen) for d in drop))
        self.n += len(cs)
        # havoc
        for o in sorted(cut["obj"]):
            I.mem[o] = self.havoc(I, I.mem[o], "L%d_%d_%d" % (k[1], len(self.active), o))
        for n in sorted(cut["phi"]):
            env[n] = self.havoc(I, env[n], "L%d_%d_%s" % (k[1], len(self.active), n), signed(I, name, b, n))
        now = dict(self.cells(I, k, env))
        m, f = self.tpl["mod"], self.tpl["f"]
        alive = [cand for cand in self.candidates(cs, cut, val) if cand not in cut["drop"]]
        for cand in alive:
            x = now[cand[1]]
            if cand[0] == "ltm":
                c.fact(x, None, m - 1)
            elif cand[0] == "lem":
                c.fact(x, None, m)
            elif cand[0] == "pos":
                c.fact(x, 1, None)
            elif cand[0] == "leentry":
                c.fact(val[cand[1]] - x, 0, None)
        for key in list(now):
            now[key] = c.nz(now[key])
        for o in cut["obj"]:
            I.mem[o] = remk(I, I.mem[o])
        for cand in alive:
            if cand[0] == "cong":
                x, y = c.nz(now[cand[1]]), c.nz(now[cand[2]])
                at = list(x.atoms())
                l, r = self.tpl["cong"]
                e = c.z2e(f, y) * r * c.e_inv(l)
                if len(at) == 1 and at[0] not in c.moddef[f] and at[0] not in e.atoms() and len(x.d) == 1:
                    c.moddef[f][at[0]] = e
                else:
                    c.congruence(f, c.z2e(f, x) - e)
        for cand in alive:
            if cand[0] == "copr":
                self.copr.append((now[cand[1]], now[cand[2]]))
        self.sync(I)
        for cand in alive:
            if cand[0] == "J":
                x, y = c.nz(now[cand[1]]), c.nz(now[cand[2]])
                if c.choose(2, "J") == 0:
                    c.assume(cnot(c.ceq0(x - 1)))
                else:
                    c.assume(c.ceq0(x - 1))
                    y = c.nz(y)
                    c.assume(cnot(c.ceq0(y - 1)))
                    if not isinstance(c.mk(y), U):
                        if c.mk(y) % 2 == 0:
                            raise Infeasible()
                    else:
                        c.assume(c.ceq0(zp(c.split(c.mk(y), 1)[1]) - 1))
        self.sync(I)
        snap = {o: v for o, v in I.mem.items()}
        self.active[act] = (dict(now), snap, dict((n, env[n]) for n in phis), val)

    def back(self, I, k, act, env, phis):
        c = I.ctx
        cut = self.cut(k)
        head, snap, ph, entry = self.active[act]
        self.sync(I)
        add = set()
        for o, v in snap.items():
            w = I.mem.get(o)
            if w is v or o in cut["obj"]:
                continue
            if not same(I, v, w):
                add.add(("CUTX",) + k + ("obj", o))
        for n, v in ph.items():
            if n not in cut["phi"] and not same(I, v, env[n]):
                add.add(("CUTX",) + k + ("phi", n))
        if add:
            raise Restart(frozenset(add))
        cs = self.cells(I, k, env)
        val = dict(cs)
        drop = set()
        for cand in self.candidates(cs, cut, entry):
            if cand not in cut["drop"]:
                self.n += 1
                if not self.holds(I, cand, val, entry):
                    drop.add(cand)
        # measures: sums of cells
        keys = [x for x, _ in cs if ("pos", x) in self.candidates(cs, cut, entry)]
        meas = [s for r in (1, 2) for s in itertools.combinations(keys, r)]
        good = 0
        for s in meas:
            if ("meas", s) in cut["drop"]:
                continue
            d = P({})
            for x in s:
                d = d + c.nz(head[x]) - c.nz(val[x])
            if c.prove_ge0(d - 1):
                good += 1
            else:
                drop.add(("meas", s))
        if not good and not [d for d in drop if d[0] != "meas"]:
            raise Failed("%s: the loop at line %s terminates" % (short(k[0]), I.line), "proved: %s" % [x for x in self.candidates(cs, cut, entry) if x not in cut["drop"]])
        if drop and DEBUG:
            print("DROP", k, I.line, drop, "\n   ", {a: c.nz(b) for a, b in val.items()}, "\n   copr", [(c.nz(x), c.nz(y)) for x, y in self.copr], "\n   facts", c.trail[-8:], file=sys.stderr)
        if drop:
            raise Restart(frozenset(("CUTX",) + k + ("drop", d, self.gen) for d in drop))
        raise PathClosed(self.n)


def leaves(v, path=()):
    if isinstance(v, (RInt, RMont)):
        yield path, v
    elif isinstance(v, tuple):
        if len(v) in (4, 6) and all(isinstance(x, (int, U)) and not isinstance(x, bool) for x in v):
            yield path, v
        else:
            for i, x in enumerate(v):
                yield from leaves(x, path + (i,))


def remk(I, v):
    if isinstance(v, RInt):
        return RInt(I.repint(v), v.n)
    if isinstance(v, tuple):
        return tuple(remk(I, x) for x in v)
    return v


def same(I, a, b):
    if a is b:
        return True
    if isinstance(a, LazyIte):
        a = I.force(a)
    if isinstance(b, LazyIte):
        b = I.force(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(I, x, y) for x, y in zip(a, b))
    if isinstance(a, (RInt, RMont, tuple)) and isinstance(b, (RInt, RMont, tuple)):
        return I.ctx.nz(zp(I.repint(a)) - zp(I.repint(b))).is_zero()
    if isinstance(a, (int, U)) and isinstance(b, (int, U)) and not isinstance(a, bool):
        return I.ctx.nz(zp(a) - zp(b)).is_zero()
    if isinstance(a, Cond) and isinstance(b, Cond):
        return a.key == b.key and a.neg == b.neg
    return a == b


# ---------------------------------------------------------------- loops over the bits of an integer

def signed(I, name, b, v):
    """is the integer a loop head carries of a signed type?"""
    for ins in I.prog.funcs[name]["blocks"][b]["ins"]:
        if ins.get("n") == v and "t" in ins:
            u = I.prog.ty(ins["t"])
            return u["kind"] == "basic" and INTKINDS.get(u["name"], (0, False))[1]
    return True


class Scan:
    """the bits of x, of unknown number n; pre(k) = floor(x / 2^k), pre(n) = 0, pre(k) = 2 pre(k+1) + bit(k)"""

    def __init__(self, c, x, width=None, n=None):
        """width: bits x has at most; None for no bound (their number still fits an int); n: their number, when given"""
        self.c = c
        self.x = zp(x)
        self.top = PINF if width is None else (1 << width) - 1
        self.width = 1 << 62 if width is None else width
        self.n = zp(c.zatom("", 0, self.width, name="bitlen#0")) if n is None else zp(n)
        self.octets = None         # number of bytes, for the bits of a byte string
        self.tab = {}
        self.setpre(self.n, pconst(0))

    def is_x(self, x):
        return isinstance(x, U) and self.c.nz(x.p).key() == self.c.nz(self.x).key()

    def pre(self, k):
        k = self.c.nz(k)
        if k.const_val() == 0:
            return self.x
        for q, p in self.tab.values():
            if (self.c.nz(q) - k).is_zero():
                return p
        if k.key() not in self.tab:
            a = self.c.zatom("", 0, self.top, name="pre_%d#0" % len(self.tab))
            self.tab[k.key()] = (k, zp(a))
        return self.tab[k.key()][1]

    def setpre(self, k, v, p=None):
        p = self.c.nz(self.pre(k) if p is None else p)
        if (p - self.c.nz(v)).is_zero():
            return
        (m, cf), = p.d.items() if len(p.d) == 1 else ((None, None),)
        if m is None or len(m) != 1 or cf != 1:
            raise ToolLimit("bit prefix defined twice")
        self.c.setz(m[0][0], v)

    def bit(self, k):
        """the bit as a 0/1 integer"""
        c = self.c
        k = c.nz(zp(k))
        key = ("scanbit", k.key())
        if key not in c.memo:
            b = c.zatom("", 0, 1, name="bitscan_%d#0" % len(self.tab))
            c.memo[key] = b
            self.setpre(k, self.pre(k + 1).scale(2) + zp(b))
        return c.memo[key]

    def byte(self, p):
        """the byte at index p of a byte string; its low end is the next bit"""
        c = self.c
        out = P({})
        for j in range(8):
            out = out + zp(self.bit(self.n - zp(p).scale(8) - 1 - j)).scale(1 << j)
        return c.mk(out, 0, 255)

    def unify(self):
        """prefixes that turn out to be the same"""
        c = self.c
        t = list(self.tab.values())
        for i, (k, p) in enumerate(t):
            for q, r in t[:i]:
                if (c.nz(q) - c.nz(k)).is_zero() and not (c.nz(p) - c.nz(r)).is_zero():
                    d = c.nz(p)
                    if len(d.d) != 1 or any(len(m) != 1 or v != 1 for m, v in d.d.items()):
                        p, r = r, p
                    self.setpre(k, r, p)

    def finish(self):
        c = self.c
        if self.octets is not None:
            self.unify()
        for k, p in list(self.tab.values()):
            d = c.nz(k)
            if not (d.is_zero() or c.prove_ge0(d) and c.prove_ge0(-d)):
                continue
            if not c.nz(p).is_zero():
                self.setpre(k, self.x, p)
            elif self.octets is not None and c.nz(self.x).const_val() is None:
                self.setpre(k, p, self.x)


class ScanLoops:
    """cuts a loop whose abstract state is a function of the bits read so far"""

    def __init__(self, tpl, hints):
        self.tpl = tpl
        self.scan = tpl["scan"]
        self.drop = set()
        self.obj = {}
        for h in hints:
            if isinstance(h, tuple) and h and h[0] == "SCUT":
                (self.drop if h[2] == "drop" else self.obj.setdefault(h[1], set())).add((h[1], h[3]) if h[2] == "drop" else h[3])
        self.plain = {h[1] for h in hints if isinstance(h, tuple) and h and h[0] == "SPLAIN"}
        self.active = {}
        self.copr = []
        self.n = 0

    def ints(self, env, phis):
        return [n for n in sorted(phis) if isinstance(env[n], (int, U)) and not isinstance(env[n], bool)]

    def idx(self, ints, env):
        n = self.scan.n
        out = []
        for v in ints:
            x = zp(env[v])
            out += [((v, "n-i"), n - x), ((v, "i"), x), ((v, "i+1"), x + 1), ((v, "n-1-i"), n - x - 1)]
            if self.scan.octets is not None:
                out.append(((v, "n-8i"), n - x.scale(8)))
                out.append(((v, "n-8-8i"), n - x.scale(8) - 8))
        return out

    INT = ("ge0", "gem1", "len", "lenm1", "olen", "olenm1")

    def intinv(self, kind, x):
        n = self.scan.n
        if kind == "olen":
            return n - x if self.scan.octets is None else self.scan.octets - x
        if kind == "olenm1":
            return n - 1 - x if self.scan.octets is None else self.scan.octets - 1 - x
        return {"ge0": x, "gem1": x + 1, "len": n - x, "lenm1": n - 1 - x}[kind]

    def cells(self, I, key, env, phis):
        """abstract values: pointers carried by the loop, and objects it updates in place"""
        out = []
        for n in sorted(phis):
            v = env[n]
            if isinstance(v, (int, U)) and not isinstance(v, bool):
                continue
            out.append((("p", n), v))
        for o in sorted(self.obj.get(key, ())):
            out.append((("o", o), I.mem[o]))
        return out

    def choice(self, key, cell, cands):
        for tag, k in cands:
            if (key, ("cell", cell, tag)) not in self.drop:
                return tag, k
        if self.scan.octets is not None and any(a is not None and k != key for (k, _), a in self.active.items()):
            raise Restart(frozenset([("SPLAIN", key)]))      # an inner loop: go through its iterations
        raise ToolLimit("no invariant for the loop")

    def value(self, I, v):
        if isinstance(v, LazyIte):
            v = I.force(v)
        return I.load(v) if isinstance(v, Ptr) else v

    def arrive(self, I, name, b, env, phis):
        if I.ctx.inmerge:
            raise MergeFail("loop head inside a merged branch")
        key = (name, b, env["$act"][1])
        act = (key, env["$act"][0])
        c = I.ctx
        back = act in self.active
        if back and self.active[act] is None:
            return
        if key in self.plain:
            self.active[act] = None
            return
        ints = self.ints(env, phis)
        if not back and not any(b in I.prog.loopbody(name, h) and self.active.get(((name, h, key[2]), act[1])) for h in I.prog.loopheads(name) if h != b) and not self.applies(I, env, phis):
            self.active[act] = None
            return
        cells = self.cells(I, key, env, phis)
        cands = self.idx(ints, env)
        if self.scan.octets is not None:
            self.scan.unify()
        drop = set()
        for v in ints:
            for kind in self.INT:
                if (key, (kind, v)) not in self.drop:
                    self.n += 1
                    if not c.prove_ge0(self.intinv(kind, zp(env[v]))):
                        drop.add((kind, v))
        for cell, v in cells:
            tag, k = self.choice(key, cell, cands)
            self.n += 1
            if not self.tpl["match"](I, self.value(I, v), self.scan.pre(k)):
                if DEBUG:
                    print("SCAN drop", cell, tag, self.value(I, v), c.nz(self.scan.pre(k)), "back" if back else "entry", file=sys.stderr)
                drop.add(("cell", cell, tag))
        if back:
            head, snap, ph = self.active[act]
            add = set()
            for o, v in snap.items():
                w = I.mem.get(o)
                if w is not v and o not in self.obj.get(key, ()) and not same(I, v, w):
                    add.add(("SCUT", key, "obj", o))
            if add:
                raise Restart(frozenset(add))
            good = False
            for v in ints:
                for kind, m0, m1 in (("up", self.scan.n - head[v], self.scan.n - zp(env[v])), ("down", head[v], zp(env[v]))):
                    if c.prove_ge0(m0 - m1 - 1) and c.prove_ge0(m0 + 1):
                        good = True
            self.n += 1
            if not good and not drop:
                raise Failed("%s: the loop at line %s terminates" % (short(name), I.line))
        if drop:
            raise Restart(frozenset(("SCUT", key, "drop", d) for d in drop))
        if back:
            raise PathClosed(self.n)
        # arbitrary iteration
        for v in ints:
            neg = signed(I, name, b, v)
            a = c.zatom("", -(1 << 63) if neg else 0, (1 << 63) - 1 if neg else W - 1, name="L%d_%s#0" % (b, v))
            for kind in self.INT:
                if (key, (kind, v)) not in self.drop:
                    c.fact(self.intinv(kind, zp(a)), 0, None)
            env[v] = c.mk(a.p, a.lo, a.hi)
        cands = self.idx(ints, env)
        for cell, v in cells:
            tag, k = self.choice(key, cell, cands)
            k = self.scan.pre(k)
            new = self.tpl["value"](I, self.value(I, v), k)
            if cell[0] == "o":
                I.mem[cell[1]] = new
            elif isinstance(I.force(v) if isinstance(v, LazyIte) else v, Ptr):
                v = I.force(v) if isinstance(v, LazyIte) else v
                env[cell[1]] = I.alloc(new, I.mtype[v.o])
            else:
                env[cell[1]] = new
        self.active[act] = ({v: zp(env[v]) for v in ints}, dict(I.mem), {n: env[n] for n in phis})

    def applies(self, I, env, phis):
        """does the loop carry the abstract state?"""
        return bool(self.ints(env, phis))

    def sync(self, I):
        pass


def scan_of(c):
    return c.memo.get("scan")


# ---------------------------------------------------------------- search loops

class SearchLoop:
    """A loop that tries candidates until one is accepted.

    At the loop head every object (or loop variable) that holds the start value is replaced by the k-th candidate
    for an arbitrary k; all other state has to be unchanged when the head is reached again, where those objects
    have to hold candidate k+1 and the k-th has to be one the specification rejects."""
    make = True

    def __init__(self, I, start, nth, succ, rejected):
        self.start, self.nth, self.succ, self.rejected = start, nth, succ, rejected
        self.at = None

    def sync(self, I):
        pass

    def elem(self, I, v):
        """the field element a value or the object it points to holds"""
        if isinstance(v, LazyIte):
            v = I.force(v)
        if isinstance(v, Ptr):
            v = I.load(v)
            if isinstance(v, LazyIte):
                v = I.force(v)
        try:
            if isinstance(v, (F2, tuple)) and not isinstance(v, Ptr):
                return I.ctx.en(I.simple_e(I.f2(v)))
        except Exception:
            return None
        return None

    def eq(self, I, v, e):
        x = self.elem(I, v)
        return x is not None and I.ctx.is_zero(x - I.ctx.en(e)) is True

    def put(self, I, v, e):
        if isinstance(v, Ptr):
            I.store(v, F2(e))
            return v
        return F2(e)

    def arrive(self, I, name, b, env, phis):
        act = (name, b, env["$act"][0])
        if I.ctx.inmerge:
            raise MergeFail("loop head inside a merged branch")
        if self.at is None:
            if not any(isinstance(env[n], Ptr) or self.eq(I, env[n], self.start) for n in phis) and \
               not any(o >= I.start_id and self.eq(I, v, self.start) for o, v in I.mem.items() if isinstance(v, (F2, tuple))):
                return                       # some other loop
            self.at = act
            n = 0
            for o, v in list(I.mem.items()):
                if o >= I.start_id and isinstance(v, (F2, tuple)) and self.eq(I, v, self.start):
                    I.mem[o] = F2(self.nth)
                    n += 1
            for p in phis:
                if not isinstance(env[p], Ptr) and self.eq(I, env[p], self.start):
                    env[p] = F2(self.nth)
                    n += 1
            if not n:
                self.at = None
                return
            self.snap = dict(I.mem)
            self.ph = {p: env[p] for p in phis}
            return
        if act != self.at:
            return
        for o, v in self.snap.items():
            if o < I.start_id and o not in I.mem:
                continue
            w = I.mem.get(o)
            if isinstance(v, (F2, tuple)) and o >= I.start_id and self.eq(I, v, self.nth):
                if not self.eq(I, w, self.succ) and not any(
                        isinstance(self.ph[p], Ptr) and self.ph[p].o == o and self.eq(I, env[p], self.succ) for p in self.ph):
                    raise Failed("%s: each iteration tries the next candidate" % short(name), str(self.elem(I, w))[:300])
            elif w is not v and not same(I, v, w):
                raise Failed("%s: an iteration changes only the candidate" % short(name), "object %s" % I.mtype.get(o))
        for p, v in self.ph.items():
            w = env[p]
            if self.eq(I, v, self.succ):
                if not self.eq(I, w, self.succ):
                    raise Failed("%s: each iteration tries the next candidate" % short(name), "")
            elif isinstance(v, Ptr) and self.eq(I, w, self.succ):
                pass
            elif not isinstance(v, Ptr) and self.eq(I, v, self.nth):
                if not self.eq(I, w, self.succ):
                    raise Failed("%s: each iteration tries the next candidate" % short(name), "")
            elif not same(I, v, w):
                raise Failed("%s: an iteration changes only the candidate" % short(name), "variable %s" % p)
        if not self.rejected():
            raise Failed("%s: a suitable candidate is used" % short(name), "")
        raise PathClosed(2)


class DrawLoop:
    """A rejection loop: nothing but the source of randomness is carried from one iteration to the next.

    The head is reached again only with all state unchanged (so every iteration is an arbitrary one: the values it
    draws are arbitrary) and only when no read has failed."""
    make = True

    def __init__(self, I, args):
        self.at = None

    def sync(self, I):
        pass

    def arrive(self, I, name, b, env, phis):
        act = (name, b, env["$act"][0])
        if I.ctx.inmerge:
            raise MergeFail("loop head inside a merged branch")
        if self.at is None:
            self.at = act
            self.snap = dict(I.mem)
            self.ph = {p: env[p] for p in phis}
            return
        if act != self.at:
            return
        for o, v in self.snap.items():
            w = I.mem.get(o)
            if w is not v and not same(I, v, w):
                raise Failed("%s: a rejected draw changes nothing" % short(name), "object %s" % (I.mtype.get(o),))
        for p, v in self.ph.items():
            if not same(I, v, env[p]):
                raise Failed("%s: a rejected draw changes nothing" % short(name), "variable %s" % p)
        if I.ctx.memo.get("readfailed"):
            raise Failed("%s: a failing reader gives an error" % short(name), "")
        raise PathClosed(2)
