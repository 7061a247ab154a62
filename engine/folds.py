"""Lists of unknown length, and loops over them.

A list is a memory object holding an Arr; its entry at index k is one of a few slots made before the call (or an entry
written by the code under check).  What a loop accumulates over the list is described by a prefix fold F:
F(0) = neutral element, F(k+1) = F(k) + entry(k).  A loop over the list is cut at its head: every accumulator has to hold
F(k), or F(n) - F(k), for one of a few index expressions k (dropped when it does not hold on entry or after some
iteration, and checked again)."""
from dom import *
from interp import *
import interp as _ip
import curves
from curves import fadd, fscale, gz, reduce, as_form, set_order, order
import loops
from loops import same, DEBUG, signed
import sys

NSLOT = 5
MAXLEN = 1 << 40


class Idx:
    """index that is not a constant, as part of a path"""
    __slots__ = ("p", "k")

    def __init__(self, p):
        self.p = p
        self.k = p.key()

    def __eq__(self, x):
        return isinstance(x, Idx) and x.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "[%r]" % (self.p,)


def mkidx(c, p):
    p = c.nz(zp(p))
    v = p.const_val()
    return v if v is not None else Idx(p)


def ipoly(i):
    return i.p if isinstance(i, Idx) else pconst(i)


class Info:
    """an input list: its length, and the slots that stand for the entries looked at"""

    def __init__(self, lid, n, slots):
        self.lid, self.n, self.slots = lid, n, slots

    def slot(self, c, p):
        b = c.memo.setdefault(("slots", self.lid), [])
        p = c.nz(p)
        for j, q in enumerate(b):
            if (c.nz(q) - p).is_zero():
                return j
        if len(b) >= len(self.slots):
            raise ToolLimit("too many different entries of a list are looked at")
        b.append(p)
        for f in list(c.memo.get("folds", {}).values()):
            if self.lid in getattr(f, "lids", ()):
                f.touch(p)
        return len(b) - 1

    def get(self, I, p):
        return self.slots[self.slot(I.ctx, p)]

    def key(self):
        return ("in", self.lid)


class Arr:
    """content of a list: a default for every index, and what has been written over it"""
    __slots__ = ("n", "base", "log")

    def __init__(self, n, base, log=()):
        self.n, self.base, self.log = n, base, log

    def get(self, I, i):
        c = I.ctx
        p = c.nz(ipoly(i))
        for q, v in self.log:
            d = c.nz(q) - p
            if d.is_zero():
                return v
            if not differs(c, d):
                raise ToolLimit("entry of a list that may have been overwritten")
        return self.base.get(I, p)

    def set(self, I, i, v):
        c = I.ctx
        p = c.nz(ipoly(i))
        out = []
        for q, w in self.log:
            d = c.nz(q) - p
            if d.is_zero():
                continue
            if not differs(c, d):
                raise ToolLimit("entry of a list that may have been written before")
            out.append((q, w))
        return Arr(self.n, self.base, tuple(out) + ((p, v),))

    def same(self, I, x):
        if not isinstance(x, Arr):
            return False
        if self.base.key() != x.base.key():
            return False
        for a, b in ((self, x), (x, self)):
            for q, v in a.log:
                try:
                    if not same(I, v, b.get(I, mkidx(I.ctx, q))):
                        return False
                except ToolLimit:
                    return False
        return True


class ByteList:
    """content of a byte string of unknown length"""

    def __init__(self, c, lid, n):
        self.lid, self.n = lid, zp(n)
        self.low = c.zatom("", 0, PINF, name="%s_bits#0" % (lid,))     # read from the low end of each byte
        self.big = c.zatom("", 0, PINF, name="%s_big#0" % (lid,))      # big-endian

    def get(self, I, p):
        sc = I.ctx.memo.get("scan")
        if sc is None or not sc.is_x(self.low):
            raise ToolLimit("entry of a byte string of unknown length")
        return sc.byte(p)

    def key(self):
        return ("bytes", self.lid)


def bytelist(c, lid, n=None):
    k = ("bytelist", lid)
    if k not in c.memo:
        c.memo[k] = ByteList(c, lid, c.zatom("", 0, MAXLEN, name="%s_len#0" % (lid,)) if n is None else n)
    return c.memo[k]


def newbytelist(I, lid):
    b = bytelist(I.ctx, lid)
    n = I.ctx.mk(b.n, 0, MAXLEN)
    o = I.alloc(Arr(b.n, b), ("arr", I.prog.byname.get("uint8", I.prog.byname.get("byte")))).o
    return Sl(o, (), 0, n, n)


def bytelist_of(I, sl):
    """the byte string a slice covers in full"""
    a = arr_of(I, sl)
    if a is None:
        return None
    c = I.ctx
    if not isinstance(a.base, ByteList) or a.log or sl.off != 0 or not (c.nz(zp(sl.len)) - c.nz(a.n)).is_zero():
        raise ToolLimit("part of a byte string of unknown length")
    return a.base


def prove_pos(c, p):
    return c.prove_ge0(p - 1) or c.prove_ge0(p) and c.test(c.ceq0(p)) is False


def differs(c, d):
    d = c.nz(d)
    return c.prove_ge0(d - 1) or c.prove_ge0(-d - 1) or c.test(c.ceq0(d)) is False


def arr_of(I, sl):
    """the list a slice covers in full, or None"""
    if not isinstance(sl, Sl):
        return None
    v = I.mem.get(sl.o)
    if isinstance(v, LazyIte):
        v = I.force(v)
    return v if isinstance(v, Arr) and not sl.path else None


# ---------------------------------------------------------------- folds

class Fold:
    def __init__(self, c, tag, n, lids):
        self.c, self.tag, self.n, self.lids = c, tag, zp(n), lids
        self.tab = []
        self.defs = {}
        self.alias = {}
        self.ver = None
        self.width = None

    def node(self, p):
        """id of the prefix of length p; None for the empty one"""
        c = self.c
        p = c.nz(zp(p))
        if p.is_zero():
            return None
        for q, i in self.tab:
            if (c.nz(q) - p).is_zero():
                return i
        i = len(self.tab)
        self.tab.append((p, i))
        self.new(i)
        return i

    def touch(self, p):
        """entry p is being looked at: relate the prefixes around it"""
        k1 = self.node(zp(p) + 1)
        if k1 is None or k1 in self.defs or k1 in self.alias:
            return
        self.defs[k1] = (self.node(p), p)
        self.define(k1, self.defs[k1][0], p)

    def stamp(self):
        c = self.c
        return (c.zver, len(c.facts), len(c.taken), len(self.tab), len(self.defs))

    def finish(self):
        """identify prefixes of equal length"""
        v = self.stamp()
        if v == self.ver:
            return
        self.ver = v
        c = self.c
        for q, i in reversed(self.tab):
            if i in self.alias or i in self.defs:
                continue
            d = c.nz(q)
            if d.is_zero() or len(d.d) and c.prove_ge0(-d) and c.prove_ge0(d):
                self.alias[i] = None
                self.setalias(i, None)
                continue
            for r, j in sorted(self.tab, key=lambda t: t[1]):
                if j == i or j in self.alias:
                    continue
                d = c.nz(q) - c.nz(r)
                if (d.is_zero() or c.prove_ge0(d) and c.prove_ge0(-d)) and not self.reaches(j, i):
                    self.alias[i] = j
                    self.setalias(i, j)
                    break
        self.ver = self.stamp()

    def reaches(self, j, i):
        while j is not None:
            if j == i:
                return True
            j = self.defs[j][0] if j in self.defs else self.alias.get(j)
        return False


class SumFold(Fold):
    """sum of the points of a list; step(slot) is the point an entry stands for"""

    def __init__(self, c, g, info, sub):
        Fold.__init__(self, c, ("sum", info.lid), info.n, (info.lid,))
        self.g, self.info, self.sub = g, info, sub

    def base(self, i):
        return ("pre", self.info.lid, i)

    def new(self, i):
        if self.sub:
            set_order(self.c, self.g, self.base(i), curves.R_ORD)

    def form(self, i):
        return {} if i is None else {self.base(i): pconst(1)}

    def pre(self, p):
        return self.form(self.node(p))

    def define(self, k1, k0, p):
        self.set(k1, fadd(self.form(k0), self.info.forms[self.info.slot(self.c, p)]))

    def setalias(self, i, j):
        self.set(i, self.form(j))

    def set(self, i, f):
        c = self.c
        b = (self.g, self.base(i))
        sub = c.memo.setdefault("gsub", {})
        old = sub.get(b)
        o = order(c, self.g, b[1])
        forms = [(k, x) for k, x in c.memo.get("gzforms", {}).items() if b[1] in x and k in c.known]
        sub[b] = f
        I = c.memo["foldI"]
        if old is not None:
            self.say(I, fadd(f, old, -1), True)
        if o not in (curves.R_ORD, curves.NPT[self.g]):
            self.say(I, fscale(f, o), True)
        for k, x in forms:
            self.say(I, x, c.known[k])

    def say(self, I, f, val):
        z = gz(I, self.g, f)
        if isinstance(z, bool):
            if z != val:
                raise Infeasible()
            return
        self.c.assume(z if val else cnot(z))


class ProdFold(Fold):
    """product of pairings over two lists; step(p) gives the two points of entry p"""

    def __init__(self, c, tag, n, lids, step):
        Fold.__init__(self, c, tag, n, lids)
        self.step = step

    def base(self, i):
        return ("pe", self.tag, i)

    def new(self, i):
        import c_pair
        c_pair.nzset(self.c).add(self.base(i))

    def form(self, i):
        return PW(1, {} if i is None else {self.base(i): (self.base(i), pconst(1))}, "12")

    def pre(self, p):
        return self.form(self.node(p))

    def define(self, k1, k0, p):
        self.c.memo.setdefault("pesub", {})[self.base(k1)] = lambda: self.form(k0) * self.step(p)

    def setalias(self, i, j):
        self.c.memo.setdefault("pesub", {})[self.base(i)] = lambda: self.form(j)


def finish(c):
    fs = c.memo.get("folds")
    if (fs or c.memo.get("ghosts")) and not c.memo.get("infinish"):
        c.memo["infinish"] = True
        try:
            for f in list(fs.values()) if fs else ():
                if hasattr(f, "finish"):
                    f.finish()
            for g in c.memo.get("ghosts", ()):
                g.finish(c)
        finally:
            c.memo["infinish"] = False


def pe_norm(c, pw):
    """prefix products replaced by what they are known to be"""
    if not c.memo.get("folds"):
        return pw
    finish(c)
    sub = c.memo.get("pesub", {})
    for _ in range(50):
        hit = [k for k in pw.b if k in sub]
        if not hit:
            return pw
        for k in hit:
            e = pw.b[k][1]
            rest = PW(pw.c, {x: y for x, y in pw.b.items() if x != k}, "12")
            pw = rest * sub[k]().power(e)
    raise ToolLimit("cyclic prefix product")


def sum_fold(s, g, info):
    c = s.c
    fs = c.memo.setdefault("folds", {})
    c.memo["foldI"] = s.I
    k = ("sum", info.lid)
    if k not in fs:
        fs[k] = SumFold(c, g, info, info.sub)
    return fs[k]


# ---------------------------------------------------------------- loops

class NotFresh(Exception):
    pass


class FoldLoops:
    make = True
    OFF = (0, 1, 2)


    def __init__(self, I, hints):
        self.cuts, self.drop, self.obj, self.phi, self.peel = set(), set(), {}, {}, {}
        self.unroll, self.tmpl, self.delta = set(), {}, {}
        for h in hints:
            if isinstance(h, tuple) and h and h[0] == "FCUT":
                if h[2] == "on":
                    self.cuts.add(h[1])
                elif h[2] == "drop":
                    self.drop.add((h[1], h[3]))
                elif h[2] == "obj":
                    self.obj.setdefault(h[1], set()).add(h[3])
                elif h[2] == "phi":
                    self.phi.setdefault(h[1], set()).add(h[3])
                elif h[2] == "unroll":
                    self.unroll.add(h[1])
                elif h[2] == "tmpl":
                    self.tmpl[h[1]] = h[3]
                elif h[2] == "delta":
                    self.delta[h[1]] = h[3]
                elif h[2] == "peel":
                    self.peel[h[1]] = max(self.peel.get(h[1], 0), h[3])
        self.visits, self.active, self.plain = {}, {}, set()
        self.n = self.entered = 0
        self.key = self.cell = None
        self.rel = {}

    def sync(self, I):
        pass

    # ---- candidates
    def ints(self, env, phis):
        return [n for n in sorted(phis) if isinstance(env[n], (int, U)) and not isinstance(env[n], bool) or self.tail(env[n])]

    def tail(self, v):
        """a slice that is the rest of a list"""
        if not isinstance(v, Sl):
            return False
        a = arr_of(self.I, v)
        if a is not None and (isinstance(a.base, (FiltArr, ConstArr)) or a.n.const_val() is not None):
            return False         # a list being made
        return a is not None and self.I.ctx.nz(zp(v.off) + zp(v.len) - a.n).is_zero()

    def num(self, env, v):
        x = env[v]
        return zp(x.off) if isinstance(x, Sl) else zp(x)

    def lens(self, I):
        """the lengths of the lists (none if all are known)"""
        out = [I.ctx.nz(zp(f.n)) for f in I.ctx.memo.get("lists", [])]
        return out if any(n.const_val() is None for n in out) else []

    def intinv(self, kind, x, n):
        if kind == "len":
            return n - x
        if kind == "lenm1":
            return n - 1 - x
        if kind == "lenm2":
            return n - 2 - x
        return {"ge0": x, "ge1": x - 1, "gem1": x + 1}[kind]

    def intcands(self, I, ints):
        ns = self.lens(I)
        out = [(k, v, None) for v in ints for k in ("gem1", "ge0", "ge1")]
        out += [(k, v, j) for v in ints for j in range(len(ns)) for k in ("len", "lenm1", "lenm2")]
        return out, ns

    def states(self, I, ints, env):
        """(tag, fold, value) for every state an accumulator may hold"""
        for fk, f in sorted(I.ctx.memo.get("folds", {}).items(), key=lambda t: repr(t[0])):
            if isinstance(f, CountFold):
                continue
            for v in ints:
                x = self.num(env, v)
                for d in self.OFF:
                    for rev in (False, True):
                        k = (f.n - x - d) if rev else (x + d)
                        yield (fk, v, d, rev, "pre"), f, k
                        if isinstance(f, Fold):
                            yield (fk, v, d, rev, "suf"), f, k
        for a in I.ctx.memo.get("ghosts", []):
            for v in ints:
                for d in self.OFF:
                    k = zp(a.info.n) - self.num(env, v) - d if a.rev else self.num(env, v) + d
                    yield (a.tag, v, d, a.rev, "pre"), a, k

    def val(self, f, k, kind):
        if isinstance(f, SumFold):
            return f.pre(k) if kind == "pre" else fadd(f.pre(f.n), f.pre(k), -1)
        if kind == "pre":
            return f.pre(k)
        return f.pre(f.n) * f.pre(k).power(-1)

    def match(self, I, v, f, st, own=True):
        """does the value hold the state?"""
        c = I.ctx
        if isinstance(v, LazyIte):
            v = I.force(v)
        if isinstance(v, Ptr):
            if v.path or v.o < I.start_id:
                raise NotFresh()
            w = I.mem[v.o]
            return self.match(I, w, f, st)
        if isinstance(v, tuple) and len(v) == 1 and isinstance(I.force(v[0]), Ptr):
            return self.match(I, v[0], f, st)
        if isinstance(f, SumFold):
            if not isinstance(v, curves.GP) and not (isinstance(v, tuple) and len(v) == 3):
                return False
            if isinstance(v, curves.GP) and v.g != f.g or isinstance(v, tuple) and curves.coordg(I, v) != f.g:
                return False
            if isinstance(v, tuple):
                try:
                    v = curves.GP(f.g, as_form(I, v))
                except ToolLimit:
                    return False
            return gz(I, f.g, fadd(v.form, st, -1)) is True
        if isinstance(f, ProdFold):
            import c_pair, tower
            if not isinstance(v, A12):
                if not isinstance(v, tuple) or len(v) != 2:
                    return False
                try:
                    v = tower.as_a12(I, v)
                except (ToolLimit, TypeError, AttributeError):
                    return False
            return c_pair.same12(c, A12(pe_norm(c, v.pw)), A12(pe_norm(c, st)))
        return f.match(self, I, v, st)

    def value(self, I, v, f, st, retired):
        if isinstance(v, LazyIte):
            v = I.force(v)
        if isinstance(v, Ptr):
            new = self.value(I, I.mem[v.o], f, st, retired)
            p = I.alloc(new, I.mtype[v.o])
            retired.append(v.o)
            return p
        if isinstance(v, tuple) and len(v) == 1:
            return (self.value(I, v[0], f, st, retired),)
        if isinstance(f, SumFold):
            return curves.GP(f.g, st)
        if isinstance(f, ProdFold):
            return A12(st)
        return f.value(self, I, v, st)

    # ---- the cut
    def arrive(self, I, name, b, env, phis):
        c = I.ctx
        self.I = I
        key = (name, b, env["$act"][1])
        act = (key, env["$act"][0])
        if key in self.unroll:
            return
        if I.from_block is not None and I.from_block not in I.prog.loopbody(name, b):
            # the loop is entered anew
            self.active.pop(act, None)
            self.visits.pop(act, None)
        if key not in self.cuts:
            n, t = self.visits.get(act, (0, -1))
            t2 = len([d for d in c.taken if d < 2])
            n = n + 1 if t2 > t else n
            self.visits[act] = (n, t2)
            if n >= 3 and self.lens(I) and not c.inmerge:
                heads = [h for h in I.prog.loopheads(name) if h == b]
                raise Restart(frozenset(("FCUT", (name, h, key[2]), "on") for h in heads))
            return
        if c.inmerge:
            raise MergeFail("loop head inside a merged branch")
        if act not in self.active:
            if act in self.plain or not self.lens(I):
                self.plain.add(act)
                return
            n = self.visits.get(act, 0)
            if n < self.peel.get(key, 0):
                self.visits[act] = n + 1
                return
            return self.enter(I, key, act, env, phis)
        self.back(I, key, act, env, phis)

    def learn(self, I, key, v, w, add):
        """how a list made by the loop, or changed by it, follows from a list of the input"""
        ff = next((f for f in I.ctx.memo.get("folds", {}).values() if isinstance(f, FiltFold)), None)
        if ff is None:
            return
        if isinstance(w, Sl) and key not in self.tmpl:
            x = ff.entries(I, w)
            if x and x[2] and (v is None or isinstance(v, Sl) and v.len == 0):
                T = ff.general(I, x[2][-1])
                if T is not None:
                    add.add(("FCUT", key, "tmpl", T))
        if isinstance(v, Arr) and isinstance(w, Arr) and key not in self.delta:
            a = ff.settled(I, v)
            if isinstance(a, FiltArr) and w.log:
                q, x = w.log[-1]
                T = generalize(I, x, [ff.filt.info.slots[ff.filt.slot(I.ctx, q)]])
                d = None if T is None else tdiff(a.T, T)
                if d is not None:
                    add.add(("FCUT", key, "delta", d))

    def nested(self, I, key):
        """does the loop run another one that is cut?"""
        body = I.prog.loopbody(key[0], key[1])
        lines = {x.get("line") for b in body for x in I.prog.funcs[key[0]]["blocks"][b]["ins"]}
        return any(k[0] == key[0] and k[1] in body and k[1] != key[1] and k[2] == key[2] or k[0] != key[0] and k[2] in lines for k in self.cuts)

    def cells(self, I, key, env, objs):
        out = [(("p", n), env[n]) for n in sorted(self.phi.get(key, ())) if n in env]
        out += [(("o", o), I.mem[o]) for o in objs if o in I.mem]
        return out

    def objs(self, I, key):
        """the objects the loop is known to change: of those made by the same instruction, the last"""
        names = self.obj.get(key, ())
        out, seen = [], set()
        for o in sorted(I.mem, reverse=True) if names else ():
            n = I.site.get(o)
            if n in names and n not in seen or o in names:
                seen.add(n)
                out.append(o)
        return out[::-1]

    def mark(self, I, cell):
        """the name of a cell in what is learned about it"""
        return ("o", I.site.get(cell[1], cell[1])) if cell[0] == "o" else cell

    def ghosts(self, I, key, ints, env):
        """facts about prefixes: those not dropped yet"""
        for tag, f, k in self.states(I, ints, env):
            if isinstance(f, Ghost) and (key, ("ghost",) + tag) not in self.drop:
                yield tag, f, k

    def check(self, I, key, env, objs, ints):
        """candidates that do not hold here"""
        c = I.ctx
        finish(c)
        bad = set()
        cands, ns = self.intcands(I, ints)
        for cand in cands:
            if (key, cand) not in self.drop:
                self.n += 1
                x = self.intinv(cand[0], self.num(env, cand[1]), None if cand[2] is None else ns[cand[2]])
                if not prove_pos(c, x + 1):
                    bad.add(cand)
        self.key = key
        for cell, v in self.cells(I, key, env, objs):
            self.cell = cell
            ok = False
            some = False
            for tag, f, k in self.states(I, ints, env):
                if isinstance(f, Ghost) or (key, ("cell", self.mark(I, cell)) + tag) in self.drop:
                    continue
                some = True
                self.n += 1
                if self.match(I, v, f, self.val(f, k, tag[4])):
                    ok = True
                    break            # the others are looked at when this one fails
                bad.add(("cell", self.mark(I, cell)) + tag)
            if not some:
                if self.nested(I, key):
                    raise Restart(frozenset([("FCUT", key, "unroll")]))
                if cell[0] == "o" and cell[1] < I.start_id:
                    raise ToolLimit("no invariant for the loop at line %s" % I.line)
                I.unknown = "no invariant for a variable of the loop at line %s" % I.line
        for tag, f, k in self.ghosts(I, key, ints, env):
            self.n += 1
            if not f.holds(I, k):
                bad.add(("ghost",) + tag)
        return bad

    def enter(self, I, key, act, env, phis):
        c = I.ctx
        ints = self.ints(env, phis)
        objs = self.objs(I, key)
        first = I.next
        self.rel = {}
        try:
            bad = self.check(I, key, env, objs, ints)
        except NotFresh:
            k = self.peel.get(key, 0) + 1
            if k > 2:
                raise ToolLimit("loop updates an object that existed before the call")
            raise Restart(frozenset([("FCUT", key, "peel", k)]))
        if bad:
            if DEBUG:
                print("FOLD entry drop", key[1:], len(bad), [(x, I.mtype.get(x[1]) if x[0]=="o" else None, str(I.mem.get(x[1]))[:150]) for x in sorted(set(d[1] for d in bad if d[0] == "cell"), key=repr)], file=sys.stderr)
            raise Restart(frozenset(("FCUT", key, "drop", d) for d in bad))
        cands, ns = self.intcands(I, ints)
        self.entered += 1
        for v in ints:
            sg = isinstance(env[v], Sl) or signed(I, key[0], key[1], v)
            a = c.zatom("", -(1 << 63) if sg else 0, (1 << 63) - 1 if sg else W - 1, name="L%d_%d_%s#0" % (act[0][1], self.entered, v))
            c.cutatoms.update(zp(a).atoms())
            for cand in cands:
                if cand[1] == v and (key, cand) not in self.drop:
                    c.fact(self.intinv(cand[0], zp(a), None if cand[2] is None else ns[cand[2]]), 0, None)
            a = c.mk(a.p, a.lo, a.hi)
            if isinstance(env[v], Sl):
                r = c.mk(c.nz(arr_of(I, env[v]).n - zp(a)))
                env[v] = Sl(env[v].o, (), a, r, r)
            else:
                env[v] = a
        retired = []
        for cell, v in self.cells(I, key, env, objs):
            self.cell = cell
            for tag, f, k in self.states(I, ints, env):
                if isinstance(f, Ghost) or (key, ("cell", self.mark(I, cell)) + tag) in self.drop:
                    continue
                new = self.value(I, v, f, self.val(f, k, tag[4]), retired)
                break
            else:
                # nothing is known about it: it must be written before it is read
                new = tuple(POISON for _ in v) if isinstance(v, tuple) else POISON
            if cell[0] == "o":
                I.mem[cell[1]] = new
            else:
                env[cell[1]] = new
        for o in retired:
            if o not in objs:
                I.mem[o] = POISON
        for tag, f, k in self.ghosts(I, key, ints, env):
            f.assume(I, k)
        self.active[act] = ({v: self.num(env, v) for v in ints}, dict(I.mem), {n: env[n] for n in phis}, self.rel, objs, first)

    def back(self, I, key, act, env, phis):
        c = I.ctx
        head, snap, ph, self.rel, objs, first = self.active[act]
        add = set()
        for o, v in snap.items():
            w = I.mem.get(o)
            if w is v or o in objs or o >= first:
                continue         # (an object made for the cut belongs to one variable of the loop)
            if isinstance(v, Arr) and v.same(I, w):
                continue
            if isinstance(v, Arr) or not same(I, v, w):
                n = I.site.get(o, o)
                add.add(("FCUT", key, "obj", o if n in self.obj.get(key, ()) else n))
                if DEBUG:
                    print("FOLD obj", key[1:], o, I.next, str(v)[:200], "=>", str(w)[:200], file=sys.stderr)
                self.learn(I, key, v, w, add)
        ints = self.ints(env, phis)
        for n, v in ph.items():
            if n in ints and (not isinstance(v, Sl) or v.o == env[n].o) or n in self.phi.get(key, ()):
                continue
            if not same(I, v, env[n]):
                add.add(("FCUT", key, "phi", n))
                self.learn(I, key, v, env[n], add)
        if add:
            raise Restart(frozenset(add))
        try:
            bad = self.check(I, key, env, objs, ints)
        except NotFresh:
            raise ToolLimit("loop hands on an object that existed before the call")
        if bad:
            if DEBUG:
                print("FOLD drop", key[1:], len(bad), [(x, I.mtype.get(x[1]) if x[0]=="o" else None, str(I.mem.get(x[1]))[:150]) for x in sorted(set(d[1] for d in bad if d[0] == "cell"), key=repr)], file=sys.stderr)
            raise Restart(frozenset(("FCUT", key, "drop", d) for d in bad))
        ns = self.lens(I)
        good = False
        for v in ints:
            x, y = zp(head[v]), self.num(env, v)
            for m0, m1 in [(n - x, n - y) for n in ns] + [(x, y)]:
                if c.prove_ge0(m0 - m1 - 1) and c.prove_ge0(m0 + 1):
                    good = True
        self.n += 1
        if not good:
            raise Failed("%s: the loop at line %s terminates" % (short(key[0]), I.line))
        raise PathClosed(self.n)


# ---------------------------------------------------------------- lists made by the code under check

class ConstArr:
    """the same entry everywhere"""

    def __init__(self, v):
        self.v = v

    def get(self, I, p):
        return self.v

    def key(self):
        return ("const", repr(self.v))


class CopyArr:
    """the entries of an input list of byte strings (copied)"""

    def __init__(self, info):
        self.info = info

    def get(self, I, p):
        return self.info.get(I, p)

    def key(self):
        return ("copy", self.info.lid)


class PrefArr:
    """the first k entries are those of one list, the others those of another"""

    def __init__(self, k, a, b):
        self.k, self.a, self.b = k, a, b

    def get(self, I, p):
        c = I.ctx
        if c.prove_ge0(zp(self.k) - 1 - p):
            return self.a.get(I, p)
        if c.prove_ge0(p - zp(self.k)):
            return self.b.get(I, p)
        raise ToolLimit("entry of a partly filled list")

    def key(self):
        return ("pref", zp(self.k).key(), self.a.key(), self.b.key())


class SortedArr:
    """the entries of an input list of byte strings, sorted"""

    def __init__(self, info):
        self.info = info

    def get(self, I, p):
        c = I.ctx
        t = c.memo.setdefault(("sorted", self.info.lid), [])
        p = c.nz(p)
        for j, q in enumerate(t):
            if (c.nz(q) - p).is_zero():
                break
        else:
            j = len(t)
            t.append(p)
        return Seq([("s", ("sorted", self.info.lid, j))])

    def key(self):
        return ("sorted", self.info.lid)


def whole_content(I, sl):
    """what a slice that covers a list in full holds, as an Info, CopyArr or SortedArr; None otherwise"""
    c = I.ctx
    a = arr_of(I, sl)
    if a is None or sl.off != 0 or not (c.nz(zp(sl.len)) - c.nz(a.n)).is_zero():
        return None
    b = a.base
    log = a.log
    if isinstance(b, PrefArr):
        d = c.nz(a.n) - c.nz(zp(b.k))
        if not (d.is_zero() or c.prove_ge0(d) and c.prove_ge0(-d)):
            return None
        b = b.a
    return None if log else b


def make_list(I, n, zero, t):
    """make([]T, n)"""
    if not I.ctx.prove_ge0(zp(n)):
        raise GoPanic("makeslice: len out of range")
    o = I.alloc(Arr(zp(n), ConstArr(zero)), ("arr", t)).o
    return Sl(o, (), 0, n, n)


def copy_list(I, d, s):
    """copy(d, s) of whole lists of byte strings"""
    b = whole_content(I, s)
    a = arr_of(I, d)
    if a is None or not isinstance(b, (Info, CopyArr)) or d.off != 0 or not (I.ctx.nz(zp(d.len)) - I.ctx.nz(zp(s.len))).is_zero():
        raise ToolLimit("copy of part of a list")
    I.mem[d.o] = Arr(a.n, CopyArr(b) if isinstance(b, Info) else b)
    return d.len


def sort_list(I, sl, less, swap=None, length=None):
    """sort a list with the given comparison, which has to be the order of byte strings"""
    c = I.ctx
    b = whole_content(I, sl)
    if c.prove_ge0(-zp(sl.len)):
        return
    if not isinstance(b, CopyArr):
        raise ToolLimit("sort of a list with unknown content")
    a = I.mem[sl.o]
    if c.choose(2, "sort") == 1:
        # the comparison and the exchange, for any two entries of a list in any order
        import externs
        i, j = (c.zatom("", 0, MAXLEN, name="%s#%d" % (x, len(c.memo))) for x in ("si", "sj"))
        for x in (i, j):
            c.fact(zp(sl.len) - 1 - zp(x), 0, None)
        c.assume(cnot(c.ceq0(zp(i) - zp(j))))
        i, j = c.mk(i.p), c.mk(j.p)
        vi, vj = Seq([("s", "sort_i")]), Seq([("s", "sort_j")])
        I.mem[sl.o] = Arr(a.n, b, ((zp(i), vi), (zp(j), vj)))
        before = dict(I.mem)
        want = externs.EXT["bytes.Compare"](I, (vi, vj)) < 0
        got = less(i, j)
        if (got if isinstance(got, bool) else c.decide(got)) != want:
            raise Failed("the comparison used for sorting orders byte strings")
        if length is not None and not c.nz(zp(length()) - zp(sl.len)).is_zero():
            raise Failed("the sorted list has all entries")
        for o, v in before.items():
            if I.mem.get(o) is not v:
                raise Failed("comparing entries changes nothing")
        if swap is not None:
            swap(i, j)
            for o, v in before.items():
                if I.mem.get(o) is not v and o != sl.o:
                    raise Failed("exchanging entries changes nothing else")
            if not I.mem[sl.o].same(I, Arr(a.n, b, ((zp(i), vj), (zp(j), vi)))):
                raise Failed("two entries are exchanged")
        raise PathClosed(3)
    I.used.add("extern:sort.Sort")
    I.mem[sl.o] = Arr(a.n, SortedArr(b.info))


def where(c, n):
    """(list, sorted?, index) of the entry a byte string name stands for"""
    if isinstance(n, tuple) and n and n[0] == "sorted":
        return n[1], True, c.memo[("sorted", n[1])][n[2]]
    for info in c.memo.get("lists", ()):
        for j, v in enumerate(info.slots):
            if isinstance(v, Seq) and len(v.parts) == 1 and v.parts[0][1] == n:
                b = c.memo.get(("slots", info.lid), [])
                return (info.lid, False, b[j]) if j < len(b) else None
    return None


def dup(lid):
    """two entries of the list are equal"""
    return Cond("op", None, False, ("dup", lid))


def compared(I, x, y, cond):
    """the outcome of comparing two entries"""
    c = I.ctx
    a, b = where(c, x), where(c, y)
    if a is None or b is None or a[:2] != b[:2]:
        return cond
    eq = c.decide(cond)
    d = c.nz(a[2]) - c.nz(b[2])
    if eq and differs(c, d):
        c.assume(dup(a[0]))
    if not eq and a[1]:
        if (d - 1).is_zero():
            c.memo.setdefault("adj", []).append((a[0], b[2]))
        elif (d + 1).is_zero():
            c.memo.setdefault("adj", []).append((a[0], a[2]))
    return eq


class Ghost:
    """a statement about the prefix (suffix) of length k"""
    rev = False


class Adjacent(Ghost):
    """no two adjacent entries among the first k of the sorted list are equal"""

    def __init__(self, info):
        self.info = info
        self.tag = ("adj", info.lid)
        self.known = []

    def holds(self, I, k):
        return self.covered(I.ctx, zp(k))

    def covered(self, c, k):
        adj = [p for l, p in c.memo.get("adj", ()) if l == self.info.lid]
        while True:
            k = c.nz(k)
            if c.prove_ge0(pconst(1) - k) or any(c.prove_ge0(c.nz(q) - k) for q in self.known):
                return True
            for p in adj:
                if c.nz(self.size(p) - k).is_zero():
                    adj.remove(p)
                    k = k - 1
                    break
            else:
                return False

    def size(self, p):
        """length of the shortest prefix with the entries p and p + 1"""
        return zp(p) + 2

    def assume(self, I, k):
        self.known.append(zp(k))

    def finish(self, c):
        if c.known.get(dup(self.info.lid).key) is False:
            return
        if self.covered(c, zp(self.info.n)):
            c.assume(cnot(dup(self.info.lid)))


class AdjacentEnd(Adjacent):
    """no two adjacent entries among the last k of the sorted list are equal"""
    rev = True

    def __init__(self, info):
        Adjacent.__init__(self, info)
        self.tag = ("adjend", info.lid)

    def size(self, p):
        return zp(self.info.n) - zp(p)


class FillFold:
    """a list that is being filled with the entries of an input list"""

    def __init__(self, info):
        self.info = info
        self.n = zp(info.n)

    def pre(self, k):
        return zp(k)

    def match(self, L, I, v, st):
        c = I.ctx
        if not isinstance(v, Arr):
            return False
        st = c.nz(st)
        if isinstance(v.base, PrefArr) and isinstance(v.base.a, CopyArr) and v.base.a.info is self.info:
            k, rest = c.nz(zp(v.base.k)), v.base.b
        elif isinstance(v.base, ConstArr):
            k, rest = pconst(0), v.base
        else:
            return False
        done = set()
        while True:
            for q, w in v.log:
                if (c.nz(q) - k).is_zero() and id(w) not in done:
                    break
            else:
                break
            import externs
            if not isinstance(w, (SeqRef, Seq)):
                return False
            if externs.seqof(I, w) != externs.seqof(I, self.info.get(I, k)):
                return False
            done.add(id(w))
            k = k + 1
        return len(done) == len(v.log) and (k - st).is_zero()

    def value(self, L, I, v, st):
        rest = v.base.b if isinstance(v.base, PrefArr) else v.base
        return Arr(v.n, PrefArr(st, CopyArr(self.info), rest))


# ---------------------------------------------------------------- the entries of a list that satisfy a condition

class CountFold(Fold):
    """number of entries kept among the first k"""

    def __init__(self, c, info, keep):
        Fold.__init__(self, c, ("cnt", info.lid), info.n, (info.lid,))
        self.info, self.keep, self.at = info, keep, {}

    def new(self, i):
        self.at[i] = zp(self.c.zatom("", 0, MAXLEN, name="cnt_%s_%d#0" % (self.info.lid, i)))

    def num(self, i):
        return pconst(0) if i is None else self.c.nz(self.at[i])

    def pre(self, p):
        return self.num(self.node(p))

    def let(self, i, v):
        c = self.c
        p = c.nz(self.at[i])
        a = list(p.atoms())
        if len(a) == 1 and (p - self.at[i]).is_zero():
            c.setz(a[0], v)
        else:
            c.assume(c.ceq0(p - v))

    def define(self, k1, k0, p):
        kept = self.keep(self.info.slots[self.info.slot(self.c, p)])
        self.let(k1, self.num(k0) + (1 if kept else 0))

    def setalias(self, i, j):
        self.let(i, self.num(j))


class Filtered:
    """the kept entries of a list, as a list"""

    def __init__(self, c, info, count, slots):
        self.src, self.count = info, count
        self.info = Info(("filt", info.lid), count.pre(info.n), slots)

    def slot(self, c, p):
        return self.info.slot(c, p)


class FiltArr:
    """entry j is made from the kept entry j as the template T says"""

    def __init__(self, filt, T, k):
        self.filt, self.T, self.k = filt, T, k

    def get(self, I, p):
        return instantiate(I, self.T, self.filt.info.get(I, p))

    def key(self):
        return ("filt", self.filt.src.lid, self.T)


def parts(I, e):
    """what an entry (a tuple of pointers) leads to"""
    out = []
    for i, p in enumerate(e):
        out.append((("ptr", i), p))
        v = I.mem[p.o]
        out.append((("val", i), v))
        out += [(("val", i, j), x) for j, x in enumerate(v) if isinstance(x, Sl)]
    return out


def generalize(I, v, entries):
    """the value as a function of one of the entries"""
    for e in entries:
        T = gen(I, v, parts(I, e))
        if T is not None:
            return T
    return None


def gen(I, v, ps):
    if isinstance(v, LazyIte):
        v = I.force(v)
    for t, x in ps:
        if isinstance(v, tuple) and isinstance(x, tuple) and len(v) == len(x) and not (v and isinstance(v[0], Ptr)) and same(I, v, x):
            return t
        if isinstance(v, Sl) and isinstance(x, Sl) and (v.o, v.path, v.off, v.len, v.cap) == (x.o, x.path, x.off, x.len, x.cap):
            return t
        if isinstance(v, Ptr) and isinstance(x, Ptr):
            if v == x or not v.path and v.o >= I.start_id and isinstance(I.mem.get(v.o), tuple) and same(I, I.mem[v.o], I.mem[x.o]):
                return t
    if isinstance(v, bool) or isinstance(v, int):
        return ("const", v)
    if isinstance(v, tuple):
        r = tuple(gen(I, x, ps) for x in v)
        return None if any(x is None for x in r) else ("tup",) + r
    return None


def instantiate(I, T, e):
    if T[0] == "const":
        return T[1]
    if T[0] == "tup":
        return tuple(instantiate(I, x, e) for x in T[1:])
    if T[0] == "ptr":
        return e[T[1]]
    v = I.mem[e[T[1]].o]
    return v if len(T) == 2 else v[T[2]]


def tdiff(a, b):
    """b - a for templates that differ in integers only"""
    if a[0] == "const" and b[0] == "const" and type(a[1]) is type(b[1]) is int:
        return b[1] - a[1]
    if a[0] == "tup" and b[0] == "tup" and len(a) == len(b):
        r = tuple(tdiff(x, y) for x, y in zip(a[1:], b[1:]))
        return None if any(x is None for x in r) else r
    return 0 if a == b else None


def tadd(a, d):
    if a[0] == "const":
        return ("const", a[1] + d) if d else a
    if a[0] == "tup":
        if not isinstance(d, tuple) or len(d) != len(a) - 1:
            return None
        r = tuple(tadd(x, y) for x, y in zip(a[1:], d))
        return None if any(x is None for x in r) else ("tup",) + r
    return a if d == 0 else None


def agree(I, v, w):
    """equal values; pointers to equal contents count as equal"""
    if isinstance(v, LazyIte):
        v = I.force(v)
    if isinstance(v, Ptr) and isinstance(w, Ptr):
        if v == w:
            return True
        return not v.path and not w.path and v.o >= I.start_id and isinstance(I.mem.get(v.o), tuple) and same(I, I.mem[v.o], I.mem[w.o])
    if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w):
        return all(agree(I, x, y) for x, y in zip(v, w))
    return same(I, v, w)


class FiltFold:
    """a list that is being filled with the kept entries of an input list"""

    def __init__(self, filt):
        self.filt = filt
        self.n = zp(filt.src.n)

    def pre(self, k):
        return zp(k)

    def settled(self, I, a):
        """base of a list, when one base describes all entries"""
        b = a.base
        if isinstance(b, PrefArr):
            d = I.ctx.nz(zp(b.k))
            if d.is_zero():
                return b.b
            e = I.ctx.nz(zp(a.n) - d)
            if e.is_zero() or I.ctx.prove_ge0(-e) and I.ctx.prove_ge0(e):
                return b.a
            return None
        return b

    def entries(self, I, v):
        """(template, length it covers, entries behind) of a slice; None if it is none of this kind"""
        if v is None:
            return None, pconst(0), ()
        if not isinstance(v, Sl) or v.path or v.off != 0:
            return None
        m = I.mem.get(v.o)
        if isinstance(m, Arr):
            if not (I.ctx.nz(zp(v.len)) - I.ctx.nz(zp(m.n))).is_zero():
                return None
            b = self.settled(I, m)
            if isinstance(b, FiltArr):
                T, k = b.T, I.ctx.nz(zp(b.k))
            elif isinstance(b, ConstArr) and not isinstance(v.len, U):
                T, k = None, pconst(0)
            else:
                return None
            out = []
            while True:
                w = next((w for q, w in m.log if (I.ctx.nz(q) - k - len(out)).is_zero()), None)
                if w is None:
                    break
                out.append(w)
            return (T, k, tuple(out)) if len(out) == len(m.log) else None
        if isinstance(v.len, int) and isinstance(m, tuple):
            return None, pconst(0), tuple(m[:v.len])
        return None

    def looked(self, I):
        """(index, entry) of the entries of the input list looked at"""
        c = I.ctx
        return [(c.nz(p), self.filt.src.slots[j]) for j, p in enumerate(c.memo.get(("slots", self.filt.src.lid), []))]

    def general(self, I, w):
        return generalize(I, w, [e for _, e in self.looked(I)])

    def match(self, L, I, v, st):
        c = I.ctx
        T = L.tmpl.get(L.key)
        x = self.entries(I, v)
        if x is None or T is None or x[0] is not None and x[0] != T:
            return False
        k = x[1]
        for w in x[2]:
            for p, e in self.looked(I):
                if (c.nz(self.filt.count.pre(p)) - c.nz(k)).is_zero() and self.filt.count.keep(e):
                    if not agree(I, w, instantiate(I, T, e)):
                        return False
                    break
            else:
                return False
            k = k + 1
        d = c.nz(k) - c.nz(self.filt.count.pre(st))
        return d.is_zero()

    def value(self, L, I, v, st):
        c = I.ctx
        n = c.nz(self.filt.count.pre(st))
        return newlist(I, Arr(n, FiltArr(self.filt, L.tmpl[L.key], n)), I.mtype[v.o] if v is not None else None)


def newlist(I, a, t):
    """a slice of its own that holds the given content"""
    c = I.ctx
    n = c.mk(c.nz(a.n), 0, None)
    j = c.memo["ncap"] = c.memo.get("ncap", 0) + 1
    cp = c.zatom("", 0, 1 << 62, name="cap_%d#0" % j)
    c.fact(zp(cp) - zp(n), 0, None)
    o = I.alloc(a, t).o
    return Sl(o, (), 0, n, c.mk(zp(cp), 0, 1 << 62))


def append_list(I, d, items):
    """append to a list the code under check made"""
    a = I.mem[d.o]
    c = I.ctx
    if d.path or d.off != 0 or d.o < I.start_id or not (c.nz(zp(d.len)) - c.nz(zp(a.n))).is_zero():
        raise ToolLimit("append to part of a list of unknown length")
    n = c.nz(zp(a.n))
    r = Arr(n + len(items), a.base, a.log + tuple((n + i, x) for i, x in enumerate(items)))
    # the old slice may share its storage with the new one or not: it must not be used any more
    I.mem[d.o] = POISON
    return newlist(I, r, I.mtype[d.o])


class MapFold:
    """a list made of the kept entries, changed in place entry by entry"""

    def __init__(self, ff):
        self.ff = ff
        self.n = zp(ff.filt.info.n)

    def pre(self, k):
        return zp(k)

    def match(self, L, I, v, st):
        c = I.ctx
        d = L.delta.get(L.key)
        if not isinstance(v, Arr) or d is None:
            return False
        if L.cell not in L.rel:
            b = self.ff.settled(I, v)
            return isinstance(b, FiltArr) and not v.log and tadd(b.T, d) is not None and c.nz(st).is_zero()
        b = v.base
        if not isinstance(b, PrefArr) or not isinstance(b.a, FiltArr):
            return False
        k, done = c.nz(zp(b.k)), 0
        while True:
            w = next((w for q, w in v.log if (c.nz(q) - k).is_zero()), None)
            if w is None:
                break
            if not agree(I, w, b.a.get(I, k)):
                return False
            done += 1
            k = k + 1
        return done == len(v.log) and (k - c.nz(st)).is_zero()

    def value(self, L, I, v, st):
        b = self.ff.settled(I, v)
        L.rel[L.cell] = True
        return Arr(v.n, PrefArr(st, FiltArr(b.filt, tadd(b.T, L.delta[L.key]), b.k), FiltArr(b.filt, b.T, b.k)))


class LineFold(Fold):
    """product of one value for each entry"""

    def __init__(self, c, tag, info, step):
        Fold.__init__(self, c, tag, info.n, (info.lid,))
        self.info, self.step = info, step

    def base(self, i):
        return ("ln", self.tag, i)

    def new(self, i):
        pass

    def form(self, i):
        return PW(1, {} if i is None else {self.base(i): (self.base(i), pconst(1))}, "12")

    def pre(self, p):
        return self.form(self.node(p))

    def define(self, k1, k0, p):
        e = self.info.slots[self.info.slot(self.c, p)]
        self.c.memo.setdefault("pesub", {})[self.base(k1)] = lambda: self.form(k0) * self.step(e)

    def setalias(self, i, j):
        self.c.memo.setdefault("pesub", {})[self.base(i)] = lambda: self.form(j)


class LineFolds:
    """an accumulator that takes up one product after the other: the j-th loop over the list multiplies it by the j-th"""

    def __init__(self, c, info, lines):
        self.c, self.info, self.lines = c, info, lines
        self.n = zp(info.n)
        self.lids = (info.lid,)
        self.next = 0          # products taken up completely or by the loop being run

    def touch(self, p):
        if 0 < self.next <= len(self.lines):
            self.lines[self.next - 1].touch(p)

    def finish(self):
        # (an earlier product was finished when the next one was begun)
        known = self.c.nz(self.n).const_val() is not None
        for f in self.lines if known else self.lines[0 if self.next == len(self.lines) else max(self.next - 2, 0):self.next]:
            f.finish()

    def pre(self, k):
        return zp(k)

    def match(self, L, I, v, st):
        import c_pair, tower
        c = I.ctx
        if not isinstance(v, A12):
            if not isinstance(v, tuple) or len(v) != 2:
                return False
            try:
                v = tower.as_a12(I, v)
            except (ToolLimit, TypeError, AttributeError):
                return False
        if L.cell not in L.rel:
            return self.next < len(self.lines) and c.nz(st).is_zero()
        e, j = L.rel[L.cell]
        return c_pair.same12(c, A12(pe_norm(c, v.pw)), A12(pe_norm(c, e * self.lines[j].pre(st))))

    def value(self, L, I, v, st):
        import tower
        if not isinstance(v, A12):
            v = tower.as_a12(I, v)
        j = self.next
        self.next += 1
        L.rel[L.cell] = (v.pw, j)
        return A12(v.pw * self.lines[j].pre(st))
