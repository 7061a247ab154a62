"""Contracts of the pairing (C11).

The line values at every step of the double-and-add chain of the curve parameter, their product with the right powers,
and the exponent of the final exponentiation are proved.  That this product, so raised, is the reduced ate pairing and
hence bilinear and non-degenerate on the subgroups is mathematics that the contracts use (assumption, not checked)."""
from c_curves import *
from c_tower import g2, g12, put12, new12, mul12, abs12, m12, powint, ONE12, frob12, n6
from tower import *
import tower, loops, folds

C11 = ("C11",)
XABS = -X
assert XABS == 0xd201000000010000
# the steps of the chain: doublings and additions from the second bit of |x| on
CHAIN = []
_n = 1
for _b in bin(XABS)[3:]:
    CHAIN.append(("dbl", _n))
    _n *= 2
    if _b == "1":
        CHAIN.append(("add", _n))
        _n += 1
assert _n == XABS
NSTEP = len(CHAIN)
# power of each line value in the Miller function: squared once per later bit
LPOW = []
_k = len(bin(XABS)[3:])
for _s, _ in CHAIN:
    if _s == "dbl":
        _k -= 1
    LPOW.append(1 << _k)

TPREP = BLS + ".G2Prepared"


def multiple(s_or_I, b, n):
    """coordinates of n times the basis point b of G2 (a point of prime order, n below the order)"""
    I = s_or_I
    return expand(I, GA(2, {b: pconst(n)}))


class ChainLoops:
    """names the running multiple of Q at loop heads and returns: an object holding 2T or T+Q for the multiple T it held
    before is represented by that multiple (which is checked) instead of by expressions in Q's coordinates"""

    def __init__(self, I, q):
        self.q = q                 # form of Q
        self.last = {}

    def arrive(self, I, name, b, env, phis):
        for n in list(phis):
            self.visit_val(I, env, n)
        self.sync(I)

    def visit_val(self, I, env, n):
        v = env[n]
        if isinstance(v, tuple) and len(v) == 3:
            r = self.match(I, v, None)
            if r is not None:
                env[n] = r

    def returned(self, I):
        self.sync(I)

    def sync(self, I):
        t = I.prog.byname[BLS + ".G2Projective"]
        for o in [o for o in I.mem if o >= I.start_id and o < SPECB and I.mtype.get(o) == t]:
            v = I.mem[o]
            if isinstance(v, GP):
                self.last[o] = v.form
            elif isinstance(v, tuple):
                r = self.match(I, v, self.last.get(o))
                if r is not None:
                    I.mem[o] = r
                    self.last[o] = r.form

    def match(self, I, v, prev):
        c = I.ctx
        cands = [prev] if prev else []
        cands += [f for f in reversed(list(self.last.values())) if f != prev]
        if any(isinstance(x, (LazyIte, Poison)) for x in v):
            return None
        for f in cands[:3] or [self.q]:
            for kind in ("dbl", "add", "same"):
                w = chain_step(I, f, self.q, kind)
                if w is None:
                    continue
                try:
                    x, y, z = (c.en(ce(I, 2, e)) for e in v)
                except (PoisonUse, ToolLimit):
                    return None
                if c.is_zero(z) is not False:
                    continue
                z2 = c.en(z * z)
                if c.is_zero(x - w[1][0] * z2) is True and c.is_zero(y - w[1][1] * z2 * z) is True:
                    return GP(2, w[0])
        return None


SPECB = 1_000_000


def chain_step(I, f, q, kind):
    """(form, (x, y)) of 2T, T+Q or T for T given by the form"""
    c = I.ctx
    s = S(I, "call")
    if gz(I, 2, f) is not False or gz(I, 2, q) is not False:
        return None
    T = expand(I, GA(2, f))
    if kind == "same":
        return f, T
    if kind == "dbl":
        g = fscale(f, 2)
        x, y = T
        l = x * x * 3 * s.inv(c.en(y * 2))
    else:
        if gz(I, 2, fadd(f, q, -1)) is not False or gz(I, 2, fadd(f, q)) is not False:
            return None
        g = fadd(f, q)
        x, y = T
        x2, y2 = expand(I, GA(2, q))
        d = c.en(x2 - x)
        c.assume_nz(d)           # T is neither Q nor -Q
        l = (y2 - y) * s.inv(d)
    if gz(I, 2, g) is not False:
        return None
    x3 = c.en(l * l - x - (x if kind == "dbl" else x2))
    return g, (x3, c.en(l * (x - x3) - y))


def line_ok(cmp, I, q, step, n, co, where):
    """the coefficients are those of the tangent at nQ (or the chord through nQ and Q) up to a factor"""
    c = cmp.c
    c0, c1, c2 = (c.en(ce(I, 2, e)) for e in co)
    if getattr(c, "concrete", False):
        T, P1 = c_mul(2, n, q), q
    else:
        T, P1 = expand(I, GA(2, fscale(q, n))), expand(I, GA(2, q))
    x, y = T
    if step == "dbl":
        num, den = x * x * 3, y * 2
    else:
        num, den = y - P1[1], x - P1[0]
        if not getattr(c, "concrete", False):
            c.assume_nz(c.en(den))           # (n-1)Q and (n+1)Q are not zero
    num, den = c.en(num), c.en(den)
    if c.is_zero(c0) is not False:
        cmp.fail(where + "[0] is not zero", repr(c0)[:300])
    cmp.eqe(c.en(c1 * den + num * c0), E.const("q", 0), where + "[1]")
    cmp.eqe(c.en(c2 * den), c.en((num * x - y * den) * c0), where + "[2]")


def subgroup_point(s, f):
    c = s.c
    if getattr(c, "concrete", False):
        p = c_form(s.I, 2, f)
        return c_mul(2, R_ORD, p) is None
    return gz(s.I, 2, fscale(f, R_ORD))


def prep_inputs(inp, case):
    c = inp.c
    if inp.conc:
        p = c_mul(2, inp.conc.rng.randrange(1, 9) if inp.conc.rng.random() < 0.5 else inp.conc.rng.randrange(1, R_ORD), GEN[2])
        v = (mkco(2, p[0]), mkco(2, p[1]), False) if case["k"] == "fin" else coord_input(inp, "q", 2, False, "inf")
    elif case["k"] == "inf":
        v = GA(2, {})
    else:
        v = abs_input(inp, "q", 2, False, sub=True, nonzero=True)
    return [inp.I.alloc(v, inp.I.prog.byname[BLS + ".G2Affine"])]


def prep_induct(I, args):
    f = as_form(I, args[0])
    return ChainLoops(I, f)


prep_induct.make = True


@contract("G2Prepared.IsZero", props=C11, readonly=True,
          inputs=lambda inp, case: [prep_value(inp, "q", inp.bool("inf"))])
def _(s, p):
    return val(s, p)[1]


def prep_value(inp, name, inf):
    """prepared coefficients of any value"""
    if inf is True:
        return (None, True)
    t = inp.I.prog.byname[BLS + ".FQ2"]
    items = []
    for j in range(NSTEP):
        items.append(tuple(inp.f2c("%s_%d_%d" % (name, j, i)) for i in range(3)))
    p = inp.I.alloc(tuple(items), ("arr", prep_elem(inp.I)))
    return (Sl(p.o, (), 0, NSTEP, NSTEP), inf)


def prep_elem(I):
    """type of a coefficient triple"""
    t = I.prog.types[I.prog.byname[TPREP]]
    u = I.prog.ty(I.prog.byname[TPREP])
    sl = I.prog.ty(u["fields"][0]["type"])
    return sl["elem"]


@contract("G2AffineToPrepared", props=C11, readonly=True, inputs=prep_inputs, cases=lambda prog: [{"k": k, "label": k} for k in KINDS],
          induct=prep_induct, ncand=12)
def _(s, q):
    f = form(s, q)
    if dz(s, gz(s.I, 2, f)):
        return s.new((ANY if s.check else None, True), "G2Prepared")
    s.require(subgroup_point(s, f), "the point is in the subgroup of prime order")
    if not s.check:
        return s.new((Opq("prep", f), False), "G2Prepared")
    qq = c_form(s.I, 2, f) if getattr(s.c, "concrete", False) else f

    def chk(cmp, v, where):
        I = cmp.b
        sl, inf = v
        if inf is not False:
            cmp.fail(where + " is finite")
        n = 0 if sl is None else sl.len
        if n != NSTEP:
            cmp.fail(where + " has one line for each step", "%r" % (n,))
        items = I.sl_items(sl)
        for i, (st, k) in enumerate(CHAIN):
            co = tuple(I.sub(items[i], j) for j in range(3))
            line_ok(cmp, I, qq, st, k, co, "%s.coeffs[%d]" % (where, i))
    return s.new(Pred(chk), "G2Prepared")


# ---------------------------------------------------------------- Miller loop

def ml_cases(prog):
    out = [{"sym": True, "label": "any number of pairs", "fallback": "lists of 0 to 3 pairs"}]
    for n in range(4):
        for k in itertools.product(("fin", "Pinf", "Qinf"), repeat=n):
            if n == 3 and len(set(k)) > 2:
                continue
            out.append({"k": k, "label": "%d:%s" % (n, "-".join(k))})
    return out


def ml_inputs(inp, case):
    I = inp.I
    items = []
    tn = ("arr", I.prog.byname[BLS + ".MillerLoopItem"])
    if case.get("sym") and not inp.conc:
        return [ml_list(inp, tn)]
    kinds = case["k"] if "k" in case else [inp.conc.rng.choice(("fin", "fin", "Pinf", "Qinf")) for _ in range(inp.conc.rng.choice((0, 1, 2, 3, 4, 5, 6, 9, 12)))]
    for i, k in enumerate(kinds):
        if inp.conc:
            P_ = coord_input(inp, "p%d" % i, 1, False, "inf" if k == "Pinf" else "fin")
            Q_ = prep_value(inp, "q%d" % i, True) if k == "Qinf" else prep_value(inp, "q%d" % i, False)
        else:
            P_ = (inp.fq("p%dx" % i), inp.fq("p%dy" % i), k == "Pinf")
            Q_ = prep_value(inp, "q%d" % i, k == "Qinf")
        items.append((I.alloc(P_, I.prog.byname[BLS + ".G1Affine"]), I.alloc(Q_, I.prog.byname[TPREP])))
    if not items:
        return [None]
    p = I.alloc(tuple(items), tn)
    return [Sl(p.o, (), 0, len(items), len(items))]


def ml_list(inp, tn):
    """a list of any number of pairs, and the list of those without a point at infinity"""
    I, c = inp.I, inp.c
    F = folds

    def entry(name, finite):
        P_ = (inp.fq(name + "px"), inp.fq(name + "py"), False if finite else inp.bool(name + "pinf"))
        Q_ = prep_value(inp, name + "q", False if finite else inp.bool(name + "qinf"))
        return (I.alloc(P_, I.prog.byname[BLS + ".G1Affine"]), I.alloc(Q_, I.prog.byname[TPREP]))

    def keep(e):
        return not dec(c, I.mem[e[0].o][2]) and not dec(c, I.mem[e[1].o][1])

    n = c.zatom("", 0, F.MAXLEN, name="items_len#0")
    info = F.Info("items", zp(n), [entry("i%d" % j, False) for j in range(3)])
    fs = c.memo.setdefault("folds", {})
    fs["cnt"] = F.CountFold(c, info, keep)
    filt = F.Filtered(c, info, fs["cnt"], [entry("f%d" % j, True) for j in range(3)])
    c.memo["lists"] = [info, filt.info]
    fs["filt"] = F.FiltFold(filt)
    fs["map"] = F.MapFold(fs["filt"])

    def step(j):
        def f(e):
            x, y, _ = I.mem[e[0].o]
            co = I.sl_items(I.mem[e[1].o][0])[j]
            c0, c1, c2 = (ce(I, 2, I.sub(co, k)) for k in range(3))
            return line_tag(I, c2, c1 * ce(I, 1, x), c0 * ce(I, 1, y)).pw
        return f
    fs["ln"] = F.LineFolds(c, filt.info, [F.LineFold(c, ("line", j), filt.info, step(j)) for j in range(NSTEP)])
    n = c.mk(zp(n), 0, F.MAXLEN)
    return Sl(I.alloc(F.Arr(zp(n), info), tn).o, (), 0, n, n)


def dec(c, b):
    return b if isinstance(b, bool) else c.decide(b)


def ml_induct(I, args):
    pass


ml_induct.fold = True


@contract("MillerLoop", props=C11, readonly=True, inputs=ml_inputs, cases=ml_cases, ncand=6, induct=ml_induct)
def _(s, items):
    I = s.I
    r = A12(pw1())
    conc = None
    if items is not None and isinstance(items.len, U):
        if not s.check:
            raise ToolLimit("Miller loop of a list of unknown length")
        for f, k in zip(s.c.memo["folds"]["ln"].lines, LPOW):
            r = A12(r.pw * f.pre(f.info.n).power(pconst(k)))
        return new12(s, A12(r.pw.power(pconst(Q ** 6))))
    for it in (I.sl_items(items) if items is not None else ()):
        p, q = I.sub(it, 0), I.sub(it, 1)
        pv, qv = val(s, p), val(s, q)
        if not s.check:
            f = form(s, p)
            if dz(s, gz(I, 1, f)) or qv[1] is True:
                continue
            qv = val(s, q)
            if not isinstance(qv[0], Opq):
                raise ToolLimit("prepared point given by its coefficients")
            r = A12(r.pw * ml_atom(I, f, qv[0].v).pw)
            continue
        if pv[2] or qv[1]:
            continue
        x, y = ce(I, 1, pv[0]), ce(I, 1, pv[1])
        co = [tuple(ce(I, 2, I.sub(c, j)) for j in range(3)) for c in I.sl_items(qv[0])]
        if getattr(s.c, "concrete", False):
            conc = conc or []
            conc.append((x, y, co))
            continue
        for (c0, c1, c2), k in zip(co, LPOW):
            t = tag_line(s, c2, c1 * x, c0 * y)
            r = A12(r.pw * t.pw.power(pconst(k)))
    if getattr(s.c, "concrete", False):
        f = ONE12
        for bit in range(len(bin(XABS)) - 3):
            if bit:
                f = m12(f, f)
            idx = [i for i, k in enumerate(LPOW) if k == 1 << (len(bin(XABS)) - 4 - bit)]
            for i in idx:
                for x, y, co in conc or ():
                    c0, c1, c2 = co[i]
                    f = m12(f, ((c2, c1 * x, Z2), (Z2, c0 * y, Z2)))
        return new12(s, (f[0], n6(f[1])))
    if not s.check:
        return new12(s, r)      # the atoms stand for the Miller functions with the conjugation for negative x
    return new12(s, A12(r.pw.power(pconst(Q ** 6))))


def tag_line(s, a, b, d):
    return line_tag(s.I, a, b, d)


def line_tag(I, a, b, d):
    return tag12("line", *(I.ctx.en(I.simple_e(e)).key() for e in (a, b, d)))


def ml_atom(I, f, h):
    """Miller function of the pair: not zero, as no line value is"""
    c = I.ctx
    f, h = reduce(c, 1, f), reduce(c, 2, h)
    neg = fneg(f)
    if neg:
        f = fscale(f, -1)
    k = ("ml", fkey(f), fkey(h))
    c.memo.setdefault("mlforms", {})[k] = (f, h)
    nzset(c).add(k)
    t = tag12(*k)
    # the lines at -P are the conjugates of those at P
    return A12(t.pw.power(pconst(Q ** 6))) if neg else t


def fneg(f):
    """sign of the leading coefficient"""
    lead = min(f, key=repr)
    return min(f[lead].d.items())[1] < 0


# ---------------------------------------------------------------- final exponentiation and pairing

def fe_inputs(inp, case):
    I = inp.I
    v = in12_(inp) if inp.conc else tag12("F12", "f")
    return [I.alloc(v, I.prog.byname[BLS + ".FQ12"])]


def in12_(inp):
    from c_tower import in12
    return in12(inp, "f")


E12 = (Q ** 12 - 1) // R_ORD


def fe_exponent_ok(k):
    """k is a multiple of (q^12-1)/r that is prime to r after the division"""
    k %= ORD12
    return k % E12 == 0 and gcd(k // E12, R_ORD) == 1


@contract("FinalExponentiation", props=C11, readonly=True, inputs=fe_inputs, ncand=2)
def _(s, r):
    x = g12(s, r)
    if not s.check:
        x = abs12(s, x)
        ks = set(x.pw.b)
        if not ks <= nzset(s.c):
            raise ToolLimit("final exponentiation of a value that may be zero")
        out = pw1()
        for k, (b, e) in x.pw.b.items():
            if k[0] != "ml":
                raise ToolLimit("final exponentiation of %r" % (k[0],))
            f, h = s.c.memo["mlforms"][k]
            # the result is in the cyclotomic subgroup: conjugation inverts
            ev = s.c.nz(e)
            n = ev.const_val()
            if n is None:
                raise ToolLimit("symbolic power of a Miller value")
            n %= ORD12
            red = 0
            a, b2 = n // Q ** 6, n % Q ** 6
            out = out * pair_pw(s.I, f, h).power(pconst(b2 - a))
        return new12(s, A12(out))
    if not isinstance(x, A12):
        # concrete
        n = a6(m6(x[0], x[0]), n6(v6(m6(x[1], x[1]))))
        adj, nn = adj6(n)
        if nn.is0():
            return None
        return s.new(Pred(lambda cmp, v, where: None if conc_fe(cmp, x, v) else cmp.fail(where + " is a fixed power")), "FQ12")
    z = s.decide(Cond("op", None, False, ("zero12",) + pwkey(x.pw, ())), "zero in Fq12")
    if z:
        return None
    for k in x.pw.b:
        nzset(s.c).add(k)
    base = set(x.pw.b)

    def chk(cmp, v, where):
        v = tower.as_a12(cmp.b, v)
        ks = {k: cmp.c.nz(e).const_val() for k, (b, e) in v.pw.b.items()}
        if set(ks) != base or None in ks.values():
            cmp.fail(where + " is a power of the argument")
        for k, n in ks.items():
            if not fe_exponent_ok(n):
                cmp.fail(where + " has an exponent equivalent to (q^12-1)/r", hex(n % ORD12)[:200])
    return s.new(Pred(chk), "FQ12")


CONC_K = [3 * E12]


def conc_fe(cmp, x, v):
    from c_tower import powint
    got = g12(S(cmp.b, "check"), v)
    want = powint(m12, ONE12, x, CONC_K[0])
    return all((a - b).is0() for i in range(2) for a, b in zip(got[i], want[i]))


def pair_pw(I, f, h):
    """the pairing of two points as a power product of pairings of basis points"""
    c = I.ctx
    f, h = reduce(c, 1, f), reduce(c, 2, h)
    out = pw1()
    if not f or not h:
        return out
    if not all(in_subgroup(c, 1, b) for b in f) or not all(in_subgroup(c, 2, b) for b in h):
        neg = fneg(f)
        if neg:
            f = fscale(f, -1)
        k = ("eo", fkey(f), fkey(h))
        nzset(c).add(k)
        return PW(1, {k: (k, pconst(-1 if neg else 1))}, "12")
    for b, x in f.items():
        for d, y in h.items():
            k = ("e", b, d)
            nzset(c).add(k)
            n = modr(c.nz(x * y))
            if not n.is_zero():
                out = out * PW(1, {k: (k, n)}, "12")
    return out


def modr(p):
    d = {}
    for m, v in p.d.items():
        v %= R_ORD
        if v > R_ORD // 2:
            v -= R_ORD
        if v:
            d[m] = v
    return P(d)


def points(kinds):
    def cases(prog):
        return [{"k": k, "label": "-".join(k)} for k in itertools.product(KINDS, repeat=len(kinds))]

    def inputs(inp, case):
        out = []
        for i, ((g, nm), k) in enumerate(zip(kinds, case["k"])):
            if inp.conc:
                if k == "inf":
                    v = coord_input(inp, nm, g, True, "inf")
                else:
                    p = c_mul(g, inp.conc.rng.randrange(1, 6) if inp.conc.rng.random() < 0.95 else inp.conc.rng.randrange(1, R_ORD), GEN[g])
                    v = (mkco(g, p[0]), mkco(g, p[1]), mkco(g, E.const("q", 1)))
            elif k == "inf":
                v = GP(g, {})
            else:
                v = abs_input(inp, nm, g, True, sub=g == 2, nonzero=True)
            out.append(inp.I.alloc(v, inp.I.prog.byname[BLS + "." + TN[(g, "P")]]))
        return out
    return {"cases": cases, "inputs": inputs}


def req_sub(s, g, f):
    c = s.c
    if getattr(c, "concrete", False):
        return
    s.require(gz(s.I, g, fscale(f, R_ORD)), "the point is in the subgroup of prime order")


@contract("Pairing", props=C11, readonly=True, nomodel=True, ncand=0, **points(((1, "p"), (2, "q"))))
def _(s, p, q):
    f, h = form(s, p), form(s, q)
    if dz(s, gz(s.I, 1, f)) or dz(s, gz(s.I, 2, h)):
        return new12(s, A12(pw1()))
    req_sub(s, 2, h)
    if getattr(s.c, "concrete", False):
        return s.new(ANY, "FQ12")
    return new12(s, A12(pair_pw(s.I, f, h)))


def pairings_equal(s, f1, h1, f2, h2):
    """e(f1, h1) == e(f2, h2)"""
    I = s.I
    if getattr(s.c, "concrete", False):
        return conc_pair_eq(s, f1, h1, f2, h2)
    for g, f in ((1, f1), (2, h1), (1, f2), (2, h2)):
        dz(s, gz(I, g, f))
    x, y = A12(pair_pw(I, f1, h1)), A12(pair_pw(I, f2, h2))
    return eq12(s, x, y)


def eq12(s, x, y):
    c = s.c
    if c.memo.get("folds"):
        import folds
        x, y = A12(folds.pe_norm(c, x.pw)), A12(folds.pe_norm(c, y.pw))
    if same12(c, x, y):
        return True
    q = A12(x.pw * y.pw.power(-1))
    key = {k: modr(c.nz(e)) if k[0] in ("e", "pe") else c.nz(e) for k, (b, e) in q.pw.b.items()}
    key = {k: e for k, e in key.items() if not e.is_zero()}
    if not key:
        return True
    if all(k[0] == "e" and k[1] == GENB[1] for k in key):
        # the pairing with the generator is injective on the subgroup
        return gz(s.I, 2, {k[2]: e for k, e in key.items()})
    if all(k[0] == "e" and k[2] == GENB[2] for k in key):
        return gz(s.I, 1, {k[1]: e for k, e in key.items()})
    if all(k[0] in ("e", "pe") for k in key):
        lead = min(key, key=repr)
        lc = min(key[lead].d.items())[1]
        i = pow(lc, -1, R_ORD)
        key = {k: modr(e.scale(i)) for k, e in key.items()}
        if any(k[0] == "pe" for k in key):
            r = Cond("op", None, False, ("one12", tuple(sorted(((k, e.key()) for k, e in key.items()), key=repr))))
            c.memo.setdefault("one12", {})[r.key] = key
            return r
        return Cond("op", None, False, ("one12", tuple(sorted(((k, e.key()) for k, e in key.items()), key=repr))))
    return Cond("op", None, False, ("one12",) + pwkey(q.pw, nzset(c)))


def again12(s, cond):
    """the condition in terms of what is known by now"""
    key = s.c.memo["one12"][cond.key]
    r = eq12(s, A12(PW(1, {k: (k, e) for k, e in key.items()}, "12")), A12(pw1()))
    return cnot(r) if cond.neg else r


def conc_dlog(g, p):
    """multiple of the generator, for the small multiples the concrete inputs use"""
    if p is None:
        return 0
    t = None
    for k in range(1, 70):
        t = c_add(g, t, GEN[g])
        if t is not None and t[0].key() == p[0].key():
            return k if t[1].key() == p[1].key() else -k
    return None


def conc_pair_eq(s, f1, h1, f2, h2):
    ks = [conc_dlog(g, c_form(s.I, g, f)) for g, f in ((1, f1), (2, h1), (1, f2), (2, h2))]
    a = 0 if 0 in ks[:2] else None if None in ks[:2] else ks[0] * ks[1] % R_ORD
    b = 0 if 0 in ks[2:] else None if None in ks[2:] else ks[2] * ks[3] % R_ORD
    if a is None or b is None:
        raise Infeasible()
    return a == b


@contract("CompareTwoPairings", props=C11, readonly=True, ncand=12, **points(((1, "p1"), (2, "q1"), (1, "p2"), (2, "q2"))))
def _(s, p1, q1, p2, q2):
    fs = [form(s, v) for v in (p1, q1, p2, q2)]
    for g, f in ((2, fs[1]), (2, fs[3])):
        if not dz(s, gz(s.I, g, f)):
            req_sub(s, g, f)
    return pairings_equal(s, *fs)
