"""Contracts of the curve groups (C06, C07, C08)."""
from spec import *
from curves import *
import externs
from loops import DrawLoop
from externs import Big

C6 = ("C06",)
KINDS = ("fin", "inf")


def val(s, v):
    if v is None:
        raise GoPanic("nil pointer dereference")
    if isinstance(v, Ptr):
        v = s.I.load(v)
    if isinstance(v, LazyIte):
        v = s.I.force(v)
    return v


def abstract(s, *vs):
    """work with formal sums: at call sites, and when the inputs are formal"""
    return not s.check or any(isinstance(val(s, v), (GP, GA)) for v in vs)


def form(s, v):
    return as_form(s.I, val(s, v))


def xy(s, v):
    return affine_xy(s.I, val(s, v))[1]


def dz(s, c):
    return c if isinstance(c, bool) else s.decide(c)


def ec_add(s, g, a, b):
    """chord and tangent"""
    c = s.c
    if a is None:
        return b
    if b is None:
        return a
    (x1, y1), (x2, y2) = a, b
    if s.iszero(x2 - x1):
        if s.iszero(c.en(y2) - c.en(y1)):
            return ec_dbl(s, g, a)
        c.assume_fz(c.en(y2) + c.en(y1))      # y1^2 = y2^2
        return None
    x1, y1, x2, y2 = (c.en(e) for e in (x1, y1, x2, y2))
    l = (y2 - y1) * s.inv(x2 - x1)
    x = c.en(l * l - x1 - x2)
    return (x, c.en(l * (x1 - x) - y1))


def ec_dbl(s, g, a):
    c = s.c
    if a is None:
        return None
    x, y = c.en(a[0]), c.en(a[1])
    l = x * x * 3 * s.inv(y * 2)
    x3 = c.en(l * l - x - x)
    return (x3, c.en(l * (x - x3) - y))


def same_point(g, want, proj, wform=None):
    """matcher: the value represents the point (given by coordinates and, for bodies that use contracts, as a sum)"""
    def chk(cmp, v, where):
        if isinstance(v, (GP, GA)):
            return cmp_abstract(cmp, None, v, (GP if proj else GA)(g, {} if want is None else wform() if wform else point_form(cmp.s, g, want)), where)
        I, c = cmp.b, cmp.c
        if not proj:
            inf = v[2]
            inf = inf if isinstance(inf, bool) else c.decide(inf)
            if inf != (want is None):
                cmp.fail(where + " is infinity exactly when specified")
            if want is not None:
                cmp.eqe(c.en(ce(I, g, v[0])), c.en(want[0]), where + ".x")
                cmp.eqe(c.en(ce(I, g, v[1])), c.en(want[1]), where + ".y")
            return
        x, y, z = (c.en(ce(I, g, e)) for e in v)
        zz = c.is_zero(z)
        if want is None:
            if zz is not True:
                cmp.fail(where + " is the point at infinity", "z = %r" % z)
            return
        if zz is not False:
            cmp.fail(where + " is not the point at infinity", "z = %r" % z)
        cmp.eqe(x, c.en(want[0]) * z * z, where + ".x")
        cmp.eqe(y, c.en(want[1]) * z * z * z, where + ".y")
    return Pred(chk)


def newpt(s, g, kind, v):
    """pointer to a new point"""
    return s.new(v, TN[(g, kind)])


def res(s, g, kind, v, wform=None):
    """new point given by a form or by coordinates (check mode)"""
    if isinstance(v, dict):
        return newpt(s, g, kind, (GP if kind == "P" else GA)(g, v))
    return newpt(s, g, kind, same_point(g, v, kind == "P", wform))


def g_of(T):
    return int(T[1])


def ci(*kinds):
    """inputs: points by coordinates, all combinations of finite and infinity; same=True adds aliased points"""
    def cases(prog):
        out = [{"k": k, "label": "-".join(k)} for k in itertools.product(KINDS, repeat=len(kinds))]
        return out

    def inputs(inp, case):
        args = []
        for i, ((g, kind, ptr), k) in enumerate(zip(kinds, case["k"])):
            v = coord_input(inp, "pq"[i], g, kind == "P", k)
            if ptr:
                v = inp.I.alloc(v, inp.I.prog.byname[BLS + "." + TN[(g, kind)]])
            args.append(v)
        return args
    return {"cases": cases, "inputs": inputs}


def ci2(g, k1, k2):
    """value receiver and pointer argument; one more case with the argument pointing to an equal value"""
    d = ci((g, k1, False), (g, k2, True))
    if k1 != k2:
        return d

    def cases(prog):
        return d["cases"](prog) + [{"k": ("fin",), "same": True, "label": "same"}, {"k": ("inf",), "same": True, "label": "same-inf"}]

    def inputs(inp, case):
        if not case.get("same"):
            return d["inputs"](inp, case)
        v = coord_input(inp, "p", g, k1 == "P", case["k"][0])
        return [v, inp.I.alloc(v, inp.I.prog.byname[BLS + "." + TN[(g, k1)]])]
    return {"cases": cases, "inputs": inputs}


for g in (1, 2):
    def reg(g=g):
        A, PJ = TN[(g, "A")], TN[(g, "P")]
        one = E.const("q", 1)

        @contract("New" + A, props=C6, readonly=True)
        def _(s, x, y):
            return newpt(s, g, "A", (x, y, False))

        @contract("New" + PJ, props=C6, readonly=True)
        def _(s, x, y, z):
            return newpt(s, g, "P", (x, y, z))

        # copies
        @contract(A + ".Copy", props=C6 + ("C15",), readonly=True, **ci((g, "A", False)))
        def _(s, p):
            return newpt(s, g, "A", val(s, p))

        @contract(PJ + ".Copy", props=C6 + ("C15",), readonly=True, **ci((g, "P", False)))
        def _(s, p):
            return newpt(s, g, "P", val(s, p))

        @contract(A + ".String", props=("C16",), readonly=True, **ci((g, "A", False)))
        def _(s, p):
            return some_text(s)

        @contract(PJ + ".String", props=("C16",), readonly=True, **ci((g, "P", False)))
        def _(s, p):
            return some_text(s)

        # infinity
        @contract(A + ".IsZero", props=C6, readonly=True, **ci((g, "A", False)))
        def _(s, p):
            v = val(s, p)
            if isinstance(v, GA):
                return gz(s.I, g, v.form)
            return v[2]

        @contract(PJ + ".IsZero", props=C6, readonly=True, **ci((g, "P", False)))
        def _(s, p):
            v = val(s, p)
            if isinstance(v, GP):
                return gz(s.I, g, v.form)
            return s.fz(ce(s.I, g, v[2]))

        @contract(A + ".NegAssign*", props=C6, **ci((g, "A", True)))
        def _(s, p):
            v = val(s, p)
            if isinstance(v, GA):
                return s.I.store(p, GA(g, fscale(v.form, -1)))
            inf = dz(s, v[2])
            v = val(s, p)
            if inf:
                s.I.store(p, (ANY, ANY, True) if s.check else (POISON, POISON, True))
            else:
                s.I.store(p, (v[0], mkco(g, -ce(s.I, g, v[1])), v[2]))

        def neg_proj(s, p):
            v = val(s, p)
            if isinstance(v, GP):
                return s.I.store(p, GP(g, fscale(v.form, -1)))
            w = xy(s, v)
            if s.check:
                s.I.store(p, same_point(g, None if w is None else (w[0], -w[1]), True))
            else:
                v = val(s, p)
                s.I.store(p, (v[0], mkco(g, -ce(s.I, g, v[1])), v[2]))
        if g == 1:
            contract(PJ + ".NegAssign*", props=C6, **ci((g, "P", True)))(neg_proj)

        @contract(A + ".ToProjective", props=C6, readonly=True, **ci((g, "A", False)))
        def _(s, p):
            if abstract(s, p):
                return res(s, g, "P", form(s, p))
            return res(s, g, "P", xy(s, p))

        @contract(PJ + ".ToAffine", props=C6, readonly=True, **ci((g, "P", False)))
        def _(s, p):
            if abstract(s, p):
                return res(s, g, "A", form(s, p))
            return res(s, g, "A", xy(s, p))

        def equal(s, p, q):
            if abstract(s, p, q):
                return gz(s.I, g, fadd(form(s, p), form(s, q), -1))
            a, b = xy(s, p), xy(s, q)
            if a is None or b is None:
                return a is None and b is None
            return s.iszero(a[0] - b[0]) and s.iszero(s.c.en(a[1]) - s.c.en(b[1]))
        contract(A + ".Equals", props=C6, readonly=True, **ci2(g, "A", "A"))(equal)
        contract(PJ + (".Equal" if g == 1 else ".Equals"), props=C6, readonly=True, **ci2(g, "P", "P"))(equal)

        @contract(PJ + ".Double", props=C6, readonly=True, **ci((g, "P", False)))
        def _(s, p):
            if abstract(s, p):
                return res(s, g, "P", fscale(form(s, p), 2))
            return res(s, g, "P", ec_dbl(s, g, xy(s, p)), lambda: fscale(form(s, p), 2))

        def add(s, p, q):
            if abstract(s, p, q):
                return res(s, g, "P", fadd(form(s, p), form(s, q)))
            a, b = xy(s, p), xy(s, q)
            return res(s, g, "P", ec_add(s, g, a, b), lambda: fadd(form(s, p), form(s, q)))
        contract(PJ + ".Add", props=C6, readonly=True, **ci2(g, "P", "P"))(add)
        contract(PJ + ".AddAffine", props=C6, readonly=True, **ci2(g, "P", "A"))(add)

        def anyaff(inp, case):
            x, y = (inp.fq("x"), inp.fq("y")) if g == 1 else (inp.f2c("x"), inp.f2c("y"))
            if inp.conc and inp.conc.rng.random() < 0.6:
                return [coord_input(inp, "p", g, False, "fin")]
            return [(x, y, case["inf"])]

        @contract(A + ".IsOnCurve", props=C6, readonly=True, inputs=anyaff,
                  cases=lambda prog: [{"inf": b, "label": "inf" if b else "fin"} for b in (False, True)])
        def _(s, p):
            v = val(s, p)
            if isinstance(v, GA):
                return True
            if dz(s, v[2]):
                return True
            v = val(s, p)
            x, y = ce(s.I, g, v[0]), ce(s.I, g, v[1])
            return s.fz(y * y - x * x * x - BC[g])

        # ---- scalar multiplication (C07)
        def mulinp(kind, n, rep):
            def inputs(inp, case):
                p = abs_input(inp, "p", g, kind == "P")
                k = RInt(inp.bits("b", 64 * n), n)
                if rep == "FRRepr":
                    k = inp.I.alloc(k, inp.I.prog.byname[BLS + ".FRRepr"])
                return [p, k]
            return inputs

        def mulscan(I, args):
            k = args[1]
            if isinstance(k, Ptr):
                k = I.load(k)
            x = k.v if isinstance(k, Big) else I.repint(k)
            base = as_form(I, args[0])

            def match(I, v, n):
                if isinstance(v, (tuple, GP)):
                    return gz(I, g, fadd(as_form(I, v), fscale(base, n), -1)) is True
                return False
            import loops
            return {"scan": loops.Scan(I.ctx, x, None if isinstance(k, Big) else 64 * k.n), "match": match,
                    "value": lambda I, v, n: GP(g, fscale(base, n))}
        mulscan.scan = True

        for kind in "AP":
            T = TN[(g, kind)]
            for meth, n, rep in (("Mul", 6, "FQRepr"), ("MulFR", 4, "FRRepr")):
                @contract(T + "." + meth, props=("C07",), readonly=True, inputs=mulinp(kind, n, rep), ncand=20, induct=mulscan)
                def _(s, p, k):
                    return res(s, g, "P", fscale(form(s, p), zp(s.rep(k))))

        def bigval(s, b):
            v = externs.bv(s.I, b) if not isinstance(b, Big) else b.v
            return v

        if g == 2:
            def biginp(inp, case):
                p = abs_input(inp, "p", g, False)
                if inp.conc:
                    return [p, Big(inp.z("b", 0, (1 << 600) - 1))]
                a = inp.c.zatom("", 0, PINF, name="b#")
                return [p, Big(a)]

            @contract(A + ".MulBig", props=("C07",), readonly=True, inputs=biginp, ncand=20, induct=mulscan)
            def _(s, p, k):
                s.require(s.c.cge0(zp(bigval(s, k))), "the scalar is not negative")
                return res(s, g, "P", fscale(form(s, p), zp(bigval(s, k))))

        H = H1 if g == 1 else H2

        def onepoint(kind):
            return lambda inp, case: [abs_input(inp, "p", g, kind == "P")]

        @contract(A + ".ScaleByCofactor", props=("C07",), readonly=True, inputs=onepoint("A"), ncand=10)
        def _(s, p):
            return res(s, g, "P", fscale(form(s, p), H))

        @contract("Rand%s" % ("G%d" % g), props=("C17",), share_ok=True, induct=DrawLoop, ncand=10)
        def _(s, rd):
            if not s.check:
                raise ToolLimit("a random point")
            st = {}

            def pt(cmp, v, where):
                st["p"] = v
                if v is None:
                    return
                I, c = cmp.b, cmp.c
                o = I.load(v)
                if isinstance(o, LazyIte):
                    o = I.force(o)
                if v.o < cmp.first and not getattr(c, "concrete", False):
                    cmp.fail(where + " is a new object")
                if getattr(c, "concrete", False):
                    x, y, z = (c.en(ce(I, g, e)) for e in o)
                    if c.is_zero(z) is True:
                        cmp.fail(where + " is not the point at infinity")
                    zi = cmp.s.inv(z) if hasattr(cmp.s, "inv") else S(I, "check").inv(z)
                    q = (c.en(x * zi * zi), c.en(y * zi * zi * zi))
                    if c_mul(g, R_ORD, q) is not None:
                        cmp.fail(where + " is a point of prime order", repr(q))
                    return
                if not isinstance(o, GP):
                    raise ToolLimit("a random point that is no contract's result")
                f = o.form
                if gz(I, g, f) is not False:
                    cmp.fail(where + " is not the point at infinity", repr(f))
                if gz(I, g, fscale(f, R_ORD)) is not True:
                    cmp.fail(where + " is in the subgroup of prime order", repr(f))
                cmp.n += 2

            def er(cmp, v, where):
                if (v is None) != (st.get("p") is not None):
                    cmp.fail(where + ": exactly one of point and error is nil")
                if getattr(cmp.c, "concrete", False):
                    if isinstance(rd, Opq) and rd.v.get("fail") in (0, -2) and v is None:
                        cmp.fail("a failing reader gives an error")
                else:
                    if cmp.c.memo.get("readfailed") and v is None:
                        cmp.fail("a failing reader gives an error")
                    if not cmp.c.memo.get("readfailed") and v is not None:
                        cmp.fail("an error is reported only for a failing reader")
                cmp.n += 1
            return (Pred(pt), Pred(er))

        @contract(A + ".IsInCorrectSubgroupAssumingOnCurve", props=("C08",), readonly=True, inputs=onepoint("A"), ncand=20)
        def _(s, p):
            return gz(s.I, g, fscale(form(s, p), R_ORD))
    reg()
