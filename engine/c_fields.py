"""Contracts of the base field (C02) and the scalar field (C03)."""
from spec import *
from externs import bytes_of, Big
import externs

INF = {"FQ": ("q", 6), "FR": ("r", 4)}


def nonres(f):
    """a non-residue, by Euler's criterion"""
    m = MOD[f]
    g = m - 1 if m % 4 == 3 else 2
    while pow(g, (m - 1) // 2, m) != m - 1:
        g += 1
    return g


NONRES = {f: nonres(f) for f in MOD}


def square_cases(f, name="s"):
    """zero, non-zero square, non-square: every element, since the non-residues are one class"""
    def val(inp, k):
        if k == 0:
            return E.const(f, 0)
        s = inp.e(f, name)
        if inp.conc:
            if s.is0():
                s = E.const(f, 5)
        else:
            inp.c.nzatoms.add(name)
        return s * s * (1 if k == 1 else NONRES[f])
    return val


def sqkind(s, f, e):
    """0 zero, 1 square, 2 non-square"""
    e = s.c.en(e) if isinstance(e, E) else s.c.pw_simplify(e)
    cv = e.cv() if isinstance(e, E) else None
    m = MOD[f]
    if cv is not None:
        return 0 if cv[0] == 0 else 1 if pow(cv[0], (m - 1) // 2, m) == 1 else 2
    if s.iszero(e):
        return 0
    if isinstance(e, PW):
        e = e.simple()
        if isinstance(e, PW):
            raise ToolLimit("square class of a power product")
    e = s.c.en(e)
    cv = e.cv()
    if cv is not None:
        return sqkind(s, f, e)
    if known_root(s, f, e) is not None:
        return 1
    r = related_square(s, "square", f, e)
    if r is not None:
        return r
    # monomials: the square class of the odd part
    A = e.A
    if not e.B.d and len(A.d) == 1:
        (k, v), = A.d.items()
        if all(x % 2 == 0 for _, x in k):
            return 1 if pow(v, (m - 1) // 2, m) == 1 else 2
    # square factors (of inverses, say) do not change the class
    e = s.c.nf_square_class(e) if hasattr(s.c, "nf_square_class") else e
    cc, mm = monic_e(e)
    flip = pow(cc.cv()[0], (m - 1) // 2, m) != 1
    s.c.memo.setdefault("sqforms", {})[("square", f, mm.key())] = (e, flip)
    r = s.decide(Cond("op", None, False, ("square", f, mm.key())), "square")
    return 1 if r != flip else 2


def related_square(s, kind, f, e):
    """the class of e is known when e is a known element times one of the hinted multipliers (of known class)"""
    c = s.c
    for key, w0 in list(c.memo.get("sqforms", {}).items()):
        if key[0] != kind or key[1] != f or ("op", key) not in c.known:
            continue
        w = c.en(w0[0])
        for m, cls in ((E.const(f, 1), True), *c.memo.get("sqhints", {}).get(f, ())):
            flip = w0[1]
            if any(not c.not_identical(d) and c.is_zero(d) is True for d in (e - c.en(m) * w, c.en(m) * e - w)):
                return 1 if (c.known[("op", key)] != flip) == cls else 2
    return None


def known_root(s, f, e, ext=False):
    """an atom (times u) whose square is known to be e"""
    c = s.c
    for a, (n, r) in list(c.rules.items()):
        if n != 2 or r.f != f or a in c.esub or (a[0] == "@") and not ext:
            continue
        r = c.en(r)
        if r.key() == e.key():
            return E.atom(f, a)
        if ext and a[0] != "@" and (-r).key() == e.key():
            return E.atom(f, a) * U_Q
    for a, (n, r) in list(c.rules.items()):
        if n != 2 or r.f != f or a in c.esub or (a[0] == "@") and not ext:
            continue
        d = c.en(r) - e
        if not c.not_identical(d) and c.is_zero(d) is True:
            return E.atom(f, a)
    return None


def cst_sqrt(f, v):
    m = MOD[f]
    if m % 4 == 3:
        return pow(v, (m + 1) // 4, m)
    raise ToolLimit("square root")


def root(s, f, e):
    """a square root of a known square"""
    cv = s.c.en(e).cv()
    if cv is not None:
        return E.const(f, cst_sqrt(f, cv[0]))
    k = ("root", f, s.c.en(e).key())
    if k not in s.c.memo:
        a = known_root(s, f, s.c.en(e))
        if a is not None:
            s.c.memo[k] = -a if s.c.choose(2, "root sign") else a
    if k not in s.c.memo:
        nm = s.c.fresh("y")
        s.c.rules[nm] = (2, s.c.en(e))
        s.c.nzatoms.add(nm)
        s.c.memo[k] = E.atom(f, nm)
        s.c.memo.setdefault("roots", {})[nm] = e
    return s.c.memo[k]


def intmul(s, f, e, n):
    """n times e"""
    if isinstance(e, PW):
        e = s.I.simple_e(e)
    return e * s.c.z2e(f, n)


def bytes_int(s, b):
    """the integer MulBytes multiplies by: bytes in order, the bits of each byte from the low end"""
    n = P({})
    import folds
    u = folds.bytelist_of(s.I, b)
    if u is not None:
        return zp(u.low)
    items = [s.I.force(x) for x in s.bytes(b)]
    L = len(items)
    for i, y in enumerate(items):
        h = y
        for j in range(8):
            if isinstance(h, U):
                h, bit = s.split(h, 1)
            else:
                h, bit = h >> 1, h & 1
            n = n + zp(bit).scale(1 << (8 * (L - 1 - i) + 7 - j))
    return n


def fork_int(s, x):
    return x


for T, (f, n) in INF.items():
    PT = T == "FR"
    PR = ("C02",) if T == "FQ" else ("C03",)

    def reg(T=T, f=f, n=n, PT=PT, PR=PR):
        m = MOD[f]

        def get(s, v):
            return s.fq(v) if not PT else s.fr(v)

        def put(s, p, e):
            """update of *p"""
            if PT:
                v = p if isinstance(p, tuple) else s.I.load(p)
                s.I.store(s.I.fld(v, 0), RMont("r", e))
            else:
                s.setfq(p, e)

        def new(s, e):
            return s.newfr(e) if PT else s.mkfq(e)

        P1 = "*" if PT else ""        # methods of FR have a pointer receiver more often

        def pair_inputs(inp, case):
            """two elements, the same storage when the case says so"""
            if not PT:
                return None
            a = inp.t_FR(None, "f")
            b = a if case.get("same") else inp.t_FR(None, "other")
            fr = inp.I.prog.byname[BLS + ".FR"]
            if case.get("val"):
                return [a, inp.I.alloc(b, fr)]
            pa = inp.I.alloc(a, fr)
            return [pa, pa if case.get("same") == 2 else inp.I.alloc(b, fr)]

        def opt(name, val=False):
            """keywords for a binary operation"""
            if not PT:
                return {}
            cs = [{"label": "distinct"}, {"same": 1, "label": "shared"}]
            if not val:
                cs.append({"same": 2, "label": "same"})
            for c in cs:
                c["val"] = val
            return {"cases": lambda prog: cs, "inputs": pair_inputs, "share_ok": True}

        @contract(T + ".Copy" + P1, props=PR + ("C15",), readonly=True)
        def _(s, a):
            return new(s, get(s, a))

        def raw_inputs(inp, case):
            r = RInt(inp.zrep("n", n), n)
            if PT:
                p = inp.I.alloc(r, inp.I.prog.byname[BLS + ".FRRepr"])
                return [inp.I.alloc((p,), inp.I.prog.byname[BLS + ".FR"])]
            return [inp.I.alloc((r,), inp.I.prog.byname[BLS + ".FQ"])]

        @contract(T + ".IsValid*", props=PR, readonly=True, inputs=raw_inputs)
        def _(s, a):
            v = s.I.fld(s.I.load(a), 0)
            if PT:
                v = s.I.load(v)
            if isinstance(v, RMont):
                return True
            return s.lt(s.I.repint(v), m)

        @contract(T + "ReprTo" + T, props=PR, readonly=True)
        def _(s, o):
            x = s.rep(o)
            if not s.decide(s.lt(x, m)):
                return None if PT else (RInt(0, 6),)
            x = s.rep(o)
            return new(s, s.elem(f, x))

        @contract(T + ".AddAssign*", props=PR, **opt("add"))
        def _(s, a, b):
            put(s, a, add_e(s, get(s, a), get(s, b)))

        @contract(T + ".SubAssign*", props=PR, **opt("sub"))
        def _(s, a, b):
            put(s, a, add_e(s, get(s, a), -get(s, b)))

        @contract(T + ".MulAssign" + ("" if PT else "*"), props=PR, **opt("mul", True))
        def _(s, a, b):
            put(s, a, mul_e(get(s, a), get(s, b)))

        @contract(T + ".DoubleAssign*", props=PR)
        def _(s, a):
            put(s, a, add_e(s, get(s, a), get(s, a)))

        @contract(T + ".SquareAssign*", props=PR)
        def _(s, a):
            e = get(s, a)
            put(s, a, mul_e(e, e))

        @contract(T + ".NegAssign*", props=PR)
        def _(s, a):
            e = -get(s, a)
            if not PT:
                return s.setfq(a, e)
            # the representation may be replaced: the old one is left unspecified
            old = s.I.fld(s.I.load(a), 0)
            p = s.newrep(RMont("r", e), "FRRepr")
            s.I.flex = getattr(s.I, "flex", {})
            s.I.flex[p.o] = old.o
            s.I.mem[old.o] = POISON
            s.I.store(Ptr(a.o, a.path + (0,)), p)

        def expinp(inp, case):
            x = inp.bits("n", 64 * n)
            a = inp.t_FR(None, "f") if PT else inp.fq("f")
            if not PT:
                return [a, RInt(x, n)]
            return [inp.I.alloc(a, inp.I.prog.byname[BLS + ".FR"]), inp.I.alloc(RInt(x, n), inp.I.prog.byname[BLS + ".FRRepr"])]

        @contract(T + ".Exp" + P1, props=PR, readonly=True, inputs=expinp, ncand=120)
        def _(s, a, k):
            x = s.rep(k)
            e = get(s, a)
            cv = e.cv() if isinstance(e, E) else None
            if isinstance(x, U):
                return new(s, PW.of(e).power(zp(x)))
            if cv is not None:
                return new(s, E.const(f, pow(cv[0], x, m)))
            if isinstance(e, E) and x <= 8:
                return new(s, e.pow(x))
            return new(s, PW.of(e).power(x))

        @contract(T + ".Equals", props=PR, readonly=True, **opt("eq", True))
        def _(s, a, b):
            return s.I.cdiff(get(s, a), get(s, b))

        @contract(T + ".String", props=PR, readonly=True)
        def _(s, a):
            x = s.cint(f, get(s, a))
            return externs.Str(["F" + f + "(0x" if not PT else "FR(0x"] + [("x", 16, l) for l in reversed(s.c.limbs(x, n))] + [")"])

        @contract(T + ".Cmp", props=PR, readonly=True, **opt("cmp", True))
        def _(s, a, b):
            return s.sgn(s.cint(f, get(s, a)), s.cint(f, get(s, b)))

        @contract(T + ".IsZero", props=PR, readonly=True)
        def _(s, a):
            return s.fz(get(s, a))

        @contract(T + ".Parity", props=PR, readonly=True)
        def _(s, a):
            return s.lt((m - 1) // 2, s.cint(f, get(s, a)))

        def ind(I, args):
            e = I.repfe(I.fld(args[0], 0), "q") if not PT else I.repfe(I.load(args[0][0]), "r")
            if I.ctx.is_zero(e) is not False:
                raise ToolLimit("inversion of an element that may be zero")
            M = MONT[f]
            return {"mod": m, "f": f, "cong": (e * M, E.const(f, M * M % m))}

        @contract(T + ".Inverse", props=PR, readonly=True, induct=ind)
        def _(s, a):
            e = get(s, a)
            if s.iszero(e):
                return None if PT else ((RInt(0, 6),), False)
            e = get(s, a)
            return new(s, s.inv(e)) if PT else (new(s, s.inv(e)), True)

        def mbinp(inp, case):
            a = inp.t_FR(None, "f") if PT else inp.fq("f")
            return [a, inp.I.alloc(RInt(inp.bits("b", 64 * n), n), inp.I.prog.byname[BLS + ".F%sRepr" % f.upper()])]

        def horner(I, e):
            """the invariant: the value is the multiple of e by the integer read so far"""
            def el(I, v):
                if isinstance(v, (RMont, RInt)):
                    return I.repfe(v, f)
                if isinstance(v, tuple) and len(v) == 1:
                    return el(I, I.load(v[0]) if isinstance(v[0], Ptr) else v[0])
                return None

            def match(I, v, n):
                y = el(I, v)
                return isinstance(y, E) and I.ctx.is_zero(y - e * I.ctx.z2e(f, n)) is True

            def value(I, v, n):
                if isinstance(v, tuple):
                    return (value(I, v[0], n),)
                return RMont(f, e * I.ctx.z2e(f, n))
            return {"match": match, "value": value}

        def felem(I, a):
            return I.repfe(I.fld(a, 0), "q") if not PT else I.repfe(I.load(a[0]), "r")

        def mbscan(I, args):
            import loops
            return {"scan": loops.Scan(I.ctx, I.repint(I.load(args[1])), 64 * n), **horner(I, felem(I, args[0]))}
        mbscan.scan = True

        @contract(T + ".MulBits", props=PR, readonly=True, inputs=mbinp, induct=mbscan)
        def _(s, a, b):
            return new(s, intmul(s, f, get(s, a), s.rep(b)))

        def byinp(inp, case):
            a = inp.t_FR(None, "f") if PT else inp.fq("f")
            if case.get("sym") and not inp.conc:
                import folds
                return [a, folds.newbytelist(inp.I, "b")]
            k = case["len"] if not case.get("sym") else inp.conc.rng.choice((0, 1, 4, 33, 48, 65, 100, 130))
            return [a, byteslice(inp, "b", k)]

        def byscan(I, args):
            import folds, loops
            u = folds.bytelist_of(I, args[1])
            if u is None:
                return None
            sc = loops.Scan(I.ctx, u.low, None, u.n.scale(8))
            sc.octets = u.n
            return {"scan": sc, **horner(I, felem(I, args[0]))}
        byscan.scan = True

        @contract(T + ".MulBytes", props=PR, readonly=True, inputs=byinp, induct=byscan,
                  cases=lambda prog: [{"sym": True, "fallback": "byte strings of 0, 1, 2, 3, 32 and 64 bytes", "label": "any number of bytes"}] + [{"len": k, "label": "len %d" % k} for k in (0, 1, 2, 3, 32, 64)])
        def _(s, a, b):
            return new(s, intmul(s, f, get(s, a), s.c.mk(bytes_int(s, b))))

        def hashinp(inp, case):
            return [Opq("hasher", tuple(s for s in bytevals(inp, "d", 32)))]

        leg = square_cases(f)

        def leginp(inp, case):
            e = leg(inp, case["k"])
            if PT:
                p = inp.I.alloc(RMont("r", e), inp.I.prog.byname[BLS + ".FRRepr"])
                return [inp.I.alloc((p,), inp.I.prog.byname[BLS + ".FR"])]
            return [inp.I.alloc((RMont("q", e),), inp.I.prog.byname[BLS + ".FQ"])]

        @contract(T + ".Legendre*", props=("C05",), readonly=True, inputs=leginp,
                  cases=lambda prog: [{"k": k, "label": ("zero", "square", "non-square")[k]} for k in range(3)])
        def _(s, a):
            return sqkind(s, f, get(s, a))

        @contract(T + ".ToRepr*", props=PR, readonly=True)
        def _(s, a):
            x = RInt(s.cint(f, get(s, a)), n)
            return s.newrep(x, "FRRepr") if PT else x

        @contract("Rand" + T, props=("C17",), share_ok=True)
        def _(s, rd):
            r = externs.EXT["crypto/rand.Int"](s.I, (rd, externs.newbig(s.I, m)))
            if r[1] is not None:
                return (None, Err()) if PT else ((RInt(0, 6),), Err())
            x = externs.bv(s.I, r[0])
            return (new(s, s.c.z2e(f, x)), None)
    reg()


def add_e(s, a, b):
    if isinstance(a, PW):
        a = s.I.simple_e(a)
    if isinstance(b, PW):
        b = s.I.simple_e(b)
    return a + b


def mul_e(a, b):
    if isinstance(a, PW):
        return a * b
    if isinstance(b, PW):
        return b * a
    if a.nterms() * b.nterms() > 4_000_000:
        raise ToolLimit("product of large polynomials")
    return a * b


def bytevals(inp, name, k):
    if inp.conc:
        return [inp.z("%s_%d" % (name, i), 0, 255) for i in range(k)]
    out = []
    for i in range(k):
        p = P({})
        for j in range(8):
            p = p + zp(inp.c.zatom("", 0, 1, name="bit%s_%d_%d#0" % (name, i, j))).scale(1 << j)
        out.append(inp.c.mk(p, 0, 255))
    return out


def byteslice(inp, name, k):
    items = tuple(bytevals(inp, name, k))
    if k == 0:
        return None
    p = inp.I.alloc(items, ("arr", inp.I.prog.byname.get("uint8", inp.I.prog.byname.get("byte"))))
    return Sl(p.o, (), 0, k, k)


@contract("FQReprToFQRaw", props=("C02",), readonly=True)
def _(s, o):
    return (o,)


@contract("FQ.DivAssign*", props=("C02",))
def _(s, a, b):
    x, y = s.fq(a), s.fq(b)
    if s.iszero(y):
        return s.setfq(a, E.const("q", 0))
    s.setfq(a, mul_e(s.fq(a), s.inv(s.fq(b))))


@contract("FR.Bytes*", props=("C03", "C10"), readonly=True)
def _(s, a):
    return tuple(bytes_of(s.I, s.cint("r", s.fr(a)), 32))


def sqrtinp(inp, case):
    return [(RMont("q", square_cases("q")(inp, case["k"])),)]


@contract("FQ.Sqrt", props=("C05",), readonly=True, inputs=sqrtinp,
          cases=lambda prog: [{"k": k, "label": ("zero", "square", "non-square")[k]} for k in range(3)])
def _(s, a):
    e = s.fq(a)
    k = sqkind(s, "q", e)
    e = s.fq(a)
    if k == 2:
        return ((RInt(0, 6),), False) if s.mode == "call" else (ANY, False)
    if k == 0:
        return (s.mkfq(E.const("q", 0)), True)
    if s.mode == "check":
        def chk(cmp, x, where):
            y = cmp.b.repfe(cmp.b.fld(x, 0), "q")
            cmp.eqe(mul_e(y, y), e, where + " squares to the input")
        return (Pred(chk), True)
    return (s.mkfq(root(s, "q", e)), True)


@contract("FR.Sqrt", props=("C16",), readonly=True)
def _(s, a):
    """not implemented in the repository (it says so): nothing is said about the value"""
    if not s.check:
        raise ToolLimit("FR.Sqrt has no specified value")
    return s.new((s.new(ANY, "FRRepr"),), "FR")
