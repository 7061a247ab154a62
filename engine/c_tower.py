"""Contracts of the extension fields (C04) and of square roots in Fq2 (C05)."""
from spec import *
from externs import Big
import externs
from tower import *
from c_fields import square_cases, sqkind, root, add_e, mul_e, known_root, related_square

C4 = ("C04",)


def put2(s, p, e):
    s.setf2(p, e)


def g2(s, v):
    return s.f2(v)


def decz(s, e):
    return s.iszero(e)


# ---------------------------------------------------------------- Fq2

@contract("NewFQ2", props=C4, readonly=True)
def _(s, a, b):
    return F2(e_from(s.I.simple_e(s.fq(a)), s.I.simple_e(s.fq(b))))


@contract("FQ2.Copy*", props=C4 + ("C15",), readonly=True)
def _(s, a):
    return F2(g2(s, a))


@contract("FQ2.IsZero", props=C4, readonly=True)
def _(s, a):
    return s.fz(g2(s, a))


@contract("FQ2.String", props=("C16",), readonly=True)
def _(s, a):
    return some_text(s)


def cmp2(s, x, y):
    """lexicographic, the coefficient of u first"""
    k = s.sgn(s.cint("q", e_im(x)), s.cint("q", e_im(y)))
    k = externs.forksgn(s.I, k) if hasattr(externs, "forksgn") else k
    return k


@contract("FQ2.Cmp", props=C4, readonly=True)
def _(s, a, b):
    x, y = g2(s, a), g2(s, b)
    ai, bi = s.cint("q", e_im(x)), s.cint("q", e_im(y))
    if s.decide(s.eq(ai, bi)):
        x, y = g2(s, a), g2(s, b)
        return s.sgn(s.cint("q", e_re(x)), s.cint("q", e_re(y)))
    return s.sgn(ai, bi)


@contract("FQ2.Equals", props=C4, readonly=True)
def _(s, a, b):
    x, y = g2(s, a), g2(s, b)
    if s.check:
        d = x - y
        return s.iszero(e_im(d)) and s.iszero(e_re(d))
    return s.I.cdiff(x, y)


@contract("FQ2.Parity", props=C4, readonly=True)
def _(s, a):
    """whether the element is larger than its negative"""
    x = g2(s, a)
    i = e_im(x)
    if s.iszero(i):
        return s.lt((Q - 1) // 2, s.cint("q", e_re(g2(s, a))))
    return s.lt((Q - 1) // 2, s.cint("q", e_im(g2(s, a))))


@contract("FQ2.Norm*", props=C4, readonly=True)
def _(s, a):
    x = s.I.simple_e(g2(s, a))
    return s.mkfq(e_re(x * conj(x)))


@contract("FQ2.MultiplyByNonresidueAssign*", props=C4)
def _(s, a):
    s.setf2(a, mul_e(g2(s, a), XI))


@contract("FQ2.SquareAssign*", props=C4)
def _(s, a):
    x = g2(s, a)
    s.setf2(a, mul_e(x, x))


@contract("FQ2.DoubleAssign*", props=C4)
def _(s, a):
    x = g2(s, a)
    s.setf2(a, mul_e(x, E.const("q", 2)))


@contract("FQ2.NegAssign*", props=C4)
def _(s, a):
    s.setf2(a, -g2(s, a))


@contract("FQ2.AddAssign*", props=C4)
def _(s, a, b):
    s.setf2(a, add_e(s, g2(s, a), g2(s, b)))


@contract("FQ2.SubAssign*", props=C4)
def _(s, a, b):
    s.setf2(a, add_e(s, g2(s, a), -g2(s, b)))


@contract("FQ2.MulAssign*", props=C4)
def _(s, a, b):
    s.setf2(a, mul_e(g2(s, a), g2(s, b)))


@contract("FQ2.InverseAssign*", props=C4)
def _(s, a):
    x = g2(s, a)
    if s.iszero(x):
        return False
    s.setf2(a, s.inv(g2(s, a)))
    return True


@contract("FQ2.DivAssign*", props=C4)
def _(s, a, b):
    y = g2(s, b)
    if s.iszero(y):
        return s.setf2(a, Z2)
    s.setf2(a, mul_e(g2(s, a), s.inv(g2(s, b))))


@contract("FQ2.FrobeniusMapAssign*", props=C4, cases=lambda prog: [{"args": {1: k}, "label": "power %d" % k} for k in range(256)])
def _(s, a, k):
    if isinstance(k, U):
        raise ToolLimit("symbolic Frobenius power")
    x = g2(s, a)
    if k % 2:
        x = x.conj() if isinstance(x, PW) else conj(x)
    s.setf2(a, x)


def exp2inp(inp, case):
    return [inp.f2c("f"), RInt(inp.bits("n", 384), 6)]


@contract("FQ2.Exp", props=C4, readonly=True, inputs=exp2inp, ncand=30)
def _(s, a, k):
    x = s.rep(k)
    e = g2(s, a)
    cv = e.cv() if isinstance(e, E) else None
    if isinstance(x, U):
        return F2(PW.of(e).power(zp(x)))
    if cv is not None:
        return F2(e_cpow(e, x))
    if isinstance(e, E) and x <= 8:
        return F2(e.pow(x))
    return F2(s.c.pw_simplify(PW.of(e).power(x)))


def mb2inp(inp, case):
    z = inp.z("b", 0, PINF)
    return [inp.f2("f"), inp.I.alloc(Big(z), inp.I.prog.byname["math/big.Int"])]


def mb2scan(I, args):
    """state after some bits: the element times the number they form"""
    import loops
    c = I.ctx
    e = I.simple_e(I.f2(args[0]))

    def match(I, v, n):
        try:
            y = I.simple_e(I.f2(v))
        except (ToolLimit, TypeError, AttributeError):
            return False
        return isinstance(y, E) and c.is_zero(c.en(y - e * c.z2e("q", n))) is True
    return {"scan": loops.Scan(c, I.load(args[1]).v), "match": match, "value": lambda I, v, n: F2(e * c.z2e("q", n))}


mb2scan.scan = True


@contract("FQ2.MulBits", props=C4, readonly=True, inputs=mb2inp, induct=mb2scan)
def _(s, a, b):
    z = s.I.load(b).v
    s.require(s.c.cge0(zp(z)), "the multiplier is not negative")
    x = s.I.simple_e(g2(s, a))
    return F2(x * s.c.z2e("q", z))


def str_(s, v):
    return ANY


# ---------------------------------------------------------------- Fq6

def g6(s, v):
    if v is None:
        raise GoPanic("nil pointer dereference")
    if isinstance(v, Ptr):
        v = s.I.load(v)
    if isinstance(v, LazyIte):
        v = s.I.force(v)
    if isinstance(v, A12):
        return v
    if isinstance(v, Poison):
        raise PoisonUse()
    return tuple(s.I.simple_e(s.I.f2(x)) for x in v)


def p6(x):
    return x if isinstance(x, A12) else tuple(F2(e) for e in x)


def put6(s, p, x):
    s.I.store(p, p6(x))


def new6(s, x):
    return s.I.alloc(p6(x), s.I.prog.byname[BLS + ".FQ6"])


def mul6(s, a, b):
    if isinstance(a, A12) or isinstance(b, A12):
        return A12(as_a12(s.I, p6(a)).pw * as_a12(s.I, p6(b)).pw)
    return m6(a, b)


def in6(inp, name):
    return tuple(inp.f2c(name + str(i)) for i in range(3))


def in6fq(inp, name):
    return tuple(inp.f2(name + str(i)) for i in range(3))


In.t_FQ6 = lambda self, t, name: in6(self, name)


@contract("NewFQ6", props=C4, readonly=True)
def _(s, a, b, c):
    return new6(s, tuple(s.I.simple_e(g2(s, x)) for x in (a, b, c)))


@contract("FQ6.Copy", props=C4 + ("C15",), readonly=True)
def _(s, a):
    return new6(s, g6(s, a))


@contract("FQ6.AddAssign*", props=C4)
def _(s, a, b):
    put6(s, a, a6(g6(s, a), g6(s, b)))


@contract("FQ6.SubAssign*", props=C4)
def _(s, a, b):
    put6(s, a, a6(g6(s, a), n6(g6(s, b))))


@contract("FQ6.DoubleAssign*", props=C4)
def _(s, a):
    x = g6(s, a)
    put6(s, a, a6(x, x))


@contract("FQ6.NegAssign*", props=C4)
def _(s, a):
    put6(s, a, n6(g6(s, a)))


@contract("FQ6.MulByNonresidueAssign*", props=C4)
def _(s, a):
    put6(s, a, v6(g6(s, a)))


@contract("FQ6.MulBy1Assign*", props=C4)
def _(s, a, c1):
    put6(s, a, m6(g6(s, a), (Z2, g2(s, c1), Z2)))


@contract("FQ6.MulBy01Assign*", props=C4)
def _(s, a, c0, c1):
    put6(s, a, m6(g6(s, a), (g2(s, c0), g2(s, c1), Z2)))


@contract("FQ6.MulAssign*", props=C4)
def _(s, a, b):
    put6(s, a, mul6(s, g6(s, a), g6(s, b)))


@contract("FQ6.SquareAssign*", props=C4)
def _(s, a):
    x = g6(s, a)
    put6(s, a, mul6(s, x, x))


@contract("FQ6.InverseAssign*", props=C4)
def _(s, a):
    x = g6(s, a)
    adj, n = adj6(x)
    # the norm vanishes only at zero: v^3 - xi is irreducible
    if s.iszero(n):
        return False
    i = s.inv(s.c.en(n))
    put6(s, a, tuple(e * i for e in adj6(g6(s, a))[0]))
    return True


def eq6(s, x, y):
    """decided"""
    for a, b in zip(x, y):
        if not s.decide(s.I.cdiff(a, b)):
            return False
    return True


@contract("FQ6.Equals", props=C4, readonly=True)
def _(s, a, b):
    return eq6(s, g6(s, a), g6(s, b))


@contract("FQ6.IsZero", props=C4, readonly=True)
def _(s, a):
    return eq6(s, g6(s, a), ZERO6)


@contract("FQ6.String", props=("C16",), readonly=True)
def _(s, a):
    return some_text(s)


FROB = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 23, 24, 25, 127, 128, 254, 255)


@contract("FQ6.FrobeniusMapAssign*", props=C4, cases=lambda prog: [{"args": {1: k}, "label": "power %d" % k} for k in range(256)], ncand=256)
def _(s, a, k):
    put6(s, a, frob6(g6(s, a), k))


def powint(mul, one, x, n):
    r = one
    while n:
        if n & 1:
            r = mul(r, x)
        x = mul(x, x)
        n >>= 1
    return r


def exp6inp(inp, case):
    n = inp.bits("n", 384)
    if inp.conc:
        f = in6(inp, "f")
    else:
        f = tag12("F6", "f")
    return [f, inp.I.alloc(RInt(n, 6), inp.I.prog.byname[BLS + ".FQRepr"])]


@contract("FQ6.Exp", props=C4, readonly=True, inputs=exp6inp, ncand=20)
def _(s, a, k):
    x, n = g6(s, a), s.rep(k)
    if isinstance(x, A12):
        return new6(s, A12(x.pw.power(zp(n))))
    if isinstance(n, U):
        raise ToolLimit("symbolic power in coordinates")
    return new6(s, powint(m6, ONE6, x, n))


def rand_cases(s, rd, k, f):
    """k base field samples in order; the first error ends the sampling"""
    out = []
    for i in range(k):
        r = externs.EXT["crypto/rand.Int"](s.I, (rd, externs.newbig(s.I, Q)))
        if r[1] is not None:
            return None
        out.append(s.c.z2e("q", externs.bv(s.I, r[0])))
    return out


@contract("RandFQ2", props=("C17",), share_ok=True)
def _(s, rd):
    v = rand_cases(s, rd, 2, "q")
    return (F2(Z2), Err()) if v is None else (F2(e_from(v[0], v[1])), None)


@contract("RandFQ6", props=("C17",), share_ok=True)
def _(s, rd):
    v = rand_cases(s, rd, 6, "q")
    return (None, Err()) if v is None else (new6(s, [e_from(v[i], v[i + 1]) for i in (0, 2, 4)]), None)


@contract("RandFQ12", props=("C17",), share_ok=True)
def _(s, rd):
    v = rand_cases(s, rd, 12, "q")
    if v is None:
        return (None, Err())
    c = [new6(s, [e_from(v[j + i], v[j + i + 1]) for i in (0, 2, 4)]) for j in (0, 6)]
    return (s.new(tuple(c), "FQ12"), None)


# ---------------------------------------------------------------- Fq12

def g12(s, v):
    if v is None:
        raise GoPanic("nil pointer dereference")
    if isinstance(v, Ptr):
        v = s.I.load(v)
    if isinstance(v, LazyIte):
        v = s.I.force(v)
    if isinstance(v, A12):
        return v
    if isinstance(v, Poison):
        raise PoisonUse()
    return (g6(s, v[0]), g6(s, v[1]))


def p12(x):
    return x


def put12(s, p, x):
    """update of *p: the halves may be updated in place or replaced"""
    old = s.I.load(p)
    if isinstance(x, A12):
        if isinstance(old, tuple):
            for o in old:
                s.I.mem[o.o] = POISON
        s.I.store(p, x)
        return
    hs = []
    s.I.flex = getattr(s.I, "flex", {})
    for i in range(2):
        n = new6(s, x[i])
        if isinstance(old, tuple):
            s.I.flex[n.o] = old[i].o
        hs.append(n)
    if isinstance(old, tuple):
        s.require(old[0].o != old[1].o, "the halves are different objects")
        for o in old:
            s.I.mem[o.o] = POISON
    s.I.store(p, tuple(hs))


def new12(s, x):
    if isinstance(x, A12):
        return s.I.alloc(x, s.I.prog.byname[BLS + ".FQ12"])
    return s.new((new6(s, x[0]), new6(s, x[1])), "FQ12")


def mul12(s, a, b):
    if isinstance(a, A12) or isinstance(b, A12):
        return A12(abs12(s, a).pw * abs12(s, b).pw)
    return m12(a, b)


def abs12(s, x):
    if isinstance(x, A12):
        return x
    if all(e.cv() is not None for h in x for e in h) and [e.cv() for h in x for e in h] == [(1, 0)] + [(0, 0)] * 5:
        return A12(pw1())
    raise ToolLimit("mixing coordinates and abstract elements of the tower")


def in12(inp, name):
    t = inp.I.prog.byname[BLS + ".FQ6"]
    return tuple(inp.I.alloc(in6(inp, name + c), t) for c in "ab")


In.t_FQ12 = lambda self, t, name: in12(self, name)


@contract("NewFQ12", props=C4, readonly=True, share_ok=True)
def _(s, a, b):
    return s.new((a, b), "FQ12")


@contract("FQ12.Copy", props=C4 + ("C15",), readonly=True)
def _(s, a):
    x = g12(s, a)
    if not s.check and not isinstance(x, A12):
        try:
            x = abs12(s, x)         # a copy of one starts an abstract product
        except ToolLimit:
            pass
    return new12(s, x)


@contract("FQ12.AddAssign*", props=C4)
def _(s, a, b):
    x, y = g12(s, a), g12(s, b)
    put12(s, a, (a6(x[0], y[0]), a6(x[1], y[1])))


@contract("FQ12.SubAssign*", props=C4)
def _(s, a, b):
    x, y = g12(s, a), g12(s, b)
    put12(s, a, (a6(x[0], n6(y[0])), a6(x[1], n6(y[1]))))


@contract("FQ12.DoubleAssign*", props=C4)
def _(s, a):
    x = g12(s, a)
    put12(s, a, (a6(x[0], x[0]), a6(x[1], x[1])))


@contract("FQ12.NegAssign*", props=C4)
def _(s, a):
    x = g12(s, a)
    put12(s, a, (n6(x[0]), n6(x[1])))


@contract("FQ12.ConjugateAssign*", props=C4)
def _(s, a):
    x = g12(s, a)
    if isinstance(x, A12):
        return put12(s, a, A12(x.pw.power(Q ** 6)))
    put12(s, a, (x[0], n6(x[1])))


@contract("FQ12.MulAssign*", props=C4)
def _(s, a, b):
    put12(s, a, mul12(s, g12(s, a), g12(s, b)))


@contract("FQ12.SquareAssign*", props=C4)
def _(s, a):
    x = g12(s, a)
    put12(s, a, mul12(s, x, x))


@contract("FQ12.MulBy014Assign*", props=C4)
def _(s, a, c0, c1, c4):
    x = g12(s, a)
    l = tuple(g2(s, v) for v in (c0, c1, c4))
    if isinstance(x, A12):
        k = ("line",) + tuple(s.c.en(s.I.simple_e(e)).key() for e in l)
        s.c.memo.setdefault("lines", {})[k] = l
        return put12(s, a, A12(x.pw * tag12(*k).pw))
    put12(s, a, m12(x, ((l[0], l[1], Z2), (Z2, l[2], Z2))))


@contract("FQ12.FrobeniusMapAssign*", props=C4, cases=lambda prog: [{"args": {1: k}, "label": "power %d" % k} for k in range(256)], ncand=256)
def _(s, a, k):
    x = g12(s, a)
    if isinstance(x, A12):
        return put12(s, a, A12(x.pw.power(Q ** (k % 12))))
    put12(s, a, frob12(x, k))


@contract("FQ12.InverseAssign*", props=C4)
def _(s, a):
    x = g12(s, a)
    if isinstance(x, A12):
        z = s.decide(Cond("op", None, False, ("zero12",) + pwkey(x.pw, ())), "zero in Fq12")
        if z:
            return False
        for k in x.pw.b:
            nzset(s.c).add(k)
        put12(s, a, A12(x.pw.power(-1)))
        return True
    n = a6(m6(x[0], x[0]), n6(v6(m6(x[1], x[1]))))
    adj, nn = adj6(n)
    if s.iszero(nn):
        return False
    x = g12(s, a)
    n = a6(m6(x[0], x[0]), n6(v6(m6(x[1], x[1]))))
    adj, nn = adj6(n)
    i = s.inv(s.c.en(nn))
    ni = tuple(e * i for e in adj)
    put12(s, a, (m6(x[0], ni), n6(m6(x[1], ni))))
    return True


@contract("FQ12.Equals", props=C4, readonly=True)
def _(s, a, b):
    x, y = g12(s, a), g12(s, b)
    if isinstance(x, A12) or isinstance(y, A12):
        x, y = abs12(s, x), abs12(s, y)
        import c_pair
        return c_pair.eq12(s, x, y)
    return eq6(s, x[0], y[0]) and eq6(s, x[1], y[1])


@contract("FQ12.IsZero*", props=C4, readonly=True)
def _(s, a):
    x = g12(s, a)
    if isinstance(x, A12):
        return s.decide(Cond("op", None, False, ("zero12",) + pwkey(x.pw, ())), "zero in Fq12")
    return eq6(s, x[0], ZERO6) and eq6(s, x[1], ZERO6)


@contract("FQ12.String*", props=("C16",), readonly=True)
def _(s, a):
    return some_text(s)


def exp12inp(inp, case):
    n = inp.bits("n", 384)
    f = in12(inp, "f") if inp.conc else tag12("F12", "f")
    return [f, RInt(n, 6)]


@contract("FQ12.Exp", props=C4, readonly=True, inputs=exp12inp, ncand=10)
def _(s, a, k):
    x, n = g12(s, a), s.rep(k)
    if isinstance(x, A12):
        return new12(s, A12(x.pw.power(zp(n))))
    if isinstance(n, U):
        raise ToolLimit("symbolic power in coordinates")
    return new12(s, powint(m12, ONE12, x, n))


# ---------------------------------------------------------------- square roots in Fq2

def sq2_cases(inp, k, name="s"):
    """zero, square, non-square of Fq2 (xi is not a square)"""
    if k == 0:
        return Z2
    e = inp.I.f2(inp.f2c(name))
    if inp.conc:
        if e.is0():
            e = E.const("q", 3, 7)
    else:
        inp.c.nzatoms.add("@" + name)
        inp.c.nzatoms.add("@" + name + "~")
    return e * e * (O2 if k == 1 else XI)


def kcases(prog):
    return [{"k": k, "label": ("zero", "square", "non-square")[k]} for k in range(3)]


def sq2kind(s, e):
    """0 zero, 1 square, 2 non-square in Fq2: the square class of the norm"""
    e = s.I.simple_e(e)
    if s.iszero(e):
        return 0
    e = s.c.en(e)
    cv = e.cv()
    if cv is not None:
        n = (cv[0] ** 2 + cv[1] ** 2) % Q
        return 1 if pow(n, (Q - 1) // 2, Q) == 1 else 2
    if known_root(s, "q", e, True) is not None:
        return 1
    r = related_square(s, "square2", "q", e)
    if r is not None:
        return r
    if len(e.A.d) + len(e.B.d) <= 2 and set(e.A.d) | set(e.B.d) and len(set(e.A.d) | set(e.B.d)) == 1:
        (k,) = set(e.A.d) | set(e.B.d)
        if all(x % 2 == 0 for _, x in k):
            a, b = e.A.d.get(k, 0), e.B.d.get(k, 0)
            return 1 if pow((a * a + b * b) % Q, (Q - 1) // 2, Q) == 1 else 2
    cc, mm = monic_e(e)
    a, b = cc.cv()
    flip = pow((a * a + b * b) % Q, (Q - 1) // 2, Q) != 1
    s.c.memo.setdefault("sqforms", {})[("square2", "q", mm.key())] = (e, flip)
    r = s.decide(Cond("op", None, False, ("square2", "q", mm.key())), "square")
    return 1 if r != flip else 2


def in_sq2(inp, case):
    return [F2(sq2_cases(inp, case["k"]))]


@contract("FQ2.Legendre", props=("C05",), readonly=True, inputs=in_sq2, cases=kcases)
def _(s, a):
    return sq2kind(s, g2(s, a))


def root2(s, e):
    cv = s.c.en(e).cv()
    if cv is not None:
        from curves import c_sqrt2
        return c_sqrt2(s.c.en(e))
    k = ("root2", s.c.en(e).key())
    if k not in s.c.memo:
        a = known_root(s, "q", s.c.en(e), True)
        if a is not None:
            s.c.memo[k] = -a if s.c.choose(2, "root sign") else a
    if k not in s.c.memo:
        nm = "@" + s.c.fresh("y")
        s.c.rules[nm] = (2, s.c.en(e))
        s.c.rules[nm + "~"] = (2, conj(s.c.en(e)))
        s.c.nzatoms.add(nm)
        s.c.nzatoms.add(nm + "~")
        s.c.memo[k] = E.atom("q", nm)
    return s.c.memo[k]


@contract("FQ2.Sqrt", props=("C05",), readonly=True, inputs=in_sq2, cases=kcases)
def _(s, a):
    k = sq2kind(s, g2(s, a))
    e = s.I.simple_e(g2(s, a))
    if k == 2:
        return (POISON, False) if not s.check else (ANY, False)
    if k == 0:
        return (F2(Z2), True)
    if s.check:
        def chk(cmp, x, where):
            y = cmp.b.f2(x)
            cmp.eqe(mul_e(y, y), cmp.c.en(e), where + " squares to the input")
        return (Pred(chk), True)
    return (F2(root2(s, e)), True)
