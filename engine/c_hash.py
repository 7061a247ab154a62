"""Contracts of key derivation, hash-to-field and hashing to the curves (C14, C18)."""
from c_curves import *
from c_enc import *
from c_fields import sqkind, root, bytevals, bytes_int, intmul
from c_tower import sq2kind, root2, e_re, e_im
from externs import digest, seqof

C18 = ("C18",)
C14 = ("C14",)


def msg_input(inp, name):
    """a byte string of any length"""
    if inp.conc:
        n = inp.conc.rng.choice([0, 1, 2, 3, 8, 31, 32, 33, 64, 100])
        return Seq([("b", b) for b in bytevals(inp, name, n)])
    return Seq([("s", name)])


def seq(*parts):
    out = []
    for p in parts:
        out.extend(p.parts if isinstance(p, Seq) else [("b", x) for x in p])
    return out


def sha(s, parts):
    """SHA-256, an uninterpreted function of the byte string"""
    s.I.used.add("extern:crypto/sha256")
    return digest(s.I, parts)


def be_int(s, items):
    n = len(items)
    p = P({})
    for i, b in enumerate(items):
        p = p + zp(b).scale(1 << (8 * (n - 1 - i)))
    return s.c.mk(p, 0, (1 << (8 * n)) - 1)


def modelem(s, f, x):
    """residue of an integer, named when it is a long sum"""
    if not isinstance(x, U):
        return E.const(f, x % MOD[f])
    return s.elem(f, externs.intmod(s.I, x, MOD[f]))


def hash_to_field(s, f, msg, ctr, i):
    """SHA256(msg) || ctr, then SHA256(that || i || 1) || SHA256(that || i || 2), big-endian, reduced"""
    mp = seq(sha(s, msg.parts), (ctr,))
    t = sha(s, seq(Seq(mp), (i, 1))) + sha(s, seq(Seq(mp), (i, 2)))
    return modelem(s, f, be_int(s, t))


def low8(s, ctr):
    return ctr


@contract("HashSecretKey", props=C18, readonly=True)
def _(s, b):
    items = [s.I.force(s.I.sub(b, i)) for i in range(32)]
    return s.newfr(hash_to_field(s, "r", Seq([("b", x) for x in items]), 0, 1))


def hp_inputs(inp, case):
    return [msg_input(inp, "m"), inp.z("ctr", 0, 255)]


@contract("hp", props=C18, readonly=True, inputs=hp_inputs)
def _(s, msg, ctr):
    return s.mkfq(hash_to_field(s, "q", seqof(s.I, msg), ctr, 1))


@contract("hp2", props=C18, readonly=True, inputs=hp_inputs)
def _(s, msg, ctr):
    m = seqof(s.I, msg)
    return F2(e_from(hash_to_field(s, "q", m, ctr, 1), hash_to_field(s, "q", m, ctr, 2)))


@contract("hashFunc", props=C18, readonly=True, inputs=lambda inp, case: [msg_input(inp, "m")])
def _(s, m):
    return s.newbytes(sha(s, seqof(s.I, m).parts))


def hasher_input(inp, case):
    if case.get("sym") and not inp.conc:
        return [Opq("hasher", "d")]
    return [Opq("hasher", tuple(bytevals(inp, "d", case["len"] if not case.get("sym") else inp.conc.rng.choice((0, 1, 28, 64, 66, 100)))))]


def hasher_cases(prog):
    return [{"sym": True, "fallback": "digests of 20, 32 and 48 bytes", "label": "digest of any length"}] + [{"len": k, "label": "%d-byte digest" % k} for k in (20, 32, 48)]


def digest_int(s, h, big):
    """the digest as the integer the field element is multiplied by"""
    if isinstance(h.v, str):
        import folds
        b = folds.bytelist(s.c, h.v)
        return b.big if big else b.low
    if big:
        return be_int(s, h.v)
    return s.c.mk(bytes_int(s, s.newbytes(h.v))) if h.v else 0


@contract("HashFQ", props=C18, readonly=True, inputs=hasher_input, cases=hasher_cases)
def _(s, h):
    return s.mkfq(s.c.z2e("q", digest_int(s, h, False)))


@contract("HashFR", props=C18, readonly=True, inputs=hasher_input, cases=hasher_cases)
def _(s, h):
    return s.newfr(s.c.z2e("r", digest_int(s, h, False)))


@contract("HashFQ2", props=C18, readonly=True, inputs=hasher_input, cases=hasher_cases)
def _(s, h):
    return F2(e_from(s.c.z2e("q", digest_int(s, h, True)), E.const("q", 0)))


# ------------------------------------------------------------------ hashing to the curves

import iso_consts as ic

# the isogenous curves y^2 = x^3 + A x + B and the non-squares of the simplified SWU map
EA = {1: E.const("q", 0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d), 2: E.const("q", 0, 240)}
EB = {1: E.const("q", 0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0),
      2: E.const("q", 1012, 1012)}
EZ = {1: E.const("q", -1), 2: E.const("q", 1, 1)}
ISO = {1: [[E.const("q", v) for v in l] for l in (ic.XNUM11, ic.XDEN11, ic.YNUM11, ic.YDEN11)],
       2: [[E.const("q", *v) for v in l] for l in (ic.XNUM3, ic.XDEN3, ic.YNUM3, ic.YDEN3)]}


def ptrim(a):
    while a and a[-1].is0():
        a.pop()
    return a


def uadd(a, b):
    z = E.const("q", 0)
    return ptrim([(a[i] if i < len(a) else z) + (b[i] if i < len(b) else z) for i in range(max(len(a), len(b)))])


def umul(a, b):
    out = [E.const("q", 0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = out[i + j] + x * y
    return ptrim(out)


def ukey(a):
    return [x.key() for x in a]


def const_square(e):
    a, b = e.cv()
    return pow((a * a + b * b) % Q, (Q - 1) // 2, Q) != Q - 1


def no_root(fx, n):
    """the monic cubic has no root in the field with n elements: gcd(x^n - x, f) = 1"""
    zero, one = E.const("q", 0), E.const("q", 1)

    def mod(p):
        p = list(p)
        while len(p) > 3:
            k = p.pop()
            for i in range(3):
                p[len(p) - 3 + i] = p[len(p) - 3 + i] - k * fx[i]
        return p
    acc = [one]
    for bit in bin(n)[2:]:
        acc = mod(umul(acc, acc))
        if bit == "1":
            acc = mod([zero] + acc)
    acc = acc + [zero] * (3 - len(acc))
    acc[1] = acc[1] - one
    a, b = list(fx), acc

    def trim(p):
        while p and p[-1].is0():
            p.pop()
        return p
    b = trim(b)
    while b:
        i = inv_const(b[-1])
        a = trim(a)
        while len(a) >= len(b):
            k = a[-1] * i
            for j in range(len(b)):
                a[len(a) - len(b) + j] = a[len(a) - len(b) + j] - k * b[j]
            a = trim(a)
        a, b = b, a
    return len(a) == 1


def iso_checks():
    """the maps go to y^2 = x^3 + b: (x^3+Ax+B) yN^2 xD^3 = (xN^3 + b xD^3) yD^2; yD^2 = xD^3, so that the denominators vanish
    together; the denominators of the 3-isogeny vanish at no point over Fq2; the special value of the SWU map is a square"""
    one = E.const("q", 1)
    for g in (1, 2):
        xn, xd, yn, yd = ISO[g]
        fx = [EB[g], EA[g], E.const("q", 0), one]
        xd3 = umul(umul(xd, xd), xd)
        assert ukey(umul(yd, yd)) == ukey(xd3)
        l = umul(fx, umul(yn, yn))
        assert ukey(l) == ukey(uadd(umul(umul(xn, xn), xn), umul([BC[g]], xd3)))
        x0 = EB[g] * inv_const(EZ[g] * EA[g])
        g0 = x0 * x0 * x0 + EA[g] * x0 + EB[g]
        if g == 1:
            assert pow(g0.cv()[0], (Q - 1) // 2, Q) == 1 and pow(EZ[1].cv()[0], (Q - 1) // 2, Q) == Q - 1
        else:
            assert const_square(g0) and not const_square(EZ[2])
        assert no_root(fx, Q if g == 1 else Q * Q)
    assert not const_square(-inv_const(EZ[2]))
    xd = ISO[2][1]
    h = xd[1] * inv_const(E.const("q", 2))
    assert (h * h - xd[0]).is0()            # xD = (x + h)^2
    v = -h * h * h - EA[2] * h + EB[2]
    assert not const_square(v) and not v.is0()


iso_checks()


def on_iso(g, x, y):
    return y * y - x * x * x - EA[g] * x - EB[g]


def kind_of(s, g, v):
    return sqkind(s, "q", v) if g == 1 else sq2kind(s, v)


def root_of(s, g, v):
    return root(s, "q", v) if g == 1 else root2(s, v)


def hints(c, g, t):
    """g(x1) = Z^3 t^6 g(x0): helps to find the class of g(x1)"""
    z3 = EZ[g] * EZ[g] * EZ[g]
    h = c.memo.setdefault("sqhints", {}).setdefault("q", [])
    m = z3 * t * t * t * t * t * t
    if not any(a[0].key() == m.key() for a in h):
        h.append((m, False))


def curve_value(s, g, x):
    """x^3 + A x + B: never zero, the cubic has no root in the field (iso_consts)"""
    v = s.c.en(x * x * x + EA[g] * x + EB[g])
    if not getattr(s.c, "concrete", False):
        s.c.assume_nz(v)
    return v


def swu(s, g, t):
    """the simplified SWU map to the isogenous curve"""
    c = s.c
    t = c.en(t)
    A, B, Z = EA[g], EB[g], EZ[g]
    hints(c, g, t)
    if g == 2:
        # Z t^2 = -1 has no solution: -1/Z is not a square in Fq2 (iso_consts)
        zero = s.iszero(t)
        sign = False if zero else larger(s, g, c.en(t))
        t = c.en(t)
    t2 = c.en(t * t)
    nd = c.en(Z * Z * t2 * t2 + Z * t2)
    if g == 2 and not zero:
        c.assume_nz(nd)
    if (zero if g == 2 else s.iszero(nd)):
        x = B * inv_const(Z * A)
        if kind_of(s, g, curve_value(s, g, x)) == 2:
            raise Infeasible()
    else:
        nd, t2 = c.en(nd), c.en(t2)
        x = c.en(-B * inv_const(A) * (nd + 1) * s.inv(nd))
        if kind_of(s, g, curve_value(s, g, x)) == 2:
            x = c.en(Z * c.en(t2) * x)
            if kind_of(s, g, curve_value(s, g, x)) == 2:
                raise ToolLimit("g(x1) is a square")
    x = c.en(x)
    v = curve_value(s, g, x)
    y = c.en(root_of(s, g, v))
    if g == 1:
        sign = larger(s, g, c.en(t))
    if larger(s, g, c.en(y)) != sign:
        y = -y
    return x, y


def swu_atoms(c, g, t):
    """the point swu(t), opaque"""
    t = c.en(t)
    k = ("swu", g, t.key())
    if k not in c.memo:
        pre = "@" if g == 2 else ""
        n = c.fresh("W")
        x, y = E.atom("q", pre + n + "x"), E.atom("q", pre + n + "y")
        r = x * x * x + EA[g] * x + EB[g]
        c.rules[pre + n + "y"] = (2, r)
        c.memo[k] = (x, y)
    return c.memo[k]


def swu_pt(s, g, t):
    c = s.c
    if getattr(c, "concrete", False):
        return swu(s, g, t)
    return swu_atoms(c, g, t)


def iso(s, g, x, y):
    """the image under the isogeny: None or (x, y)"""
    c = s.c
    vals = []
    for l in ISO[g]:
        v = l[-1]
        for a in reversed(l[:-1]):
            v = v * x + a
        vals.append(c.en(v))
    xn, xd, yn, yd = vals
    if g == 1:
        if dz(s, s.fz(xd)):
            return None
    else:
        c.assume_nz(xd)
    c.assume_nz(c.en(yd))
    return c.en(c.en(xn) * s.inv(c.en(xd))), c.en(c.en(y * yn) * s.inv(c.en(yd)))


def iso_form(s, g, x, y):
    """the image as a formal point"""
    c = s.c
    if getattr(c, "concrete", False):
        p = iso(s, g, x, y)
        return {} if p is None else point_form(s.I, g, p)
    s.require(c.cfz(on_iso(g, c.en(x), c.en(y))), "the point is on the isogenous curve")
    return {("iso", g, c.en(x).key(), c.en(y).key()): pconst(1)}


def psi_form(f):
    return {("psi", b): k for b, k in f.items()}


def clear(g, f):
    """the cofactor cleared: (1-x)P; (x^2-x-1)P + (x-1) psi(P) + 2 psi^2(P)"""
    if g == 1:
        return fscale(f, 1 - X)
    p1 = psi_form(f)
    return fadd(fadd(fscale(f, X * X - X - 1), fscale(p1, X - 1)), fscale(psi_form(p1), 2))


def map_form(s, g, t1, t2):
    f = iso_form(s, g, *swu_pt(s, g, t1))
    if t2 is not None:
        f = fadd(f, iso_form(s, g, *swu_pt(s, g, t2)))
    return clear(g, f)


def hash_fields(s, g, msg):
    """the two field elements of a message"""
    m = Seq(seq((1,), msg))
    out = []
    for ctr in (0, 1):
        h = [hash_to_field(s, "q", m, ctr, i) for i in range(1, g + 1)]
        out.append(h[0] if g == 1 else e_from(*h))
    return out


def hash_form(s, g, msg):
    """the hash of a message as a formal point of the subgroup"""
    b = ("h", g, msg.key())
    if getattr(s.c, "concrete", False):
        pts = s.c.memo.setdefault("pts", {})
        if b not in pts:
            pts[b] = c_form(s.I, g, map_form(s, g, *hash_fields(s, g, msg)))
    set_order(s.c, g, b, R_ORD)
    return {b: pconst(1)}


def conc_t(inp, g):
    rng = inp.conc.rng
    k = rng.randrange(8)
    if k == 0:
        return E.const("q", 0)
    if k == 1:                                  # Z t^2 = -1
        if g == 1:
            return E.const("q", rng.choice((1, -1)))
        r = c_sqrt2(inv_const(-EZ[2]))
        if r is not None:
            return r
    if k == 2:
        return E.const("q", rng.randrange(1, 9), rng.randrange(-2, 3) if g == 2 else 0)
    if k == 3 and g == 2:
        return E.const("q", rng.randrange(Q), 0) if rng.random() < 0.5 else E.const("q", 0, rng.randrange(Q))
    return E.const("q", rng.randrange(Q), rng.randrange(Q) if g == 2 else 0)


def t_input(inp, g, nm="t"):
    if inp.conc:
        return mkco(g, conc_t(inp, g))
    return inp.fq(nm) if g == 1 else inp.f2c(nm)


def iso_input(g):
    def inputs(inp, case):
        if inp.conc:
            rng = inp.conc.rng
            if g == 1 and rng.random() < 0.3:
                # a point of the kernel
                for _ in range(50):
                    r = kernel_point(rng)
                    if r is not None:
                        x, y = r
                        break
            else:
                while True:
                    x = E.const("q", rng.randrange(Q), rng.randrange(Q) if g == 2 else 0)
                    y = (c_sqrt1 if g == 1 else c_sqrt2)(x * x * x + EA[g] * x + EB[g])
                    if y is not None:
                        break
        else:
            pre = "@" if g == 2 else ""
            x, y = E.atom("q", pre + "wx"), E.atom("q", pre + "wy")
            inp.c.rules[pre + "wy"] = (2, x * x * x + EA[g] * x + EB[g])
        return [inp.I.alloc((mkco(g, x), mkco(g, y), False), inp.I.prog.byname[BLS + "." + TN[(g, "A")]])]
    return inputs


KROOTS = []


def kernel_point(rng):
    """a rational point of the kernel of the 11-isogeny"""
    if not KROOTS:
        # x-coordinates: roots of xD, found by gcd with x^q - x
        d = [v.cv()[0] for v in ISO[1][1]]
        KROOTS.extend(poly_roots(d, rng))
    if not KROOTS:
        return None
    x = E.const("q", rng.choice(KROOTS))
    y = c_sqrt1(x * x * x + EA[1] * x + EB[1])
    return None if y is None else (x, y)


def poly_roots(f, rng):
    """roots in Fq of a polynomial (constant term first)"""
    def trim(a):
        while a and a[-1] % Q == 0:
            a.pop()
        return a

    def rem(a, b):
        a = a[:]
        iv = pow(b[-1], -1, Q)
        while len(a) >= len(b):
            k = a[-1] * iv % Q
            if k:
                for i in range(len(b)):
                    a[len(a) - len(b) + i] = (a[len(a) - len(b) + i] - k * b[i]) % Q
            a.pop()
        return trim(a)

    def mul(a, b):
        o = [0] * (len(a) + len(b) - 1) if a and b else []
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                o[i + j] = (o[i + j] + x * y) % Q
        return o

    def powmod(a, n, m):
        r = [1]
        a = rem(a, m)
        while n:
            if n & 1:
                r = rem(mul(r, a), m)
            a = rem(mul(a, a), m)
            n >>= 1
        return r

    def gcdp(a, b):
        while b:
            a, b = b, rem(a, b)
        iv = pow(a[-1], -1, Q)
        return [x * iv % Q for x in a]

    def sub(a, b):
        n = max(len(a), len(b))
        return trim([((a[i] if i < len(a) else 0) - (b[i] if i < len(b) else 0)) % Q for i in range(n)])
    f = gcdp(trim(f[:]), sub(powmod([0, 1], Q, f), [0, 1]) or f)
    out = []
    work = [f]
    while work:
        h = work.pop()
        if len(h) <= 1:
            continue
        if len(h) == 2:
            out.append(-h[0] * pow(h[1], -1, Q) % Q)
            continue
        w = sub(powmod([rng.randrange(Q), 1], (Q - 1) // 2, h), [1])
        k = gcdp(h, w) if w else h
        if 1 < len(k) < len(h):
            q, a = [], h[:]
            iv = pow(k[-1], -1, Q)
            while len(a) >= len(k):
                z = a[-1] * iv % Q
                q.append(z)
                for i in range(len(k)):
                    a[len(a) - len(k) + i] = (a[len(a) - len(k) + i] - z * k[i]) % Q
                a.pop()
            work += [k, q[::-1]]
        else:
            work.append(h)
    return out


@contract("signFQ", props=C14, readonly=True)
def _(s, f):
    return s.mkfq(E.const("q", -1 if larger(s, 1, s.c.en(s.fq(f))) else 1))


@contract("signFQ2", props=C14, readonly=True)
def _(s, f):
    return -1 if larger(s, 2, s.c.en(s.f2(f))) else 1


for g in (1, 2):
    def reg(g=g):
        A = TN[(g, "A")]
        helper = {1: "optimizedSWUMapHelper", 2: "OptimizedSWU2MapHelper"}[g]

        def tinp(inp, case):
            t = t_input(inp, g)
            if not inp.conc:
                hints(inp.c, g, ce(inp.I, g, t))
            return [t]

        @contract(helper, props=C14, readonly=True, inputs=tinp)
        def _(s, t):
            e = ce(s.I, g, t)
            if s.check:
                return dec_point(s, g, *swu(s, g, e))
            return new_coord(s, g, *swu_pt(s, g, e))

        @contract({1: "iso11", 2: "iso3"}[g], props=C14, readonly=True, inputs=iso_input(g))
        def _(s, p):
            v = val(s, p)
            if dz(s, v[2]):
                raise ToolLimit("isogeny at infinity")
            v = val(s, p)
            x, y = ce(s.I, g, v[0]), ce(s.I, g, v[1])
            if s.check:
                r = iso(s, g, x, y)
                return res(s, g, "A", r)
            return res(s, g, "A", iso_form(s, g, x, y))

        def onept(inp, case):
            return [inp.I.alloc(abs_input(inp, "p", g, False), inp.I.prog.byname[BLS + "." + A])]

        @contract({1: "ClearH", 2: "clearH2"}[g], props=C14, readonly=True, inputs=onept, ncand=8)
        def _(s, p):
            f = clear(g, form(s, p))
            if not getattr(s.c, "concrete", False) and gz(s.I, g, fscale(f, R_ORD)) is not True:
                raise Failed("the cleared point is in the subgroup of prime order", "")
            return res(s, g, "A", f)

        def mapinp(inp, case):
            tn = BLS + "." + ("FQ" if g == 1 else "FQ2")
            a = inp.I.alloc(t_input(inp, g, "t"), inp.I.prog.byname[tn])
            if case["k"] == "same":
                return [a, a]
            return [a, inp.I.alloc(t_input(inp, g, "w"), inp.I.prog.byname[tn]) if case["k"] == "two" else None]

        @contract({1: "optimizedSWUMap", 2: "optimizedSWUMap2"}[g], props=C14, readonly=True, inputs=mapinp, ncand=8,
                  cases=lambda prog: [{"k": k, "label": k} for k in ("two", "one", "same")])
        def _(s, a, b):
            return res(s, g, "A", map_form(s, g, ce(s.I, g, val(s, a)), None if b is None else ce(s.I, g, val(s, b))))

        @contract("HashG%d" % g, props=C14, readonly=True, inputs=lambda inp, case: [msg_input(inp, "m")], ncand=8)
        def _(s, m):
            m = seqof(s.I, m)
            if not s.check or getattr(s.c, "concrete", False):
                return res(s, g, "A", hash_form(s, g, m))
            f = map_form(s, g, *hash_fields(s, g, m))
            if gz(s.I, g, fscale(f, R_ORD)) is not True:
                raise Failed("the hash is in the subgroup of prime order", "")
            return res(s, g, "A", f)
    reg()


@contract("psi", props=C14, readonly=True, ncand=12, inputs=lambda inp, case: [inp.I.alloc(coord_input(inp, "p", 2, False, case["k"]), inp.I.prog.byname[BLS + ".G2Affine"])],
          cases=lambda prog: [{"k": k, "label": k} for k in KINDS])
def _(s, p):
    v = val(s, p)
    if not s.check or isinstance(v, GA):
        return res(s, 2, "A", psi_form(form(s, p)))
    return res(s, 2, "A", c_psi(xy(s, p)))


# ---------------------------------------------------------------- hashing with a domain

def wd_start(s, h, d):
    """the start value: SHA256(hash || domain || 1) + SHA256(hash || domain || 2) u"""
    pre = [("b", s.I.force(s.I.sub(h, i))) for i in range(32)] + [("b", s.I.force(s.I.sub(d, i))) for i in range(8)]
    c = [s.I.simple_e(s.elem("q", be_int(s, sha(s, Seq(pre + [("b", i)]).parts)))) for i in (1, 2)]
    return e_from(*c)


def wd_value(c, x):
    """x^3 + 4(1+u), which is never zero: the cofactor is odd"""
    v = c.en(x * x * x + BC[2])
    if not getattr(c, "concrete", False):
        c.assume_nz(v)
    return v


assert no_root([BC[2], E.const("q", 0), E.const("q", 0), E.const("q", 1)], Q * Q)


def wd_find(s, x):
    """the first candidate that is the x-coordinate of a point, with the larger y (concrete mode)"""
    for _ in range(400):
        v = s.c.en(x * x * x + BC[2])
        if sq2kind(s, v) != 2:
            y = s.c.en(root2(s, v))
            return x, (y if larger(s, 2, y) else -y)
        x = s.c.en(x + 1)
    raise ToolLimit("no point found")


def wd_loop(I, args):
    return I.ctx.memo["wd"](I)


wd_loop.make = True


def wd_form(s, h, d):
    pre = [("b", s.I.force(s.I.sub(h, i))) for i in range(32)] + [("b", s.I.force(s.I.sub(d, i))) for i in range(8)]
    b = ("h", 2, ("wd", Seq(pre).key()))
    if getattr(s.c, "concrete", False):
        pts = s.c.memo.setdefault("pts", {})
        if b not in pts:
            pts[b] = c_form(s.I, 2, fscale(point_form(s.I, 2, wd_find(s, wd_start(s, h, d))), H2))
    set_order(s.c, 2, b, R_ORD)
    return {b: pconst(1)}


@contract("HashG2WithDomain", props=C14, readonly=True, induct=wd_loop, ncand=6)
def _(s, h, d):
    c = s.c
    if not s.check or getattr(c, "concrete", False):
        return res(s, 2, "P", wd_form(s, h, d))
    x0 = wd_start(s, h, d)
    x = E.atom("q", "@" + c.fresh("x"))         # any later candidate: x0 + k
    kind = sq2kind(s, wd_value(c, x))
    from loops import SearchLoop
    c.memo["wd"] = lambda I: SearchLoop(I, x0, x, x + 1, lambda: kind == 2)
    if kind == 2:
        def chk(cmp, v, where):
            raise Failed("a candidate that is not on the curve is not returned", "")
        return Pred(chk)
    y = c.en(root2(s, wd_value(c, x)))
    y = y if larger(s, 2, y) else -y
    f = fscale(point_form(s.I, 2, (c.en(x), c.en(y))), H2)
    if gz(s.I, 2, fscale(f, R_ORD)) is not True:
        raise Failed("the hash is in the subgroup of prime order", "")
    return res(s, 2, "P", f)
