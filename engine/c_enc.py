"""Contracts of the point encodings (C08, C09, C10)."""
from c_curves import *
from c_fields import sqkind, root, bytevals
from c_tower import sq2kind, root2, e_re, e_im
from externs import bytes_of

C9 = ("C09",)
HALF = (Q - 1) // 2
NB = {1: 48, 2: 96}


def larger(s, g, y):
    """y is the larger of y and -y: by integer value, the coefficient of u first"""
    if g == 1:
        return dz(s, s.lt(HALF, s.cint("q", s.c.en(y))))
    y = s.c.en(y)
    if dz(s, s.fz(s.c.en(e_im(y)))):
        return dz(s, s.lt(HALF, s.cint("q", s.c.en(e_re(y)))))
    return dz(s, s.lt(HALF, s.cint("q", s.c.en(e_im(y)))))


def point_from_x(s, g, x, greatest):
    """None, or the y of the stated order with (x, y) on the curve"""
    c = s.c
    x = c.en(x)
    v = c.en(x * x * x + BC[g])
    if v.cv() is None:
        c.assume_nz(v)              # -b is not a cube
    k = (sqkind(s, "q", v) if g == 1 else sq2kind(s, v))
    if k == 2:
        return None
    y = (root(s, "q", v) if g == 1 else root2(s, v))
    if g == 2:
        y = c.en(y)
    gr = dz(s, greatest)
    return y if larger(s, g, y) == gr else -y


def new_coord(s, g, x, y):
    return newpt(s, g, "A", (mkco(g, x), mkco(g, y), False))


def dec_point(s, g, x, y):
    """result of decoding: the coordinates matter, not only the point"""
    if not s.check:
        return new_coord(s, g, x, y)

    def chk(cmp, v, where):
        v = val(S(cmp.b, "check"), v)
        if isinstance(v, GA):
            v = expand_value(cmp.b, v)
        inf = v[2] if isinstance(v[2], bool) else cmp.c.decide(v[2])
        if inf:
            cmp.fail(where + " is finite")
        # decided facts can determine coordinates as integers only
        cmp.eqe(cmp.c.en(ce(cmp.b, g, v[0])), cmp.c.en(x), where + ".x")
        cmp.eqe(cmp.c.en(ce(cmp.b, g, v[1])), cmp.c.en(y), where + ".y")
    return newpt(s, g, "A", Pred(chk))


def infinity(s, g):
    if s.check:
        return res(s, g, "A", None, lambda: {})
    return newpt(s, g, "A", (mkco(g, E.const("q", 0)), mkco(g, E.const("q", 1)), True))


def split_byte(s, b, k):
    """(b >> k, b mod 2^k)"""
    if isinstance(b, U):
        return s.split(b, k)
    return b >> k, b & ((1 << k) - 1)


def bits_of(s, b, n=8):
    """low bits of a byte, least significant first"""
    out = []
    for _ in range(n):
        b, x = split_byte(s, b, 1)
        out.append(x)
    return out


def isone(s, b):
    return dz(s, s.eq(b, 1))


def all_zero(s, items):
    """decides, byte by byte"""
    for b in items:
        if not dz(s, s.eq(b, 0)):
            return False
    return True


def decode(s, g, items, checked):
    """('err',) | ('inf',) | ('pt', x, y)"""
    items = [s.I.force(b) for b in items]
    hi, low5 = split_byte(s, items[0], 5)
    h2, f5 = split_byte(s, hi, 1)
    f7, f6 = split_byte(s, h2, 1)
    if not isone(s, f7):
        return ("err",)
    if isone(s, f6):
        if not all_zero(s, [f5, low5] + items[1:]):
            return ("err",)
        return ("inf",)
    greatest = isone(s, f5)
    parts = []
    body = [low5] + items[1:]
    for j in range(g):
        p = P({})
        for i, b in enumerate(body[48 * j:48 * j + 48]):
            p = p + zp(b).scale(1 << (8 * (47 - i)))
        parts.append(s.c.mk(p, 0, (1 << (381 if j == 0 else 384)) - 1))
    parts.reverse()                  # c0 last
    for x in parts:
        if not dz(s, s.lt(x, Q)):
            return ("err",)
    es = [s.elem("q", x) for x in parts]
    x = es[0] if g == 1 else e_from(*es)
    y = point_from_x(s, g, x, greatest)
    if y is None:
        return ("err",)
    if checked:
        z = gz(s.I, g, fscale(point_form(s.I, g, (x, y)), R_ORD))
        if not dz(s, z):
            return ("err",)
    return ("pt", x, y)


def encode(s, g, p):
    """bytes of the compressed form; p is None or (x, y)"""
    if p is None:
        return (0xC0,) + (0,) * (NB[g] - 1)
    x, y = s.c.en(p[0]), s.c.en(p[1])
    lg = larger(s, g, y)
    cs = [x] if g == 1 else [e_im(x), e_re(x)]
    out = []
    for e in cs:
        out += list(bytes_of(s.I, s.cint("q", s.c.en(e)), 48))
    out[0] = s.c.mk(zp(out[0]) + (0x80 + 0x20 * lg), 0, 255) if isinstance(out[0], U) else out[0] + 0x80 + 0x20 * lg
    return tuple(out)


def xy_any(s, v):
    v = val(s, v)
    if isinstance(v, (GP, GA)):
        return expand(s.I, v)
    return xy(s, v)


def first_byte(inp, name):
    if inp.conc:
        return inp.z(name, 0, 255)
    p = P({})
    for j in range(8):
        p = p + zp(inp.c.zatom("", 0, 1, name="bit%s_%d#0" % (name, j))).scale(1 << j)
    return inp.c.mk(p, 0, 255)


def conc_enc(inp, g):
    """mostly well-formed encodings"""
    rng = inp.conc.rng
    k = rng.randrange(10)
    n = NB[g]
    if k < 4:
        p = c_random(g, rng) if k < 2 else c_mul(g, rng.randrange(1, 9), GEN[g])
        s = S(inp.I, "check")
        cs = [p[0]] if g == 1 else [e_im(p[0]), e_re(p[0])]
        b = bytearray(b"".join(int(e.cv()[0]).to_bytes(48, "big") for e in cs))
        b[0] |= 0x80 | rng.choice((0, 0x20))
    elif k == 4:
        b = bytearray(n)
        b[0] = rng.choice((0xC0, 0xC0, 0xE0, 0xD0))
    elif k == 5:
        b = bytearray(n)
        b[0] = 0xC0 | rng.choice((0, 0x20, 1))
        if rng.random() < 0.6:
            b[rng.randrange(n)] |= 1 << rng.randrange(8)
    elif k == 6:     # not canonical
        b = bytearray(b"".join((Q + rng.randrange(5)).to_bytes(48, "big") if rng.random() < 0.7 else rng.randrange(Q).to_bytes(48, "big") for _ in range(g)))
        b[0] |= 0x80 | rng.choice((0, 0x20))
    elif k == 7:
        b = bytearray(rng.getrandbits(8) for _ in range(n))
        b[0] |= 0x80
    elif k == 8:
        b = bytearray(b"".join(rng.randrange(40).to_bytes(48, "big") for _ in range(g)))
        b[0] |= 0x80 | rng.choice((0, 0x20))
    else:
        b = bytearray(rng.getrandbits(8) for _ in range(n))
    return [inp.conc.z("b_%d#" % i, x, x) for i, x in enumerate(b)]


def enc_bytes(inp, g, name="b"):
    if inp.conc:
        return tuple(conc_enc(inp, g))
    return (first_byte(inp, name),) + tuple(inp.z("%s_%d" % (name, i), 0, 255) for i in range(1, NB[g]))


def aff_xy_in(g, ptr):
    def inputs(inp, case):
        v = coord_input(inp, "p", g, False, case["k"])
        if ptr:
            v = inp.I.alloc(v, inp.I.prog.byname[BLS + "." + TN[(g, "A")]])
        return [v]
    return {"inputs": inputs, "cases": lambda prog: [{"k": k, "label": k} for k in KINDS]}


def rawbytes(s, g, p):
    v = val(s, p)
    if isinstance(v, GA):
        v = expand_value(s.I, v)
    if v[2] if isinstance(v[2], bool) else dz(s, v[2]):
        return ANY if s.check else (POISON,) * (2 * NB[g])
    out = []
    v = val(s, p)
    if isinstance(v, GA):
        v = expand_value(s.I, v)
    for co in v[:2]:
        e = s.c.en(ce(s.I, g, co))
        for x in ([e] if g == 1 else [e_re(e), e_im(e)]):
            out += list(bytes_of(s.I, s.cint("q", s.c.en(x)), 48))
    return tuple(out)


def setraw(s, g, p, b):
    items = [s.I.force(x) for x in s.I.explode(b)]
    es = []
    for j in range(2 * g):
        q = P({})
        for i, y in enumerate(items[48 * j:48 * j + 48]):
            q = q + zp(y).scale(1 << (8 * (47 - i)))
        x = s.c.mk(q, 0, (1 << 384) - 1)
        if dz(s, s.lt(x, Q)):
            es.append(s.elem("q", x))
        else:
            es.append(E.const("q", 0))
    if g == 1:
        x, y = es
    else:
        x, y = e_from(*es[:2]), e_from(*es[2:])
    s.I.store(p, (mkco(g, x), mkco(g, y), False))


for g in (1, 2):
    def reg(g=g):
        A = TN[(g, "A")]
        G = "G%d" % g
        n = NB[g]

        def xin(inp, case):
            x = (inp.fq("x") if g == 1 else inp.f2("x"))
            if inp.conc and inp.conc.rng.random() < 0.5:
                x = mkco(g, c_random(g, inp.conc.rng)[0])
            return [x, inp.bool("greatest")]

        @contract("Get%sPointFromX" % G, props=("C08", "C09"), readonly=True, inputs=xin)
        def _(s, x, greatest):
            e = ce(s.I, g, x)
            y = point_from_x(s, g, e, greatest)
            if y is None:
                return (None, Err())
            return (dec_point(s, g, e, y), None)

        def dec(s, b, checked):
            items = s.I.explode(b)
            r = decode(s, g, items, checked)
            if r[0] == "err":
                return (None, Err())
            if r[0] == "inf":
                return (infinity(s, g), None)
            return (dec_point(s, g, r[1], r[2]), None)

        def binp(inp, case):
            return [enc_bytes(inp, g)]

        @contract("Decompress%sUnchecked" % G, props=("C08", "C09", "C16"), readonly=True, inputs=binp)
        def _(s, b):
            return dec(s, b, False)

        @contract("Decompress%s" % G, props=("C08", "C16"), readonly=True, inputs=binp)
        def _(s, b):
            return dec(s, b, True)

        @contract("Compress%s" % G, props=("C09",), readonly=True, **aff_xy_in(g, True))
        def _(s, p):
            return encode(s, g, xy_any(s, p))

        @contract(A + ".SerializeBytes*", props=("C10",), readonly=True, **aff_xy_in(g, True))
        def _(s, p):
            return rawbytes(s, g, p)

        def setin(inp, case):
            p = inp.I.alloc(coord_input(inp, "p", g, False, case["k"]), inp.I.prog.byname[BLS + "." + A])
            if inp.conc:
                rng = inp.conc.rng
                if rng.random() < 0.7:
                    b = b"".join((rng.randrange(Q) if rng.random() < 0.9 else rng.choice((0, Q, Q - 1, Q + 5, (1 << 384) - 1))).to_bytes(48, "big") for _ in range(2 * g))
                    return [p, tuple(inp.conc.z("b_%d#" % i, x, x) for i, x in enumerate(b))]
            return [p, tuple(inp.z("b_%d" % i, 0, 255) for i in range(2 * n))]

        @contract(A + ".SetRawBytes*", props=("C10",), inputs=setin, cases=lambda prog: [{"k": k, "label": k} for k in KINDS])
        def _(s, p, b):
            setraw(s, g, p, b)
            return None

        # ---- lemmas over the contracts
        def compdec(I, p):
            b = I.call(FN("Compress%s" % G), [p])
            return I.call(FN("Decompress%sUnchecked" % G), [b])

        contract("lemma:decompress%d(compress(P))=P" % g, props=C9, lemma=compdec, results=FN("Decompress%sUnchecked" % G), **aff_xy_in(g, True))(
            lambda s, p: (infinity(s, g) if xy(s, p) is None else dec_point(s, g, *xy(s, p)), None))

        def serset(I, p):
            b = I.call(FN(A + ".SerializeBytes*"), [p])
            t = I.prog.byname[BLS + "." + A]
            o = I.alloc((POISON, POISON, True), t)
            I.call(FN(A + ".SetRawBytes*"), [o, b])
            return o

        contract("lemma:set%d(serialize(P))=P for finite P" % g, props=("C10",), lemma=serset, results=FN("New" + A),
                 inputs=lambda inp, case: [inp.I.alloc(coord_input(inp, "p", g, False, "fin"), inp.I.prog.byname[BLS + "." + A])])(
            lambda s, p: newpt(s, g, "A", val(s, p)))

        def deccomp(I, b):
            p, err = I.call(FN("Decompress%sUnchecked" % G), [b])
            return b if err is not None else I.call(FN("Compress%s" % G), [p])

        contract("lemma:compress%d(decompress(b))=b for every accepted b" % g, props=C9, lemma=deccomp, results=FN("Compress" + G), inputs=binp)(
            lambda s, b: b)
    reg()


# ---------------------------------------------------------------- the Shallue-van de Woestijne encoding

SW_S = 1586958781458431025242759403266842894121773480562120986020912974854563298150952611241517463240701
assert SW_S * SW_S % Q == Q - 3


def sw_candidates(s, t):
    """x1, x2, x3 with D = 1 + b + t^2 (not zero), t not zero"""
    c = s.c
    k = E.const("q", SW_S)
    w = c.en(k * t * s.inv(c.en(t * t + BC[2] + E.const("q", 1))))
    x1 = c.en(E.const("q", (SW_S - 1) * pow(2, -1, Q) % Q) - t * w)
    wi = s.inv(w)
    return x1, c.en(-x1 - E.const("q", 1)), c.en(wi * wi + E.const("q", 1))


@contract("SWEncodeG2", props=("C14",), readonly=True, inputs=lambda inp, case: [inp.f2("t")], ncand=30)
def _(s, t):
    """the first of the three candidates that is on the curve, with the sign of t; one always is"""
    c = s.c
    e = s.I.simple_e(ce(s.I, 2, t))
    if s.iszero(e):
        return infinity(s, 2)
    e = c.en(ce(s.I, 2, t))
    par = larger(s, 2, e)
    e = c.en(ce(s.I, 2, t))
    d = c.en(e * e + BC[2] + E.const("q", 1))
    if s.iszero(d):
        x, y = GEN[2]
        return dec_point(s, 2, x, -y if par else y)
    e = c.en(ce(s.I, 2, t))
    xs = sw_candidates(s, e)
    for i, x in enumerate(xs):
        if i == 2:
            # f(x1) f(x2) D^6 = (1+b)^2 (k t)^6 f(x3): the third is a square when the others are not
            v = [c.en(x * x * x + BC[2]) for x in xs]
            k = c.en(E.const("q", SW_S) * e)
            k3, d = k * k * k, c.en(e * e + BC[2] + E.const("q", 1))
            d3 = d * d * d
            if c.is_zero(c.en(v[0] * v[1] * d3 * d3 - (BC[2] + E.const("q", 1)) * (BC[2] + E.const("q", 1)) * k3 * k3 * v[2])) is not True:
                raise Failed("the third candidate is on the curve when the others are not")
            c.assume_nz(v[2])           # -b is not a cube
            if sq2kind(s, v[2]) == 2:
                raise Infeasible()
        y = point_from_x(s, 2, x, par)
        if y is not None:
            return dec_point(s, 2, c.en(x), y)
    raise Failed("one of the candidates is on the curve")
