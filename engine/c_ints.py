"""Contracts of the wide-integer layer (C01) and its byte/string conversions (C10)."""
from spec import *
from externs import forkbitlen, bytes_of

A2 = ("amd64", "386")
N = {"FQRepr": 6, "FRRepr": 4}


def addmod(s, x, y, w):
    return s.c.modW(zp(x) + zp(y), w, "c", ulo(x) + ulo(y), uhi(x) + uhi(y))


def submod(s, x, y, w):
    return s.c.modW(zp(x) - zp(y), w, "b", ulo(x) - uhi(y), uhi(x) - ulo(y))


# ---- word primitives
@contract("MACWithCarry", props=("C01",), archs=A2, ncand=400)
def _(s, a, b, c, carry):
    h, l = s.c.divmodW(zp(a) + zp(b) * zp(c) + zp(carry), 64, "m", ulo(a) + ulo(b) * ulo(c) + ulo(carry),
                       uhi(a) + uhi(b) * uhi(c) + uhi(carry))
    return (l, h)


def carry_case(name):
    return lambda prog: [{"carry": True}]


def word_inputs(inp, case):
    return [inp.z("a", 0, W - 1), inp.z("b", 0, W - 1), inp.z("carry", 0, 1)]


def addinputs(inp, case):
    return [inp.z("a", 0, W - 1), inp.z("b", 0, W - 1), inp.z("carry", 0, W - 1)]


@contract("AddWithCarry", props=("C01",), archs=A2, inputs=addinputs, ncand=400)
def _(s, a, b, carry):
    h, l = s.c.divmodW(zp(a) + zp(b) + zp(carry), 64, "c", ulo(a) + ulo(b) + ulo(carry), uhi(a) + uhi(b) + uhi(carry))
    return (l, h)


@contract("SubWithBorrow", props=("C01",), archs=A2, inputs=word_inputs, ncand=400)
def _(s, a, b, borrow):
    if isinstance(borrow, U) or borrow not in (0, 1):
        s.require(s.c.cge0(pconst(1) - zp(borrow)), "the incoming borrow is 0 or 1")
    p = zp(a) - zp(b) - zp(borrow)
    r = s.c.modW(p, 64, "b", ulo(a) - uhi(b) - uhi(borrow), uhi(a) - ulo(b) - ulo(borrow))
    d = zp(r) - s.c.nz(p)
    return (r, s.c.mk(P({k: v // W for k, v in d.d.items()}), 0, 1))


# ---- 384-bit primitives
def mulcheck(cmp, args, res):
    c = cmp.c
    want = c.nz(zp(cmp.b.repint(args[0])) * zp(cmp.b.repint(args[1])))
    got = zp(cmp.b.repint(res[0])).scale(R384) + zp(cmp.b.repint(res[1]))
    cmp.eqint(c.mk(got), c.mk(want), "the double-width result")


@contract("MultiplyFQRepr", props=("C01",), archs=A2, ncand=300, check=mulcheck)
def _(s, a, b):
    x, y = s.rep(a), s.rep(b)
    p = zp(x) * zp(y)
    if s.mode == "check" and s.c.nz(p).const_val() is None:
        return (ANY, ANY)        # decided by mulcheck
    t = s.c.mk(p, ulo(x) * ulo(y), uhi(x) * uhi(y))
    if not isinstance(t, U):
        return (RInt(t >> 384, 6), RInt(t % R384, 6))
    k = ("mul384", p.key())
    if k not in s.c.memo:
        h = s.c.zatom("hi", t.lo >> 384, t.hi >> 384)
        s.c.memo[k] = h
        low = p - zp(h).scale(R384)
        s.c.fact(low, 0, R384 - 1)
    h = s.c.memo[k]
    if isinstance(h, U):
        h = s.c.mk(h.p, h.lo, h.hi)
    return (RInt(h, 6), RInt(s.c.mk(p - zp(h).scale(R384), 0, R384 - 1), 6))


@contract("MontReduce", props=("C01",), archs=A2, ncand=300)
def _(s, hi, lo):
    t = zp(s.rep(hi)).scale(R384) + zp(s.rep(lo))
    cond = s.c.cge0(pconst(Q * R384 - 1) - t)
    s.require(cond, "the value to reduce is below q*2^384")
    tu = s.c.mk(t)
    e = s.c.z2e("q", tu) * RINV_Q
    if not isinstance(tu, U):
        u = (tu + ((-tu * pow(Q, -1, R384)) % R384) * Q) >> 384
        return RInt(u, 6)
    # out < (T + q*R)/R
    bound = (tu.hi + (R384 - 1) * Q) // R384
    return RInt(s.some(0, min(bound, 2 * Q - 1), "q", e, key=("redc", t.key())), 6)


@contract("AddNoCarry", props=("C01",), archs=A2, ncand=200)
def _(s, a, b):
    return RInt(addmod(s, s.rep(a), s.rep(b), 384), 6)


@contract("SubNoBorrow", props=("C01",), archs=A2, ncand=200)
def _(s, a, b):
    return RInt(submod(s, s.rep(a), s.rep(b), 384), 6)


# ---- methods common to both widths
for T, n in N.items():
    B = 64 * n
    PR = T == "FRRepr"         # constructors and arguments of FRRepr are pointers

    def reg(n=n, B=B, T=T, PR=PR):
        def mk(s, x):
            return s.newrep(RInt(x, n), T) if PR else RInt(x, n)

        def upd(s, f, x):
            s.I.store(f, RInt(x, n))

        @contract(T + ".IsOdd", props=("C01",), readonly=True)
        def _(s, f):
            return s.eq(s.split(s.rep(f), 1)[1], 1)

        @contract(T + ".IsEven", props=("C01",), readonly=True)
        def _(s, f):
            return s.eq(s.split(s.rep(f), 1)[1], 0)

        @contract(T + ".IsZero", props=("C01",), readonly=True)
        def _(s, f):
            return s.eq(s.rep(f), 0)

        @contract("New" + T, props=("C01",), readonly=True)
        def _(s, x):
            return mk(s, x)

        def shift_cases(prog):
            return [{"args": {1: k}, "label": "n=%d" % k} for k in range(B)] + [{"args": {1: lambda i: i.z("n", B, W - 1)}, "label": "n>=%d" % B}]

        @contract(T + ".Rsh*", props=("C01",), archs=A2, cases=shift_cases)
        def _(s, f, k):
            x = s.rep(f)
            if isinstance(k, U):
                if s.decide(s.c.cge0(k.p - B)):
                    return upd(s, f, 0)
                k = s.I.concrete_index(k, B)
            upd(s, f, 0 if k >= B else s.split(x, k)[0])

        @contract(T + ".Lsh*", props=("C01",), archs=A2, cases=shift_cases)
        def _(s, f, k):
            x = s.rep(f)
            if isinstance(k, U):
                if s.decide(s.c.cge0(k.p - B)):
                    return upd(s, f, 0)
                k = s.I.concrete_index(k, B)
            if k >= B:
                return upd(s, f, 0)
            l = s.split(x, B - k)[1]
            upd(s, f, s.c.mk(zp(l).scale(1 << k), 0, (1 << B) - 1))

        @contract(T + ".Div2*", props=("C01",), archs=A2)
        def _(s, f):
            upd(s, f, s.split(s.rep(f), 1)[0])

        @contract(T + ".Mul2*", props=("C01",), archs=A2)
        def _(s, f):
            x = s.rep(f)
            if uhi(x) < 1 << (B - 1):
                return upd(s, f, s.c.mk(zp(x).scale(2)))
            l = s.split(x, B - 1)[1]
            upd(s, f, s.c.mk(zp(l).scale(2), 0, (1 << B) - 1))

        @contract(T + ".AddNoCarry*", props=("C01",), archs=A2)
        def _(s, f, g):
            upd(s, f, addmod(s, s.rep(f), s.rep(g), B))

        @contract(T + ".SubNoBorrow*", props=("C01",), archs=A2)
        def _(s, f, g):
            upd(s, f, submod(s, s.rep(f), s.rep(g), B))

        @contract(T + ".Equals*", props=("C01",), readonly=True)
        def _(s, f, g):
            return s.eq(s.rep(f), s.rep(g))

        @contract(T + ".Cmp*", props=("C01",), readonly=True)
        def _(s, f, g):
            r = s.sgn(s.rep(f), s.rep(g))
            return r

        @contract(T + ".Copy*", props=("C01", "C15"), readonly=True)
        def _(s, f):
            v = s.I.load(f)
            return s.newrep(v, T) if PR else v

        @contract(T + ".BitLen", props=("C01",), readonly=True)
        def _(s, f):
            x = s.rep(f)
            if not isinstance(x, U):
                return x.bit_length()
            if s.mode == "check":
                def chk(cmp, k, where):
                    p = zp(x)
                    ok = isinstance(k, int) and 0 <= k <= B and \
                        (k == 0 or cmp.c.prove_ge0(p - (1 << (k - 1)))) and cmp.c.prove_ge0(pconst((1 << k) - 1) - p)
                    if not ok:
                        cmp.fail(where + " is the bit length", repr(k))
                return Pred(chk)
            sc = s.c.memo.get("scan")
            if sc is not None and sc.is_x(x):
                return s.c.mk(sc.n, 0, sc.width)
            return forkbitlen(s.I, x, B)

        @contract(T + ".Bit", props=("C01",), readonly=True,
                  cases=lambda prog: [{"args": {1: k}, "label": "n=%d" % k} for k in range(B)])
        def _(s, f, k):
            if isinstance(k, U):
                s.require(s.c.cge0(pconst(B - 1) - zp(k)), "bit index is in range")
                sc = s.c.memo.get("scan")
                if not s.check and sc is not None and sc.is_x(s.rep(f)):
                    return s.eq(sc.bit(k), 1)
                k = s.I.concrete_index(k, B)
            s.require(0 <= k < B, "bit index is in range")
            h = s.split(s.rep(f), k)[0]
            return s.eq(s.split(h, 1)[1], 1)

        # ---- conversions
        @contract(T + "FromBytes", props=("C10",), readonly=True)
        def _(s, b):
            items = [s.I.force(x) for x in s.I.explode(b)]
            p = P({})
            m = 8 * n
            for i, y in enumerate(items):
                p = p + zp(y).scale(1 << (8 * (m - 1 - i)))
            return mk(s, s.c.mk(p, 0, (1 << B) - 1))

        @contract(T + ".Bytes", props=("C10",), readonly=True)
        def _(s, f):
            return tuple(bytes_of(s.I, s.rep(f), 8 * n))

        @contract(T + ".ToBig", props=("C10",), readonly=True)
        def _(s, f):
            return s.I.alloc(Big(s.rep(f)), s.I.prog.byname["math/big.Int"])

        def big_inputs(inp, case):
            z = inp.z("n", MINF, PINF)
            return [inp.I.alloc(Big(z), inp.I.prog.byname["math/big.Int"])]

        @contract(T + "FromBigInt", props=("C10",), readonly=True, inputs=big_inputs)
        def _(s, p):
            z = s.I.load(p).v
            bad = s.decide(s.lt(z, 0)) or not s.decide(s.lt(z, 1 << B))
            if bad:
                return (None if PR else RInt(0, n), Err())
            return (mk(s, s.c.mk(zp(z), 0, (1 << B) - 1)), None)

        @contract(T + ".String", props=("C10",), readonly=True)
        def _(s, f):
            parts = []
            x = s.rep(f)
            for l in reversed(s.c.limbs(x, n)):
                parts.append(("x", 16, l))
            if not any(isinstance(p[2], U) for p in parts):
                return "".join("%016x" % p[2] for p in parts)
            return Str(parts)

        def str_inputs(inp, case):
            ok = inp.choice(2, "parses")
            z = inp.z("n", MINF, PINF)
            if inp.conc:
                base = inp.conc.rng.choice((2, 8, 10, 16))
                digits = ("-" if z < 0 else "") + _digits(abs(z), base)
                if not ok:
                    digits = inp.conc.rng.choice(("", "xyz", digits + "!", "0x" + digits))
            else:
                base = inp.z("b", 0, 62)
                digits = ""
            return [Opq("numstr", (bool(ok), z, digits)), base]

        @contract(T + "FromString", props=("C10",), readonly=True, inputs=str_inputs)
        def _(s, st, base):
            if isinstance(st, Opq):
                ok, z, _d = st.v
            else:
                try:
                    ok, z = True, int(st, base)
                except ValueError:
                    ok, z = False, 0
            if ok:
                ok = not s.decide(s.lt(z, 0)) and s.decide(s.lt(z, 1 << B))
            if not ok:
                return (None if PR else RInt(0, n), Err())
            return (mk(s, s.c.mk(zp(z), 0, (1 << B) - 1)), None)
    reg()


def _digits(v, b):
    if v == 0:
        return "0"
    out = ""
    while v:
        out = "0123456789abcdef"[v % b] + out
        v //= b
    return out


@contract("FRRepr.ToFQ*", props=("C01",), readonly=True)
def _(s, f):
    return RInt(s.rep(f), 6)
