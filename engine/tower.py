"""The extension tower as the contracts define it: Fq2 = Fq[u]/(u^2+1), Fq6 = Fq2[v]/(v^3-(1+u)), Fq12 = Fq6[w]/(w^2-v)."""
from dom import *
from interp import *

XI = E.const("q", 1, 1)
Z2 = E.const("q", 0)
O2 = E.const("q", 1)
# v^3 = xi is irreducible over Fq2 and w^2 = v over Fq6: xi is neither a square nor a cube
assert e_cpow(XI, (Q * Q - 1) // 2).cv() != (1, 0) and e_cpow(XI, (Q * Q - 1) // 3).cv() != (1, 0)


def m6(a, b):
    r = [Z2, Z2, Z2, Z2, Z2]
    for i in range(3):
        if a[i].is0():
            continue
        for j in range(3):
            if not b[j].is0():
                r[i + j] = r[i + j] + a[i] * b[j]
    return (r[0] + XI * r[3], r[1] + XI * r[4], r[2])


def a6(a, b):
    return tuple(x + y for x, y in zip(a, b))


def n6(a):
    return tuple(-x for x in a)


def v6(a):
    """times v"""
    return (XI * a[2], a[0], a[1])


def adj6(a):
    """(adjoint, norm): a * adjoint = norm in Fq2"""
    x, y, z = a
    A = x * x - XI * y * z
    B = XI * z * z - x * y
    C = y * y - x * z
    return (A, B, C), x * A + XI * (z * B + y * C)


def m12(a, b):
    x = m6(a[0], b[0])
    y = m6(a[1], b[1])
    return (a6(x, v6(y)), a6(m6(a[0], b[1]), m6(a[1], b[0])))


def frob6(a, k):
    k %= 6
    g = e_cpow(XI, (Q ** k - 1) // 3)
    c = conj if k % 2 else (lambda x: x)
    return (c(a[0]), c(a[1]) * g, c(a[2]) * g * g)


def frob12(a, k):
    k %= 12
    g = e_cpow(XI, (Q ** k - 1) // 6)
    return (frob6(a[0], k), tuple(x * g for x in frob6(a[1], k)))


ONE6 = (O2, Z2, Z2)
ZERO6 = (Z2, Z2, Z2)
ONE12 = (ONE6, ZERO6)
ORD12 = Q ** 12 - 1


def pw1():
    return PW(1, {}, "12")


def tag12(*key):
    return A12(PW(1, {key: (key, pconst(1))}, "12"))


def as_a12(I, v, n=None):
    """abstract view of a value that is 0 or 1 in Fq6 / Fq12"""
    if isinstance(v, A12):
        return v
    if isinstance(v, LazyIte):
        v = I.force(v)
    es = flat(I, v)
    cs = [e.cv() if isinstance(e, E) else None for e in es]
    if cs[0] == (1, 0) and all(c == (0, 0) for c in cs[1:]):
        return A12(pw1())
    raise ToolLimit("mixing coordinates and abstract elements of the tower")


def flat(I, v):
    out = []
    if isinstance(v, (F2,)):
        return [I.f2(v)]
    if isinstance(v, Ptr):
        v = I.load(v)
        return flat(I, v)
    if isinstance(v, tuple):
        if len(v) == 2 and not isinstance(v[0], Ptr):
            return [I.f2(v)]
        for x in v:
            out += flat(I, x)
        return out
    if isinstance(v, LazyIte):
        return flat(I, I.force(v))
    raise ToolLimit("tower element %r" % (v,))


def pwkey(pw, nz):
    """exponents modulo the group order where the base is known not to be zero"""
    return tuple(sorted(((k, tuple(sorted((m, x % ORD12 if k in nz else x) for m, x in e.d.items() if not (k in nz and x % ORD12 == 0)))) for k, (b, e) in pw.b.items()), key=repr))


def nzset(c):
    return c.memo.setdefault("nz12", set())


def same12(c, x, y):
    nz = nzset(c)
    a = {k: c.nz(e) for k, (b, e) in x.pw.b.items()}
    b = {k: c.nz(e) for k, (bb, e) in y.pw.b.items()}
    for k in set(a) | set(b):
        d = a.get(k, pconst(0)) - b.get(k, pconst(0))
        if k[0] in ("e", "pe"):
            if any(v % R_ORD for v in d.d.values()):
                return False
        elif k in nz:
            if any(v % ORD12 for v in d.d.values()):
                return False
        elif not d.is_zero():
            return False
    return True
