"""The curves y^2 = x^3 + 4 over Fq and y^2 = x^3 + 4(1+u) over Fq2 as the contracts define them.

A point is either given by coordinates or, at call sites, as a formal sum of basis points with integer coefficients
(the chord and tangent law makes the points an abelian group of the known order; that is mathematics, not checked).
On G2 the basis also contains the images under the endomorphism psi, with psi^2 = (x+1) psi - q and, on the points over
Fq2, psi^4 = psi^2 - 1."""
from dom import *
from interp import *
import interp as _ip
import random
from spec import *
import spec as _s
from math import gcd

BC = {1: E.const("q", 4), 2: E.const("q", 4, 4)}
NPT = {1: H1 * R_ORD, 2: H2 * R_ORD}


def lattice_checks():
    """E(Fq) is Z[w]/(pi - 1) for the Frobenius pi in Z[w], w^2 + w + 1 = 0, and the twist over Fq2 is Z[w]/(v pi^2 - 1) for
    the unit v that gives its order (Lenstra): (1 - x) r annihilates the first; r times the element that clears the
    cofactor of the second annihilates it, psi being pi"""
    from math import isqrt
    t = X + 1
    f = isqrt((4 * Q - t * t) // 3)
    assert 3 * f * f == 4 * Q - t * t

    def mul(a, b):
        return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0] - a[1] * b[1])

    def norm(a):
        return a[0] * a[0] - a[0] * a[1] + a[1] * a[1]

    def divides(b, a):
        n, m = mul(a, (b[0] - b[1], -b[1])), norm(b)
        return n[0] % m == 0 and n[1] % m == 0
    for f in (f, -f):
        pi = ((t + f) // 2, f)
        assert norm(pi) == Q
        p1 = (pi[0] - 1, pi[1])
        assert norm(p1) == H1 * R_ORD and divides(p1, ((1 - X) * R_ORD, 0))
        p2 = mul(pi, pi)
        ds = [(v[0] - 1, v[1]) for v in (mul(u, p2) for u in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1)))]
        ds = [d for d in ds if norm(d) == H2 * R_ORD]
        assert ds
        k = (X * X - X - 1 + (X - 1) * pi[0] + 2 * p2[0], (X - 1) * pi[1] + 2 * p2[1])
        assert all(divides(d, (k[0] * R_ORD, k[1] * R_ORD)) for d in ds)


assert NPT[1] == Q - X
lattice_checks()
NPT[1] = (1 - X) * R_ORD             # an integer that annihilates every point is all that is used
# y = 0 on neither curve: -b is no cube
assert pow(-4 % Q, (Q - 1) // 3, Q) != 1
assert e_cpow(-BC[2], (Q * Q - 1) // 3).cv() != (1, 0)
assert NPT[1] % 2 == 1 and NPT[2] % 2 == 1
assert (Q - X) % R_ORD == 0          # psi acts as q = x on the subgroup of G2
GEN = {
    1: (E.const("q", 3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507),
        E.const("q", 1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569)),
    2: (E.const("q", 0x24aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8,
                0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e),
        E.const("q", 0xce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801,
                0x606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be))}
GENB = {1: ("gen", 1), 2: ("gen", 2)}


# ---------------------------------------------------------------- concrete arithmetic (for failing inputs)

def c_add(g, a, b):
    if a is None:
        return b
    if b is None:
        return a
    (x1, y1), (x2, y2) = a, b
    if x1.key() == x2.key():
        if (y1 + y2).is0():
            return None
        l = x1 * x1 * 3 * inv_const(y1 * 2)
    else:
        l = (y2 - y1) * inv_const(x2 - x1)
    x = l * l - x1 - x2
    return (x, l * (x1 - x) - y1)


def c_mul(g, n, a):
    if n < 0:
        return c_mul(g, -n, None if a is None else (a[0], -a[1]))
    r = None
    for i in range(n.bit_length() - 1, -1, -1):
        r = c_add(g, r, r)
        if n >> i & 1:
            r = c_add(g, r, a)
    return r


def on_curve(g, a):
    return a is None or (a[1] * a[1] - a[0] * a[0] * a[0] - BC[g]).is0()


assert on_curve(1, GEN[1]) and on_curve(2, GEN[2]) and c_mul(1, R_ORD, GEN[1]) is None and c_mul(2, R_ORD, GEN[2]) is None


def c_sqrt2(e):
    """square root in Fq2 of a constant, or None"""
    a, b = e.cv()
    n = (a * a + b * b) % Q
    if (a, b) == (0, 0):
        return E.const("q", 0)
    s = pow(n, (Q + 1) // 4, Q)
    if s * s % Q != n:
        return None
    for t in (s, -s):
        d = (a + t) * pow(2, -1, Q) % Q
        x = pow(d, (Q + 1) // 4, Q)
        if x * x % Q == d:
            if x == 0:
                y2 = -a % Q
                y = pow(y2, (Q + 1) // 4, Q)
                if y * y % Q == y2:
                    return E.const("q", 0, y)
                continue
            return E.const("q", x, b * pow(2 * x, -1, Q) % Q)
    raise AssertionError("no square root")


def c_sqrt1(e):
    v = e.cv()[0]
    s = pow(v, (Q + 1) // 4, Q)
    return E.const("q", s) if s * s % Q == v else None


SPECIAL = {
    # coordinates of which one is zero or lies in the base field (times u), points of small order
    1: [(E.const("q", 0), E.const("q", 2))],
    2: [(E.const("q", 1530290383759487343947281924221620151593773706770976671217442636519025643990490753390260735804812803309933249634354,
                 1872924000378186091694029926747521213329642746144152323382210591783220125662207141566618848562258720036243898920173), E.const("q", 3, 0)),
        (E.const("q", 2472119171462180049470507901514284004963109113168031214114615499605006006500347111052426893324202860727961022925433,
                 1872924000378186091694029926747521213329642746144152323382210591783220125662207141566618848562258720036243898920173), E.const("q", 0, 1)),
        (E.const("q", 2), E.const("q", 3813414062821088896965879244443358096636228247329175415943186029072982909461945441384695595240360445618611812101176,
                 3568027680765585585945490907042741669558639753778547462314760963815399658271727325750766584361357481230047117262172)),
        (E.const("q", 0, 1), E.const("q", 2973677408986561043442465346520108879172042883009249989176415018091420807192182638567116318576472649347015917690530,
                 3086196438705319049925973437647385832154519810789273688466929354097832529895965677626713931657629044072635064607771))]}
SMALLORDER = {1: (11, 10177), 2: (13, 23, 2713)}


def c_special(g, rng):
    """a point with something special about it"""
    l = SPECIAL[g]
    if len(l) < 10:
        for p in l:
            assert on_curve(g, p)
        for n in SMALLORDER[g]:
            h = (H1 if g == 1 else H2) * R_ORD
            assert h % n == 0
            while h % n == 0:
                h //= n
            for _ in range(20):
                p = c_mul(g, h, c_plain(g, random.Random(len(l))))
                if p is not None:
                    while c_mul(g, n, p) is not None:
                        p = c_mul(g, n, p)
                    l.append(p)
                    break
    p = rng.choice(l)
    return (p[0], -p[1] if rng.random() < 0.5 else p[1])


def c_random(g, rng):
    """a random point of the whole curve"""
    if rng.random() < 0.35:
        return c_special(g, rng)
    return c_plain(g, rng)


def c_plain(g, rng):
    while True:
        x = E.const("q", rng.randrange(Q), rng.randrange(Q) if g == 2 else 0)
        y = (c_sqrt1 if g == 1 else c_sqrt2)(x * x * x + BC[g])
        if y is not None:
            return (x, -y if rng.random() < 0.5 else y)


PSI = None


def c_psi(a):
    if a is None:
        return None
    x, y = a
    t2 = inv_const(e_cpow(XI_, (Q - 1) // 3))
    t3 = inv_const(e_cpow(XI_, (Q - 1) // 2))
    return (conj(x) * t2, conj(y) * t3)


XI_ = E.const("q", 1, 1)
assert on_curve(2, c_psi(GEN[2])) and [v.key() for v in c_psi(GEN[2])] == [v.key() for v in c_mul(2, Q % R_ORD, GEN[2])]


def c_form(I, g, form):
    r = None
    for b, k in form.items():
        p = c_basis(I, g, b)
        n = k.const_val()
        if n is None:
            raise ToolLimit("symbolic coefficient")
        r = c_add(g, r, c_mul(g, n, p))
    return r


def c_basis(I, g, b):
    if b == GENB[g]:
        return GEN[g]
    if b[0] == "psi":
        return c_psi(c_basis(I, g, b[1]))
    p = I.ctx.memo.get("pts", {}).get(b)
    if p is None:
        raise ToolLimit("unknown basis point")
    return p


# ---------------------------------------------------------------- forms

def fadd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        x = r.get(k, pconst(0)) + v.scale(s)
        if x.is_zero():
            r.pop(k, None)
        else:
            r[k] = x
    return r


def fscale(a, n):
    n = zp(n)
    r = {}
    for k, v in a.items():
        x = v * n
        if not x.is_zero():
            r[k] = x
    return r


def pmul1(b, g):
    return {b: pconst(1)}


def order(c, g, b):
    """an integer that annihilates the basis point"""
    if b == GENB[g]:
        return R_ORD
    o = c.memo.setdefault("ord", {})
    if b[0] == "psi":
        return order(c, g, b[1])
    return o.get((g, b), NPT[g])


def in_subgroup(c, g, b):
    return order(c, g, b) == R_ORD


def set_order(c, g, b, n):
    o = c.memo.setdefault("ord", {})
    o[(g, b)] = gcd(order(c, g, b), n)


def reduce(c, g, form):
    if c.memo.get("folds"):
        import folds
        folds.finish(c)
    r = {}
    sub = c.memo.setdefault("gsub", {})
    for b, k in form.items():
        if (g, b) in sub:
            r = fadd(r, fscale(reduce(c, g, sub[(g, b)]), k))
        else:
            r = fadd(r, {b: k})
    out = {}
    while any(b[0] == "psi" and b[1][0] == "psi" for b in r):
        n = {}
        for b, k in r.items():
            if b[0] == "psi" and b[1][0] == "psi":        # psi^2 = (x+1) psi - q
                n = fadd(n, {b[1]: k.scale(X + 1), b[1][1]: k.scale(-Q)})
            else:
                n = fadd(n, {b: k})
        r = n
    for b, k in r.items():
        if b[0] == "psi" and in_subgroup(c, g, b[1]):
            out = fadd(out, {b[1]: k.scale(X)})
        else:
            out = fadd(out, {b: k})
    r = {}
    for b, k in out.items():
        n = order(c, g, b)
        k = c.nz(k)
        d = {}
        for m, v in k.d.items():
            v %= n
            if v > n // 2:
                v -= n
            if v:
                d[m] = v
        if d:
            r[b] = P(d)
    return r


def fkey(form):
    return tuple(sorted(((b, v.key()) for b, v in form.items()), key=repr))


def gz(I, g, form):
    """is the combination the point at infinity?  True / False / condition"""
    c = I.ctx
    if getattr(c, "concrete", False):
        return c_form(I, g, form) is None
    f = reduce(c, g, form)
    if not f:
        return True
    consts = {b: v.const_val() for b, v in f.items()}
    if len(f) == 1:
        (b, v), = f.items()
        k = consts[b]
        if b[0] == "psi":
            return gz(I, g, {b[1]: v})       # psi is injective
        if k is not None:
            d = gcd(k, order(c, g, b))
            f = {b: pconst(d)}
            if d == 1 and b == GENB[g]:
                return False
    else:
        lead = min(f, key=repr)
        if consts[lead] is not None:
            if all(in_subgroup(c, g, b) for b in f):
                f = reduce(c, g, fscale(f, pow(consts[lead], -1, R_ORD)))
            elif consts[lead] < 0:
                f = fscale(f, -1)
    if len(f) > 1 and g == 2 and psi_zero(c, f):
        return True
    cond = Cond("op", None, False, ("gz", g, fkey(f)))
    c.memo.setdefault("gzforms", {})[cond.key] = f
    install(c)
    kn = c.known.get(cond.key)
    if kn is not None:
        return kn
    if len(f) == 2:
        # two points with known coordinates
        (a, u), (b, v) = f.items()
        pts = c.memo.get("pts", {})
        u, v = u.const_val(), v.const_val()
        p, q = (GEN[g] if x == GENB[g] else pts.get(x) for x in (a, b))
        if p and q and u in (1, -1) and v in (1, -1):
            if c.decide(c.cfz(c.en(p[0]) - c.en(q[0]))) and c.decide(c.cfz(c.en(p[1]) + (q[1] if u == v else -q[1]))):
                c.assume(cond)
                return True
            c.assume(cnot(cond))
            return False
    if len(f) == 1:
        # a multiple of a known non-zero multiple
        (b, v), = f.items()
        k = v.const_val()
        if k is not None:
            for key, f2 in c.memo["gzforms"].items():
                if key[1][1] == g and c.known.get(key) is False:
                    if set(f2) == {b}:
                        k2 = f2[b].const_val()
                        if k2 is not None and k2 % k == 0:
                            return False
    return cond


def psi_zero(c, f):
    """combination of b and psi(b) that vanishes on every point over Fq2"""
    bases = set(b[1] if b[0] == "psi" else b for b in f)
    for b in bases:
        u = f.get(b, pconst(0)).const_val()
        v = f.get(("psi", b), pconst(0)).const_val()
        if u is None or v is None or not psi_in_ideal(u, v, order(c, 2, b)):
            return False
    return True


_LAT = {}


def psi_in_ideal(u, v, n):
    """u + v*psi in the ideal (n, psi^4 - psi^2 + 1) of Z[psi]/(psi^2 - t psi + q), t = x + 1"""
    if n not in _LAT:
        t = X + 1

        def mpsi(a):
            return (-Q * a[1], a[0] + t * a[1])
        p2 = mpsi((0, 1))
        p4 = (p2[0] * p2[0] - Q * p2[1] * p2[1], 2 * p2[0] * p2[1] + t * p2[1] * p2[1])
        cyc = (p4[0] - p2[0] + 1, p4[1] - p2[1])
        rows = [(n, 0), (0, n), cyc, mpsi(cyc)]
        # hermite form: (a, b), (0, d)
        from itertools import count
        rows = [list(r) for r in rows]
        while True:
            nz = [r for r in rows if r[0]]
            if len(nz) <= 1:
                break
            p = min(nz, key=lambda r: abs(r[0]))
            for r in nz:
                if r is not p:
                    k = r[0] // p[0]
                    r[0] -= k * p[0]
                    r[1] -= k * p[1]
        p = next(r for r in rows if r[0])
        d = 0
        for r in rows:
            if not r[0]:
                d = gcd(d, r[1])
        _LAT[n] = (p[0], p[1], d)
    a, b, d = _LAT[n]
    if u % a:
        return False
    return (v - u // a * b) % d == 0


def install(c):
    if "op_hook" in c.memo:
        return

    def hook(c, key, val):
        if key[0] != "op" or key[1][0] != "gz" or not val:
            return
        g = key[1][1]
        f = c.memo["gzforms"].get(key)
        if f is None:
            return
        if len(f) == 1:
            (b, v), = f.items()
            k = v.const_val()
            if k is not None:
                set_order(c, g, b, k)
            return
        for b, v in f.items():
            if v.const_val() in (1, -1) and b[0] != "psi" and ("psi", b) not in f:
                rest = {x: y.scale(-v.const_val()) for x, y in f.items() if x != b}
                c.memo.setdefault("gsub", {})[(g, b)] = rest
                return
    c.memo["op_hook"] = hook


# ---------------------------------------------------------------- values

def coordg(I, v):
    """1 or 2: which curve the coordinates belong to"""
    x = v[0]
    if isinstance(x, LazyIte):
        x = I.force(x)
    if isinstance(x, F2):
        return 2
    if isinstance(x, tuple) and len(x) == 2:
        return 2
    return 1


def ce(I, g, v):
    if isinstance(v, LazyIte):
        v = I.force(v)
    if isinstance(v, Poison):
        raise PoisonUse()
    if g == 2:
        return I.simple_e(I.f2(v))
    return I.simple_e(I.repfe(I.fld(v, 0), "q"))


def mkco(g, e):
    return F2(e) if g == 2 else (RMont("q", e),)


def isproj(I, v, t=None):
    """projective points have a field element in the third place"""
    z = v[2]
    if isinstance(z, LazyIte):
        z = I.force(z)
    return not isinstance(z, (bool, Cond))


def affine_xy(I, v):
    """(g, None | (x, y)) of a coordinate value; decides whether it is infinity"""
    c = I.ctx
    g = coordg(I, v)
    if isproj(I, v):
        z = ce(I, g, v[2])
        zz = c.cfz(z)
        if (zz if isinstance(zz, bool) else c.decide(zz)):
            return g, None
        z = c.en(ce(I, g, v[2]))
        x, y = c.en(ce(I, g, v[0])), c.en(ce(I, g, v[1]))
        if z.cv() == (1, 0):
            return g, (x, y)
        zi = c.e_inv(z)
        z2 = c.en(zi * zi)
        return g, (c.en(x * z2), c.en(y * z2 * zi))
    f = v[2]
    f = f if isinstance(f, bool) else c.decide(f)
    if f:
        return g, None
    return g, (c.en(ce(I, g, v[0])), c.en(ce(I, g, v[1])))


def as_form(I, val, like=None):
    if isinstance(val, Ptr):
        val = I.load(val)
    if isinstance(val, LazyIte):
        val = I.force(val)
    if isinstance(val, (GP, GA)):
        return val.form
    if isinstance(val, Poison):
        raise PoisonUse()
    if not isinstance(val, tuple):
        raise ToolLimit("point %r" % (val,))
    g, p = affine_xy(I, val)
    if p is None:
        return {}
    return point_form(I, g, p)


def point_form(I, g, p):
    c = I.ctx
    x, y = c.en(p[0]), c.en(p[1])
    if x.key() == GEN[g][0].key():
        if y.key() == GEN[g][1].key():
            return {GENB[g]: pconst(1)}
        if y.key() == (-GEN[g][1]).key():
            return {GENB[g]: pconst(-1)}
    pts = c.memo.setdefault("pts", {})
    for b, (bx, by) in pts.items():
        if b[1] != g:
            continue
        bx, by = c.en(bx), c.en(by)
        if bx.key() == x.key():
            if by.key() == y.key():
                return {b: pconst(1)}
            if (-by).key() == y.key():
                return {b: pconst(-1)}
    if c.is_zero(y * y - x * x * x - BC[g]) is not True:
        if getattr(c, "concrete", False):
            raise Infeasible()
        I.obligation("precondition: the point is on the curve", False)
    b = ("pt", g, c.fresh("p"))
    pts[b] = (x, y)
    return {b: pconst(1)}


def expand(I, v):
    """coordinates of an abstract point: None (infinity) or (x, y); decides whether it is infinity"""
    c = I.ctx
    g = v.g
    if getattr(c, "concrete", False):
        return c_form(I, g, v.form)
    z = gz(I, g, v.form)
    if (z if isinstance(z, bool) else c.decide(z)):
        return None
    f = reduce(c, g, v.form)
    pts = c.memo.setdefault("pts", {})
    if len(f) == 1:
        (b, k), = f.items()
        if k.const_val() in (1, -1):
            p = GEN[g] if b == GENB[g] else pts.get(b)
            if p is not None:
                return p if k.const_val() == 1 else (p[0], -p[1])
    neg = False
    lead = min(f, key=repr)
    lk = f[lead]
    if min(lk.d.items())[1] < 0:
        neg = True
        f = fscale(f, -1)
    tab = c.memo.setdefault("ptx", {})
    k = (g, fkey(f))
    if k not in tab:
        tab[k] = fresh_point(c, g)
        if len(f) == 1 and f[lead].const_val() == 1:
            pts[lead] = tab[k]
        else:
            pts[("ptx", g) + k] = tab[k]
            c.memo.setdefault("gsub", {})[(g, ("ptx", g) + k)] = f
    x, y = tab[k]
    return (x, -y) if neg else (x, y)


def fresh_point(c, g, name=None):
    """coordinates of an arbitrary finite point"""
    n = name or c.fresh("P")
    pre = "@" if g == 2 else ""
    x, y = E.atom("q", pre + n + "x"), E.atom("q", pre + n + "y")
    c.rules[pre + n + "y"] = (2, x * x * x + BC[g])
    c.nzatoms.add(pre + n + "y")
    return x, y


def expand_value(I, v):
    """abstract value as a tuple of fields"""
    p = expand(I, v)
    if isinstance(v, GA):
        if p is None:
            return (POISON, POISON, True)
        return (mkco(v.g, p[0]), mkco(v.g, p[1]), False)
    if p is None:
        return (POISON, POISON, mkco(v.g, E.const("q", 0)))
    if getattr(I.ctx, "concrete", False):
        return (mkco(v.g, p[0]), mkco(v.g, p[1]), mkco(v.g, E.const("q", 1)))
    c = I.ctx
    # some scaling, unknown
    k = ("ptz", v.g, fkey(reduce(c, v.g, v.form)))
    if k not in c.memo:
        nm = c.fresh("@Z" if v.g == 2 else "Z")
        c.nzatoms.add(nm)
        c.memo[k] = E.atom("q", nm)
    z = c.memo[k]
    return (mkco(v.g, p[0] * z * z), mkco(v.g, p[1] * z * z * z), mkco(v.g, z))


_ip.Interp.expand_point = expand_value


def cmp_abstract(cmp, t, x, y, where):
    """body value x against specified value y, at least one of them abstract"""
    cmp.n += 1
    c = cmp.c
    like = x if isinstance(x, (GP, GA)) else y
    g = like.g
    if getattr(c, "concrete", False):
        a = c_form(cmp.b, g, x.form) if isinstance(x, (GP, GA)) else affine_xy(cmp.b, x)[1]
        b = c_form(cmp.s, g, y.form) if isinstance(y, (GP, GA)) else affine_xy(cmp.s, y)[1]
        same = (a is None) == (b is None) and (a is None or a[0].key() == b[0].key() and a[1].key() == b[1].key())
        if not same:
            cmp.fail(where + " is the specified point", "%r, specified %r" % (a, b))
        return
    if isinstance(x, (GP, GA)) and isinstance(y, (GP, GA)) and type(x) is not type(y):
        cmp.fail(where)
    d = fadd(as_form(cmp.b, x), as_form(cmp.s, y), -1)
    z = gz(cmp.b, g, d)
    if z is not True and not (isinstance(z, Cond) and c.test(z) is True):
        cmp.fail(where + " is the specified point", "body %s, specified %s" % (show(c, x), show(c, y)))


def show(c, v):
    if isinstance(v, (GP, GA)):
        return " + ".join("%r*%s" % (k, b) for b, k in reduce(c, v.g, v.form).items()) or "infinity"
    return repr(v)[:300]


# ---------------------------------------------------------------- inputs

TN = {(1, "A"): "G1Affine", (1, "P"): "G1Projective", (2, "A"): "G2Affine", (2, "P"): "G2Projective"}


def coord_input(inp, name, g, proj, kind, near=None):
    """a point given by arbitrary coordinates; kind inf or fin"""
    c = inp.c

    def el(n):
        return inp.fq(n) if g == 1 else inp.f2c(n)

    if kind == "inf":
        if proj:
            return (el(name + "x"), el(name + "y"), mkco(g, E.const("q", 0)))
        return (el(name + "x"), el(name + "y"), True)
    if inp.conc:
        rng = inp.conc.rng
        pool = inp.conc.__dict__.setdefault("pts%d" % g, [])
        k = rng.randrange(6)
        if pool and k < 3:
            p = rng.choice(pool)
            if k == 1:
                p = (p[0], -p[1])
            if k == 2:
                p = c_add(g, p, p) or p
        elif k == 3:
            p = c_mul(g, rng.randrange(1, 5), GEN[g])
        else:
            p = c_random(g, rng)
        pool.append(p)
        x, y = p
        if not proj:
            return (mkco(g, x), mkco(g, y), False)
        while True:
            z = E.const("q", 1) if rng.random() < 0.3 else E.const("q", rng.randrange(Q), rng.randrange(Q) if g == 2 else 0)
            if not z.is0():
                break
    else:
        x, y = fresh_point(c, g, name)
        if not proj:
            return (mkco(g, x), mkco(g, y), False)
        zn = ("@" if g == 2 else "") + name + "z"
        c.nzatoms.add(zn)
        z = E.atom("q", zn)
    return (mkco(g, x * z * z), mkco(g, y * z * z * z), mkco(g, z))


def abs_input(inp, name, g, proj, sub=False, nonzero=False):
    """an arbitrary point as a formal basis element (concretely: coordinates)"""
    c = inp.c
    if inp.conc:
        rng = inp.conc.rng
        pool = inp.conc.__dict__.setdefault("apts%d" % g, [])
        k = rng.randrange(7)
        if pool and k < 2:
            p = rng.choice(pool)
            if k == 1 and p is not None:
                p = (p[0], -p[1])
        elif k == 2 and not nonzero:
            p = None
        elif k < 5 or sub:
            p = c_mul(g, rng.randrange(1, 8) if rng.random() < 0.5 else rng.randrange(1, R_ORD), GEN[g])
        else:
            p = c_random(g, rng)
        pool.append(p)
        if p is None:
            z, o = mkco(g, E.const("q", 0)), mkco(g, E.const("q", 1))
            return (z, o, z) if proj else (z, o, True)
        x, y = p
        if not proj:
            return (mkco(g, x), mkco(g, y), False)
        z = E.const("q", rng.randrange(1, Q), rng.randrange(Q) if g == 2 else 0)
        return (mkco(g, x * z * z), mkco(g, y * z * z * z), mkco(g, z))
    b = ("in", g, name)
    if sub:
        set_order(c, g, b, R_ORD)
    v = (GP if proj else GA)(g, {b: pconst(1)})
    if nonzero:
        z = gz(inp.I, g, v.form)
        c.assume(cnot(z))
    return v
