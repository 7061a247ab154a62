"""Sparse (Laurent) polynomials with integer coefficients, optionally modulo m.

A monomial is a sorted tuple of (atom, exponent); exponents may be negative for
atoms known to be non-zero field elements."""
from functools import reduce

ONE = ()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) == 1 and len(b) == 1:
        (x, i), (y, j) = a[0], b[0]
        if x < y:
            return (a[0], b[0])
        if x > y:
            return (b[0], a[0])
        return ((x, i + j),) if i + j else ONE
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i][0], b[j][0]
        if x < y:
            out.append(a[i]); i += 1
        elif y < x:
            out.append(b[j]); j += 1
        else:
            e = a[i][1] + b[j][1]
            if e:
                out.append((x, e))
            i += 1; j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class P:
    __slots__ = ("d", "m", "_k")

    def __init__(self, d, m=None):
        self.d = d
        self.m = m
        self._k = None

    # constructors
    @staticmethod
    def const(c, m=None):
        if m is not None:
            c %= m
        return P({ONE: c} if c else {}, m)

    @staticmethod
    def atom(a, m=None, e=1):
        return P({((a, e),): 1}, m)

    def key(self):
        if self._k is None:
            self._k = (self.m, frozenset(self.d.items()))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if isinstance(o, int):
            return self.const_val() == o
        return isinstance(o, P) and self.d == o.d and self.m == o.m

    def is_zero(self):
        return not self.d

    def const_val(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and ONE in self.d:
            return self.d[ONE]
        return None

    def lift(self, o):
        return o if isinstance(o, P) else P.const(o, self.m)

    def __add__(self, o):
        o = self.lift(o)
        if not o.d:
            return self
        if not self.d:
            return o
        a, b = self.d, o.d
        if len(a) < len(b):
            a, b = b, a
        d = dict(a)
        m = self.m
        for k, v in b.items():
            s = d.get(k, 0) + v
            if m is not None:
                s %= m
            if s:
                d[k] = s
            else:
                del d[k]
        return P(d, m)

    __radd__ = __add__

    def __neg__(self):
        m = self.m
        if m is None:
            return P({k: -v for k, v in self.d.items()}, None)
        return P({k: m - v for k, v in self.d.items()}, m)

    def __sub__(self, o):
        return self + (-self.lift(o))

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, c):
        m = self.m
        if m is None:
            if c == 0:
                return P({}, None)
            if c == 1:
                return self
            return P({k: v * c for k, v in self.d.items()}, None)
        c %= m
        if c == 0:
            return P({}, m)
        return P({k: v * c % m for k, v in self.d.items()}, m)

    def __mul__(self, o):
        if isinstance(o, int):
            return self.scale(o)
        a, b = self.d, o.d
        m = self.m
        if not a or not b:
            return P({}, m)
        if len(b) == 1 and ONE in b:
            return self.scale(b[ONE])
        if len(a) == 1 and ONE in a:
            return o.scale(a[ONE])
        d = {}
        for k1, v1 in a.items():
            for k2, v2 in b.items():
                k = mono_mul(k1, k2)
                d[k] = d.get(k, 0) + v1 * v2
        if m is None:
            d = {k: v for k, v in d.items() if v}
        else:
            d = {k: v % m for k, v in d.items() if v % m}
        return P(d, m)

    __rmul__ = __mul__

    def pow(self, n):
        r = P.const(1, self.m)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        s = set()
        for k in self.d:
            for a, _ in k:
                s.add(a)
        return s

    def degree_in(self, a):
        best = 0
        for k in self.d:
            for x, e in k:
                if x == a and e > best:
                    best = e
        return best

    def coeffs_in(self, a):
        """dict exponent -> P (without a)"""
        out = {}
        for k, v in self.d.items():
            e = 0
            rest = k
            for i, (x, ex) in enumerate(k):
                if x == a:
                    e = ex
                    rest = k[:i] + k[i + 1:]
                    break
            out.setdefault(e, {})[rest] = v
        return {e: P(d, self.m) for e, d in out.items()}

    def subst(self, sub):
        """sub: dict atom -> P (exponents of substituted atoms must be >= 0 unless the
        substitute is a single monomial)"""
        if not sub:
            return self
        hit = False
        for k in self.d:
            for a, _ in k:
                if a in sub:
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return self
        m = self.m
        res = {}
        extra = None
        powcache = {}
        for k, v in self.d.items():
            rest = []
            fac = None
            for a, e in k:
                if a in sub:
                    q = powcache.get((a, e))
                    if q is None:
                        s = sub[a]
                        if e >= 0:
                            q = s.pow(e)
                        else:
                            q = mono_inv(s).pow(-e)
                        powcache[(a, e)] = q
                    fac = q if fac is None else fac * q
                else:
                    rest.append((a, e))
            if fac is None:
                res[k] = res.get(k, 0) + v
            else:
                rk = tuple(rest)
                for k2, v2 in fac.d.items():
                    kk = mono_mul(rk, k2)
                    res[kk] = res.get(kk, 0) + v * v2
        if m is None:
            res = {k: v for k, v in res.items() if v}
        else:
            res = {k: v % m for k, v in res.items() if v % m}
        return P(res, m)

    def strip_content(self):
        """divide by the common monomial; returns (poly, monomial)"""
        if not self.d:
            return self, ONE
        it = iter(self.d)
        mins = dict(next(it))
        for k in it:
            kd = dict(k)
            for a in list(mins):
                e = kd.get(a, 0)
                if e < mins[a]:
                    mins[a] = e
            for a, e in kd.items():
                if a not in mins and e < 0:
                    mins[a] = e
        # atoms absent from the first monomials have exponent 0
        for k in self.d:
            kd = dict(k)
            for a in list(mins):
                e = kd.get(a, 0)
                if e < mins[a]:
                    mins[a] = e
        mono = tuple(sorted((a, e) for a, e in mins.items() if e))
        if not mono:
            return self, ONE
        inv = tuple((a, -e) for a, e in mono)
        return P({mono_mul(k, inv): v for k, v in self.d.items()}, self.m), mono

    def monic(self):
        """scale so that the coefficient of the smallest monomial is 1 (prime m)"""
        if not self.d:
            return self
        k = min(self.d)
        return self.scale(pow(self.d[k], -1, self.m))

    def eval(self, env):
        m = self.m
        t = 0
        for k, v in self.d.items():
            x = v
            for a, e in k:
                val = env[a]
                if m is not None:
                    x = x * pow(val, e, m) % m
                else:
                    x = x * val ** e
            t += x
        return t if m is None else t % m

    def __repr__(self):
        if not self.d:
            return "0"
        parts = []
        for k in sorted(self.d, key=lambda k: (len(k), str(k)))[:12]:
            v = self.d[k]
            if self.m is not None and v > self.m // 2:
                v -= self.m
            s = "*".join("%s%s" % (a, "" if e == 1 else "^%d" % e) for a, e in k)
            c = str(v) if abs(v) < 10 ** 12 else hex(v)
            parts.append(c if not s else (s if v == 1 else c + "*" + s))
        if len(self.d) > 12:
            parts.append("...(%d terms)" % len(self.d))
        return " + ".join(parts)


def mono_inv(p):
    if len(p.d) != 1:
        raise ValueError("inverse of a non-monomial")
    (k, v), = p.d.items()
    if p.m is None:
        assert v in (1, -1)
        return P({tuple((a, -e) for a, e in k): v}, None)
    return P({tuple((a, -e) for a, e in k): pow(v, -1, p.m)}, p.m)
