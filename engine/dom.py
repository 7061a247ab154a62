"""The value domain and the per-path prover.

Integers are Python ints or U (polynomial over Z in bounded integer atoms).
Field elements are E = A + u*B with A, B polynomials over Fq (or Fr) in atoms.
Ctx holds everything that is assumed on the current path."""
import time
from poly import P, ONE, mono_mul
from consts import *

STATS = {"z3_queries": 0, "z3_time": 0.0, "poly_decided": 0, "interval": 0, "farkas": 0}


class Inf(int):
    """plus or minus infinity as the bound of an integer"""

    def __new__(cls, sign):
        r = int.__new__(cls, sign << 100000)
        r.s = sign
        return r

    def __repr__(self):
        return "inf" if self.s > 0 else "-inf"

    __str__ = __repr__

    def _other(self, x):
        if isinstance(x, Inf) and x.s != self.s:
            raise ToolLimit("difference of infinite bounds")
        return self

    __add__ = __radd__ = _other

    def __neg__(self):
        return MINF if self.s > 0 else PINF

    def __sub__(self, x):
        return self._other(-x)

    def __rsub__(self, x):
        return (-self)._other(x)

    def __mul__(self, x):
        return 0 if x == 0 else (self if x > 0 else -self)

    __rmul__ = __mul__

    def __pow__(self, e):
        return 1 if e == 0 else (PINF if e % 2 == 0 else self)

    def __floordiv__(self, x):
        if isinstance(x, Inf):
            raise ToolLimit("quotient of infinite bounds")
        return self * x

    def __lshift__(self, x):
        return self

    __rshift__ = __lshift__

    def __abs__(self):
        return PINF

    def __lt__(self, x):
        return self.s < 0 and not (isinstance(x, Inf) and x.s < 0)

    def __gt__(self, x):
        return self.s > 0 and not (isinstance(x, Inf) and x.s > 0)

    def __le__(self, x):
        return not self > x

    def __ge__(self, x):
        return not self < x

    def __eq__(self, x):
        return isinstance(x, Inf) and x.s == self.s

    def __ne__(self, x):
        return not self == x

    def __hash__(self):
        return hash(("inf", self.s))

    def _no(self, *a):
        raise ToolLimit("infinite bound")

    __mod__ = __rmod__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = bit_length = to_bytes = _no
    __rfloordiv__ = __rlshift__ = __rrshift__ = __index__ = _no


PINF = Inf(1)
MINF = Inf(-1)


class ToolLimit(Exception):
    """the verifier cannot handle this code; reported as an undischarged obligation"""


class Infeasible(Exception):
    """path condition is contradictory"""


class Failed(Exception):
    """an obligation is refuted or cannot be discharged"""

    def __init__(self, what, detail=""):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


class MergeFail(Exception):
    pass


def pconst(c):
    return P.const(c, None)


class U:
    """integer expression: polynomial plus proven bounds"""
    __slots__ = ("p", "lo", "hi")

    def __init__(self, p, lo, hi):
        self.p = p
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return "U(%r in [%s,%s])" % (self.p, hex(self.lo), hex(self.hi))


def zp(x):
    if isinstance(x, U):
        return x.p
    if isinstance(x, P):
        return x
    return P.const(int(x), None)


def ulo(x):
    return x.lo if isinstance(x, U) else x


def uhi(x):
    return x.hi if isinstance(x, U) else x


# ---------------------------------------------------------------- field elements

class E:
    """A + u*B over the field named f ('q' or 'r')"""
    __slots__ = ("f", "A", "B", "_k")

    def __init__(self, f, A, B=None):
        self.f = f
        self.A = A
        self.B = B if B is not None else P({}, MOD[f])
        self._k = None

    @staticmethod
    def const(f, a, b=0):
        return E(f, P.const(a, MOD[f]), P.const(b, MOD[f]))

    @staticmethod
    def atom(f, name, e=1):
        return E(f, P.atom(name, MOD[f], e))

    def key(self):
        if self._k is None:
            self._k = (self.f, self.A.key(), self.B.key())
        return self._k

    def cv(self):
        """constant value (a,b) or None"""
        a = self.A.const_val()
        if a is None:
            return None
        b = self.B.const_val()
        if b is None:
            return None
        return (a, b)

    def is0(self):
        return not self.A.d and not self.B.d

    def __add__(self, o):
        o = lift(self.f, o)
        return E(self.f, self.A + o.A, self.B + o.B)

    __radd__ = __add__

    def __neg__(self):
        return E(self.f, -self.A, -self.B)

    def __sub__(self, o):
        o = lift(self.f, o)
        return E(self.f, self.A - o.A, self.B - o.B)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, PW):
            return o * self
        if isinstance(o, int):
            return E(self.f, self.A.scale(o), self.B.scale(o))
        if self.B.d:
            if o.B.d:
                return E(self.f, self.A * o.A - self.B * o.B, self.A * o.B + self.B * o.A)
            return E(self.f, self.A * o.A, self.B * o.A)
        if o.B.d:
            return E(self.f, self.A * o.A, self.A * o.B)
        return E(self.f, self.A * o.A)

    __rmul__ = __mul__

    def pow(self, n):
        r = E.const(self.f, 1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        return self.A.atoms() | self.B.atoms()

    def nterms(self):
        return len(self.A.d) + len(self.B.d)

    def __repr__(self):
        if not self.B.d:
            return "E(%r)" % self.A
        return "E(%r ; u*(%r))" % (self.A, self.B)


def lift(f, o):
    if isinstance(o, E):
        return o
    return E.const(f, o)


def conj_atom(a):
    if a[0] == "@":       # complex (Fq2) atoms are written @X and @X~
        return a[:-1] if a[-1] == "~" else a + "~"
    return a


def conj_poly(p):
    d = {}
    hit = False
    for k, v in p.d.items():
        if any(a[0] == "@" for a, _ in k):
            hit = True
            k = tuple(sorted((conj_atom(a), e) for a, e in k))
        d[k] = v
    return P(d, p.m) if hit else p


def conj(e):
    if isinstance(e, PW):
        return e.conj()
    return E(e.f, conj_poly(e.A), -conj_poly(e.B))


def selfconj(e):
    return conj(e).key() == e.key()


U_Q = E.const("q", 0, 1)
HALF_Q = pow(2, -1, Q)


def e_re(e):
    if not e.B.d and not any(a[0] == "@" for a in e.atoms()):
        return e
    c = conj(e)
    return (e + c) * HALF_Q


def e_im(e):
    if not any(a[0] == "@" for a in e.atoms()):
        return E(e.f, e.B)
    c = conj(e)
    return (e - c) * E.const("q", 0, (-HALF_Q) % Q)   # 1/(2u) = -u/2


def e_from(re, im):
    return re + im * U_Q


class PW:
    """c * prod base^exp, exponents integer polynomials (P over Z).
    bases: dict key -> (E or tag, P).  ring: 'q' (E bases) or '12' (Fq12 tags)"""
    __slots__ = ("c", "b", "ring")

    def __init__(self, c, b, ring="q"):
        self.c = c
        self.b = b
        self.ring = ring

    @staticmethod
    def of(x, ring=None):
        if isinstance(x, PW):
            return x
        # E: constant times monomial, or a single opaque base
        cv = x.cv()
        if cv is not None:
            return PW(x, {}, x.f)
        if not x.B.d and len(x.A.d) == 1:
            (k, v), = x.A.d.items()
            b = {}
            for a, e in k:
                be = E.atom(x.f, a)
                kk, ee, sgn = _basekey(be)
                _padd(b, kk, sgn, ee * e)
            return PW(E.const(x.f, v), b, x.f)
        # strip the monomial content common to A and B
        cont = content(x)
        rest = x
        b = {}
        if cont:
            inv = tuple((a, -e) for a, e in cont)
            rest = E(x.f, mono_shift(x.A, inv), mono_shift(x.B, inv))
            for a, e in cont:
                kk, ee, base = _basekey(E.atom(x.f, a))
                _padd(b, kk, base, ee * e)
        c, rest = monic_e(rest)
        if rest.cv() != (1, 0):
            _padd(b, ("E",) + rest.key(), rest, pconst(1))
        return PW(c, b, x.f)

    def __mul__(self, o):
        o = PW.of(o)
        b = dict(self.b)
        for k, (base, e) in o.b.items():
            _padd(b, k, base, e)
        return PW(_cmul(self.c, o.c), b, self.ring)

    __rmul__ = __mul__

    def __neg__(self):
        return PW(-self.c, self.b, self.ring)

    def power(self, n):
        """n: int or P"""
        n = zp(n)
        nc = n.const_val()
        if self.ring == "12":
            return PW(1, {k: (base, e * n) for k, (base, e) in self.b.items()}, "12")
        if nc is not None:
            c = self.c
            if nc < 0:
                c = inv_const(c)
                c = e_cpow(c, -nc)
            else:
                c = e_cpow(c, nc)
        else:
            if self.c.cv() == (1, 0):
                c = self.c
            else:
                c1 = self.c
                b = {k: (base, e * n) for k, (base, e) in self.b.items()}
                _padd(b, ("E",) + c1.key(), c1, n)
                return PW(E.const(self.c.f, 1), b, self.ring)
        return PW(c, {k: (base, e * n) for k, (base, e) in self.b.items()}, self.ring)

    def conj(self):
        """x -> x^q on Fq2"""
        b = {}
        for k, (base, e) in self.b.items():
            cb = conj(base)
            pw = PW.of(cb)
            for k2, (b2, e2) in pw.b.items():
                _padd(b, k2, b2, e2 * e)
        return PW(conj(self.c), b, self.ring)

    def simple(self):
        """back to E when all exponents are small constants"""
        r = self.c
        for k, (base, e) in self.b.items():
            n = e.const_val()
            if n is None or abs(n) > 64:
                return self
            if n >= 0:
                r = r * base.pow(n)
            else:
                if base.nterms() != 1 or base.B.d:
                    return self
                (m, v), = base.A.d.items()
                r = r * E(base.f, P({tuple((a, -x) for a, x in m): pow(v, -1, MOD[base.f])}, MOD[base.f])).pow(-n)
        return r

    def key(self):
        ck = self.c if isinstance(self.c, int) else self.c.key()
        return ("PW", ck, frozenset((k, e.key()) for k, (_, e) in self.b.items()))

    def __repr__(self):
        return "PW(%r * %s)" % (self.c, " * ".join("[%r]^(%r)" % (b if isinstance(b, E) else k, e) for k, (b, e) in self.b.items()))


CLEARED, NORMS = {}, {}


def _cmul(a, b):
    return a * b


def _padd(b, k, base, e):
    if k in b:
        ne = b[k][1] + e
        if ne.is_zero():
            del b[k]
        else:
            b[k] = (base, ne)
    elif not e.is_zero():
        b[k] = (base, e)


def _basekey(be):
    """atoms @X~ are stored as @X^q"""
    (m, v), = be.A.d.items()
    a = m[0][0]
    if a[0] == "@" and a[-1] == "~":
        base = E.atom(be.f, a[:-1])
        return ("E",) + base.key(), pconst(MOD["q"]), base
    return ("E",) + be.key(), pconst(1), be


def mono_shift(p, mono):
    return P({mono_mul(k, mono): v for k, v in p.d.items()}, p.m)


def content(e):
    """common monomial content (list of (atom, exp)) of E"""
    mins = None
    for p in (e.A, e.B):
        for k in p.d:
            kd = dict(k)
            if mins is None:
                mins = dict(kd)
                continue
            for a in list(mins):
                x = kd.get(a, 0)
                if x < mins[a]:
                    mins[a] = x
            for a, x in kd.items():
                if a not in mins and x < 0:
                    mins[a] = x
    if mins is None:
        return ()
    # atoms with negative exponent missing in the first monomials: second pass
    for p in (e.A, e.B):
        for k in p.d:
            kd = dict(k)
            for a in list(mins):
                x = kd.get(a, 0)
                if x < mins[a]:
                    mins[a] = x
    return tuple(sorted((a, x) for a, x in mins.items() if x))


def strip_content(e):
    c = content(e)
    if not c:
        return e, ()
    inv = tuple((a, -x) for a, x in c)
    return E(e.f, mono_shift(e.A, inv), mono_shift(e.B, inv)), c


def monic_e(e):
    """divide by the coefficient of the smallest monomial: returns (const E, monic E)"""
    ks = set(e.A.d) | set(e.B.d)
    k = min(ks)
    c = E.const(e.f, e.A.d.get(k, 0), e.B.d.get(k, 0))
    return c, e * inv_const(c)


def inv_const(c):
    a, b = c.cv()
    m = MOD[c.f]
    n = (a * a + b * b) % m
    ni = pow(n, -1, m)
    return E.const(c.f, a * ni, -b * ni)


def e_cpow(c, n):
    a, b = c.cv()
    m = MOD[c.f]
    ra, rb = 1, 0
    while n:
        if n & 1:
            ra, rb = (ra * a - rb * b) % m, (ra * b + rb * a) % m
        a, b = (a * a - b * b) % m, (2 * a * b) % m
        n >>= 1
    return E.const(c.f, ra, rb)


# ---------------------------------------------------------------- conditions

class Cond:
    """atomic condition with polarity.  kinds:
       eq0 (P over Z), ge0 (P over Z), fz (E == 0), pwone (PW == 1), op (opaque key)"""
    __slots__ = ("k", "x", "neg", "key")

    def __init__(self, k, x, neg=False, key=None):
        self.k = k
        self.x = x
        self.neg = neg
        if key is None:
            key = x.key() if hasattr(x, "key") and callable(x.key) else x
        self.key = (k, key)

    def __repr__(self):
        return "%s%s(%r)" % ("not " if self.neg else "", self.k, self.x if self.k != "op" else self.key)


def cnot(c):
    if isinstance(c, bool):
        return not c
    return Cond(c.k, c.x, not c.neg, c.key[1])


class Undecided(Exception):
    pass


class Ctx:
    """state of one symbolic path"""

    def __init__(self, prefix=(), seed=0):
        self.bounds = {}         # Z atom -> [lo, hi]
        self.facts = []          # (P, lo, hi)
        self.factset = set()
        self.zsub = {}
        self.cutatoms = set()   # indices of loops cut by an invariant
        self.orargs = {}       # bitwise or: its operands
        self.xorargs = {}      # exclusive or: the difference of its operands
        self.cnt = {}
        self.splits = {}
        self.limbm = {}
        self.moddef = {"q": {}, "r": {}}
        self.montint = {"q": {}, "r": {}}    # key -> (E, atom)
        self.intdef = []
        self.esub = {}
        self.nonzero = {}        # monic key -> E
        self.nzatoms = set()
        self.rules = {}          # atom -> (deg, E)   atom^deg -> E
        self.invs = {}           # key -> (atom, E)
        self.inv_atoms = {}      # atom -> E it inverts
        self.pwrel = []          # (basekey, m, const E): base^m = const
        self.diseq = []          # polynomials known to be non-zero
        self.known = {}          # opaque condition key -> bool
        self.sqrt_memo = {}
        self.memo = {}
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []
        self.pending = []        # alternative prefixes
        self.labels = []
        self.trail = []          # human readable assumptions
        self.bits = {}
        self.inmerge = 0
        self.zver = 0
        self.partner = {}        # carry atom -> (out poly, multiplier)
        self.forbid_fork = 0

    # ------------------------------------------------------------ forking
    def choose(self, n, label="", first=0):
        if n == 1:
            return 0
        if self.inmerge:
            raise MergeFail("fork inside merge: %s" % label)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = first
            base = self.taken[:]
            for i in range(0, n):
                if i != d:
                    self.pending.append(base + [i])
        self.pos += 1
        self.taken.append(d)
        self.labels.append((label, d))
        return d

    def fresh(self, tag):
        c = self.cnt.get(tag, 0)
        self.cnt[tag] = c + 1
        return "%s#%d" % (tag, c)

    # ------------------------------------------------------------ integers
    def zatom(self, tag, lo, hi, name=None):
        if name is None:
            name = self.fresh(tag)
        if lo == hi:
            return lo
        self.bounds[name] = [lo, hi]
        return U(P.atom(name), lo, hi)

    def nz(self, p):
        if self.zsub:
            for _ in range(50):
                q = p.subst(self.zsub)
                if q is p:
                    return p
                p = q
        return p

    def interval(self, p):
        lo = hi = 0
        b = self.bounds
        for k, v in p.d.items():
            l, h = 1, 1
            for a, e in k:
                al, ah = b[a]
                if al >= 0:
                    l *= al ** e
                    h *= ah ** e
                else:
                    if e == 1:
                        c = (l * al, l * ah, h * al, h * ah)
                        l, h = min(c), max(c)
                    else:
                        m = max(abs(al), abs(ah)) ** e
                        l, h = (-m if e % 2 else 0) * max(abs(l), abs(h)), m * max(abs(l), abs(h))
            if v > 0:
                lo += v * l
                hi += v * h
            else:
                lo += v * h
                hi += v * l
        return lo, hi

    def mk(self, p, lo=None, hi=None):
        """integer value from a polynomial, with bounds [lo,hi] when known"""
        if self.zsub:
            p = self.nz(p)
        c = p.const_val()
        if c is not None:
            return c
        l, h = self.interval(p)
        if lo is not None and lo > l:
            l = lo
        if hi is not None and hi < h:
            h = hi
        if l == h:
            return l
        return U(p, l, h)

    def fact(self, p, lo, hi):
        p = self.nz(p)
        c = p.const_val()
        if c is not None:
            if (lo is not None and c < lo) or (hi is not None and c > hi):
                raise Infeasible()
            return
        if ONE in p.d and len(p.d) == 2:
            c = p.d[ONE]
            p = p - pconst(c)
            lo = None if lo is None else lo - c
            hi = None if hi is None else hi - c
        if len(p.d) == 1:
            (k, v), = p.d.items()
            if len(k) == 1 and k[0][1] == 1:
                # bound on a single atom
                a = k[0][0]
                nlo = nhi = None
                if v > 0:
                    if lo is not None:
                        nlo = -((-lo) // v)
                    if hi is not None:
                        nhi = hi // v
                else:
                    if hi is not None:
                        nlo = -((hi) // (-v)) if True else None
                        nlo = -(hi // (-v))
                    if lo is not None:
                        nhi = (-lo) // (-v)
                b = self.bounds[a]
                if nlo is not None and nlo > b[0]:
                    b[0] = nlo
                if nhi is not None and nhi < b[1]:
                    b[1] = nhi
                if b[0] > b[1]:
                    raise Infeasible()
                if b[0] == b[1]:
                    self.setz(a, pconst(b[0]))
                return
        kk = (p.key(), lo, hi)
        if kk not in self.factset:
            self.factset.add(kk)
            self.facts.append((p, lo, hi))
            if self.cutatoms and lo == 0 and hi is None and (p.scale(-1).key(), 0, None) in self.factset:
                # p >= 0 and p <= 0: an index of a loop that has ended
                for (k, v) in p.d.items():
                    if len(k) == 1 and k[0][1] == 1 and v in (1, -1) and k[0][0] in self.cutatoms:
                        a = k[0][0]
                        self.cutatoms.discard(a)
                        old = [f for f in self.facts if a in f[0].atoms()]
                        self.facts = [f for f in self.facts if a not in f[0].atoms()]
                        self.setz(a, P({((a, 1),): 1}) - p.scale(v))
                        for f in old:
                            self.fact(*f)
                        break

    def setz(self, a, p):
        """substitute Z atom a by p"""
        p = self.nz(p)
        self.zsub[a] = p
        self.zver += 1
        for d in self.diseq:
            if a in d.atoms() and self.nz(d).is_zero():
                raise Infeasible()
        if a in self.bounds:
            c = p.const_val()
            lo, hi = self.bounds[a]
            if c is not None:
                if c < lo or c > hi:
                    raise Infeasible()
            elif (p.key(), lo, hi) not in self.factset:
                self.factset.add((p.key(), lo, hi))
                self.facts.append((p, lo, hi))
        if a in self.orargs and p.is_zero():
            for op in self.orargs[a]:
                self.force0(op)
        if a in self.xorargs and p.is_zero():
            self.force0(self.xorargs[a])
        for o, x in list(self.xorargs.items()):
            if a in x.atoms():
                x = self.xorargs[o] = self.nz(x)
                if x.is_zero():
                    self.force0(P({((o, 1),): 1}))
        for o, (x, y) in list(self.orargs.items()):
            if a in x.atoms() or a in y.atoms():
                x, y = self.orargs[o] = self.nz(x), self.nz(y)
                if x.is_zero() or y.is_zero():
                    self.force0(P({((o, 1),): 1}) - x - y)
        if a.startswith(("oor#", "oxor#", "oand#")):
            for (fp, lo, hi) in list(self.facts):
                if a in fp.atoms():
                    self.fact(fp, lo, hi)
        for f in ("q", "r"):
            md = self.moddef[f]
            if a in md:
                # the defining congruence becomes a relation between field elements
                lhs = self.z2e_raw(f, p)
                rel = lhs - md[a]
                self.congruence(f, rel)

    def congruence(self, f, rel):
        """assume rel == 0 in the field"""
        r = self.is_zero(rel)
        if r is False:
            raise Infeasible()
        if r is None:
            self.assume_fz(rel)

    def U_add(self, x, y):
        if not isinstance(x, U) and not isinstance(y, U):
            return x + y
        return self.mk(zp(x) + zp(y), ulo(x) + ulo(y), uhi(x) + uhi(y))

    # proving  p >= 0 ------------------------------------------------------
    def prove_ge0(self, p, quick=False):
        p = self.nz(p)
        c = p.const_val()
        if c is not None:
            return c >= 0
        lo, hi = self.interval(p)
        if lo >= 0:
            STATS["interval"] += 1
            return True
        if hi < 0:
            return False
        # Farkas with carry partners: p contains -k*c where c is a carry with out = S - W*c
        if self._partner_bound(p):
            STATS["farkas"] += 1
            return True
        if quick:
            return False
        return self._z3_unsat(p)

    def _partner_bound(self, p, depth=0):
        """try to show p >= 0 using 0 <= out for the carry atoms with negative coefficient,
        or out <= M-1 for positive coefficients"""
        q = p
        scale = 1
        for _ in range(12):
            pick = None
            for k, v in q.d.items():
                if len(k) == 1 and k[0][1] == 1 and k[0][0] in self.partner and v < 0:
                    pick = (k[0][0], v)
                    # prefer the newest
            if pick is None:
                return False
            a, v = pick
            out, m = self.partner[a]
            # out = S - m*a >= 0.   m*q + v*... : m*q - |v|*out eliminates a when out has -m*a
            q2 = q.scale(m) - out.scale(-v)
            scale *= m
            lo, _ = self.interval(q2)
            # p*scale >= lo  and p integer
            if lo > -scale:
                return True
            if a in q2.atoms():
                return False
            q = q2
        return False

    def _relevant(self, p, limit=220):
        facts = self.facts
        want = set(p.atoms())
        sel = []
        used = [False] * len(facts)
        for rnd in range(64):
            if rnd >= 6:
                # further only along chains of bitwise operations
                want = {a for a in want if a.startswith(("oor#", "oxor#", "oand#"))}
            add = set()
            for i in range(len(facts) - 1, -1, -1):
                if used[i]:
                    continue
                at = facts[i][0].atoms()
                if at & want:
                    used[i] = True
                    sel.append(facts[i])
                    add |= at
                    if len(sel) >= limit:
                        return sel
            if not (add - want):
                break
            want |= add
        return sel

    def _z3_unsat(self, p, want_model=False):
        """is p <= -1 impossible?"""
        import z3
        t0 = time.time()
        STATS["z3_queries"] += 1
        try:
            sel = self._relevant(p)
            if not sel and all(len(k) <= 1 and (not k or k[0][1] == 1) for k in p.d):
                return False        # independent atoms: the interval is exact
            vars_ = {}
            cons = []

            def ex(poly):
                terms = []
                for k, v in poly.d.items():
                    if k == ONE:
                        terms.append(z3.RealVal(v))
                        continue
                    if k not in vars_:
                        vars_[k] = z3.Real("m%d" % len(vars_))
                    terms.append(z3.RealVal(v) * vars_[k])
                return z3.Sum(terms) if len(terms) > 1 else terms[0]

            for (fp, lo, hi) in sel:
                fp = self.nz(fp)
                if fp.const_val() is not None:
                    continue
                e = ex(fp)
                if lo is not None and lo == hi:
                    cons.append(e == lo)
                    continue
                if lo is not None and lo != MINF:
                    cons.append(e >= lo)
                if hi is not None and hi != PINF:
                    cons.append(e <= hi)
            goal = ex(p) <= -1
            for k, var in vars_.items():
                l, h = self.interval(P({k: 1}))
                if l != MINF:
                    cons.append(var >= l)
                if h != PINF:
                    cons.append(var <= h)
            s = z3.SolverFor("QF_LRA")
            s.set("rlimit", 40000000)        # deterministic; the clock only stops what has gone astray
            s.set("timeout", 120000)
            s.add(cons)
            s.add(goal)
            r = s.check()
            if r == z3.unsat:
                return True
            if r == z3.sat:
                # carries are integers: look at those the solution over the reals leaves fractional
                small = [(k, v) for k, v in vars_.items() if len(k) == 1 and k[0][1] == 1 and k[0][0] in self.partner
                         and self.bounds[k[0][0]][1] - self.bounds[k[0][0]][0] <= 2]
                if 0 < len(small) <= 8:
                    m = s.model()
                    if any(m.eval(v, model_completion=True).denominator_as_long() != 1 for k, v in small):
                        STATS["z3_int"] = STATS.get("z3_int", 0) + 1
                        return self._carry_split(s, small, 24)
            return False
        finally:
            STATS["z3_time"] += time.time() - t0

    def settle(self, atoms):
        """determine integer atoms of small range; True when one was"""
        out = False
        for a in atoms:
            b = self.bounds.get(a)
            if b is None or a in self.zsub or not 0 < b[1] - b[0] <= 2:
                continue
            for v in range(b[0], b[1] + 1):
                if (v == b[1] or self.prove_ge0(pconst(v) - P.atom(a))) and (v == b[0] or self.prove_ge0(P.atom(a) - v)):
                    self.setz(a, pconst(v))
                    out = True
                    break
        return out

    def _carry_split(self, s, small, budget):
        """unsatisfiable over the reals for every integer value of the small atoms"""
        import z3
        todo = [()]
        while todo:
            if budget <= 0:
                return False
            budget -= 1
            fix = todo.pop()
            s.push()
            for v, x in fix:
                s.add(v == x)
            r = s.check()
            pick = None
            if r == z3.sat:
                m = s.model()
                done = {v.get_id() for v, _ in fix}
                for k, v in small:
                    if v.get_id() not in done and m.eval(v, model_completion=True).denominator_as_long() != 1:
                        pick = (k, v)
                        break
            s.pop()
            if r == z3.unsat:
                continue
            if pick is None:
                return False
            lo, hi = self.bounds[pick[0][0][0]]
            todo += [fix + ((pick[1], x),) for x in range(lo, hi + 1)]
        return True

    def z3_model(self, extra=(), timeout=4000):
        """integer model of the path facts (nonlinear monomials included): dict atom->int or None"""
        import z3
        vars_ = {}

        def v(a):
            if a not in vars_:
                vars_[a] = z3.Int(a)
            return vars_[a]

        def ex(poly):
            terms = []
            for k, c in poly.d.items():
                t = z3.IntVal(c)
                for a, e in k:
                    for _ in range(e):
                        t = t * v(a)
                terms.append(t)
            return z3.Sum(terms) if terms else z3.IntVal(0)
        s = z3.Solver()
        s.set("timeout", timeout)
        for (fp, lo, hi) in self.facts:
            e = ex(fp)
            if lo is not None and lo != MINF:
                s.add(e >= lo)
            if hi is not None and hi != PINF:
                s.add(e <= hi)
        for a, p in self.zsub.items():
            s.add(v(a) == ex(p))
        for (p, op) in extra:
            e = ex(p)
            s.add(e >= 0 if op == "ge" else (e < 0 if op == "lt" else (e == 0 if op == "eq" else e != 0)))
        for a in list(vars_):
            if a in self.bounds:
                lo, hi = self.bounds[a]
                if lo != MINF:
                    s.add(vars_[a] >= lo)
                if hi != PINF:
                    s.add(vars_[a] <= hi)
        if s.check() != z3.sat:
            return None
        m = s.model()
        return {a: m.eval(x, model_completion=True).as_long() for a, x in vars_.items()}

    # splitting --------------------------------------------------------------
    def split(self, x, k):
        """x >= 0  ->  (x >> k, x mod 2^k)"""
        if not isinstance(x, U):
            return x >> k, x & ((1 << k) - 1)
        if k == 0:
            return x, 0
        M = 1 << k
        if x.hi < M:
            return 0, x
        p = self.nz(x.p)
        hiD, loD = {}, {}
        for m, v in p.d.items():
            if v % M == 0:
                hiD[m] = v // M
            else:
                loD[m] = v
        lop = P(loD)
        l, h = self.interval(lop)
        if l >= 0 and h < M:
            A = self.mk(P(hiD), 0, x.hi >> k)
            return A, self.mk(lop, 0, M - 1)
        if hiD and l >= 0 and k <= 512:
            # exact high part: only the low part needs splitting
            hh, ll = self.split(self.mk(lop, 0, None), k)
            return self.mk(P(hiD) + zp(hh), 0, x.hi >> k), ll
        r = self._split_aligned(p, x, k)
        if r is not None:
            return r
        # constants may need to be divided between the parts
        if ONE in loD:
            c = loD[ONE]
            l2, h2 = l - c, h - c
            r = c % M
            if l2 + r >= 0 and h2 + r < M:
                loD[ONE] = r
                if not r:
                    del loD[ONE]
                hiD[ONE] = hiD.get(ONE, 0) + (c - r) // M
                return self.mk(P(hiD), 0, x.hi >> k), self.mk(P(loD), 0, M - 1)
        key = (p.key(), k)
        if key not in self.splits:
            # use an existing finer split when there is one: (x>>j) known, j<k
            for j in range(k - 1, 0, -1):
                if (p.key(), j) in self.splits:
                    hj = self.splits[(p.key(), j)]
                    hh, _ = self.split(hj, k - j)
                    self.splits[key] = hh
                    break
            else:
                h = self.zatom("s%d" % k, x.lo >> k, x.hi >> k)
                self.splits[key] = h
                if isinstance(h, U):
                    a = next(iter(h.p.atoms()))
                    low = p - h.p.scale(M)
                    self.fact(low, 0, M - 1)
                    self.partner[a] = (low, M)
        h = self.splits[key]
        if isinstance(h, U):
            h = self.mk(h.p, h.lo, h.hi)
        return h, self.mk(p - zp(h).scale(M), 0, M - 1)

    def _split_aligned(self, p, x, k):
        """x = 2^j*H + L with 0 <= L < 2^j, j < k: split H at k-j"""
        vals = sorted({(v & -v).bit_length() - 1 for v in p.d.values()}, reverse=True)
        for j in vals:
            if j >= k or j == 0:
                continue
            H = P({m: v >> j for m, v in p.d.items() if v % (1 << j) == 0})
            L = P({m: v for m, v in p.d.items() if v % (1 << j)})
            l, h = self.interval(L)
            if l < 0 or h >= (1 << j):
                continue
            hl, hh = self.interval(H)
            if hl < 0:
                continue
            a, b = self.split(self.mk(H, 0, x.hi >> j), k - j)
            return a, self.mk(zp(b).scale(1 << j) + L, 0, (1 << k) - 1)
        return None

    def modW(self, p, w, tag="w", lo=None, hi=None):
        """value of polynomial p modulo 2^w, as a U in [0,2^w)"""
        M = 1 << w
        p = self.nz(p)
        c = p.const_val()
        if c is not None:
            return c % M
        l, h = self.interval(p)
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        if l >= 0 and h < M:
            return U(p, l, h)
        if l < 0 and h < M and self.prove_ge0(p):
            l = 0
        if h >= M and l >= 0 and self.prove_ge0(pconst(M - 1) - p):
            h = M - 1
        if l >= 0 and h < M:
            return U(p, l, h)
        t = l // M
        T = h // M
        if t == T:
            return U(p - pconst(t * M), l - t * M, h - t * M)
        # all coefficients divisible by M (up to a constant)
        d = {k: v for k, v in p.d.items() if v % M}
        if not d:
            return 0
        if set(d) == {ONE}:
            return d[ONE] % M
        # reduce coefficients first
        key = (p.key(), w, "mod")
        if key in self.splits:
            c = self.splits[key]
        else:
            c = self.zatom(tag, t, T)
            self.splits[key] = c
            if isinstance(c, U):
                a = next(iter(c.p.atoms()))
                low = p - c.p.scale(M)
                self.fact(low, 0, M - 1)
                self.partner[a] = (low, M)
        return self.mk(p - zp(c).scale(M), 0, M - 1)

    def divmodW(self, p, w, tag="c", lo=None, hi=None):
        """(p >> w, p mod 2^w) for p with p >= 0"""
        M = 1 << w
        p = self.nz(p)
        r = self.modW(p, w, tag, lo, hi)
        d = p - zp(r)
        dd = {}
        for k, v in d.d.items():
            assert v % M == 0
            dd[k] = v // M
        qq = P(dd)
        l, h = self.interval(p)
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        return self.mk(qq, l // M, h // M), r

    # limbs --------------------------------------------------------------------
    def limbs(self, x, n):
        """n 64-bit limbs of integer x (0 <= x < 2^(64 n))"""
        if not isinstance(x, U):
            return tuple((x >> (64 * i)) & (W - 1) for i in range(n))
        out = []
        for i in range(n - 1):
            x, lo = self._split_low(x, 64, n - i)
            out.append(lo)
        out.append(x)
        return tuple(out)

    def _split_low(self, x, k, nl):
        h, l = self.split(x, k)
        return h, l

    # ------------------------------------------------------------ fields
    def z2e_raw(self, f, p):
        """Z polynomial to field polynomial (no definitions applied)"""
        m = MOD[f]
        return E(f, P({k: v % m for k, v in p.d.items() if v % m}, m))

    def z2e(self, f, x):
        p = self.nz(zp(x))
        e = self.z2e_raw(f, p)
        return self.defs(e)

    def defs(self, e):
        md = self.moddef[e.f]
        if not md:
            return e
        for _ in range(200):
            at = e.atoms()
            hit = [a for a in at if a in md]
            if not hit:
                return e
            e = self.esubst(e, {a: md[a] for a in hit})
        raise ToolLimit("cyclic modular definitions")

    def esubst(self, e, sub):
        """substitute atoms by E's (conjugates follow)"""
        full = {}
        at = e.atoms()
        for a in at:
            if a in sub:
                full[a] = sub[a]
            elif a[0] == "@" and conj_atom(a) in sub:
                full[a] = conj(sub[conj_atom(a)])
        if not full:
            return e
        if all(not s.B.d for s in full.values()):
            d = {a: s.A for a, s in full.items()}
            return E(e.f, e.A.subst(d), e.B.subst(d))
        r = E.const(e.f, 0)
        cache = {}
        for part, unit in ((e.A, None), (e.B, U_Q)):
            for k, v in part.d.items():
                t = E.const(e.f, v)
                if unit is not None:
                    t = t * unit
                rest = []
                for a, x in k:
                    if a in full:
                        ck = (a, x)
                        if ck not in cache:
                            s = full[a]
                            if x < 0:
                                s = inv_const(s) if s.cv() else self.e_inv(s)
                                cache[ck] = s.pow(-x)
                            else:
                                cache[ck] = s.pow(x)
                        t = t * cache[ck]
                    else:
                        rest.append((a, x))
                if rest:
                    t = t * E(e.f, P({tuple(rest): 1}, MOD[e.f]))
                r = r + t
        return r

    def en(self, e):
        """normalise: substitutions and rewrite rules (value unchanged)"""
        if isinstance(e, PW):
            return e
        e = self.defs(e)
        if self.esub:
            for _ in range(100):
                e2 = self.esubst(e, self.esub)
                if e2 is e:
                    break
                e = e2
        if self.rules:
            for _ in range(20):
                e2 = self.rewrite(e)
                if self.esub:
                    e3 = self.esubst(e2, self.esub)
                    if e3 is not e2:
                        e = e3
                        continue
                e = e2
                break
        if self.zsub and any("#" in a for a in e.atoms()):
            sub = {}
            for a in e.atoms():
                if a in self.zsub:
                    sub[a] = self.z2e(e.f, P.atom(a))
            if sub:
                e = self.en(self.esubst(e, sub))
        return e

    def rewrite(self, e):
        for _ in range(400):
            hit = None
            for part in (e.A, e.B):
                for k in part.d:
                    for a, x in k:
                        if a in self.rules and x >= self.rules[a][0]:
                            hit = a
                            break
                        ca = conj_atom(a)
                        if ca != a and ca in self.rules and x >= self.rules[ca][0]:
                            hit = a
                            break
                    if hit:
                        break
                if hit:
                    break
            if hit is None:
                return e
            if hit in self.rules:
                n, rep = self.rules[hit]
            else:
                n, rep = self.rules[conj_atom(hit)]
                rep = conj(rep)
            acc = E.const(e.f, 0)
            byexp = {}
            for part, unit in ((e.A, 0), (e.B, 1)):
                for k, v in part.d.items():
                    x = 0
                    rest = k
                    for i, (a, ex) in enumerate(k):
                        if a == hit:
                            x = ex
                            rest = k[:i] + k[i + 1:]
                            break
                    if x >= n:
                        qn, rn = divmod(x, n)
                        if rn:
                            rest = mono_mul(rest, ((hit, rn),))
                    else:
                        qn = 0
                        rest = k
                    byexp.setdefault(qn, ({}, {}))[unit][rest] = \
                        byexp.setdefault(qn, ({}, {}))[unit].get(rest, 0) + v
            m = MOD[e.f]
            for qn, (da, db) in byexp.items():
                t = E(e.f, P({k: v % m for k, v in da.items() if v % m}, m), P({k: v % m for k, v in db.items() if v % m}, m))
                if qn:
                    t = t * rep.pow(qn)
                acc = acc + t
            e = acc
        raise ToolLimit("rewriting does not terminate")

    def clear_inv(self, e):
        """multiply by the (non-zero) denominators so that no inverse atom is left"""
        if e.nterms() < 8:
            return self._clear_inv(e)
        # the result depends on nothing but e and the denominators, unless something is substituted
        todo, seen, sig = list(e.atoms()), set(), []
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            b = a if a in self.inv_atoms else conj_atom(a)
            if b in self.inv_atoms:
                sig.append((b, self.inv_atoms[b].key()))
                todo += self.inv_atoms[b].atoms()
        if not sig:
            return e
        for d in (self.esub, self.rules, self.zsub):
            if any(a in d or conj_atom(a) in d for a in seen):
                return self._clear_inv(e)
        if any("#" in a and a not in self.inv_atoms and conj_atom(a) not in self.inv_atoms for a in seen):
            return self._clear_inv(e)
        k = (e.key(), frozenset(sig))
        r = CLEARED.get(k)
        if r is None:
            if len(CLEARED) > 4000:
                CLEARED.clear()
            r = CLEARED[k] = self._clear_inv(e)
        return r

    def _clear_inv(self, e):
        for _ in range(60):
            best = None
            for a in e.atoms():
                b = conj_atom(a) if a not in self.inv_atoms else a
                if b in self.inv_atoms:
                    n = int(b.split("#")[1].rstrip("~"))
                    if best is None or n > best[0]:
                        best = (n, a)
            if best is None:
                return e
            a = best[1]
            den = self.inv_atoms[a] if a in self.inv_atoms else conj(self.inv_atoms[conj_atom(a)])
            deg = max([dict(k).get(a, 0) for part in (e.A, e.B) for k in part.d])
            neg = min([dict(k).get(a, 0) for part in (e.A, e.B) for k in part.d] + [0])
            acc = E.const(e.f, 0)
            groups = {}
            for unit, part in ((0, e.A), (1, e.B)):
                for k, v in part.d.items():
                    x = 0
                    rest = k
                    for i, (aa, ex) in enumerate(k):
                        if aa == a:
                            x = ex
                            rest = k[:i] + k[i + 1:]
                            break
                    groups.setdefault(x, ({}, {}))[unit][rest] = v
            m = MOD[e.f]
            for x, (da, db) in groups.items():
                t = E(e.f, P(da, m), P(db, m))
                acc = acc + t * den.pow(deg - x)
            e = self.en(acc)
        raise ToolLimit("too many inverses")

    def nf(self, e):
        """normal form for zero tests: e * nonzero factor; content of nonzero atoms removed"""
        e = self.en(e)
        if e.cv() is not None:
            return e
        e = self.clear_inv(e)
        e2, c = strip_content(e)
        # exponents brought to >= 0; atoms in the content must be non-zero to be dropped
        keep = [(a, x) for a, x in c if x > 0 and not self.atom_nz(a)]
        if keep:
            mono = tuple(keep)
            e2 = E(e2.f, mono_shift(e2.A, mono), mono_shift(e2.B, mono))
        if self.rules:
            e3 = self.rewrite(e2)
            if e3.key() != e2.key():
                e3, c = strip_content(e3)
                keep = [(a, x) for a, x in c if x > 0 and not self.atom_nz(a)]
                if keep:
                    mono = tuple(keep)
                    e3 = E(e3.f, mono_shift(e3.A, mono), mono_shift(e3.B, mono))
                e2 = e3
        return e2

    def atom_nz(self, a):
        return a in self.nzatoms or conj_atom(a) in self.nzatoms or a in self.inv_atoms or conj_atom(a) in self.inv_atoms

    def not_identical(self, e):
        """e is not identically zero: its value at one point (of the atoms that are free)"""
        vals = {}
        m = MOD[e.f]

        def val(a):
            if a in vals:
                return vals[a]
            b = conj_atom(a)
            if b != a and b in vals:
                x = vals[b]
                r = (x[0], -x[1] % m)
            elif a in self.inv_atoms:
                x = ev(self.inv_atoms[a])
                r = None if x is None else inv(x)
            elif b in self.inv_atoms:
                x = val(b)
                r = None if x is None else (x[0], -x[1] % m)
            elif any(y in d for y in (a, b) for d in (self.esub, self.rules, self.zsub, self.memo.get("pwatom", ()), self.moddef[e.f])) or "#" in a:
                r = None
            else:
                import hashlib
                h = [int.from_bytes(hashlib.sha512(("%d%s" % (i, a)).encode()).digest(), "big") % m for i in (0, 1)]
                r = (h[0], h[1] if a[0] == "@" else 0)
                if a[0] == "@" and a[-1] == "~":
                    r = (val(b)[0], -val(b)[1] % m)
            vals[a] = r
            return r

        def mul(x, y):
            return ((x[0] * y[0] - x[1] * y[1]) % m, (x[0] * y[1] + x[1] * y[0]) % m)

        def inv(x):
            n = (x[0] * x[0] + x[1] * x[1]) % m
            if n == 0:
                return None
            n = pow(n, -1, m)
            return (x[0] * n % m, -x[1] * n % m)

        def power(x, n):
            if n < 0:
                x, n = inv(x), -n
                if x is None:
                    return None
            r = (1, 0)
            for _ in range(n):
                r = mul(r, x)
            return r

        def ev(e):
            acc = [0, 0]
            for part, unit in ((e.A, (1, 0)), (e.B, (0, 1))):
                for k, v in part.d.items():
                    t = unit
                    for a, n in k:
                        x = val(a)
                        x = None if x is None or abs(n) > 64 else power(x, n)
                        if x is None:
                            return None
                        t = mul(t, x)
                    acc[0] += v * t[0]
                    acc[1] += v * t[1]
            return (acc[0] % m, acc[1] % m)
        r = ev(e)
        return r is not None and r != (0, 0)

    def is_zero(self, e):
        """True / False / None"""
        if isinstance(e, PW):
            s = self.pw_simplify(e)
            if isinstance(s, PW):
                # a product of powers of non-zero things is non-zero
                ok = all(self.base_nz(b) for _, (b, _) in s.b.items())
                if not s.b:
                    return s.c.is0()
                return False if ok else None
            e = s
        e = self.nf(e)
        if e.is0():
            STATS["poly_decided"] += 1
            return True
        cv = e.cv()
        if cv is not None:
            STATS["poly_decided"] += 1
            return False
        if e.nterms() == 1:
            p = e.A if e.A.d else e.B
            (k, v), = p.d.items()
            if all(self.atom_nz(a) for a, _ in k):
                return False
        if self.nonzero and self._known_nz(e, 0):
            STATS["poly_decided"] += 1
            return False
        z = self._pwlinear(e)
        if z is not None:
            return z
        z = self._pwmonomials(e)
        if z is not None:
            return z
        # integer view: an atom in [0,q) bounded away from zero
        return None

    def _pwlinear(self, e):
        """c + d*a for a known power product a: zero exactly when a == -c/d"""
        if len(e.A.d) + len(e.B.d) != 2 or () not in e.A.d and () not in e.B.d:
            return None
        ats = e.atoms()
        if len(ats) != 1:
            return None
        (a,) = ats
        pw = self.memo.get("pwatom", {}).get(a)
        if pw is None or e.f != "q" or a[0] != "@":
            return None
        m = ((a, 1),)
        d = E.const("q", e.A.d.get(m, 0), e.B.d.get(m, 0))
        if d.is0():
            return None
        c = E.const("q", e.A.d.get((), 0), e.B.d.get((), 0))
        quo = self.pw_simplify(pw * PW.of(-c * inv_const(d)).power(-1))
        if isinstance(quo, E):
            return self.is_zero(quo - 1)
        t = self.pw_one(quo)
        if t is None:
            t = self.known.get(Cond("pwone", quo).key)
        return t

    def _pwmonomials(self, e):
        """c*M + d*N, monomials in non-zero atoms some of which stand for power products: their quotient decides"""
        pa = self.memo.get("pwatom")
        if not pa or e.f != "q":
            return None
        ms = set(e.A.d) | set(e.B.d)
        if len(ms) != 2 or not any((a if a in pa else conj_atom(a)) in pa for m in ms for a, _ in m):
            return None
        pws = []
        for m in ms:
            x = PW.of(E.const("q", e.A.d.get(m, 0), e.B.d.get(m, 0)))
            for a, k in m:
                b = pa.get(a)
                if b is None and conj_atom(a) in pa:
                    b = pa[conj_atom(a)].conj()
                if b is None:
                    if not self.atom_nz(a):
                        return None
                    b = PW.of(E.atom("q", a))
                elif not all(self.base_nz(y) for _, (y, _) in b.b.items()):
                    return None
                x = x * b.power(k)
            pws.append(x)
        quo = self.pw_simplify(pws[0] * PW.of(E.const("q", -1)) * pws[1].power(-1))
        if isinstance(quo, E):
            return self.is_zero(quo - 1)
        t = self.pw_one(quo)
        if t is None:
            t = self.known.get(Cond("pwone", quo).key)
        return t

    def _known_nz(self, e, depth):
        c, m = monic_e(e)
        if m.key() in self.nonzero:
            return True
        if depth > 3 or e.nterms() > 400:
            return False
        for k, g in list(self.nonzero.items()):
            if g.nterms() > e.nterms() * 4 + 8:
                continue
            if not (g.atoms() <= e.atoms()):
                continue
            d = exact_div(e, g)
            if d is not None:
                if d.cv() is not None:
                    return not d.is0()
                d = self.nf(d)
                if d.cv() is not None:
                    return not d.is0()
                if d.nterms() == 1:
                    p = d.A if d.A.d else d.B
                    (kk, v), = p.d.items()
                    if all(self.atom_nz(a) for a, _ in kk):
                        return True
                if self._known_nz(d, depth + 1):
                    return True
        return False

    def base_nz(self, b):
        if isinstance(b, str):
            return True
        return self.is_zero(b) is False

    def pw_simplify(self, pw):
        """reduce exponents modulo the group order for non-zero bases"""
        if not isinstance(pw, PW) or pw.ring == "12":
            return pw
        f = pw.c.f
        b = {}
        c = pw.c
        if c.is0():
            return c
        for k, (base, e) in pw.b.items():
            base2 = self.en(base)
            e = self.nz(e)
            if base2.key() != base.key():
                r = PW.of(base2)
                n = e.const_val()
                if n is None and r.c.cv() != (1, 0):
                    _padd(b, ("E",) + r.c.key(), r.c, e)
                elif r.c.is0():
                    if n is None:
                        raise ToolLimit("symbolic power of zero")
                    if n == 0:
                        continue
                    return E.const(f, 0)
                else:
                    c = c * (e_cpow(r.c, n) if (n or 0) >= 0 else inv_const(e_cpow(r.c, -n))) if n is not None else c
                for k2, (b2, e2) in r.b.items():
                    _padd(b, k2, b2, e2 * e)
            else:
                _padd(b, k, base, e)
        out = {}
        again = False
        for k, (base, e) in b.items():
            if self.base_nz(base):
                order = MOD[f] - 1
                if f == "q" and not selfconj(base):
                    order = Q * Q - 1
                d = {m: v % order for m, v in e.d.items()}
                e = P({m: v if v <= order // 2 else v - order for m, v in d.items() if v})
                n = e.const_val()
                if n and n % (Q - 1) == 0:
                    na = self.normone(base)
                    if na is not None:
                        # b = 1 + a with a^(q+1) = 1, so b^q = 1 + 1/a = b/a and b^(q-1) = 1/a
                        extra = na.power(-(n // (Q - 1)))
                        e = pconst(0)
                        n = None
                        for k2, (b2, e2) in extra.b.items():
                            _padd(out, k2, b2, e2)
                        c = c * extra.c
                        again = True
                if n is not None:
                    for (bk, m, cc) in self.pwrel:
                        if bk == k and n % m == 0 and n:
                            t = n // m
                            c = c * (e_cpow(cc, t) if t >= 0 else inv_const(e_cpow(cc, -t)))
                            e = pconst(0)
                            break
                        if bk == k and order % m == 0:
                            # try other representatives
                            pass
            if not e.is_zero():
                _padd(out, k, base, e)
        r = PW(c, out, pw.ring)
        if again:
            return self.pw_simplify(r)
        return r.simple()

    def normone(self, base):
        """a, when base is 1 + a and a is a known power product with a^(q+1) = 1"""
        if base.f != "q" or base.B.d or len(base.A.d) != 2 or base.A.d.get(()) != 1:
            return None
        for k, v in base.A.d.items():
            if k and v == 1 and len(k) == 1 and k[0][1] == 1:
                a = self.memo.get("pwatom", {}).get(k[0][0])
                if a is not None and self.pw_one(a * a.conj()) is True:
                    return a
        return None

    def pw_one(self, pw):
        """is pw == 1?  True/False/None"""
        s = self.pw_simplify(pw)
        if isinstance(s, E):
            return self.is_zero(s - 1)
        if not s.b:
            return s.c.cv() == (1, 0)
        # relations base^m = const with larger representatives
        for (bk, m, cc) in self.pwrel:
            if bk in s.b:
                base, e = s.b[bk]
                n = e.const_val()
                if n is None:
                    continue
                order = Q * Q - 1 if not selfconj(base) else Q - 1
                for rep in (n, n + order, n - order):
                    if rep % m == 0:
                        t = rep // m
                        c = s.c * (e_cpow(cc, t) if t >= 0 else inv_const(e_cpow(cc, -t)))
                        b = {k: v for k, v in s.b.items() if k != bk}
                        return self.pw_one(PW(c, b, s.ring))
        return None

    def assume_nz(self, e, derived=True):
        e = self.nf(e)
        if e.is0():
            raise Infeasible()
        if e.cv() is not None:
            return
        if e.nterms() == 1:
            p = e.A if e.A.d else e.B
            (k, v), = p.d.items()
            for a, _ in k:
                self.nzatoms.add(a)
            self._montrefresh()
            return
        c, m = monic_e(e)
        self.nonzero[m.key()] = m
        cj = conj(e)
        if cj.key() != e.key():
            c, mj = monic_e(cj)
            self.nonzero[mj.key()] = mj
            if derived:
                n = NORMS.get(e.key())
                if n is None:
                    if len(NORMS) > 500:
                        NORMS.clear()
                    n = NORMS[e.key()] = e * cj
                n = self.nf(n)
                if n.cv() is None and n.nterms() > 1:
                    c, mn = monic_e(n)
                    self.nonzero[mn.key()] = mn
        self._montrefresh()

    def assume_fz(self, e):
        """assume e == 0: solve for an atom"""
        z = self.is_zero(e)
        if z is True:
            return
        if z is False:
            raise Infeasible()
        if isinstance(e, PW):
            raise ToolLimit("cannot assume power product zero")
        e = self.nf(e)
        sc = not any(a[0] == "@" for a in e.atoms())
        parts = [E(e.f, e.A), E(e.f, e.B)] if (sc and e.A.d and e.B.d) else [e]
        for part in sorted(parts, key=lambda x: x.nterms()):
            self._solve(part)
        self._montrefresh()
        # consistency of the non-zero facts
        old = self.nonzero
        self.nonzero = {}
        for k, g in old.items():
            g2 = self.nf(g)
            if g2.is0():
                raise Infeasible()
            if g2.cv() is None and g2.nterms() > 1:
                c, m = monic_e(g2)
                self.nonzero[m.key()] = m
            elif g2.nterms() == 1:
                p = g2.A if g2.A.d else g2.B
                (kk, v), = p.d.items()
                for a, _ in kk:
                    self.nzatoms.add(a)
        for (n, rep) in list(self.rules.values()):
            pass

    def _solve(self, e):
        e = self.nf(e)
        if e.is0():
            return
        if e.cv() is not None:
            raise Infeasible()
        if e.nterms() == 1:
            p = e.A if e.A.d else e.B
            (k, v), = p.d.items()
            cand = [a for a, _ in k if not self.atom_nz(a)]
            if not cand:
                raise Infeasible()
            if len(cand) > 1:
                i = self.choose(len(cand), "zero factor")
                a = cand[i]
            else:
                a = cand[0]
            self.esub[a if a[-1] != "~" else conj_atom(a)] = E.const(e.f, 0)
            return
        if e.nterms() == 2 and () in (e.A.d or e.B.d) and (not e.A.d or not e.B.d or () in e.B.d):
            # a monomial equal to a constant other than zero: no factor is zero
            for a in e.atoms():
                self.nzatoms.add(a)
        # sum of two squares in Fq (q = 3 mod 4): both are zero
        if e.f == "q" and not e.B.d and len(e.A.d) == 2:
            (k1, v1), (k2, v2) = e.A.d.items()
            if len(k1) == 1 and len(k2) == 1 and k1[0][1] == 2 and k2[0][1] == 2 and v1 == v2 \
                    and k1[0][0][0] != "@" and k2[0][0][0] != "@":
                for a in (k1[0][0], k2[0][0]):
                    if self.atom_nz(a):
                        raise Infeasible()
                    self.esub[a] = E.const(e.f, 0)
                return
        best = None
        for a in sorted(e.atoms()):
            if a in self.inv_atoms or a in self.rules:
                continue
            if a[0] == "@" and (conj_atom(a) in e.atoms()):
                continue
            # a occurs exactly linearly with coefficient a constant / non-zero monomial
            co = None
            ok = True
            for part, unit in ((e.A, 0), (e.B, 1)):
                for k, v in part.d.items():
                    kd = dict(k)
                    if a in kd:
                        if kd[a] != 1 or co is not None:
                            ok = False
                            break
                        rest = tuple(t for t in k if t[0] != a)
                        if not all(self.atom_nz(t[0]) for t in rest):
                            ok = False
                            break
                        co = E(e.f, P({rest: v}, MOD[e.f])) if unit == 0 else E(e.f, P({}, MOD[e.f]), P({rest: v}, MOD[e.f]))
                if not ok:
                    break
            if ok and co is not None:
                best = (a, co)
        if best is None and e.nterms() == 2 and (not e.B.d or not e.A.d) and len(e.atoms()) == 2:
            # y = +-conj(y) for a root y: y or y/u lies in the base field
            (k1, v1), (k2, v2) = (e.A.d or e.B.d).items()
            a = k1[0][0]
            if len(k1) == len(k2) == 1 and k1[0][1] == k2[0][1] == 1 and a[0] == "@" and k2[0][0] == conj_atom(a) and v2 in (v1, MOD[e.f] - v1):
                if a[-1] == "~":
                    a = conj_atom(a)
                rule = self.rules.pop(a, None)
                self.rules.pop(conj_atom(a), None)
                real = v1 != v2
                nm = self.fresh("R")
                if self.atom_nz(a):
                    self.nzatoms.add(nm)
                self.esub[a] = E.atom("q", nm) if real else E.atom("q", nm) * U_Q
                if rule is not None and rule[0] == 2:
                    r = self.en(rule[1])
                    self.assume_fz(e_im(r))
                    r = self.en(r)
                    self.rules[nm] = (2, r if real else -r)
                return
        if best is None and e.nterms() == 2 and not e.B.d:
            # two roots of the same element: one is plus or minus the other
            (k1, v1), (k2, v2) = e.A.d.items()
            if len(k1) == len(k2) == 1 and k1[0][1] == k2[0][1] == 1 and k1[0][0] in self.rules and k2[0][0] in self.rules:
                a, b = k1[0][0], k2[0][0]
                (n1, r1), (n2, r2) = self.rules[a], self.rules[b]
                w = E.const(e.f, -v2 * pow(v1, -1, MOD[e.f]))
                if n1 == n2 == 2 and (self.en(r1) - self.en(w * w * r2)).is0():
                    self.esub[a] = w * E.atom(e.f, b)
                    return
        if best is None:
            # keep as an opaque relation
            self.memo.setdefault("fzfacts", []).append(e)
            c, m = monic_e(e)
            self.known[("fz", m.key())] = True
            self.memo["unsolved"] = True
            self._square_rule(e)
            return
        a, co = best
        rest = e - co * E.atom(e.f, a)
        (ck, cvv), = (co.A.d or co.B.d).items()
        cinv = E(e.f, P({tuple((x, -y) for x, y in ck): 1}, MOD[e.f])) * inv_const(E.const(e.f, co.A.d.get(ck, 0), co.B.d.get(ck, 0)))
        sol = -(rest * cinv)
        if a[-1] == "~":
            a = conj_atom(a)
            sol = conj(sol)
        self.esub[a] = sol

    def _square_rule(self, e):
        """c*a^n + terms of lower degree in a = 0: a^n is rewritten"""
        if e.B.d:
            return
        for a in sorted(e.atoms()):
            if a[0] == "@" or any(x in self.rules or x in self.inv_atoms for x in e.atoms()):
                continue
            n = max(dict(k).get(a, 0) for k in e.A.d)
            top = [k for k in e.A.d if dict(k).get(a, 0) == n]
            if n < 2 or top != [((a, n),)] or min(y for k in e.A.d for _, y in k) < 0:
                continue
            v = e.A.d[top[0]]
            rest = e - E(e.f, P({top[0]: v}, MOD[e.f]))
            self.rules[a] = (n, rest * E.const(e.f, -pow(v, -1, MOD[e.f])))
            return

    def e_inv(self, e):
        """inverse of a known non-zero element"""
        if isinstance(e, PW):
            return e.power(-1)
        e = self.en(e)
        if e.cv() is not None:
            return inv_const(e)
        if e.nterms() == 1:
            p, im = (e.A, False) if e.A.d else (e.B, True)
            (k, v), = p.d.items()
            m = MOD[e.f]
            r = E(e.f, P({tuple((a, -x) for a, x in k): pow(v, -1, m)}, m))
            return r * (E.const(e.f, 0, -1) if im else E.const(e.f, 1))
        if e.f == "q" and e.B.d and not any(a[0] == "@" for a in e.atoms()):
            # 1/(a+ub) = (a-ub)/(a^2+b^2)
            cj = conj(e)
            n = self.en(e * cj)
            return cj * self.e_inv(n)
        e2, c = strip_content(e)
        cc, m = monic_e(e2)
        cinv = inv_const(cc)
        if c:
            cinv = cinv * E(e.f, P({tuple((a, -x) for a, x in c): 1}, MOD[e.f]))
        k = m.key()
        if k not in self.invs:
            cx = any(a[0] == "@" for a in m.atoms()) and not selfconj(m)
            ck = conj(m)
            if cx and ck.key() in self.invs:
                return cinv * conj(self.invs[ck.key()])
            name = self.fresh("@I" if cx else "I")
            self.invs[k] = E.atom(e.f, name)
            self.inv_atoms[name] = m
        return cinv * self.invs[k]

    # Montgomery views ----------------------------------------------------------
    def e_int(self, f, e, mont):
        """the canonical integer in [0,m) congruent to e (mont=False) or e*R (mont=True)"""
        if isinstance(e, PW):
            e = self.pw_simplify(e)
            if isinstance(e, PW):
                k = (e.key(), mont)
                if k not in self.montint[f]:
                    a = self.zatom("pw", 0, MOD[f] - 1)
                    nm = next(iter(a.p.atoms()))
                    at = E.atom(f, "p_" + nm)
                    self.moddef[f][nm] = at * (MONT[f] if mont else 1)
                    self.montint[f][k] = (e, a)
                    self.memo.setdefault("pwatom", {})["p_" + nm] = e
                return self.montint[f][k][1]
        e = self.en(e)
        cv = e.cv()
        if cv is not None:
            return cv[0] * (MONT[f] if mont else 1) % MOD[f]
        if not mont and e.nterms() == 1 and not e.B.d and "namedint" in self.memo:
            (kk, vv), = e.A.d.items()
            if vv == 1 and len(kk) == 1 and kk[0][1] == 1 and kk[0][0] in self.memo["namedint"]:
                a = self.memo["namedint"][kk[0][0]]
                return self.mk(a.p, a.lo, a.hi)
        k = (e.key(), mont)
        tab = self.montint[f]
        if k not in tab:
            # an integer atom that already denotes this element
            tgt = e * (MONT[f] if mont else 1)
            for kk, (e2, a2) in tab.items():
                if isinstance(a2, U) and self.z2e(f, a2).key() == tgt.key():
                    return a2
                if self.esub and isinstance(a2, U) and kk[1] == mont and isinstance(e2, E) and self.en(e2).key() == e.key():
                    return self.mk(a2.p, a2.lo, a2.hi)
            ek = ((-e).key(), mont)
            if ek in tab and isinstance(tab[ek][1], U) and not self.inmerge:
                # the negative of an element already seen: 0, or the modulus minus its integer
                if self.decide(self.cfz(e)):
                    return 0
                a2 = tab[ek][1]
                a2 = self.mk(a2.p, a2.lo, a2.hi)
                return self.mk(pconst(MOD[f]) - a2.p, 1, MOD[f] - 1)
            lo = 1 if self.is_zero(e) is False else 0
            a = self.zatom("n" if mont else "t", lo, MOD[f] - 1)
            nm = next(iter(a.p.atoms()))
            self.moddef[f][nm] = tgt
            tab[k] = (e, a)
        a = tab[k][1]
        if isinstance(a, U):
            a = self.mk(a.p, a.lo, a.hi)
        return a

    def _montrefresh(self):
        for f in ("q", "r"):
            for k, (e, a) in list(self.montint[f].items()):
                if not isinstance(a, U) or isinstance(e, PW):
                    continue
                nm = next(iter(a.p.atoms()))
                if nm in self.zsub:
                    continue
                if self.bounds[nm][0] == 0:
                    z = self.is_zero(e)
                    if z is True:
                        md = self.moddef[f].pop(nm)
                        self.setz(nm, pconst(0))
                        self.moddef[f][nm] = md
                    elif z is False:
                        self.bounds[nm][0] = 1

    # conditions ------------------------------------------------------------------
    def ceq0(self, p):
        p = self.nz(p)
        c = p.const_val()
        if c is not None:
            return c == 0
        lo, hi = self.interval(p)
        if lo > 0 or hi < 0:
            return False
        # normalise scaling by content
        from math import gcd
        g = 0
        for v in p.d.values():
            g = gcd(g, v)
        if g > 1:
            p = P({k: v // g for k, v in p.d.items()})
        k0 = min(p.d)
        if p.d[k0] < 0:
            p = -p
        return Cond("eq0", p)

    def cge0(self, p):
        p = self.nz(p)
        c = p.const_val()
        if c is not None:
            return c >= 0
        lo, hi = self.interval(p)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        return Cond("ge0", p)

    def cfz(self, e):
        z = self.is_zero(e)
        if z is not None:
            return z
        if isinstance(e, PW):
            return Cond("fz", e)
        e = self.nf(e)
        c, m = monic_e(e)
        return Cond("fz", m)

    def test(self, c):
        """True/False/None without forking"""
        if isinstance(c, bool):
            return c
        r = self._test(c)
        if r is None:
            return None
        return r != c.neg

    def _test(self, c):
        if c.k == "eq0":
            p = self.nz(c.x)
            cv = p.const_val()
            if cv is not None:
                return cv == 0
            lo, hi = self.interval(p)
            if lo > 0 or hi < 0:
                return False
            kk = self.known.get(("eq0", p.key()))
            if kk is not None:
                return kk
            kk = self.known.get(("eq0", (-p).key()))
            if kk is not None:
                return kk
            for f in ("q", "r"):
                # a difference smaller than the modulus is zero exactly when its residue is
                if self.moddef[f] and -MOD[f] < lo and hi < MOD[f]:
                    z = self.is_zero(self.z2e(f, p))
                    if z is not None:
                        return z
            if self.prove_ge0(p - 1) or self.prove_ge0(-p - 1):
                return False
            if self.prove_ge0(p) and self.prove_ge0(-p):
                return True
            return None
        if c.k == "ge0":
            if self.prove_ge0(c.x):
                return True
            if self.prove_ge0(-c.x - 1):
                return False
            if self.differs0(c.x + 1) and self.prove_ge0(c.x + 1):
                return True
            if self.differs0(c.x) and self.prove_ge0(-c.x):
                return False
            return None
        if c.k == "fz":
            z = self.is_zero(c.x)
            if z is not None:
                return z
            if not isinstance(c.x, PW):
                e = self.nf(c.x)
                cc, m = monic_e(e)
                return self.known.get(("fz", m.key()))
            return self.known.get(c.key)
        if c.k == "pwone":
            z = self.pw_one(c.x)
            if z is not None:
                return z
            return self.known.get(c.key)
        return self.known.get(c.key)

    def differs0(self, p):
        p = self.nz(p)
        return self.known.get(("eq0", p.key())) is False or self.known.get(("eq0", (-p).key())) is False

    def decide(self, c, label=""):
        """truth value of c on this path, forking when open.  Outcomes are part of the
        prefix (2/3: determined), so replaying a prefix needs no prover."""
        if isinstance(c, bool):
            return c
        if not self.inmerge and self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            if d >= 2:
                return d == 2
            self.labels.append((label or repr(c), d))
            self.assume(c if d == 0 else cnot(c), True)
            return d == 0
        t = self.test(c)
        if t is not None:
            if not self.inmerge:
                self.pos += 1
                self.taken.append(2 if t else 3)
            return t
        d = self.choose(2, label or repr(c), 1 if c.neg and c.k == "eq0" else 0)
        val = (d == 0)
        self.assume(c if val else cnot(c), True)
        return val

    def assume(self, c, fresh=False):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        t = None if fresh else self.test(c)
        if t is True:
            return
        if t is False:
            raise Infeasible()
        self.trail.append(repr(c)[:200])
        val = not c.neg
        if c.k == "eq0":
            p = self.nz(c.x)
            self.known[("eq0", p.key())] = val
            if val:
                self.assume_eq0(p)
            else:
                for q in (p, -p):
                    # a low bit that is not zero is one
                    if (q.key(), 0, 1) in self.factset:
                        self.assume_eq0(q - 1)
                        return
                self.diseq.append(p)
                for o, xy in list(self.orargs.items()):
                    if o not in self.zsub and any(self.nz(x).key() == p.key() for x in xy):
                        self.or_nonzero(o)
                lo, hi = self.interval(p)
                quick = "lists" not in self.memo
                if lo >= 0 or (p.key(), 0, None) in self.factset or self.prove_ge0(p, quick):
                    self.fact(p, 1, None)
                elif hi <= 0 or ((-p).key(), 0, None) in self.factset or self.prove_ge0(-p, quick):
                    self.fact(p, None, -1)
        elif c.k == "ge0":
            r = self.nz(c.x) if val else -self.nz(c.x) - 1
            ne = self.known.get(("eq0", r.key())) is False or self.known.get(("eq0", (-r).key())) is False
            self.fact(r, 1 if ne else 0, None)
        elif c.k == "fz":
            if isinstance(c.x, PW):
                self.known[c.key] = val
                s = self.pw_simplify(c.x)
                if len(s.b) == 1 and val:
                    (k, (b, e)), = s.b.items()
                    self.assume_fz(b)
                elif not val:
                    for k, (b, e) in s.b.items():
                        self.assume_nz(b)
                return
            if val:
                self.assume_fz(c.x)
            else:
                self.known[("fz", monic_e(self.nf(c.x))[1].key())] = False
                self.assume_nz(c.x)
        elif c.k == "pwone":
            self.known[c.key] = val
            if val:
                self.memo.setdefault("pwone", []).append(c.x)
                s = self.pw_simplify(c.x)
                if isinstance(s, PW) and len(s.b) == 1:
                    (k, (b, e)), = s.b.items()
                    n = e.const_val()
                    if n is not None:
                        self.pwrel.append((k, n, inv_const(s.c)))
                elif isinstance(s, E):
                    self.assume_fz(s - 1)
            else:
                s = self.pw_simplify(c.x)
                if isinstance(s, E):
                    self.assume_nz(s - 1)
        else:
            self.known[c.key] = val
            hook = self.memo.get("op_hook")
            if hook:
                hook(self, c.key, val)
            hook = self.memo.get("seqhook")
            if hook:
                hook(self, c.key, val)

    def force0(self, p):
        p = self.nz(p)
        v = p.const_val()
        if v is None:
            self.assume(self.ceq0(p), True)
        elif v:
            raise Infeasible()

    def or_nonzero(self, o):
        """a bitwise or one of whose operands is not zero"""
        p = P({((o, 1),): 1})
        if self.known.get(("eq0", p.key())) is None:
            self.assume(cnot(self.ceq0(p)), True)

    def digits(self, p):
        """p = H*2^k + L with |L| < 2^k: p == 0 iff H == 0 and L == 0"""
        vals = sorted({(v & -v).bit_length() - 1 for v in p.d.values()})
        for k in vals:
            if k == 0:
                continue
            L = P({m: v for m, v in p.d.items() if v % (1 << k)})
            H = P({m: v >> k for m, v in p.d.items() if v % (1 << k) == 0})
            if not L.d or not H.d:
                continue
            l, h = self.interval(L)
            if l > -(1 << k) and h < (1 << k):
                return L, H
        return None

    def assume_eq0(self, p):
        if len(p.d) > 2:
            d = self.digits(p)
            if d is not None:
                for x in d:
                    self.assume(self.ceq0(x))
                return
        lo, hi = self.interval(p)
        # all terms non-negative: every atom is zero
        if all(v > 0 for v in p.d.values()) and lo == 0 or all(v < 0 for v in p.d.values()) and hi == 0:
            done = True
            for k in list(p.d):
                if len(k) == 1:
                    a = k[0][0]
                    if self.bounds[a][0] > 0:
                        raise Infeasible()
                    if a not in self.zsub:
                        self.setz(a, pconst(0))
                    else:
                        self.force0(P({((a, 1),): 1}))
                else:
                    done = False
            if done:
                self._montrefresh()
                return
        # solve for an atom with coefficient +-1
        cand = []
        for k, v in p.d.items():
            if len(k) == 1 and k[0][1] == 1 and v in (1, -1):
                a = k[0][0]
                if sum(1 for kk in p.d for (x, _) in kk if x == a) == 1:
                    cand.append((a, v, k))
        nomd = [c for c in cand if c[0] not in self.moddef["q"] and c[0] not in self.moddef["r"]]
        if nomd or cand:
            a, v, k = (nomd or cand)[-1]
            rest = P({kk: vv for kk, vv in p.d.items() if kk != k})
            self.setz(a, rest.scale(-v))
            self._montrefresh()
            return
        self.facts.append((p, 0, 0))
        for f in ("q", "r"):
            e = self.defs(self.z2e_raw(f, p))
            self._modsolve(f, e)
        self._montrefresh()

    def _modsolve(self, f, e):
        """use e == 0 in the field to define an undefined integer atom"""
        if e.is0() or e.B.d:
            return
        md = self.moddef[f]
        best = None
        for k, v in e.A.d.items():
            if len(k) == 1 and k[0][1] == 1 and k[0][0] in self.bounds and k[0][0] not in md:
                a = k[0][0]
                if sum(1 for kk in e.A.d for (x, _) in kk if x == a) == 1:
                    best = (a, v, k)
        if best:
            a, v, k = best
            rest = E(f, P({kk: vv for kk, vv in e.A.d.items() if kk != k}, MOD[f]))
            md[a] = rest * (-pow(v, -1, MOD[f]))
        else:
            self.memo.setdefault("modrel", []).append((f, e))


def exact_div(e, g):
    """e / g when g divides e exactly (real g with lead monomial), else None"""
    if g.B.d and not g.A.d:
        return None
    m = MOD[e.f]
    # complex coefficient division
    gt = sorted(set(g.A.d) | set(g.B.d), key=_mkey)
    lead = gt[-1]
    lc = inv_const(E.const(e.f, g.A.d.get(lead, 0), g.B.d.get(lead, 0)))
    r = e
    q = E.const(e.f, 0)
    for _ in range(600):
        if r.is0():
            return q
        ks = set(r.A.d) | set(r.B.d)
        k = max(ks, key=_mkey)
        # k / lead
        kd = dict(k)
        for a, x in lead:
            kd[a] = kd.get(a, 0) - x
            if kd[a] < 0:
                return None
        mono = tuple(sorted((a, x) for a, x in kd.items() if x))
        c = E.const(e.f, r.A.d.get(k, 0), r.B.d.get(k, 0)) * lc
        t = E(e.f, P({mono: c.A.const_val()} if c.A.d else {}, m), P({mono: c.B.const_val()} if c.B.d else {}, m))
        q = q + t
        r = r - t * g
    return None


class _mkey:
    """lex order on exponent vectors"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = dict(k)

    def __lt__(self, o):
        for a in sorted(set(self.k) | set(o.k)):
            x, y = self.k.get(a, 0), o.k.get(a, 0)
            if x != y:
                return x < y
        return False
