"""Assumed contracts of the standard library functions the code calls.
Every use is recorded in interp.used as 'extern:<name>' and reported as an assumption."""
from dom import *
from interp import *
import interp as _ip


class Big:
    """content of a math/big.Int object"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Big(%r)" % (self.v,)


class BLen:
    """bit length of a symbolic non-negative integer; only compared with constants or forked"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Sgn:
    """sign of x (as returned by Cmp/Sign) for a symbolic integer polynomial"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Str:
    """symbolic string: parts are literals, or ('x', width, value) zero padded hex"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p and out and isinstance(out[-1], str):
                    out[-1] += p
                elif p:
                    out.append(p)
            else:
                out.append(p)
        self.parts = tuple(out)

    def key(self):
        return tuple(p if isinstance(p, str) else (p[0], p[1], vkey(p[2])) for p in self.parts)


EXT = {}


def ext(name):
    def d(f):
        def g(I, a):
            I.used.add("extern:" + name)
            return f(I, a)
        EXT[name] = g
        return f
    return d


def bv(I, p):
    v = I.load(p)
    if not isinstance(v, Big):
        raise ToolLimit("big.Int expected")
    x = v.v
    return I.ctx.mk(x.p, x.lo, x.hi) if isinstance(x, U) else x


def setb(I, p, v):
    I.load(p)
    I.store(p, Big(v))
    return p


def newbig(I, v):
    return I.alloc(Big(v), I.prog.byname.get("math/big.Int"))


def uu(I, p, lo, hi):
    return I.ctx.mk(p, lo, hi)


@ext("math/big.NewInt")
def _(I, a):
    return newbig(I, a[0])


@ext("(*math/big.Int).Set")
def _(I, a):
    return setb(I, a[0], bv(I, a[1]))


@ext("(*math/big.Int).SetUint64")
def _(I, a):
    return setb(I, a[0], a[1])


@ext("(*math/big.Int).SetInt64")
def _(I, a):
    return setb(I, a[0], a[1])


@ext("(*math/big.Int).Add")
def _(I, a):
    x, y = bv(I, a[1]), bv(I, a[2])
    if isinstance(x, U) or isinstance(y, U):
        return setb(I, a[0], uu(I, zp(x) + zp(y), ulo(x) + ulo(y), uhi(x) + uhi(y)))
    return setb(I, a[0], x + y)


@ext("(*math/big.Int).Sub")
def _(I, a):
    x, y = bv(I, a[1]), bv(I, a[2])
    if isinstance(x, U) or isinstance(y, U):
        return setb(I, a[0], uu(I, zp(x) - zp(y), ulo(x) - uhi(y), uhi(x) - ulo(y)))
    return setb(I, a[0], x - y)


@ext("(*math/big.Int).Mul")
def _(I, a):
    x, y = bv(I, a[1]), bv(I, a[2])
    if isinstance(x, U) or isinstance(y, U):
        return setb(I, a[0], I.ctx.mk(zp(x) * zp(y)))
    return setb(I, a[0], x * y)


@ext("(*math/big.Int).And")
def _(I, a):
    x, y = bv(I, a[1]), bv(I, a[2])
    if isinstance(x, U) and isinstance(y, U):
        raise ToolLimit("big.And of two symbolic values")
    if isinstance(y, U):
        x, y = y, x
    if isinstance(x, U):
        if x.lo < 0 or y < 0:
            raise ToolLimit("big.And of negative values")
        return setb(I, a[0], I.andconst(x, y, 0))
    return setb(I, a[0], x & y)


@ext("(*math/big.Int).Or")
def _(I, a):
    x, y = bv(I, a[1]), bv(I, a[2])
    if isinstance(x, U) or isinstance(y, U):
        return setb(I, a[0], I.intop("|", x, y, 4096, False))
    return setb(I, a[0], x | y)


@ext("(*math/big.Int).Lsh")
def _(I, a):
    x, n = bv(I, a[1]), a[2]
    if isinstance(n, U):
        raise ToolLimit("symbolic shift")
    if isinstance(x, U):
        return setb(I, a[0], I.ctx.mk(x.p.scale(1 << n), x.lo << n, x.hi << n))
    return setb(I, a[0], x << n)


@ext("(*math/big.Int).Rsh")
def _(I, a):
    x, n = bv(I, a[1]), a[2]
    if isinstance(n, U):
        raise ToolLimit("symbolic shift")
    if isinstance(x, U):
        if x.lo < 0:
            raise ToolLimit("shift of a negative value")
        return setb(I, a[0], I.ctx.split(x, n)[0])
    return setb(I, a[0], x >> n)


def intmod(I, x, m):
    """x mod m for constant m > 0"""
    c = I.ctx
    if not isinstance(x, U):
        return x % m
    if x.lo >= 0 and x.hi < m:
        return x
    for f in ("q", "r"):
        if m == MOD[f]:
            return c.e_int(f, c.z2e(f, x), False)
    if m & (m - 1) == 0 and x.lo >= 0:
        return c.split(x, m.bit_length() - 1)[1]
    k = ("mod", x.p.key(), m)
    if k not in c.memo:
        qa = c.zatom("dq", x.lo // m, x.hi // m)
        c.memo[k] = qa
        c.fact(x.p - zp(qa).scale(m), 0, m - 1)
    return c.mk(x.p - zp(c.memo[k]).scale(m), 0, m - 1)


@ext("(*math/big.Int).Mod")
def _(I, a):
    x, m = bv(I, a[1]), bv(I, a[2])
    if isinstance(m, U):
        raise ToolLimit("symbolic modulus")
    if m == 0:
        raise GoPanic("division by zero")
    return setb(I, a[0], intmod(I, x, abs(m)))


@ext("(*math/big.Int).Quo")
def _(I, a):
    return setb(I, a[0], intquo(I, bv(I, a[1]), bv(I, a[2])))


@ext("(*math/big.Int).Div")
def _(I, a):
    return setb(I, a[0], intquo(I, bv(I, a[1]), bv(I, a[2])))


def intquo(I, x, m):
    if isinstance(m, U):
        raise ToolLimit("symbolic divisor")
    if m == 0:
        raise GoPanic("division by zero")
    if ulo(x) < 0 or m < 0:
        raise ToolLimit("division of a possibly negative value")
    if not isinstance(x, U):
        return x // m
    if m & (m - 1) == 0:
        return I.ctx.split(x, m.bit_length() - 1)[0]
    r = intmod(I, x, m)
    k = ("quo", x.p.key(), m)
    c = I.ctx
    if k not in c.memo:
        c.memo[k] = c.zatom("dv", x.lo // m, x.hi // m)
        c.assume_eq0(x.p - zp(r) - zp(c.memo[k]).scale(m))
    return c.mk(zp(c.memo[k]), x.lo // m, x.hi // m)


@ext("(*math/big.Int).Rem")
def _(I, a):
    x, m = bv(I, a[1]), bv(I, a[2])
    if isinstance(m, U) or ulo(x) < 0:
        raise ToolLimit("Rem of a negative value or by a symbolic one")
    if m == 0:
        raise GoPanic("division by zero")
    return setb(I, a[0], intmod(I, x, abs(m)))


@ext("(*math/big.Int).Cmp")
def _(I, a):
    x, y = bv(I, a[0]), bv(I, a[1])
    return sgn(I, zp(x) - zp(y))


@ext("(*math/big.Int).Sign")
def _(I, a):
    return sgn(I, zp(bv(I, a[0])))


def sgn(I, p):
    c = I.ctx
    p = c.nz(p)
    cv = p.const_val()
    if cv is not None:
        return (cv > 0) - (cv < 0)
    lo, hi = c.interval(p)
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    return Sgn(p)


@ext("(*math/big.Int).BitLen")
def _(I, a):
    x = bv(I, a[0])
    if not isinstance(x, U):
        return abs(x).bit_length()
    sc = I.ctx.memo.get("scan")
    if sc is not None and sc.is_x(x):
        return I.ctx.mk(sc.n, 0, sc.width)
    if x.lo < 0:
        if I.ctx.decide(I.ctx.cge0(x.p)):
            x = I.ctx.mk(x.p, 0, x.hi)
        else:
            x = I.ctx.mk(-x.p, max(1, -x.hi), -x.lo)
        if not isinstance(x, U):
            return abs(x).bit_length()
    return BLen(x)


@ext("(*math/big.Int).Bit")
def _(I, a):
    x, n = bv(I, a[0]), a[1]
    sc = I.ctx.memo.get("scan")
    if sc is not None and sc.is_x(x) and isinstance(n, U):
        if I.ctx.decide(I.ctx.cge0(-zp(n) - 1)):
            raise GoPanic("negative bit index")
        return sc.bit(n)
    if isinstance(n, U):
        raise ToolLimit("symbolic bit index")
    if not isinstance(x, U):
        return (x >> n) & 1
    if x.lo < 0:
        raise ToolLimit("bit of a negative value")
    h, _ = I.ctx.split(x, n)
    return I.ctx.split(h, 1)[1] if isinstance(h, U) else h & 1


@ext("(*math/big.Int).Uint64")
def _(I, a):
    x = bv(I, a[0])
    if not isinstance(x, U):
        return abs(x) & (W - 1)
    if x.lo < 0:
        raise ToolLimit("Uint64 of a negative value")
    return I.ctx.split(x, 64)[1]


@ext("(*math/big.Int).SetBytes")
def _(I, a):
    import folds
    u = folds.bytelist_of(I, a[1])
    if u is not None:
        return setb(I, a[0], u.big)
    items = I.sl_items(a[1])
    s = P({})
    n = len(items)
    for i, b in enumerate(items):
        s = s + zp(I.force(b)).scale(1 << (8 * (n - 1 - i)))
    return setb(I, a[0], I.ctx.mk(s, 0, (1 << (8 * n)) - 1))


@ext("(*math/big.Int).Bytes")
def _(I, a):
    x = bv(I, a[0])
    if isinstance(x, U):
        if x.lo < 0 or x.hi > 1 << 1024:
            raise ToolLimit("Bytes of an unbounded or negative value")
        n = forkbytelen(I, x)
        b = bytes_of(I, x, n)
    else:
        x = abs(x)
        b = x.to_bytes((x.bit_length() + 7) // 8, "big")
    if not b:
        return Sl(I.alloc((), ("arr", I.prog.byname.get("uint8", I.prog.byname.get("byte")))).o, (), 0, 0, 0)
    p = I.alloc(tuple(b), ("arr", I.prog.byname.get("uint8", I.prog.byname.get("byte"))))
    return Sl(p.o, (), 0, len(b), len(b))


def forkbytelen(I, x):
    """number of bytes of a non-negative integer"""
    for k in range((x.hi.bit_length() + 7) // 8, 0, -1):
        if x.lo >= 1 << (8 * (k - 1)) or I.ctx.decide(I.ctx.cge0(x.p - (1 << (8 * (k - 1))))):
            return k
    return 0


@ext("(*math/big.Int).FillBytes")
def _(I, a):
    x, s = bv(I, a[0]), a[1]
    n = 0 if s is None else s.len
    if isinstance(n, U):
        raise ToolLimit("FillBytes of a buffer of symbolic length")
    if isinstance(x, U):
        if x.lo < 0:
            if I.ctx.decide(I.ctx.cge0(x.p)):
                x = I.ctx.mk(x.p, 0, x.hi)
            else:
                x = I.ctx.mk(-x.p, max(1, -x.hi), -x.lo)
    else:
        x = abs(x)
    if uhi(x) >= 1 << (8 * n):
        if not isinstance(x, U) or I.ctx.decide(I.ctx.cge0(x.p - (1 << (8 * n)))):
            raise GoPanic("math/big: buffer too small to fit value")
        x = I.ctx.mk(x.p, 0, (1 << (8 * n)) - 1)
    if n:
        putbe(I, s, x, n)
    return s


@ext("(*math/big.Int).Neg")
def _(I, a):
    x = bv(I, a[1])
    return setb(I, a[0], I.ctx.mk(-x.p, -x.hi, -x.lo) if isinstance(x, U) else -x)


@ext("(*math/big.Int).Abs")
def _(I, a):
    x = bv(I, a[1])
    if isinstance(x, U) and x.lo < 0:
        x = x if I.ctx.decide(I.ctx.cge0(x.p)) else I.ctx.mk(-x.p, max(1, -x.hi), -x.lo)
    elif not isinstance(x, U):
        x = abs(x)
    return setb(I, a[0], x)


@ext("(*math/big.Int).IsUint64")
def _(I, a):
    x = bv(I, a[0])
    return I.ctx.decide(I.ctx.cge0(zp(x))) and I.ctx.decide(I.ctx.cge0(pconst(W - 1) - zp(x)))


@ext("(*math/big.Int).SetString")
def _(I, a):
    s, base = a[1], a[2]
    if isinstance(s, Str):
        # digits of a hexadecimal rendering: the value they denote
        v = 0
        if base == 16 and all(not isinstance(p, str) for p in s.parts):
            acc = P({})
            for p in s.parts:
                acc = acc.scale(1 << (4 * p[1])) + zp(p[2])
            return (setb(I, a[0], I.ctx.mk(acc)), True)
    if isinstance(s, Opq) and s.tag == "numstr":
        # a string together with what SetString makes of it
        ok, v = s.v[:2]
        if not ok:
            return (None, False)
        return (setb(I, a[0], v), True)
    if not isinstance(s, str) or isinstance(base, U):
        raise ToolLimit("SetString of a symbolic string")
    try:
        if s.strip() != s or "_" in s and base != 0 or s == "":
            raise ValueError
        v = int(s, base)
    except ValueError:
        return (None, False)
    return (setb(I, a[0], v), True)


@ext("math/bits.LeadingZeros64")
def _(I, a):
    return 64 - forkbitlen(I, a[0], 64)


@ext("math/bits.Len64")
def _(I, a):
    return forkbitlen(I, a[0], 64)


@ext("math/bits.TrailingZeros64")
def _(I, a):
    x = a[0]
    if not isinstance(x, U):
        return 64 if x == 0 else (x & -x).bit_length() - 1
    raise ToolLimit("TrailingZeros64")


def forkbitlen(I, x, w):
    c = I.ctx
    if isinstance(x, BLen):
        x = x.v
    if not isinstance(x, U):
        return x.bit_length()
    x = c.mk(x.p, x.lo, x.hi)
    if not isinstance(x, U):
        return x.bit_length()
    # bit-structured values: test the bits from the top
    p = x.p
    bits = {}
    ok = True
    for k, v in p.d.items():
        if len(k) == 1 and k[0][1] == 1 and k[0][0].startswith("bit") and v > 0 and v & (v - 1) == 0:
            bits[v.bit_length() - 1] = k[0][0]
        else:
            ok = False
    if ok:
        for j in sorted(bits, reverse=True):
            if not c.decide(c.ceq0(P.atom(bits[j]))):
                return j + 1
        return 0
    top = min(w, x.hi.bit_length())
    lowb = x.lo.bit_length()
    # decide from the top: x >= 2^(k-1)
    cands = list(range(top, lowb - 1, -1))
    for k in cands:
        if k == lowb and k == cands[-1]:
            return k
        if k == 0:
            return 0
        if c.decide(c.cge0(p - (1 << (k - 1)))):
            return k
    return cands[-1]


@ext("math/bits.Add64")
def _(I, a):
    h, l = I.ctx.divmodW(zp(a[0]) + zp(a[1]) + zp(a[2]), 64, "c", ulo(a[0]) + ulo(a[1]) + ulo(a[2]), uhi(a[0]) + uhi(a[1]) + uhi(a[2]))
    need(I, a[2], 1)
    return (l, h)


def need(I, x, hi):
    if uhi(x) > hi:
        ok = I.ctx.prove_ge0(pconst(hi) - zp(x))
        I.obligation("carry argument is 0 or 1", ok)


@ext("math/bits.Sub64")
def _(I, a):
    need(I, a[2], 1)
    p = zp(a[0]) - zp(a[1]) - zp(a[2])
    r = I.ctx.modW(p, 64, "b", ulo(a[0]) - uhi(a[1]) - uhi(a[2]), uhi(a[0]) - ulo(a[1]) - ulo(a[2]))
    d = zp(r) - I.ctx.nz(p)
    q = {}
    for k, v in d.d.items():
        assert v % W == 0
        q[k] = v // W
    return (r, I.ctx.mk(P(q), 0, 1))


@ext("math/bits.Mul64")
def _(I, a):
    x, y = a
    h, l = I.ctx.divmodW(zp(x) * zp(y), 64, "m", ulo(x) * ulo(y), uhi(x) * uhi(y))
    return (h, l)


@ext("(encoding/binary.bigEndian).Uint64")
def _(I, a):
    return be(I, a[1], 8)


@ext("(encoding/binary.bigEndian).Uint32")
def _(I, a):
    return be(I, a[1], 4)


@ext("(encoding/binary.bigEndian).Uint16")
def _(I, a):
    return be(I, a[1], 2)


def be(I, s, n):
    items = I.sl_items(s)
    if len(items) < n:
        raise GoPanic("index out of range")
    p = P({})
    for i in range(n):
        p = p + zp(I.force(items[i])).scale(1 << (8 * (n - 1 - i)))
    return I.ctx.mk(p, 0, (1 << (8 * n)) - 1)


def putbe(I, s, v, n):
    if s is None or s.len < n:
        raise GoPanic("index out of range")
    for i, b in enumerate(bytes_of(I, v, n)):
        I.store(Ptr(s.o, s.path + (s.off + i,)), b)


def bytes_of(I, v, n):
    """n big-endian bytes of v"""
    out = []
    h = v
    for i in range(n):
        h, l = I.ctx.split(h, 8) if isinstance(h, U) else (h >> 8, h & 255)
        out.append(l)
    out.reverse()
    return out


@ext("(encoding/binary.bigEndian).PutUint64")
def _(I, a):
    putbe(I, a[1], a[2], 8)


@ext("(encoding/binary.bigEndian).PutUint32")
def _(I, a):
    putbe(I, a[1], a[2], 4)


@ext("(encoding/binary.bigEndian).PutUint16")
def _(I, a):
    putbe(I, a[1], a[2], 2)


@ext("errors.New")
def _(I, a):
    return Err(a[0])


@ext("fmt.Errorf")
def _(I, a):
    return Err("formatted")


@ext("fmt.Sprintf")
def _(I, a):
    fmt, args = a[0], I.sl_items(a[1]) if a[1] is not None else ()
    if not isinstance(fmt, str):
        raise ToolLimit("symbolic format")
    parts = []
    i = 0
    n = 0
    import re
    pos = 0
    for m in re.finditer(r"%(\d*)([a-zA-Z%])", fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(2) == "%":
            parts.append("%")
            continue
        x = args[n]
        n += 1
        if isinstance(x, Iface):
            meth = "(%s).String" % I.prog.types[x.t]["str"]
            if m.group(2) in "sv" and meth in I.prog.funcs:
                x = I.call(meth, [x.v])
            else:
                x = x.v
        x = I.force(x)
        if m.group(2) in "sv" and isinstance(x, Str):
            parts.extend(x.parts)
        elif m.group(2) in "sv" and isinstance(x, str):
            parts.append(x)
        elif m.group(2) == "x" and isinstance(x, (int, U)) and m.group(1)[:1] == "0":
            w = int(m.group(1)[1:])
            parts.append(("x", w, x))
        else:
            parts.append(("?" + m.group(2), 0, Opq("fmt")))
    parts.append(fmt[pos:])
    return Str(parts)


@ext("log.Panic")
def _(I, a):
    raise GoPanic("log.Panic")


@ext("bytes.Equal")
def _(I, a):
    return seqeq(I, a[0], a[1])


def seqof(I, s):
    if isinstance(s, SeqRef):
        s = I.mem[s.o]
    if isinstance(s, Seq):
        if len(s.parts) == 1 and s.parts[0][0] == "s":
            return Seq([("s", seqrep(I.ctx, s.parts[0][1]))])
        return s
    return Seq([("b", I.force(b)) for b in I.sl_items(s)])


def seqrep(c, n):
    """representative of the byte strings known to be equal"""
    m = c.memo.get("seqrep")
    while m and n in m:
        n = m[n]
    return n


def seqjoin(c, key, val):
    if key[0] == "op" and key[1][0] == "seqeq" and len(key[1]) == 4 and val:
        a, b = seqrep(c, key[1][2]), seqrep(c, key[1][3])
        if a != b:
            c.memo.setdefault("seqrep", {})[max(a, b, key=repr)] = min(a, b, key=repr)


def seqeq(I, x, y):
    x, y = seqof(I, x), seqof(I, y)
    if x == y:
        return True
    xs = all(p[0] == "b" for p in x.parts)
    ys = all(p[0] == "b" for p in y.parts)
    if xs and ys:
        if len(x.parts) != len(y.parts):
            return False
        for p, q in zip(x.parts, y.parts):
            if not I.ctx.decide(I.ctx.ceq0(zp(p[1]) - zp(q[1]))):
                return False
        return True
    k = tuple(sorted([repr(x.key()), repr(y.key())]))
    if len(x.parts) == len(y.parts) == 1 and not xs and not ys:
        I.ctx.memo["seqhook"] = seqjoin
        if "lists" in I.ctx.memo:
            import folds
            return folds.compared(I, x.parts[0][1], y.parts[0][1], Cond("op", None, False, ("seqeq", k) + tuple(sorted((x.parts[0][1], y.parts[0][1]), key=repr))))
        return Cond("op", None, False, ("seqeq", k) + tuple(sorted((x.parts[0][1], y.parts[0][1]), key=repr)))
    return Cond("op", None, False, ("seqeq", k))


@ext("bytes.Compare")
def _(I, a):
    x, y = seqof(I, a[0]), seqof(I, a[1])
    e = seqeq(I, x, y)
    e = e if isinstance(e, bool) else I.ctx.decide(e)
    if e:
        return 0
    # a total order, antisymmetric
    kx, ky = repr(x.key()), repr(y.key())
    if kx < ky:
        c = Cond("op", None, False, ("seqlt", kx, ky))
        return -1 if I.ctx.decide(c) else 1
    c = Cond("op", None, False, ("seqlt", ky, kx))
    return 1 if I.ctx.decide(c) else -1


@ext("sort.Sort")
def _(I, a):
    """sorts through the methods of the argument: any comparison sort, here by insertion"""
    x = a[0]
    if not isinstance(x, Iface):
        raise ToolLimit("sort.Sort of %r" % (x,))
    tn = I.prog.types[x.t]["str"]
    m = lambda n, *r: I.call("(%s).%s" % (tn, n), [x.v] + list(r))
    if isinstance(x.v, Sl) and hasattr(I.mem.get(x.v.o), "log"):
        import folds
        return folds.sort_list(I, x.v, lambda i, j: m("Less", i, j), lambda i, j: m("Swap", i, j), lambda: m("Len"))
    n = m("Len")
    if not isinstance(n, int):
        raise ToolLimit("sort of unknown length")
    for i in range(1, n):
        for j in range(i, 0, -1):
            c = m("Less", j, j - 1)
            if not (c if isinstance(c, bool) else I.ctx.decide(c)):
                break
            m("Swap", j, j - 1)


@ext("sort.Slice")
def _(I, a):
    x, less = a
    if isinstance(x, Iface):
        x = x.v
    if isinstance(x, Sl) and hasattr(I.mem.get(x.o), "log"):
        import folds
        return folds.sort_list(I, x, lambda i, j: I.run(less.fn, [i, j], less.b))
    if x is None or x.len < 2:
        return None
    for i in range(1, x.len):
        for j in range(i, 0, -1):
            c = I.run(less.fn, [j, j - 1], less.b)
            if not (c if isinstance(c, bool) else I.ctx.decide(c)):
                break
            p, q = Ptr(x.o, x.path + (x.off + j,)), Ptr(x.o, x.path + (x.off + j - 1,))
            v, w = I.load(p), I.load(q)
            I.store(p, w)
            I.store(q, v)


EXT["sort.SliceStable"] = EXT["sort.Slice"]


@ext("crypto/rand.Int")
def _(I, a):
    I.ctx.memo.setdefault("randcalls", []).append(a[0])
    m = bv(I, a[1])
    if isinstance(m, U):
        raise ToolLimit("symbolic bound for rand.Int")
    rd = a[0]
    if isinstance(rd, Opq) and rd.tag == "reader" and "data" in rd.v:
        return concrete_randint(I, rd, m)
    if isinstance(rd, Opq) and rd.tag == "reader":
        k = rd.v["n"]
        rd.v["n"] += 1
        fail = I.ctx.decide(Cond("op", None, False, ("readfail", rd.v["id"], k)))
        if fail:
            I.ctx.memo["readfailed"] = True
            return (None, Err("reader"))
        v = I.ctx.memo.setdefault(("rnd", rd.v["id"], k, m), None)
        if v is None:
            v = I.ctx.zatom("rnd", 0, m - 1, name="rnd%s_%d" % (rd.v["id"], k))
            I.ctx.memo[("rnd", rd.v["id"], k, m)] = v
        return (newbig(I, v), None)
    raise ToolLimit("rand.Int on %r" % (rd,))


def concrete_randint(I, rd, m):
    v = rd.v
    if "q" not in v:
        v["q"] = list(v["data"])
    bl = (m - 1).bit_length()
    k = (bl + 7) // 8
    while True:
        v["n"] += 1
        if 0 <= v["fail"] < v["n"] or v["fail"] < -1 and v["n"] - 1 == -2 - v["fail"]:
            return (None, Err("reader"))
        bs = []
        for _ in range(k):
            d = v["q"].pop(0)
            bs.append(d)
            v["q"].append((d * 31 + 7) & 255)
        bs[0] &= (1 << (bl % 8 or 8)) - 1
        x = int.from_bytes(bytes(bs), "big")
        if x < m:
            return (newbig(I, x), None)


@ext("crypto/sha256.New")
def _(I, a):
    return Opq("sha", [])


@ext("crypto/sha256.Sum256")
def _(I, a):
    I.used.add("extern:crypto/sha256")
    return digest(I, seqof(I, a[0]).parts)


def digest(I, parts):
    """32 bytes: an uninterpreted function of the byte string"""
    s = Seq(parts)
    if all(p[0] == "b" and not isinstance(p[1], U) for p in s.parts):
        import hashlib
        return tuple(hashlib.sha256(bytes(p[1] for p in s.parts)).digest())
    memo = I.ctx.memo.setdefault("sha", {})
    k = s.key()
    if k not in memo:
        n = len(memo)
        memo[k] = (tuple(I.ctx.zatom("sha", 0, 255, name="sha%d_%d#0" % (n, i)) for i in range(32)), s)
    out = []
    for b in memo[k][0]:
        out.append(I.ctx.mk(b.p, b.lo, b.hi))
    return tuple(out)


def invoke(I, recv, method, args, ins):
    if isinstance(recv, Iface):
        recv = recv.v
    if isinstance(recv, Opq) and recv.tag == "sha":
        I.used.add("extern:crypto/sha256")
        if method == "Write":
            s = seqof(I, args[0])
            recv.v.extend(s.parts)
            n = len(s.parts) if all(p[0] == "b" for p in s.parts) else _ip.SeqLen(s)
            return (n, None)
        if method == "Reset":
            del recv.v[:]
            return None
        if method == "Sum":
            d = digest(I, recv.v)
            pre = seqof(I, args[0])
            items = tuple(p[1] for p in pre.parts) + d
            p = I.alloc(items, None)
            return Sl(p.o, (), 0, len(items), len(items))
    if isinstance(recv, Opq) and recv.tag == "hasher":
        if method == "Sum":
            b = recv.v
            if isinstance(b, str):          # digest of unknown length
                import folds
                if args[0] is not None and not (isinstance(args[0], Sl) and not isinstance(args[0].len, U) and args[0].len == 0):
                    raise ToolLimit("digest appended to a byte string")
                return folds.newbytelist(I, b)
            b = tuple(p[1] for p in seqof(I, args[0]).parts) + tuple(b)
            p = I.alloc(b, None)
            return Sl(p.o, (), 0, len(b), len(b))
    if isinstance(recv, Opq) and recv.tag == "reader":
        if method == "Read":
            s = args[0]
            k = recv.v["n"]
            recv.v["n"] += 1
            if I.ctx.decide(Cond("op", None, False, ("readfail", recv.v["id"], k))):
                I.ctx.memo["readfailed"] = True
                return (0, Err("reader"))
            for i in range(s.len):
                b = I.ctx.zatom("rb", 0, 255, name="rb%s_%d_%d" % (recv.v["id"], k, i))
                I.store(Ptr(s.o, s.path + (s.off + i,)), b)
            return (s.len, None)
    if recv is None:
        raise GoPanic("method call on nil interface")
    raise ToolLimit("method %s of %r" % (method, recv))


SIZECLASS = [0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416,
             448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048]


def builtin(I, name, args, raw, ins):
    if name == "len":
        x = args[0]
        if x is None:
            return 0
        if isinstance(x, Sl):
            return x.len
        if isinstance(x, str):
            return len(x)
        if isinstance(x, SeqRef):
            x = I.mem[x.o]
        if isinstance(x, Seq):
            if all(p[0] == "b" for p in x.parts):
                return len(x.parts)
            if len(x.parts) == 1 and isinstance(x.parts[0][1], tuple) and x.parts[0][1][0] == "zeros":
                k = ("seqlen", x.parts[0][1][1])
                v = I.ctx.memo[k]
                return I.ctx.mk(v.p, v.lo, v.hi)
            k = ("seqlen", x.key())
            if k not in I.ctx.memo:
                I.ctx.memo[k] = I.ctx.zatom("len", 0, (1 << 40), name="len#%d" % len(I.ctx.memo))
            v = I.ctx.memo[k]
            return I.ctx.mk(v.p, v.lo, v.hi)
        if isinstance(x, Ptr):
            t = I.prog.ty(raw[0]["t"])
            return I.prog.ty(t["elem"])["len"]
        if isinstance(x, tuple):
            return len(x)
        if isinstance(x, (RInt, RMont)):
            return x.n
        raise ToolLimit("len of %r" % (x,))
    if name == "cap":
        return 0 if args[0] is None else args[0].cap
    if name == "copy":
        d, s = args
        if isinstance(d, Sl) and hasattr(I.mem.get(d.o), "log"):
            import folds
            return folds.copy_list(I, d, s)
        if isinstance(d, SeqRef):
            n = builtin(I, "len", [d], raw, ins)
            m = builtin(I, "len", [s], raw, ins) if not isinstance(s, Sl) else s.len
            if not I.ctx.nz(zp(n) - zp(m)).is_zero():
                raise ToolLimit("copy between byte strings of different length")
            I.mem[d.o] = seqof(I, s)
            return n
        if isinstance(s, SeqRef):
            s = seqof(I, s)
        if isinstance(s, str):
            items = tuple(s.encode())
        elif isinstance(s, Seq) and not all(p[0] == "b" for p in s.parts):
            raise ToolLimit("copy from a byte string of unknown length")
        else:
            items = tuple(p[1] for p in s.parts) if isinstance(s, Seq) else I.sl_items(s)
        n = min(0 if d is None else d.len, len(items))
        for i in range(n):
            I.store(Ptr(d.o, d.path + (d.off + i,)), items[i])
        return n
    if name == "append":
        d, s = args
        if isinstance(d, (Seq, SeqRef)) or isinstance(s, (Seq, SeqRef)):
            a, b = seqof(I, d), seqof(I, s)
            # append may write behind d: d has to be a slice of this call's own, appended to once
            own = I.ctx.memo.setdefault("seqown", {})
            if b.parts and isinstance(d, Seq):
                if own.get(id(d), (None, False))[0] is not d:
                    raise Failed("append to a slice that belongs to the caller (writes into its spare capacity)")
                if own[id(d)][1]:
                    raise ToolLimit("two appends to the same byte string of unknown length")
                own[id(d)] = (d, True)
            elif isinstance(d, Sl) and d.cap > d.len:
                raise ToolLimit("append of a byte string of unknown length to a slice with spare capacity")
            r = Seq(a.parts + b.parts)
            own[id(r)] = (r, False)
            return r
        if isinstance(s, Sl) and isinstance(s.len, U) and hasattr(I.mem.get(s.o), "log"):
            import folds
            if I.ctx.decide(I.ctx.ceq0(zp(s.len))):
                return d
            if d is not None and d.cap != 0:
                raise ToolLimit("append of a list of unknown length to another")
            et = I.prog.ty(ins["t"])["elem"]
            r = folds.make_list(I, s.len, I.prog.zero(et), et)
            folds.copy_list(I, r, s)
            return r
        if isinstance(s, str):
            items = tuple(s.encode())
        else:
            items = I.sl_items(s)
        if isinstance(d, Sl) and hasattr(I.mem.get(d.o), "log"):
            import folds
            return folds.append_list(I, d, items) if items else d
        if d is not None and d.cap - d.len >= len(items):
            for i, x in enumerate(items):
                I.store(Ptr(d.o, d.path + (d.off + d.len + i,)), x)
            return Sl(d.o, d.path, d.off, d.len + len(items), d.cap)
        old = I.sl_items(d)
        allv = tuple(old) + tuple(items)
        et = I.prog.ty(ins["t"])["elem"]
        tn = I.prog.tname(et)
        if not allv:
            return d
        cap = len(allv)
        oc = 0 if d is None else d.cap
        cap = max(cap, 2 * oc if oc < 256 else oc + oc // 4)
        esz = {"uint8": 1, "byte": 1}.get(tn)
        if esz:
            cap = next((x for x in SIZECLASS if x >= cap), cap)
        z = I.prog.zero(et)
        p = I.alloc(allv + (z,) * (cap - len(allv)), ("arr", et))
        return Sl(p.o, (), 0, len(allv), cap)
    if name == "ssa:wrapnilchk":
        if args[0] is None:
            raise GoPanic("nil receiver")
        return args[0]
    if name in ("print", "println"):
        return None
    if name == "panic":
        raise GoPanic("panic")
    if name in ("min", "max"):
        r = args[0]
        for x in args[1:]:
            c = I.intcmp("<", r, x)
            t = c if isinstance(c, bool) else I.ctx.decide(c)
            r = (r if t else x) if name == "min" else (x if t else r)
        return r
    raise ToolLimit("builtin " + name)


def _noop(I, a):
    return None


for n in ("bytes.init", "crypto/rand.init", "crypto/sha256.init", "encoding/binary.init", "errors.init", "fmt.init",
          "hash.init", "io.init", "log.init", "math/big.init", "math/bits.init", "sort.init"):
    EXT[n] = _noop
