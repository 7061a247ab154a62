"""The signature packages: g1pubs (keys in G1, signatures in G2) and g2pubs (the other way round)."""
from c_curves import *
from c_enc import *
from c_hash import *
from c_pair import *
import c_pair
from c_fields import bytes_of
import loops as _loops
import folds
from folds import Arr, Info, arr_of


def PK(n):
    return BLS + "/g%dpubs" % n


def inner(s, v):
    """the pointer inside a key or signature"""
    if v is None:
        raise GoPanic("nil pointer dereference")
    if isinstance(v, Ptr):
        v = s.I.load(v)
    if isinstance(v, LazyIte):
        v = s.I.force(v)
    return s.I.force(s.I.sub(v, 0))


def wrap(s, n, tn, ptr):
    return s.new((ptr,), "%s.%s" % (PK(n), tn))


def wform(s, v):
    return form(s, inner(s, v))


def obj(inp, n, tn, ptr):
    return inp.I.alloc((ptr,), inp.I.prog.byname["%s.%s" % (PK(n), tn)])


def cpoint(inp, g, p):
    """concrete projective point object"""
    if p is None:
        z, o = mkco(g, E.const("q", 0)), mkco(g, E.const("q", 1))
        v = (z, o, z)
    else:
        z = E.const("q", inp.conc.rng.randrange(1, Q), 0 if g == 1 else inp.conc.rng.randrange(Q))
        if inp.conc.rng.random() < 0.3:
            z = E.const("q", 1)
        v = (mkco(g, p[0] * z * z), mkco(g, p[1] * z * z * z), mkco(g, z))
    return inp.I.alloc(v, inp.I.prog.byname[BLS + "." + TN[(g, "P")]])


def ppoint(inp, g, name, sub=True):
    return inp.I.alloc(abs_input(inp, name, g, True, sub=sub), inp.I.prog.byname[BLS + "." + TN[(g, "P")]])


def key_input(inp, name="k"):
    f = inp.I.prog.byname[BLS + ".FR"]
    return inp.I.alloc(inp.val(f, name), f)


def lst(inp, items, tn):
    """slice of the given values"""
    if not items:
        return None if inp.choice(2, "nil slice") else Sl(inp.I.alloc((), ("arr", tn)).o, (), 0, 0, 0)
    p = inp.I.alloc(tuple(items), ("arr", tn))
    return Sl(p.o, (), 0, len(items), len(items))


def symlist(inp, lid, slots, tn, forms=None, sub=False, n=None):
    """slice of unknown length; slots stand for the entries looked at"""
    c = inp.c
    if n is None:
        n = c.zatom("", 0, folds.MAXLEN, name="%s_len#0" % lid)
    info = Info(lid, zp(n), slots)
    info.forms, info.sub = forms, sub
    c.memo.setdefault("lists", []).append(info)
    o = inp.I.alloc(Arr(zp(n), info), ("arr", tn)).o
    return Sl(o, (), 0, n, n)


def sympoints(inp, pk, tn, g, lid, sub=True):
    """slice of keys or signatures"""
    names = ["%s_%d" % (lid, j) for j in range(folds.NSLOT)]
    slots = [obj(inp, pk, tn, ppoint(inp, g, x, sub)) for x in names]
    return symlist(inp, lid, slots, tid(inp.I.prog, "*%s.%s" % (PK(pk), tn)), [{("in", g, x): pconst(1)} for x in names], sub)


def whole(s, sl):
    """the input list a slice is, when its length is unknown"""
    a = arr_of(s.I, sl)
    if a is None:
        return None
    if not isinstance(a.base, Info) or a.log or sl.off != 0 or not (s.c.nz(zp(sl.len)) - s.c.nz(a.n)).is_zero():
        raise ToolLimit("part of a list of unknown length")
    return a.base


def total(s, g, sl):
    """sum of the points of a list of keys or signatures"""
    info = whole(s, sl)
    if info is None:
        f = {}
        for x in listval(s, sl):
            f = fadd(f, wform(s, x))
        return f
    if dz(s, s.c.ceq0(info.n)):
        return {}
    fo = folds.sum_fold(s, g, info)
    return fo.pre(info.n)


def fold_induct(I, args):
    pass


fold_induct.fold = True
SYM = {"sym": True, "label": "any number of entries"}


def tid(prog, st):
    """id of a type given by its text"""
    m = prog.__dict__.setdefault("_tids", {})
    if not m:
        ts = prog.types
        for i, ty in (ts.items() if isinstance(ts, dict) else enumerate(ts)):
            m.setdefault(ty["str"].replace("uint8", "byte"), i)
    return m[st]


def listval(s, v):
    return [s.I.force(x) for x in s.I.sl_items(v)]


def kint(s, k):
    """the integer of a secret key"""
    e = s.fr(inner(s, k))
    return zp(s.cint("r", e))


def verify_pairs(s, n, sig, pairs):
    """e(generator, S) = product of e(P_i, H_i), the groups swapped for g2pubs"""
    sg, pg = 3 - n, n
    c = s.c
    if getattr(c, "concrete", False):
        acc = {}
        for p, h in pairs:
            k = conc_dlog(pg, c_form(s.I, pg, p))
            if k is None:
                raise Infeasible()
            acc = fadd(acc, fscale(h, k))
        a, b = c_form(s.I, sg, acc), c_form(s.I, sg, sig)
        if a is None or b is None:
            return a is b
        return a[0].key() == b[0].key() and a[1].key() == b[1].key()

    for g, f in [(sg, sig)] + [(pg, p) for p, _ in pairs] + [(sg, h) for _, h in pairs]:
        dz(s, gz(s.I, g, f))

    def pp(a, b):
        return pair_pw(s.I, a, b) if pg == 1 else pair_pw(s.I, b, a)
    left = pp({GENB[pg]: pconst(1)}, sig)
    right = pw1()
    for p, h in pairs:
        right = right * pp(p, h)
    return eq12(s, A12(left), A12(right))


def is_multiple(s, n, sig, k, h):
    """the signature is k times h"""
    f, i = wform(s, sig), kint(s, k)
    for g, x in ((3 - n, f), (n, fscale({GENB[n]: pconst(1)}, i)), (3 - n, h)):
        dz(s, gz(s.I, g, x))                   # cases the pairing tells apart
    return gz(s.I, 3 - n, fadd(f, fscale(h, i), -1))


def req_groups(s, n, sig, pubs):
    for g, f in [(3 - n, sig)] + [(n, p) for p in pubs]:
        req_sub(s, g, f)


def conc_msgs(inp, k):
    rng = inp.conc.rng
    out = []
    while len(out) < k:
        m = bytes(rng.getrandbits(8) for _ in range(rng.choice((0, 1, 3, 32)) if len(out) < 200 else 32))
        if m not in out:
            out.append(m)
    if k >= 2 and rng.random() < 0.4:
        # one entry again, somewhere; the largest or the smallest now and then
        i, j = rng.sample(range(k), 2)
        u = rng.random()
        if u < 0.3:
            i = out.index(max(out))
        elif u < 0.6:
            i = out.index(min(out))
        out[j] = out[i]
    return [Seq([("b", x) for x in m]) for m in out]


def verify_inputs(n, msgs, dom, mkmsg):
    """concrete keys, messages and a signature that is mostly the right one"""
    def f(inp, npub):
        rng = inp.conc.rng
        sg = 3 - n
        ks = [rng.choice((0, 1, 2, 3, 5, 6)) if rng.random() < 0.9 else -rng.randrange(1, 5) for _ in range(npub)]
        if npub == 2 and rng.random() < 0.15:
            ks[1] = -ks[0]
        ms = msgs(inp, npub)
        s = S(inp.I, "call")
        acc = {}
        wrong = rng.randrange(npub) if npub and rng.random() < 0.25 else None
        for i, k in enumerate(ks):
            kk = k
            if i == wrong:
                kk = rng.choice((0, k + 1, -k))
            acc = fadd(acc, fscale(mkmsg(s, ms[i if len(ms) > 1 or npub == 1 else 0], dom), kk))
        return [c_mul(n, k, GEN[n]) if k else None for k in ks], ms, c_form(inp.I, sg, acc)
    return f


SMALL = 3


def list_cases(same=False, mism=False):
    def f(prog):
        out = [SYM, {"n": 0, "label": "no entries"}]
        if mism:
            out += [{"sym": True, "diff": True, "label": "any numbers of keys and messages"}]
        if same:
            out.append({"n": 2, "same": True, "label": "2 entries, the same object twice"})
        if mism:
            out += [{"n": a, "m": b, "label": "%d keys, %d messages" % (a, b)} for a, b in ((0, 1), (1, 0))]
        return out
    return f


for n in (1, 2):
    def reg(n=n):
        pg, sg = n, 3 - n                      # groups of keys and of signatures
        P_ = "g%d:" % n
        SG, PG = "G%d" % sg, "G%d" % pg
        EQN = {1: "Equal", 2: "Equals"}

        def sig_in(inp, name="S"):
            return obj(inp, n, "Signature", ppoint(inp, sg, name))

        def pub_in(inp, name="P"):
            return obj(inp, n, "PublicKey", ppoint(inp, pg, name))

        def pubval(inp, name="P"):
            return (ppoint(inp, pg, name),)

        # ---- conversions
        for tn, g, byval, pin in (("Signature", sg, False, sig_in), ("PublicKey", pg, True, pubval)):
            def conv(tn=tn, g=g, byval=byval, pin=pin):
                st = "" if byval else "*"
                ptr_in = sig_in if tn == "Signature" else pub_in

                @contract(P_ + tn + ".Serialize" + st, props=("C09",), readonly=True, inputs=lambda inp, case: [pin(inp)], ncand=12)
                def _(s, v):
                    f = wform(s, v)
                    if dz(s, gz(s.I, g, f)):
                        return encode(s, g, None)
                    return encode(s, g, expand(s.I, GA(g, f)))

                @contract(P_ + "Deserialize" + tn, props=("C08", "C16"), readonly=True, inputs=lambda inp, case: [enc_bytes(inp, g)], ncand=20)
                def _(s, b):
                    r = decode(s, g, s.I.explode(b), True)
                    if r[0] == "err":
                        return (None, Err())
                    if r[0] == "inf":
                        return (wrap(s, n, tn, newpt(s, g, "P", GP(g, {}))), None)
                    f = point_form(s.I, g, (s.c.en(r[1]), s.c.en(r[2])))
                    return (wrap(s, n, tn, newpt(s, g, "P", GP(g, f))), None)

                @contract(P_ + tn + ".String" + st, props=("C16",), readonly=True, inputs=lambda inp, case: [pin(inp)], ncand=6)
                def _(s, v):
                    return some_text(s)

                @contract(P_ + tn + ".GetPoint*", props=("C12",), readonly=True, inputs=lambda inp, case: [ptr_in(inp)], ncand=6)
                def _(s, v):
                    return newpt(s, g, "P", GP(g, wform(s, v)))

                @contract(P_ + tn + ".Copy*", props=("C12",), readonly=True, inputs=lambda inp, case: [ptr_in(inp)], ncand=6)
                def _(s, v):
                    return wrap(s, n, tn, newpt(s, g, "P", GP(g, wform(s, v))))

                @contract(P_ + "New%sFromG%d" % (tn, g), props=("C12",), readonly=True, ncand=6,
                          inputs=lambda inp, case: [inp.I.alloc(abs_input(inp, "p", g, False), inp.I.prog.byname[BLS + "." + TN[(g, "A")]])])
                def _(s, p):
                    return wrap(s, n, tn, newpt(s, g, "P", GP(g, form(s, p))))

                # ---- adding
                def agg_in(inp, case):
                    a = ptr_in(inp, "a")
                    if case["k"] == "same":
                        return [a, a]
                    if case["k"] == "shared":
                        return [a, obj(inp, n, tn, inp.I.force(inp.I.sub(inp.I.load(a), 0)))]
                    return [a, ptr_in(inp, "b")]

                @contract(P_ + tn + ".Aggregate*", props=("C13",), inputs=agg_in, ncand=12,
                          cases=lambda prog: [{"k": k, "label": k} for k in ("distinct", "same", "shared")])
                def _(s, a, b):
                    f = fadd(wform(s, a), wform(s, b))
                    s.I.store(a, (newpt(s, g, "P", GP(g, f)),))
                    return None

                blank = "NewAggregateSignature" if tn == "Signature" else "NewAggregatePubkey"

                @contract(P_ + blank, props=("C13",), readonly=True, ncand=1)
                def _(s):
                    return wrap(s, n, tn, newpt(s, g, "P", GP(g, {})))
            conv()

        @contract(P_ + "PublicKey.Equals", props=("C06", "C12"), readonly=True, ncand=20,
                  inputs=lambda inp, case: [pubval(inp, "a"), pubval(inp, "b")])
        def _(s, a, b):
            return gz(s.I, pg, fadd(wform(s, a), wform(s, b), -1))

        # ---- secret keys
        def skval(inp, case):
            return [(key_input(inp),)]

        def skptr(inp):
            return obj(inp, n, "SecretKey", key_input(inp))

        @contract(P_ + "SecretKey.Serialize", props=("C10",), readonly=True, inputs=skval)
        def _(s, k):
            return tuple(bytes_of(s.I, s.cint("r", s.fr(inner(s, k))), 32))

        @contract(P_ + "SecretKey.String", props=("C16",), readonly=True, inputs=skval)
        def _(s, k):
            return some_text(s)

        @contract(P_ + "SecretKey.GetFRElement", props=("C12",), share_ok=True, inputs=skval)
        def _(s, k):
            return inner(s, k)

        def be256(s, b):
            p = P({})
            for i in range(32):
                p = p + zp(s.I.force(s.I.sub(b, i))).scale(1 << (8 * (31 - i)))
            return s.c.mk(p, 0, (1 << 256) - 1)

        def skbytes(inp, case):
            if inp.conc:
                rng = inp.conc.rng
                x = rng.choice((0, 1, R_ORD - 1, R_ORD, R_ORD + 1, (1 << 256) - 1, rng.randrange(R_ORD), rng.getrandbits(256)))
                return [tuple(inp.conc.z("b_%d#" % i, y, y) for i, y in enumerate(x.to_bytes(32, "big")))]
            return [tuple(inp.z("b_%d" % i, 0, 255) for i in range(32))]

        @contract(P_ + "DeserializeSecretKey", props=("C10", "C16"), readonly=True, inputs=skbytes)
        def _(s, b):
            x = be256(s, b)
            if not s.decide(s.lt(x, R_ORD)):
                return wrap(s, n, "SecretKey", None)
            return wrap(s, n, "SecretKey", s.newfr(s.elem("r", be256(s, b))))

        def sk_round(I, k):
            return I.call(FN(P_ + "DeserializeSecretKey"), [I.call(FN(P_ + "SecretKey.Serialize"), [k])])

        contract("lemma:g%dpubs deserialize(serialize(k))=k for secret keys" % n, props=("C10",), lemma=sk_round,
                 results=FN(P_ + "DeserializeSecretKey"), inputs=skval)(
            lambda s, k: wrap(s, n, "SecretKey", s.newfr(s.fr(inner(s, k)))))

        def sk_round2(I, b):
            k = I.call(FN(P_ + "DeserializeSecretKey"), [b])
            v = I.load(k)
            if I.force(I.sub(v, 0)) is None:
                return b
            return I.call(FN(P_ + "SecretKey.Serialize"), [v])

        contract("lemma:g%dpubs serialize(deserialize(b))=b for every accepted b" % n, props=("C10",), lemma=sk_round2,
                 results=FN(P_ + "SecretKey.Serialize"), inputs=skbytes)(lambda s, b: tuple(s.I.force(s.I.sub(b, i)) for i in range(32)))

        @contract(P_ + "DeriveSecretKey", props=C18, readonly=True)
        def _(s, b):
            items = [s.I.force(s.I.sub(b, i)) for i in range(32)]
            return wrap(s, n, "SecretKey", s.newfr(hash_to_field(s, "r", Seq([("b", x) for x in items]), 0, 1)))

        @contract(P_ + "KeyFromFQRepr", props=("C12",), readonly=True)
        def _(s, v):
            x = s.rep(v)
            if not s.decide(s.lt(x, R_ORD)):
                return wrap(s, n, "SecretKey", None)
            return wrap(s, n, "SecretKey", s.newfr(s.elem("r", s.rep(v))))

        @contract(P_ + "RandKey", props=("C17",), share_ok=True)
        def _(s, rd):
            r = externs.EXT["crypto/rand.Int"](s.I, (rd, externs.newbig(s.I, R_ORD)))
            if r[1] is not None:
                return (None, Err())
            return (wrap(s, n, "SecretKey", s.newfr(s.c.z2e("r", externs.bv(s.I, r[0])))), None)

        # ---- signing
        @contract(P_ + "PrivToPub", props=("C12",), readonly=True, inputs=lambda inp, case: [skptr(inp)], ncand=8)
        def _(s, k):
            return wrap(s, n, "PublicKey", newpt(s, pg, "P", GP(pg, fscale({GENB[pg]: pconst(1)}, kint(s, k)))))

        @contract(P_ + "Sign", props=("C12",), readonly=True, inputs=lambda inp, case: [msg_input(inp, "m"), skptr(inp)], ncand=6)
        def _(s, m, k):
            return wrap(s, n, "Signature", newpt(s, sg, "P", GP(sg, fscale(hash_form(s, sg, seqof(s.I, m)), kint(s, k)))))

        def verify_in(inp, case):
            if inp.conc:
                ps, ms, sig = conc_verify(inp, 1)
                return [ms[0], obj(inp, n, "PublicKey", cpoint(inp, pg, ps[0])), obj(inp, n, "Signature", cpoint(inp, sg, sig))]
            return [msg_input(inp, "m"), pub_in(inp), sig_in(inp)]

        conc_verify = verify_inputs(n, conc_msgs, None, lambda s, m, d: hash_form(s, sg, m))

        @contract(P_ + "Verify", props=("C12", "C16"), readonly=True, inputs=verify_in, ncand=8)
        def _(s, m, pub, sig):
            p, t = wform(s, pub), wform(s, sig)
            req_groups(s, n, t, [p])
            return verify_pairs(s, n, t, [(p, hash_form(s, sg, seqof(s.I, m)))])

        def lem_verify(I, m, k, sig):
            return I.call(FN(P_ + "Verify"), [m, I.call(FN(P_ + "PrivToPub"), [k]), sig])

        contract("lemma:g%dpubs a signature verifies under the key k exactly when it is k times the hash" % n, props=("C12",),
                 lemma=lem_verify, results=FN(P_ + "Verify"), inputs=lambda inp, case: [msg_input(inp, "m"), skptr(inp), sig_in(inp)])(
            lambda s, m, k, sig: is_multiple(s, n, sig, k, hash_form(s, sg, seqof(s.I, m))))

        def lem_sign(I, m, k):
            return I.call(FN(P_ + "Verify"), [m, I.call(FN(P_ + "PrivToPub"), [k]), I.call(FN(P_ + "Sign"), [m, k])])

        contract("lemma:g%dpubs Verify(m, PrivToPub(k), Sign(m, k)) is true" % n, props=("C12",), lemma=lem_sign,
                 results=FN(P_ + "Verify"), inputs=lambda inp, case: [msg_input(inp, "m"), skptr(inp)])(lambda s, m, k: True)

        if n == 1:
            def hd_in(inp, i=""):
                if inp.conc:
                    return tuple(inp.conc.z("m%s_%d#" % (i, j), 0, 255) for j in range(32))
                return tuple(inp.z("m%s_%d" % (i, j), 0, 255) for j in range(32))

            def dom_in(inp):
                return tuple(inp.z("d_%d" % j, 0, 255) for j in range(8))

            @contract(P_ + "SignWithDomain", props=("C12",), readonly=True, ncand=6,
                      inputs=lambda inp, case: [hd_in(inp), skptr(inp), dom_in(inp)])
            def _(s, m, k, d):
                return wrap(s, n, "Signature", newpt(s, sg, "P", GP(sg, fscale(wd_form(s, m, d), kint(s, k)))))

            def verifyd_in(inp, case):
                d = dom_in(inp)
                if inp.conc:
                    ps, ms, sig = verify_inputs(n, lambda inp, k: [hd_in(inp, i) for i in range(k)], d, wd_form)(inp, 1)
                    return [ms[0], obj(inp, n, "PublicKey", cpoint(inp, pg, ps[0])), obj(inp, n, "Signature", cpoint(inp, sg, sig)), d]
                return [hd_in(inp), pub_in(inp), sig_in(inp), d]

            @contract(P_ + "VerifyWithDomain", props=("C12", "C16"), readonly=True, inputs=verifyd_in, ncand=8)
            def _(s, m, pub, sig, d):
                p, t = wform(s, pub), wform(s, sig)
                req_groups(s, n, t, [p])
                return verify_pairs(s, n, t, [(p, wd_form(s, m, d))])

            def lem_verifyd(I, m, k, sig, d):
                return I.call(FN(P_ + "VerifyWithDomain"), [m, I.call(FN(P_ + "PrivToPub"), [k]), sig, d])

            contract("lemma:g%dpubs a domain signature verifies under the key k exactly when it is k times the hash" % n, props=("C12",),
                     lemma=lem_verifyd, results=FN(P_ + "VerifyWithDomain"), inputs=lambda inp, case: [hd_in(inp), skptr(inp), sig_in(inp), dom_in(inp)])(
                lambda s, m, k, sig, d: is_multiple(s, n, sig, k, wd_form(s, m, d)))

            def lem_signd(I, m, k, d):
                return I.call(FN(P_ + "VerifyWithDomain"), [m, I.call(FN(P_ + "PrivToPub"), [k]), I.call(FN(P_ + "SignWithDomain"), [m, k, d]), d])

            contract("lemma:g%dpubs VerifyWithDomain(m, PrivToPub(k), SignWithDomain(m, k, d), d) is true" % n, props=("C12",), lemma=lem_signd,
                     results=FN(P_ + "VerifyWithDomain"), inputs=lambda inp, case: [hd_in(inp), skptr(inp), dom_in(inp)])(lambda s, m, k, d: True)

        # ---- lists
        def conc_len(inp, case):
            if case.get("sym"):
                return inp.conc.rng.choice((0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8) if inp.conc.rng.random() < 0.85 else (9, 12, 16, 17, 33, 65, 129))
            return case["n"] if case["n"] < SMALL or inp.conc.rng.random() < 0.3 else inp.conc.rng.choice((4, 5, 6, 7, 8, 9, 12, 16, 17))

        for tn, g, fname in (("Signature", sg, "AggregateSignatures"), ("PublicKey", pg, "AggregatePublicKeys")):
            def agg(tn=tn, g=g, fname=fname):
                def inputs(inp, case):
                    if case.get("sym") and not inp.conc:
                        return [sympoints(inp, n, tn, g, "l", sub=False)]
                    k = conc_len(inp, case) if inp.conc else case["n"]
                    items = [obj(inp, n, tn, ppoint(inp, g, "a%d" % i)) for i in range(k)]
                    if k >= 2 and case.get("same"):
                        items[-1] = items[0]
                    return [lst(inp, items, tid(inp.I.prog, "*%s.%s" % (PK(n), tn)))]

                @contract(P_ + fname, props=("C13",), readonly=True, inputs=inputs, cases=list_cases(True), ncand=24, induct=fold_induct)
                def _(s, l):
                    f = total(s, g, l)
                    return wrap(s, n, tn, newpt(s, g, "P", GP(g, f)))
            agg()

        def vinputs(inp, case, mkm, conc):
            """signature, keys, messages"""
            if inp.conc:
                k = conc_len(inp, case)
                ps, ms, sig = conc(inp, k)
                pubs = [obj(inp, n, "PublicKey", cpoint(inp, pg, p)) for p in ps]
                return obj(inp, n, "Signature", cpoint(inp, sg, sig)), lst(inp, pubs, tid(inp.I.prog, "*%s.PublicKey" % PK(n))), ms
            if case.get("sym"):
                return obj(inp, n, "Signature", ppoint(inp, sg, "S")), sympoints(inp, n, "PublicKey", pg, "P"), mkm
            k = case["n"]
            pubs = [obj(inp, n, "PublicKey", ppoint(inp, pg, "P%d" % i)) for i in range(k)]
            ms = [mkm(inp, i) for i in range(case.get("m", k))]
            return obj(inp, n, "Signature", ppoint(inp, sg, "S")), lst(inp, pubs, tid(inp.I.prog, "*%s.PublicKey" % PK(n))), ms

        def msgs_in(inp, case):
            sig, pubs, ms = vinputs(inp, case, lambda inp, i: msg_input(inp, "m%d" % i), conc_verify)
            if case.get("sym") and not inp.conc:
                return [sig, pubs, symmsgs(inp, case, pubs, ms, "[]byte")]
            if inp.conc and (inp.conc.rng.random() < 0.1 or case.get("diff")):
                ms = ms[:-1] if inp.conc.rng.random() < 0.5 else ms + [msg_input(inp, "x")]
            return [sig, pubs, lst(inp, ms, tid(inp.I.prog, "[]byte"))]

        def symmsgs(inp, case, pubs, mkm, et):
            """as many messages as keys, or another number"""
            r = symlist(inp, "m", [mkm(inp, j) for j in range(folds.NSLOT)], tid(inp.I.prog, et), n=None if case.get("diff") else pubs.len)
            if et == "[]byte":
                info = inp.I.mem[r.o].base
                inp.c.memo.setdefault("folds", {})[("fill", "m")] = folds.FillFold(info)
                inp.c.memo["ghosts"] = [folds.Adjacent(info), folds.AdjacentEnd(info)]
            return r

        def prod_eq(s, sig, pubs, msgs, hsh):
            """e(generator, S) = product over the lists"""
            c = s.c
            pi, mi = whole(s, pubs), whole(s, msgs)
            t = wform(s, sig)
            req_groups(s, n, t, [])
            dz(s, gz(s.I, sg, t))

            def pp(a, b):
                return pair_pw(s.I, a, b) if pg == 1 else pair_pw(s.I, b, a)
            left = pp({GENB[pg]: pconst(1)}, t)
            if dz(s, c.ceq0(pi.n)):
                return eq12(s, A12(left), A12(pw1()))
            fs = c.memo.setdefault("folds", {})
            k = ("prod", pi.lid, mi.lid)
            if k not in fs:
                def step(p):
                    return pp(pi.forms[pi.slot(c, p)], hsh(s, mi.slots[mi.slot(c, p)]))
                fs[k] = folds.ProdFold(c, k, pi.n, (pi.lid, mi.lid), step)
            return eq12(s, A12(left), A12(fs[k].pre(pi.n)))

        def distinct(s, ms):
            for i in range(len(ms)):
                for j in range(i):
                    c = externs.seqeq(s.I, ms[i], ms[j])
                    if dz(s, c):
                        return False
            return True

        @contract(P_ + "Signature.VerifyAggregate*", props=("C13", "C16"), readonly=True, inputs=msgs_in, cases=list_cases(mism=True), ncand=24, induct=fold_induct)
        def _(s, sig, pubs, msgs):
            if whole(s, pubs) or whole(s, msgs):
                if not dz(s, s.c.ceq0(zp(pubs.len) - zp(msgs.len))):
                    return False
                if dz(s, folds.dup(whole(s, msgs).lid)):
                    return False
                return prod_eq(s, sig, pubs, msgs, lambda s, m: hash_form(s, sg, seqof(s.I, m)))
            ps, ms = listval(s, pubs), listval(s, msgs)
            if len(ps) != len(ms):
                return False
            if not distinct(s, ms):
                return False
            t = wform(s, sig)
            fs = [wform(s, p) for p in ps]
            req_groups(s, n, t, fs)
            return verify_pairs(s, n, t, [(f, hash_form(s, sg, seqof(s.I, m))) for f, m in zip(fs, ms)])

        def common_in(inp, case):
            if inp.conc:
                sig, pubs, ms = vinputs(inp, case, None, lambda inp, k: conc_common(inp, k))
                return [sig, pubs, ms[0]]
            sig, pubs, ms = vinputs(inp, case, lambda inp, i: None, None)
            return [sig, pubs, msg_input(inp, "m")]

        conc_common = verify_inputs(n, lambda inp, k: conc_msgs(inp, 1), None, lambda s, m, d: hash_form(s, sg, m))

        @contract(P_ + "Signature.VerifyAggregateCommon*", props=("C13", "C16"), readonly=True, inputs=common_in, cases=list_cases(), ncand=24, induct=fold_induct)
        def _(s, sig, pubs, m):
            t = wform(s, sig)
            f = total(s, pg, pubs)
            req_groups(s, n, t, [f])
            return verify_pairs(s, n, t, [(f, hash_form(s, sg, seqof(s.I, m)))])

        if n == 1:
            def commond_in(inp, case):
                d = dom_in(inp)
                conc = verify_inputs(n, lambda inp, k: [hd_in(inp)], d, wd_form)
                sig, pubs, ms = vinputs(inp, case, lambda inp, i: None, conc)
                return [sig, pubs, ms[0] if inp.conc else hd_in(inp), d]

            @contract(P_ + "Signature.VerifyAggregateCommonWithDomain*", props=("C13", "C16"), readonly=True, inputs=commond_in, cases=list_cases(), ncand=24, induct=fold_induct)
            def _(s, sig, pubs, m, d):
                t = wform(s, sig)
                f = total(s, pg, pubs)
                req_groups(s, n, t, [f])
                return verify_pairs(s, n, t, [(f, wd_form(s, m, d))])

            def msgsd_in(inp, case):
                d = dom_in(inp)
                conc = verify_inputs(n, lambda inp, k: [hd_in(inp, i) for i in range(k)], d, wd_form)
                sig, pubs, ms = vinputs(inp, case, lambda inp, i: hd_in(inp, i), conc)
                if case.get("sym") and not inp.conc:
                    return [sig, pubs, symmsgs(inp, case, pubs, ms, "[32]byte"), d]
                if inp.conc and (inp.conc.rng.random() < 0.1 or case.get("diff")):
                    ms = ms[:-1] if inp.conc.rng.random() < 0.5 else ms + [hd_in(inp, "x")]
                return [sig, pubs, lst(inp, ms, tid(inp.I.prog, "[32]byte")), d]

            @contract(P_ + "Signature.VerifyAggregateWithDomain*", props=("C13", "C16"), readonly=True, inputs=msgsd_in, cases=list_cases(mism=True), ncand=24, induct=fold_induct)
            def _(s, sig, pubs, msgs, d):
                if whole(s, pubs) or whole(s, msgs):
                    if not dz(s, s.c.ceq0(zp(pubs.len) - zp(msgs.len))):
                        return False
                    return prod_eq(s, sig, pubs, msgs, lambda s, m: wd_form(s, m, d))
                ps, ms = listval(s, pubs), listval(s, msgs)
                if len(ps) != len(ms):
                    return False
                t = wform(s, sig)
                fs = [wform(s, p) for p in ps]
                req_groups(s, n, t, fs)
                return verify_pairs(s, n, t, [(f, wd_form(s, m, d)) for f, m in zip(fs, ms)])
    reg()
