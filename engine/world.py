"""Loads /repo's current code: SSA dump, package globals after initialisation, replay driver."""
import re, json, os, subprocess, sys, tempfile, shutil, hashlib
from interp import *
import interp as _ip
from driver import Driver, goenv, VERIF, GOBIN
from externs import Big, Str
from dom import *

PKGS = (BLS, BLS + "/g1pubs", BLS + "/g2pubs")


class World:
    pass


def frontend(work):
    out = os.path.join(work, "fe")
    if not os.path.exists(out):
        r = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "frontend"), env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("frontend build failed\n" + r.stdout[-3000:])
    return out


def load(repo="/repo", arch="amd64", work=None, dump=None):
    w = World()
    w.repo, w.arch = repo, arch
    w.work = work or tempfile.mkdtemp(prefix="verif_")
    fe = frontend(w.work)
    out = os.path.join(w.work, "prog_%s.json" % arch)
    r = subprocess.run([fe, repo, out], env=goenv({"GOARCH": arch} if arch != "amd64" else None),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise RuntimeError("loading the code failed\n" + r.stdout[-3000:])
    w.prog = Prog(json.load(open(out)))
    w.prog.repo = repo
    w.drv = Driver(w.prog, repo, os.path.join(w.work, "drv"), arch)
    w.mem, w.mtype, w.gobj, w.gnames = {}, {}, {}, {}
    w.next = 1
    w.globaljson = {}
    for pkg in PKGS:
        res = w.drv.run(pkg, [])
        loadglobals(w, pkg, res)
    # the driver is needed only for replays of the other packages from now on
    return w


def rname(prog, t):
    if isinstance(t, tuple):
        raise ToolLimit("array type")
    return re.sub(r"[\w\-./]+/", "", prog.types[t]["str"])


def rtypes(prog):
    if not hasattr(prog, "_rt"):
        prog._rt = {}
        for i, t in enumerate(prog.types):
            prog._rt.setdefault(rname(prog, i), i)
        if "uint8" not in prog._rt and "byte" in prog._rt:
            prog._rt["uint8"] = prog._rt["byte"]
    return prog._rt


class FromJson:
    """driver JSON -> interpreter values in memory mem"""

    def __init__(self, prog, mem, mtype, alloc, objs, ids=None):
        self.prog, self.mem, self.mtype, self.alloc, self.objs = prog, mem, mtype, alloc, objs
        self.ids = dict(ids or {})
        self.slices = {}

    def obj(self, id, tn):
        if id in self.ids:
            return self.ids[id]
        t = rtypes(self.prog).get(tn)
        if t is None:
            raise ToolLimit("unknown type %s in driver output" % tn)
        o = self.alloc(None, t)
        self.ids[id] = o
        ob = self.objs.get(id)
        if ob is None:
            raise ToolLimit("missing object " + id)
        self.mem[o] = self.val(t, ob["v"])
        return o

    def val(self, t, v):
        prog = self.prog
        if prog.types[t]["str"] == "math/big.Int":
            return Big(int(v))
        u = prog.ty(t)
        k = u["kind"]
        if k == "basic":
            if u["name"] in INTKINDS:
                return int(v)
            if u["name"] == "bool":
                return bool(v)
            if u["name"] == "string":
                return bytes.fromhex(v["S"]).decode("latin1")
            return Opq("basic")
        if k == "array":
            items = tuple(self.val(u["elem"], x) for x in v)
            if prog.isrep(t):
                return RInt(sum(x << (64 * i) for i, x in enumerate(items)), len(items))
            return items
        if k == "struct":
            return tuple(self.val(f["type"], x) for f, x in zip(u["fields"], v))
        if k == "ptr":
            if v is None:
                return None
            return Ptr(self.obj(v["P"], v["t"]))
        if k == "slice":
            if v is None:
                return None
            items = tuple(self.val(u["elem"], x) for x in v["items"])
            if v.get("Sl") and v["Sl"] not in self.ids:
                return Seq([("b", x) for x in items])
            if v.get("Sl"):
                return Sl(self.ids[v["Sl"]], (), v["Off"], v["len"], v["cap"])
            a = v.get("addr")
            if a in self.slices and self.slices[a][1] == len(items):
                return Sl(self.slices[a][0], (), 0, len(items), v["cap"])
            z = prog.zero(u["elem"])
            o = self.alloc(items + (z,) * (v["cap"] - len(items)), ("arr", u["elem"]))
            if a:
                self.slices[a] = (o, len(items))
            return Sl(o, (), 0, len(items), v["cap"])
        if k == "interface":
            if v is None:
                return None
            if "Err" in v:
                return Err(v["Err"])
            return Opq("iface", v)
        return Opq(k)


def loadglobals(w, pkg, res):
    prog = w.prog
    w.rawglobals = getattr(w, "rawglobals", {})
    w.rawglobals[pkg] = res["globals"]

    def alloc(v, t):
        o = w.next
        w.next += 1
        w.mem[o] = v
        w.mtype[o] = t
        return o
    fj = FromJson(prog, w.mem, w.mtype, alloc, res["gobjs"])
    for g in sorted(res["globals"]):
        if g not in prog.globals:
            continue
        t = prog.types[prog.globals[g]["t"]]["elem"]
        o = alloc(None, t)
        w.gobj[g] = o
        w.gnames[o] = "package variable " + g.rsplit("/", 1)[-1]
        w.mem[o] = fj.val(t, res["globals"][g])
    for g in prog.globals:
        if g.endswith("init$guard") and g not in w.gobj:
            w.gobj[g] = alloc(True, None)
    # names of the objects behind pointer variables
    for g, o in list(w.gobj.items()):
        v = w.mem[o]
        if isinstance(v, (Ptr, Sl)) and v.o not in w.gnames:
            w.gnames[v.o] = "package variable *" + g.rsplit("/", 1)[-1]


class ToJson:
    """concrete interpreter values -> driver JSON"""

    def __init__(self, I, env=None):
        self.I = I
        self.prog = I.prog
        self.objs = {}

    def ref(self, o):
        id = "o%d" % o
        if id not in self.objs:
            t = self.I.mtype[o]
            v = self.I.mem[o]
            self.objs[id] = None
            if isinstance(t, tuple):
                n = len(v)
                self.objs[id] = {"t": "[%d]%s" % (n, rname(self.prog, t[1]).replace("byte", "uint8")), "v": [self.val(t[1], x) for x in v]}
            else:
                self.objs[id] = {"t": rname(self.prog, t), "v": self.val(t, v)}
        return id

    def num(self, x):
        if isinstance(x, bool) or not isinstance(x, int):
            raise ToolLimit("concrete integer expected, got %r" % (x,))
        return str(x)

    def val(self, t, v):
        prog = self.prog
        if isinstance(v, LazyIte):
            v = self.I.force(v)
        if isinstance(v, Big):
            return self.num(v.v)
        u = prog.ty(t)
        k = u["kind"]
        if k == "basic":
            if u["name"] in INTKINDS:
                return self.num(v)
            if u["name"] == "bool":
                if not isinstance(v, bool):
                    raise ToolLimit("concrete bool expected")
                return v
            if u["name"] == "string":
                if isinstance(v, Opq) and v.tag == "numstr":
                    return {"S": v.v[2].encode().hex()}
                return {"S": v.encode("latin1").hex()}
        if k == "array":
            if isinstance(v, (RInt, RMont)):
                v = self.I.limbs(v)
            return [self.val(u["elem"], x) for x in v]
        if k == "struct":
            if isinstance(v, F2):
                v = self.I.explode(v)
            if isinstance(v, (GP, GA)):
                v = self.I.expand_point(v)
            return [self.val(f["type"], x) for f, x in zip(u["fields"], v)]
        if k == "ptr":
            return None if v is None else {"P": self.ref(v.o)}
        if k == "slice":
            if v is None:
                return None
            if isinstance(v, Seq):
                b = [p[1] for p in v.parts]
                id = "s%d" % len(self.objs)
                # spare capacity, so that a write behind the slice (an append to a caller's slice) shows
                self.objs[id] = {"t": "[%d]uint8" % (len(b) + 8), "v": [self.num(x) for x in b] + ["165"] * 8}
                return {"Sl": id, "Off": 0, "Len": len(b), "Cap": len(b) + 8}
            if v.o == 0:
                return {"Sl": ""}
            return {"Sl": self.ref(v.o), "Off": v.off, "Len": v.len, "Cap": v.cap}
        if k == "interface":
            if v is None:
                return None
            if isinstance(v, Opq) and v.tag == "reader":
                return {"Reader": v.v["data"].hex(), "Fail": v.v["fail"]}
            if isinstance(v, Opq) and v.tag == "hasher":
                return {"Hasher": bytes(v.v).hex()}
        raise ToolLimit("cannot replay a value of type %s (%r)" % (rname(prog, t), v))


def from_result(prog, I, conc, res):
    """load a driver result into memory I.mem; conc: object ids named o<N>"""
    def alloc(v, t):
        o = I.next
        I.next += 1
        I.mem[o] = v
        I.mtype[o] = t
        return o
    ids = {}
    for id in res["objs"]:
        if id[0] == "o":
            ids[id] = int(id[1:])
    fj = FromJson(prog, I.mem, I.mtype, alloc, res["objs"], ids)
    for id, o in ids.items():
        ob = res["objs"][id]
        t = I.mtype[o]
        if isinstance(t, tuple):
            I.mem[o] = tuple(fj.val(t[1], x) for x in ob["v"])
        else:
            I.mem[o] = fj.val(t, ob["v"])
    return fj
