"""Symbolic execution of the straight-line Plan 9 amd64 assembly in /repo.

Every body-less Go function is looked up in the .s files of /repo; the text is read on
every run.  Flags are modelled by an exact carry; an instruction that leaves a flag
undefined makes it unusable."""
import re, glob, os
from dom import *
from interp import RInt, RMont, wrapc

_files = {}


def load(repo):
    if repo in _files:
        return _files[repo]
    out = {}
    for fn in sorted(glob.glob(os.path.join(repo, "*.s"))):
        if fn.endswith("_test.s"):
            continue
        cur = None
        txt = re.sub(r"/\*.*?\*/", "", open(fn).read(), flags=re.S)
        for ln, line in enumerate(txt.split("\n"), 1):
            line = line.split("//")[0].strip()
            if not line or line.startswith("#"):
                continue
            for part in line.split(";"):
                part = part.strip()
                m = re.match(r"TEXT\s+·(\w+)(?:<\w+>)?\(SB\)\s*,(.*)$", part)
                if m:
                    cur = []
                    out[m.group(1)] = (cur, part, os.path.basename(fn))
                    continue
                if cur is not None and part:
                    cur.append((ln, part))
    _files[repo] = out
    return out


REG8 = {"AL": "AX", "BL": "BX", "CL": "CX", "DL": "DX"}


class M:
    def __init__(self, interp, name):
        self.i = interp
        self.c = interp.ctx
        self.name = name
        self.reg = {}
        self.stk = {}
        self.fp = {}
        self.ret = {}
        self.cf = None

    def src(self, o):
        o = o.strip()
        if o[0] == "$":
            return int(o[1:], 0) % W
        m = re.match(r"(?:(\w+)([+-]\d+))?\((FP|SP)\)$", o) or re.match(r"()(-?\d*)\((FP|SP)\)$", o)
        if m:
            off = int(m.group(2) or 0)
            if m.group(3) == "FP":
                if off in self.ret:
                    return self.ret[off]
                if off in self.fp:
                    return self.fp[off]
                raise ToolLimit("asm %s: read of %s" % (self.name, o))
            if off not in self.stk:
                raise Failed("asm %s: read of an uninitialised stack slot" % self.name)
            return self.stk[off]
        if o in REG8:
            raise ToolLimit("byte register source")
        if o not in self.reg:
            raise Failed("asm %s: read of uninitialised register %s" % (self.name, o))
        return self.reg[o]

    def dst(self, o, v):
        o = o.strip()
        m = re.match(r"(?:(\w+)([+-]\d+))?\((FP|SP)\)$", o) or re.match(r"()(-?\d*)\((FP|SP)\)$", o)
        if m:
            off = int(m.group(2) or 0)
            if m.group(3) == "FP":
                if off in self.fp:
                    self.fp[off] = v
                else:
                    self.ret[off] = v
            else:
                if off < 0 or off % 8:
                    raise ToolLimit("asm stack layout")
                self.stk[off] = v
            return
        if not re.match(r"^(AX|BX|CX|DX|SI|DI|BP|R\d+)$", o):
            raise ToolLimit("asm operand " + o)
        self.reg[o] = v

    def carry(self):
        if self.cf is None:
            raise Failed("asm %s: use of an undefined carry flag" % self.name)
        return self.cf

    def add(self, x, y, cin):
        h, l = self.c.divmodW(zp(x) + zp(y) + zp(cin), 64, "c", ulo(x) + ulo(y) + ulo(cin), uhi(x) + uhi(y) + uhi(cin))
        return h, l

    def sub(self, x, y, cin):
        p = zp(x) - zp(y) - zp(cin)
        r = self.c.modW(p, 64, "b", ulo(x) - uhi(y) - uhi(cin), uhi(x) - ulo(y) - ulo(cin))
        d = zp(r) - self.c.nz(p)
        q = {}
        for k, v in d.d.items():
            assert v % W == 0
            q[k] = v // W
        return self.c.mk(P(q), 0, 1), r


def run_asm(interp, name, args):
    prog = interp.prog
    base = name.split(".")[-1]
    t = load(interp.prog.repo).get(base)
    if t is None:
        raise ToolLimit("no body for " + name)
    code, hdr, fname = t
    interp.inlined.add(name + " [asm]")
    interp.prog.asmfiles.add(fname)
    m = M(interp, base)
    off = 0
    f = prog.funcs[name]
    for a in args:
        if isinstance(a, (tuple, RInt, RMont)):
            for l in interp.limbs(a):
                m.fp[off] = interp.force(l)
                off += 8
        elif isinstance(a, (int, U)):
            m.fp[off] = a
            off += 8
        else:
            raise ToolLimit("asm argument")
    R = interp.intop
    done = False
    for ln, ins in code:
        interp.steps += 1
        sp = ins.split(None, 1)
        op = sp[0]
        ops = [x.strip() for x in sp[1].split(",")] if len(sp) > 1 else []
        if op == "RET":
            done = True
            break
        if op in ("NOP", "PCALIGN"):
            continue
        if op == "MOVQ":
            m.dst(ops[1], m.src(ops[0]))
        elif op in ("ADDQ", "ADCQ"):
            cin = m.carry() if op == "ADCQ" else 0
            h, l = m.add(m.src(ops[1]), m.src(ops[0]), cin)
            m.dst(ops[1], l)
            m.cf = h
        elif op in ("SUBQ", "SBBQ"):
            cin = m.carry() if op == "SBBQ" else 0
            b, l = m.sub(m.src(ops[1]), m.src(ops[0]), cin)
            m.dst(ops[1], l)
            m.cf = b
        elif op == "CMPQ":
            b, l = m.sub(m.src(ops[0]), m.src(ops[1]), 0)
            m.cf = b
        elif op == "MULQ":
            x, y = m.src("AX"), m.src(ops[0])
            h, l = m.c.divmodW(zp(x) * zp(y), 64, "m", ulo(x) * ulo(y), uhi(x) * uhi(y))
            m.reg["AX"], m.reg["DX"] = l, h
            m.cf = None
        elif op == "MULXQ":          # MULXQ src, lo, hi : DX * src
            x, y = m.src("DX"), m.src(ops[0])
            h, l = m.c.divmodW(zp(x) * zp(y), 64, "m", ulo(x) * ulo(y), uhi(x) * uhi(y))
            m.dst(ops[1], l)
            m.dst(ops[2], h)
        elif op == "IMULQ" and len(ops) == 2:
            m.dst(ops[1], R("*", m.src(ops[1]), m.src(ops[0]), 64, False))
            m.cf = None
        elif op == "XORQ":
            if ops[0] == ops[1]:
                m.dst(ops[1], 0)
            else:
                m.dst(ops[1], R("^", m.src(ops[1]), m.src(ops[0]), 64, False))
            m.cf = 0
        elif op == "ORQ":
            m.dst(ops[1], R("|", m.src(ops[1]), m.src(ops[0]), 64, False))
            m.cf = 0
        elif op == "ANDQ":
            m.dst(ops[1], R("&", m.src(ops[1]), m.src(ops[0]), 64, False))
            m.cf = 0
        elif op in ("SHLQ", "SHRQ") and ops[0][0] == "$" and len(ops) == 2:
            m.dst(ops[1], R("<<" if op == "SHLQ" else ">>", m.src(ops[1]), int(ops[0][1:], 0), 64, False))
            m.cf = None
        elif op == "NOTQ":
            x = m.src(ops[0])
            m.dst(ops[0], m.c.mk(pconst(W - 1) - zp(x), 0, W - 1))
        elif op == "NEGQ":
            x = m.src(ops[0])
            b, l = m.sub(0, x, 0)
            m.dst(ops[0], l)
            m.cf = b
        elif op == "INCQ" or op == "DECQ":
            cf = m.cf
            x = m.src(ops[0])
            m.dst(ops[0], (m.add(x, 1, 0) if op == "INCQ" else m.sub(x, 1, 0))[1])
            m.cf = cf
        elif op == "SETCS":
            r = REG8.get(ops[0])
            if r is None:
                raise ToolLimit("asm SETCS " + ops[0])
            x = m.src(r)
            h, _ = m.c.split(x, 8)
            m.reg[r] = m.c.mk(zp(h).scale(256) + zp(m.carry()), 0, W - 1)
        else:
            raise ToolLimit("asm instruction %s in %s:%d" % (op, fname, ln))
    if not done:
        raise Failed("asm %s: runs past its end" % base)
    # results
    out = []
    for rt in f["results"]:
        t = rt["t"] if isinstance(rt, dict) else rt
        ty = prog.ty(t)
        if ty["kind"] == "array":
            vals = []
            for i in range(ty["len"]):
                if off not in m.ret:
                    raise Failed("asm %s: result word at %d(FP) is never written" % (base, off))
                vals.append(m.ret[off])
                off += 8
            out.append(tuple(vals))
        else:
            if off not in m.ret:
                raise Failed("asm %s: result word at %d(FP) is never written" % (base, off))
            out.append(m.ret[off])
            off += 8
    return out[0] if len(out) == 1 else tuple(out)
