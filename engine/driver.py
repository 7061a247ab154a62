"""Builds and runs the Go replay driver against the code in /repo."""
import json, os, subprocess, tempfile, re, shutil
from interp import BLS

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
GOBIN = "/opt/veriftools/go1.27.3/bin"


def goenv(extra=None):
    e = dict(os.environ)
    e.update({"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GONOSUMDB": "*", "GOSUMDB": "off"})
    if os.path.isdir(GOBIN):
        e["PATH"] = GOBIN + ":" + e.get("PATH", "")
    if extra:
        e.update(extra)
    return e


def goexpr(name, pkg):
    m = re.match(r"^\(\*%s\.(\w+)\)\.(\w+)$" % re.escape(pkg), name)
    if m:
        return "(*%s).%s" % m.groups()
    m = re.match(r"^\(%s\.(\w+)\)\.(\w+)$" % re.escape(pkg), name)
    if m:
        return "%s.%s" % m.groups()
    m = re.match(r"^%s\.(\w+)$" % re.escape(pkg), name)
    if m:
        return m.group(1)
    return None


def gen(prog, pkg, arch="amd64"):
    pn = pkg.split("/")[-1]
    src = open(os.path.join(VERIF, "driver", "driver.go.txt")).read().replace("PKGNAME", pn)
    lines = []
    for name, f in sorted(prog.funcs.items()):
        if f["pkg"] != pkg or f.get("synthetic") or "$" in name or name.endswith(".init") or re.search(r"\.init#", name):
            continue
        ex = goexpr(name, pkg)
        if ex and ex != "init":
            lines.append('\t%s: %s,' % (json.dumps(name), ex))
    gl = []
    for g in sorted(prog.globals):
        if g.rsplit(".", 1)[0] == pkg and "$" not in g:
            gl.append(g)
    src += "\nvar verifFuncs = map[string]interface{}{\n%s\n}\n" % "\n".join(lines)
    src += "\nvar verifGlobals = map[string]interface{}{\n%s\n}\n" % "\n".join("\t%s: &%s," % (json.dumps(g), g.rsplit(".", 1)[1]) for g in gl)
    src += "\nvar verifGlobalNames = []string{%s}\n" % ", ".join(json.dumps(g) for g in gl)
    return src


class Driver:
    def __init__(self, prog, repo="/repo", work=None, arch="amd64"):
        self.prog = prog
        self.repo = repo
        self.work = work or tempfile.mkdtemp(prefix="verifdrv")
        self.arch = arch
        self.bin = {}

    def build(self, pkg):
        if pkg in self.bin:
            return self.bin[pkg]
        d = os.path.join(self.work, self.arch + "_" + pkg.split("/")[-1])
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "zz_verif_driver_test.go")
        open(fn, "w").write(gen(self.prog, pkg))
        rel = pkg[len(BLS):].strip("/")
        pdir = os.path.join(self.repo, rel)
        rep = {os.path.join(pdir, "zz_verif_driver_test.go"): fn}
        # the package's own tests are replaced by empty files of the same package
        for t in os.listdir(pdir):
            if t.endswith("_test.go"):
                stub = os.path.join(d, "stub_" + t)
                head = re.search(r"^package\s+(\w+)", open(os.path.join(pdir, t)).read(), re.M).group(1)
                open(stub, "w").write("package %s\n" % head)
                rep[os.path.join(pdir, t)] = stub
        ov = os.path.join(d, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        out = os.path.join(d, "drv.test")
        extra = {"GOARCH": self.arch} if self.arch != "amd64" else None
        mod = os.path.join(d, "go.mod")
        shutil.copy(os.path.join(self.repo, "go.mod"), mod)
        shutil.copy(os.path.join(self.repo, "go.sum"), os.path.join(d, "go.sum"))
        r = subprocess.run(["go", "test", "-vet=off", "-c", "-modfile", mod, "-overlay", ov, "-o", out, "."], cwd=pdir, env=goenv(extra),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("driver build failed:\n" + r.stdout[-4000:])
        self.bin[pkg] = out
        return out

    def run(self, pkg, calls, timeout=600):
        b = self.build(pkg)
        fd, inp = tempfile.mkstemp(suffix=".json", dir=self.work)
        os.close(fd)
        outp = inp + ".out"
        json.dump(calls, open(inp, "w"))
        r = subprocess.run([b, "-test.run", "^TestVerifDriver$", "-test.timeout", "%ds" % timeout], cwd=self.work,
                           env=goenv({"VERIF_IN": inp, "VERIF_OUT": outp}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(outp):
            raise RuntimeError("driver run failed:\n" + r.stdout[-3000:])
        d = json.load(open(outp))
        os.unlink(outp)
        os.unlink(inp)
        return d

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)
