"""Writes seeded/<id>/ from tools/seeds_*.py definitions and confirms each: mkseeds.py ID... (needs a scratch copy in /tmp/wt/s)"""
import sys, os, subprocess, json, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/wt/s"
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$(pwd)
cp go.mod "$T/go.mod"; cp go.sum "$T/go.sum"
printf '{"Replace": {"%%s": "%%s"}}' "$R/%(pkg)s/zz_seeddemo_test.go" "$D/demo_test.go" > "$T/o.json"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local %(env)s
go test -vet=off -count=1 -modfile "$T/go.mod" -overlay "$T/o.json" -run '^TestSeedDemo$' ./%(pkg)s
'''
SEEDS = []


def seed(id, prop, file, edits, body, needs, breaks, pkg=".", imports=(), env=""):
    SEEDS.append(dict(id=id, prop=prop, file=file, edits=edits, body=body, needs=needs, breaks=breaks, pkg=pkg, imports=imports, env=env))


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
    files = s["file"] if isinstance(s["file"], list) else [s["file"]] * len(s["edits"])
    for f, (a, b) in zip(files, s["edits"]):
        p = os.path.join(S, f)
        t = open(p).read()
        if t.count(a) != 1:
            return "edit text found %d times: %s" % (t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    pn = {".": "bls"}.get(s["pkg"], s["pkg"])
    imps = "".join('\t"%s"\n' % i for i in ("testing",) + tuple(s["imports"]))
    open(os.path.join(d, "demo_test.go"), "w").write("package %s\n\nimport (\n%s)\n\n%s\n" % (pn, imps, s["body"].strip()))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"pkg": s["pkg"], "env": s["env"]})
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=S, capture_output=True, text=True)
    if r.returncode == 0:
        return "demo passes with the patch"
    if "FAIL" not in r.stdout or "build failed" in r.stdout:
        return "demo does not build: " + (r.stdout + r.stderr)[-600:]
    e = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
    if "-n" not in sys.argv:
        r = subprocess.run(["go", "test", "-count=1", "./..."], cwd=S, capture_output=True, text=True, env=e)
        if r.returncode != 0:
            return "tests fail: " + " ".join(l for l in r.stdout.splitlines() if "--- FAIL" in l or "panic" in l)[:400]
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=S, capture_output=True, text=True)
    if r.returncode != 0:
        return "demo fails without the patch: " + (r.stdout + r.stderr)[-800:]
    return None


if __name__ == "__main__":
    if not os.path.isdir(S):
        subprocess.run(["git", "clone", "-q", "/repo", S], check=True)
    subprocess.run(["git", "-C", S, "pull", "-q"])
    for p in sorted(glob.glob(os.path.join(V, "tools", "seeds_*.py"))):
        exec(open(p).read())
    want = [a for a in sys.argv[1:] if a[0] != "-"]
    for s in SEEDS:
        if want and s["id"] not in want or (not want and os.path.exists(os.path.join(V, "seeded", s["id"]))):
            continue
        e = make(s)
        print(s["id"], "OK" if e is None else "BAD " + e, flush=True)
        if e:
            shutil.rmtree(os.path.join(V, "seeded", s["id"]), ignore_errors=True)
