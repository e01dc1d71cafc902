#!/usr/bin/env python3
"""plant.py ID PROPERTY <<spec : makes /verif/seeded/ID from a Python dict on stdin:
 edits=[(file, old, new)], test=<go test functions>, imports=[..], needs=, breaks=
and confirms it (builds, passes the tests, demo passes without and fails with it)."""
import sys, os, json, subprocess, shutil, tempfile
ID, PROP = sys.argv[1:3]
d = {}
exec(sys.stdin.read(), d)
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(os.path.dirname(here), "seeded", ID)
W = tempfile.mkdtemp(prefix="plant-")
R = os.path.join(W, "repo")
def sh(*a, cwd=R, ok=True, **k):
    p = subprocess.run(a, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if ok and p.returncode:
        print(p.stdout[-3000:]); raise SystemExit("FAILED: " + " ".join(a))
    return p
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
    if os.path.isdir(out): shutil.rmtree(out)
    os.makedirs(out)
    if d.get("demo"):
        open(out + "/demo.sh", "w").write(d["demo"])
        for n, c in d.get("files", {}).items(): open(os.path.join(out, n), "w").write(c)
    else:
        for f in ("demo.sh", "rec_test.go"): shutil.copy(os.path.join(here, "seed", f), out)
        imps = "".join('\t"%s"\n' % i for i in ["testing"] + list(d.get("imports", [])))
        open(out + "/demo_test.go", "w").write("package xpdf\n\nimport (\n%s)\n\n%s" % (imps, d["test"]))
    os.chmod(out + "/demo.sh", 0o755)
    p = sh("bash", out + "/demo.sh", ok=False)
    if p.returncode: print(p.stdout[-3000:]); raise SystemExit("demo fails without the change")
    for f, old, new in d["edits"]:
        s = open(os.path.join(R, f)).read()
        if s.count(old) != 1: raise SystemExit("%d x %r in %s" % (s.count(old), old, f))
        open(os.path.join(R, f), "w").write(s.replace(old, new))
    diff = sh("git", "diff").stdout
    # at least one removed line is of the original repository
    orig = {f: subprocess.run(["git", "blame", "-s", "--abbrev=40", "HEAD", "--", f], cwd=R, stdout=subprocess.PIPE, text=True).stdout for f in {e[0] for e in d["edits"]}}
    base = "f18e84b"
    anc = set(sh("git", "rev-list", base).stdout.split())
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    org = [r for r in removed if any(l.split(") ", 1)[-1].strip() == r.strip() and l.split()[0].lstrip("^")[:39] in {a[:39] for a in anc} and r.strip() for o in orig.values() for l in o.splitlines())]
    if not org: raise SystemExit("no line of the original is changed")
    sh("bash", "-c", ". /opt/vp/env.sh; go build ./... && go test ./... ")
    p = sh("bash", out + "/demo.sh", ok=False)
    if p.returncode == 0: raise SystemExit("demo passes with the change")
    print("\n".join(p.stdout.splitlines()[:12]))
    open(out + "/patch.diff", "w").write(diff)
    json.dump(dict(property=PROP, needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
    print("OK", ID)
except SystemExit:
    shutil.rmtree(out, ignore_errors=True); raise
finally:
    shutil.rmtree(W)
