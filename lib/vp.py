"""Common machinery of the checks: building the harness, driving the code, validating with TLC,
reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """the check itself could not give an answer (exit 2)"""


class Violation:
    def __init__(self, what, case, detail, replay=None):
        self.what, self.case, self.detail, self.replay = what, case, detail, replay


def goenv():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
    for kv in out.split(b"\0"):
        k, _, v = kv.decode("utf-8", "replace").partition("=")
        if k in ("PATH", "GOFLAGS", "GOPROXY", "GOCACHE", "GOMODCACHE", "GOPATH", "GOTOOLCHAIN", "GOROOT", "GOSUMDB", "GONOSUMDB", "GOFIPS140"):
            env[k] = v
    return env


NOTRUN = "left out: other cases ended their processes"


def suspects(bad, obs, n=3):
    """the first of the cases that failed, without those left out; one is enough where processes end or hang"""
    bad = [b for b in bad if obs(b).get("fault") != NOTRUN]
    dead = [b for b in bad if str(obs(b).get("fault")).startswith(("hang", "crash"))]
    return dead[:1] + [b for b in bad if b not in dead][:n - 1] if dead else bad[:n]


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        os.chmod(self.tmp, 0o755)
        self.states = self.transitions = self.traces = self.undecided = 0
        self.groups = {}
        self.samples = []
        self.violations = []
        self.findings = []
        self.notes = []
        self.extra = {}
        self._xh = None
        self._img = None
        self._xhrace = None
        self.env = goenv()
        self._n = 0

    def path(self, name):
        return os.path.join(self.tmp, name)

    def fresh(self, suffix):
        self._n += 1
        return self.path("f%d%s" % (self._n, suffix))

    def log(self, *a):
        print("[%6.1f]" % (time.time() - self.t0), *a, flush=True)

    def rnd(self, *key):
        return random.Random("/".join(str(k) for k in (self.seed, self.prop) + key))

    def n(self, quick, thorough=None):
        return quick * 3 // 2 if self.quick else (thorough if thorough is not None else quick * 10)

    # ---- the code under test -------------------------------------------------
    def go_build(self, out, pkg, cwd, what, args=()):
        p = subprocess.run(["go", "build", *args, "-o", out, pkg], cwd=cwd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError("building %s failed:\n%s" % (what, p.stdout.decode("utf-8", "replace")[-3000:]))
        return out

    @property
    def xh(self):
        if not self._xh:
            src = self.path("harness")
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            if REPO != "/repo":
                f = os.path.join(src, "go.mod")
                s = open(f).read().replace("=> /repo", "=> " + REPO)
                open(f, "w").write(s)
            self._xh = self.go_build(self.path("xh"), ".", src, "the harness")
        return self._xh

    @property
    def xhrace(self):
        """the harness with the race detector"""
        self.xh
        if not self._xhrace:
            self._xhrace = self.go_build(self.path("xhrace"), ".", self.path("harness"), "the harness", ("-race",))
        return self._xhrace

    @property
    def img(self):
        if not self._img:
            sys.path.insert(0, os.path.join(VERIF, "lib"))
            import imgs
            self._img = self.path("img")
            imgs.write(self._img)
        return self._img

    def img2(self):
        """a directory with images of the same names and other sizes"""
        import imgs
        d = self.path("img2")
        if not os.path.exists(d):
            imgs.write(d, imgs.OTHERS)
        return d

    def drive(self, mode, cases, env=None, timeout=None, chunks=None, xh=None):
        """runs the cases in parallel processes; observations in order. A case that kills or hangs
        its process is run once more on its own before that counts."""
        xh = xh or self.xh
        k = chunks or max(1, min(NCPU, (len(cases) + 19) // 20))
        parts = [cases[i::k] for i in range(k)]
        res = [None] * k
        errs = []

        def work(i):
            try:
                res[i] = self._drive1(xh, mode, parts[i], env, timeout)
            except BaseException as e:      # noqa
                errs.append(e)
        ts = [threading.Thread(target=work, args=(i,)) for i in range(k)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]
        out = [None] * len(cases)
        for i in range(k):
            out[i::k] = res[i]
        return out

    def history(self, cases, i):
        """the cases the process that ran case i had run when it came to it, and case i"""
        k = max(1, min(NCPU, (len(cases) + 19) // 20))
        return cases[i % k:i + 1:k]

    def _run_xh(self, xh, mode, cases, env, limit):
        fi, fo = tempfile.mkstemp(dir=self.tmp, suffix=".in")[1], tempfile.mkstemp(dir=self.tmp, suffix=".out")[1]
        with open(fi, "w") as f:
            for c in cases:
                f.write(json.dumps(c, ensure_ascii=False) + "\n")
        e = dict(self.env)
        e.update(env or {})
        e["GOMEMLIMIT"] = "2GiB"
        e["GORACE"] = "halt_on_error=1"
        try:
            p = subprocess.run([xh, mode, fi, fo], env=e, cwd=self.tmp, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit)
            rc, err = p.returncode, p.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            rc, err = -99, "time limit"
        obs = []
        with open(fo) as f:
            for l in f:
                if l.endswith("\n"):
                    obs.append(json.loads(l))
        os.unlink(fi)
        os.unlink(fo)
        return rc, err, obs

    def _drive1(self, xh, mode, cases, env, timeout):
        out, deaths = [], 0
        while len(out) < len(cases):
            todo = cases[len(out):]
            if deaths >= 3:         # enough is known: the other cases are left out
                return out + [dict(id=c.get("id"), fault=NOTRUN) for c in todo]
            rc, err, obs = self._run_xh(xh, mode, todo, env, timeout or 600)
            if rc == 0:
                if len(obs) != len(todo):
                    raise CheckError("driver lost cases")
                return out + obs
            if rc == 2 and "fatal error" not in err and "goroutine" not in err:
                raise CheckError("driver failed: " + err[-2000:])
            # the process died or hung at case len(obs) (a hang has a line of its own)
            if obs and obs[-1].get("fault") == "hang":
                obs = obs[:-1]
            bad = todo[len(obs)]
            if "DATA RACE" in err:
                m = re.search(r"DATA RACE\n(?:.*\n){1,14}", err)
                out += obs + [dict(id=bad.get("id"), fault="data race: " + m.group(0)[:900] if m else "data race")]
                continue
            e2 = dict(env or {}, XH_TIMEOUT="90")
            rc2, err2, obs2 = self._run_xh(xh, mode, [bad], e2, 150)
            if rc2 == 0 and obs2 and not obs2[0].get("fault"):
                obs.append(obs2[0])         # it was the machine that was slow
            elif obs2 and obs2[0].get("fault"):
                obs.append(obs2[0])
                deaths += 3 if obs2[0]["fault"] == "hang" else 1
            elif rc2 in (-9, -99, 137):
                raise CheckError("driver ended from outside: " + err2[-500:])
            else:
                m = re.search(r"(fatal error: .*|panic: .*|runtime: .*)", err2)
                obs.append(dict(id=bad.get("id"), fault="crash: " + (m.group(1) if m else "exit %d" % rc2)))
                deaths += 1
            out += obs
        return out

    # ---- TLC -----------------------------------------------------------------
    def tlc(self, module, cfg, docs=None, prop=None, env=None, chunks=None, timeout=800, extra=(), tags=("VERDICT",), xmx="2g", workers=1):
        """runs TLC on the documents (split over several JVMs). Returns the printed JSON values per tag."""
        jobs = []
        if docs is None:
            jobs = [None]
        else:
            k = chunks or max(1, min(NCPU, (len(docs) + 3) // 4))
            # spread by size
            order = sorted(range(len(docs)), key=lambda i: -len(docs[i]) if isinstance(docs[i], str) else 0)
            jobs = [[docs[i] for i in order[j::k]] for j in range(k)]
        procs = []
        outs = []
        for j, job in enumerate(jobs):
            e = dict(os.environ)
            e.update(env or {})
            e["PROP"] = prop or self.prop
            if job is not None:
                f = self.fresh(".docs.ndjson")
                with open(f, "w") as o:
                    for d in job:
                        o.write((d if isinstance(d, str) else json.dumps(d, ensure_ascii=False)) + "\n")
                e["DOCS"] = f
            meta = self.fresh(".meta")
            fo = self.fresh(".tlc")
            o = open(fo, "w")
            outs.append(fo)
            tmpd = self.fresh(".jtmp")
            os.mkdir(tmpd)
            cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-Dfile.encoding=UTF-8",
                   "-Dsun.stdout.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + tmpd, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
                   "-metadir", meta, "-workers", str(workers), *extra, "-config", cfg, module + ".tla"]
            procs.append((subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=o, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL), o, meta, e.get("DOCS"), tmpd))
        vals = []
        end = time.time() + timeout
        fail = None
        for (p, o, meta, f, tmpd), fo in zip(procs, outs):
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for q in procs:
                    q[0].kill()
                raise CheckError("TLC ran out of time (%s)" % module)
            o.close()
            txt = open(fo, encoding="utf-8").read()
            st = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
            if p.returncode != 0 or "Error:" in txt or not (st or "ASSUME" in extra):
                i = txt.find("Error:")
                fail = fail or "TLC %s: exit %d\n%s" % (module, p.returncode, txt[max(0, i - 200):i + 2500] if i >= 0 else txt[-2500:])
            if st:
                self.transitions += int(st.group(1))
                self.states += int(st.group(2))
            for l in txt.splitlines():
                if l.startswith('"') and l[1:].split(" ", 1)[0] in tags:
                    t, v = json.loads(l).split(" ", 1)
                    vals.append(json.loads(v) if len(tags) == 1 else (t, json.loads(v)))
            shutil.rmtree(meta, ignore_errors=True)
            shutil.rmtree(tmpd, ignore_errors=True)
            if f and not fail:
                os.unlink(f)
        if fail:
            raise CheckError(fail)
        return vals

    # ---- results -------------------------------------------------------------
    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s if len(str(s)) < 3000 else str(s)[:3000])

    def violation(self, what, case, detail):
        self.violations.append(Violation(what, case, detail))

    def finish(self, level, assumptions):
        evd = os.environ.get("VP_EVIDENCE") or os.path.join(VERIF, "evidence")
        rep = os.path.join(evd, "replays")
        shutil.rmtree(os.path.join(rep, self.prop), ignore_errors=True)
        for i, v in enumerate(self.violations[:5]):
            d = os.path.join(rep, self.prop)
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%d.json" % (i + 1))
            with open(p, "w") as f:
                json.dump(dict(property=self.prop, what=v.what, detail=v.detail, case=v.case), f, indent=1, ensure_ascii=False)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("   ", v.what)
        for f in self.findings:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   undecided=self.undecided, groups=self.groups, samples=self.samples or ["none"])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        self.log("%s %s: %d traces validated, %d states, %d undecided, %d violations" % (
            self.prop, self.tier, self.traces, self.states, self.undecided, len(self.violations)))
        return 1 if self.violations else 0

    def close(self):
        if os.environ.get("VP_KEEP"):
            print("kept", self.tmp)
        else:
            shutil.rmtree(self.tmp, ignore_errors=True)
