"""C18: injected faults. Commands under every combination of failing steps (exported by
spec/FaultsGen.tla), library runs and loaders with one fault each (judged by spec/FaultsTrace.tla)."""
import json, os, shutil, subprocess, threading
import vp, cases, gens, xm, imgs

TTF = "/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf"
DOC = """<document><page><orientation>portrait</orientation><format>a5</format><margins><left>10</left><top>10</top><right>10</right><bottom>10</bottom></margins></page>
<style>ca { font-point-size: 14 } %s</style><header><text>head {cp} of {np}</text></header><body><text class="ca">some words <p style="font-weight:bold">in bold</p> and more</text>
<box style="border:1,1,1,1;width:40">a box</box><table><tr><td>a</td><td>b</td></tr></table>%s<newpage/><text style="font-family:Deja">last words</text></body></document>
"""


def write(path, data):
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8"))


def bad_file(path, how, good, variants):
    if how == "missing":
        return
    if how == "dir":
        os.makedirs(path)
    elif how == "empty":
        write(path, b"")
    elif how == "ok":
        write(path, good)
    elif how == "truncated":
        write(path, good[:len(good) * 2 // 3])
    else:
        write(path, variants[how])


def setup_cli(d, flt, r):
    """the files of one run of a command; returns the output path"""
    os.makedirs(d + "/fonts")
    lay = dict(ok="", family='<text style="font-family:Nosuch">x</text>', variant='<text style="font-family:Deja;font-weight:bold">x</text>',
               image='<image>%s</image>' % r.choice(["deep.png", "notgif.jpg"]))[flt["lay"]]
    good = DOC % ("", lay)
    if flt["font"] != "ok" and r.random() < 0.5:      # a font that is broken, but not used
        good = good.replace("font-family:Deja;", "").replace("font-family:Deja", "")
    bad_file(d + "/in.xml", flt["doc"], good, dict(
        malformed=r.choice([good[:len(good) // 2], good.replace("</box>", "</bax>"), "no document", good.replace("</body></document>", "")]),
        unknown=good.replace("<newpage/>", "<newpagee/>"), badstyle=good.replace("width:40", r.choice(["width:4x", "width", "width:4:0", "color:12"])),
        badclass=DOC % (r.choice(["{ width: 3 }", "cb { width: 3", "cc:first-row { width: 3 }", "cb { width }"]), lay)))
    ttf = open(TTF, "rb").read()
    bad_file(d + "/fonts/my.ttf", flt["font"], ttf, dict(garbage=r.choice([b"this is no font at all\n" * 20, bytes(range(256)) * 9])))
    one = lambda n, s, f: '[[Fonts]]\nName="%s"\n[[Fonts.StyleDefinitions]]\nStyle="%s"\nFilePath="%s"\n' % (n, s, f)
    more = lambda n: "".join(one(n + str(k), r.choice(["regular", "bold", "bold+italic"]), "good.ttf") for k in range(r.choice([0, 0, 1, 2])))
    write(d + "/fonts/good.ttf", ttf)
    de = more("Before") + one("Deja", "regular", "my.ttf") + more("After")
    bad_file(d + "/fonts/fontdef.toml", flt["def"], de, dict(malformed=r.choice([de[:5], de + "[[Fonts", "Fonts = 7\n", 'MonoFont = "x\n'])))
    write(d + "/deep.png", imgs_png16())
    write(d + "/notgif.jpg", imgs.gif(7, 5))
    bad_file(d + "/img.png", flt["img"], imgs.png(7, 5), dict(garbage=b"no image"))
    out = dict(ok="out.pdf", nodir="nodir/out.pdf", isdir="isdir", full="/dev/full")[flt["out"]]
    os.mkdir(d + "/isdir")
    return out


def imgs_png16():
    import struct, zlib
    ch = lambda t, b: struct.pack(">I", len(b)) + t + b + struct.pack(">I", zlib.crc32(t + b))
    return b"\x89PNG\r\n\x1a\n" + ch(b"IHDR", struct.pack(">IIBBBBB", 3, 2, 16, 2, 0, 0, 0)) + ch(b"IDAT", zlib.compress((b"\0" + b"\1\2" * 9) * 2)) + ch(b"IEND", b"")


def commands(cx):
    ex = cx.tlc("FaultsGen", "FaultsGen.cfg", tags=("CASE",), chunks=1, workers=2)
    cx.extra["exported_behaviours"] = len(ex)
    ex.sort(key=lambda c: json.dumps(c, sort_keys=True))
    nf = lambda c: sum(v != "ok" for v in c["flt"].values())
    if cx.quick:
        r = cx.rnd("cli")
        ex = [c for c in ex if nf(c) <= 1] * 2 + r.sample([c for c in ex if nf(c) > 1], 250)
        ex = [dict(c) for c in ex]
    bins = {}
    for n in ("xpdf", "describe", "image"):
        bins[n] = cx.go_build(cx.path("bin-" + n), "./cmd/" + n, vp.REPO, "cmd/" + n)
    for i, c in enumerate(ex):
        c["id"] = i + 1
    todo = list(reversed(ex))
    lock, errs = threading.Lock(), []

    def run(c):
        d = cx.path("cli%d" % c["id"])
        os.mkdir(d)
        r = cx.rnd("cli", c["id"])
        out = setup_cli(d, c["flt"], r)
        if c["cmd"] == "xpdf":
            implicit = out == "out.pdf" and r.random() < 0.3
            args = [d + "/in.xml" if r.random() < 0.5 else "in.xml"] + ([] if implicit else [out])
            c["out"] = os.path.join(d, "in.pdf" if implicit else out)
        else:
            args = ["in.xml"] if c["cmd"] == "describe" else ["img.png"]
        try:
            so = open("/dev/full", "wb") if c["flt"]["prt"] == "full" else subprocess.PIPE
            p = subprocess.run([bins[c["cmd"]]] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=so, stderr=subprocess.PIPE, timeout=60)
            c["rc"], c["msg"] = p.returncode, ((p.stdout or b"") + p.stderr).decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            c["rc"], c["msg"] = "hang", ""
        c["dir"] = d

    def work():
        while True:
            with lock:
                if not todo:
                    return
                c = todo.pop()
            try:
                run(c)
            except BaseException as e:      # noqa
                errs.append(e)
                return
    ts = [threading.Thread(target=work) for _ in range(vp.NCPU)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    files = cx.drive("pdffile", [dict(id=c["id"], path=c.get("out", c["dir"] + "/none") if c["flt"]["out"] != "full" else c["dir"] + "/none") for c in ex])
    # the same document by way of the library
    d0 = cx.path("clilib")
    os.mkdir(d0)
    setup_cli(d0, {k: "ok" for k in ("doc", "out", "def", "font", "lay", "img", "prt")}, cx.rnd(0))
    lib = cx.drive("run", [dict(id=0, xml=DOC % ("", ""), engine="pdf", wd=d0, hyph="en", fonts=d0 + "/fonts/fontdef.toml")])[0]
    if lib["fault"] or lib["load"] or lib["err"] or not lib["T"]:
        cx.violation("a valid document with a registered font fails: %s" % (lib["fault"] or lib["load"] or lib["err"]), dict(kind="run", xml=DOC % ("", "")), lib)
        return
    g = cx.groups.setdefault("commands", dict(traces=0, undecided=0, steps=0))
    n = 0
    for c, f in zip(ex, files):
        cx.traces += 1
        g["traces"] += 1
        w = ""
        if c["rc"] == "hang":
            w = "does not end"
        elif (c["rc"] == 0) != (c["st"] == "done"):
            w = "exit status %s, but the run should %s" % (c["rc"], "succeed" if c["st"] == "done" else "fail at step " + c["at"])
        elif c["st"] == "fail" and "error" not in c["msg"].lower() and (c["flt"]["prt"] == "ok" or c["at"] == "prt"):
            w = "no error message"
        elif c["st"] == "fail" and ("panic:" in c["msg"] or "goroutine " in c["msg"]):
            w = "crashes: " + c["msg"][:200]
        elif c["file"] == "pdf" and (f["fault"] or f["size"] <= 0 or any(f[k] != lib[k] for k in "TRLI")):
            w = "the written pdf is not complete: " + (f["fault"] or "its marks differ from those of the library's")
        elif c["file"] != "pdf" and f["size"] > 0:
            w = "failed, but wrote %d bytes" % f["size"]
        if w and n < 3:
            n += 1
            cx.violation("command %s with %s: %s" % (c["cmd"], {k: v for k, v in c["flt"].items() if v != "ok"} or "no fault", w), dict(kind="command", case=c), f)
    cx.sample({k: ex[-1][k] for k in ("cmd", "flt", "st", "at", "file")})
    for c in ex:
        shutil.rmtree(c["dir"], ignore_errors=True)


def loaders(cx):
    d = cx.path("loaders")
    os.mkdir(d)
    good = dict(doc=DOC % ("", ""), hyph="a1b\n.c2d3e\nf1\nxy1z.\n", **{"def": '[[Fonts]]\nName="Deja"\n[[Fonts.StyleDefinitions]]\nStyle="regular"\nFilePath="my.ttf"\n'})
    bad = dict(doc=[good["doc"][:200], good["doc"].replace("</box>", ""), "", "text only", good["doc"].replace("<newpage/>", "<nosuch/>"), good["doc"].replace("width:40", "width:a")],
               hyph=["a1b\nc\u0663d\n", "\u0663\n", "a1b\n" + "x" * 70000 + "\n"], **{"def": ["[[Fonts", "Fonts = 3\n", 'MonoFont = "a\n', "= =", good["def"] + "[[Fonts.StyleDefinitions]]\nStyle=7\n"]})
    cs = []
    for what in ("doc", "def", "hyph"):
        def add(flt, name, data=None, mk=None):
            p = "%s/%s-%d" % (d, what, len(cs))
            if mk:
                os.mkdir(p)
            elif data is not None:
                write(p, data)
            cs.append(dict(kind="loader", what=what, flt=flt, at=0, path=p, text="", n=0, size=0))
        add("none", "good", good[what])
        add("missing", "missing")
        add("dir", "dir", mk=True)
        for b in bad[what]:
            add("malformed", "bad", b)
    r = cx.rnd("loaders")
    docs = [good["doc"]] + [xm.render(dict(gens.g_mix(cx.rnd("ld", i)), id=i)) for i in range(cx.n(3, 40))]
    for what, texts in (("doc", docs), ("hyph", [good["hyph"], "".join("ab%dc\n" % (i % 9) for i in range(900))])):
        for t in texts:
            cs.append(dict(kind="loader", what=what, flt="none", at=0, path="", text=t, n=0, size=0))
            b = t.encode("utf-8")
            end = len(b) if what == "hyph" else b.rindex(b"</document>") + 10
            for at in sorted(set([0, 1, end - 1, end] + [r.randint(0, end) for _ in range(cx.n(40, 200))])):
                if what == "doc" and at < end or what == "hyph":
                    cs.append(dict(kind="loader", what=what, flt="read", at=at, path="", text=t, n=0, size=0))
    cases.judge(cx, "fault", cs, "FaultsTrace", "loaders", "loading", strip=("text", "path"))


def runs(cx):
    docs = []
    for i in range(cx.n(16, 200)):
        name = ["mix", "hf", "box", "paging"][i % 4]
        docs.append(getattr(gens, "g_" + name)(cx.rnd("fr", i), "pdf" if i % 4 == 3 else "fake"))
    base = [dict(xm.case(dict(d, id=i + 1), True, wd=cx.img), kind="run", flt="none", at=0) for i, d in enumerate(docs)]
    o0 = cx.drive("fault", base)
    cs = []
    r = cx.rnd("runs")
    for b, o in zip(base, o0):
        b = dict(b, n=o["calls"], size=o["bytes"])
        if o["fault"] or o["err"]:
            b["n"], b["size"] = 0, 0
            cs.append(b)            # judged without a fault: must not fail
            continue
        cs.append(b)
        if b["engine"] == "fake":
            ks = range(1, o["calls"] + 2) if o["calls"] <= cx.n(30, 400) else sorted(set([1, 2, o["calls"] - 1, o["calls"], o["calls"] + 1] + [r.randint(1, o["calls"]) for _ in range(cx.n(25, 300))]))
            cs += [dict(b, flt="engine", at=k) for k in ks]
            cs.append(dict(b, flt="pdf"))
        cs += [dict(b, flt="writer", at=k) for k in sorted(set([1, 2, o["bytes"] - 1, o["bytes"], o["bytes"] + 1] + [r.randint(1, o["bytes"]) for _ in range(cx.n(8, 40))]))]
    cases.judge(cx, "fault", cs, "FaultsTrace", "runs", "processing", strip=("xml", "engine", "geo", "wd", "hyph"))
