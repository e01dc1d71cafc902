"""The parts of the checks that are not about layout: case generators and bindings to the modules
of the specification."""
import json, os, re, subprocess
import vp, cases


# ---- C14: text normalisation ---------------------------------------------
def text_replay(cx):
    n = 6 if cx.quick else 7
    cfg = open(os.path.join(vp.SPEC, "TextGen.cfg")).read().replace("N = 6", "N = %d" % n)
    f = cx.path("TextGen.cfg")
    open(f, "w").write(cfg)
    exported = cx.tlc("TextGen", f, tags=("CASE",), workers=4, xmx="4g")
    cx.extra["exported_behaviours"] = len(exported)

    def expect(c, o):
        if o["fault"]:
            return o["fault"]
        if o["x"] != c["x"]:
            return "%s of %s%s gave %s, specified is %s" % (c["op"], c["s"], c["t"] or "", o["x"], c["x"])
        if o["y"] != c["x"]:
            return "%s twice of %s gave %s" % (c["op"], c["s"], o["y"])
        return ""
    cases.replay(cx, "text", exported, expect, "exhaustive", "text normalisation")


def text_long(cx):
    r = cx.rnd("long")
    cs = []
    for i in range(cx.n(400, 6000)):
        if i % 3:
            alpha = r.choice([[32, 97], [32, 9, 10, 13, 92, 97, 98], [32, 32, 32, 92, 0xa0, 0x2003, 0xe4], [9, 11, 12, 0x85, 32, 65],
                              [92, 32, 110], [32, 0x1F600, 0xfeff, 97, 0xfffd], list(range(1, 128))])
            cs.append(dict(op="ws", s=[r.choice(alpha) for _ in range(r.choice([3, 10, 40, 150]))], t=[]))
        else:
            t = [r.choice([97, 98, 0xe4]) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5]))]
            s = []
            for _ in range(r.choice([2, 5, 12])):
                s += t * r.choice([1, 1, 2, 3, 4, 7]) if r.random() < 0.7 else [r.choice([97, 98, 99, 0xe4, 32])]
            cs.append(dict(op="tw", s=s[:120], t=t))
    # long runs
    for i in range(cx.n(12, 80)):
        s = []
        for _ in range(r.choice([1, 2])):
            s += [r.choice([97, 0xe4, 92, 66])] * r.choice([0, 1, 3]) + [r.choice([32, 32, 10, 9, 13]) for _ in range(1)] * r.choice([255, 256, 257, 300, 511, 513, 700])
        s += r.choice([[], [98], [32, 98], [92]])
        cs.append(dict(op="ws", s=s, t=[]))
    for i in range(cx.n(4, 20)):
        t = r.choice([[32], [97], [97, 98], [32]])
        cs.append(dict(op="tw", s=[120] + t * r.choice([257, 300, 400 // len(t)]) + [120], t=t))
    cases.judge(cx, "text", cs, "TextTrace", "long", "text normalisation")


# ---- C04: hyphenation ------------------------------------------------------
def lower(w):
    return "".join(c.lower() if len(c.lower()) == 1 else c for c in w)


def word(w):
    return dict(s=w, lo=lower(w), b=len(w.encode()))


def shipped(cx):
    f = cx.path("shipped.json")
    if not os.path.exists(f):
        d = {}
        for n in ("en", "latin"):
            t = {}
            for l in open(os.path.join(vp.VERIF, "data", "hyph-%s.txt" % n), encoding="utf-8"):
                l = l.strip()
                ws, ls = [], ""
                want = True
                for ch in l:
                    if want and ch.isdigit():
                        ws.append(int(ch))
                        want = False
                    else:
                        if want:
                            ws.append(0)
                        ls += ch
                        want = True
                if want:
                    ws.append(0)
                t[ls] = ws
            d[n] = dict(f=t, max=max(map(len, t)))
        open(f, "w", encoding="utf-8").write(json.dumps(d, ensure_ascii=False))
    return f


def casing(r, w):
    x = r.random()
    if x < 0.6:
        return w
    if x < 0.8:
        return w[:1].upper() + w[1:]
    return "".join(c.upper() if len(c.upper()) == 1 and c.upper().lower() == c and r.random() < 0.5 else c for c in w)


def hyph_cases(cx):
    r = cx.rnd("hyph")
    pats = {n: [l.strip() for l in open(os.path.join(vp.VERIF, "data", "hyph-%s.txt" % n), encoding="utf-8")] for n in ("en", "latin")}
    cs = []

    def add(set_, ws, lines=None):
        cs.append(dict(set=set_, ls=lines or [], lines="\n".join(lines or []), ws=ws, wl=[word(w) for w in ws]))
    # words around the shipped patterns
    for n in ("en", "latin"):
        ps = pats[n] if not cx.quick or n == "latin" else r.sample(pats[n], 900)
        ws = []
        for p in ps:
            l = re.sub(r"\d", "", p)
            core = l.strip(".")
            pre = "" if l.startswith(".") else "".join(r.choice("abcdeilmnorstu") for _ in range(r.randint(0, 4)))
            post = "" if l.endswith(".") else "".join(r.choice("abcdeilmnorstu") for _ in range(r.randint(0, 4)))
            ws.append(casing(r, pre + core + post))
            if not cx.quick:
                ws.append(core)
        letters = "abcdefghijklmnopqrstuvwxyz" if n == "en" else "abcdefghilmnopqrstuvæœ"
        for _ in range(cx.n(200, 3000)):        # several patterns run together, and anything else
            x = r.random()
            if x < 0.6:
                w = "".join(re.sub(r"[\d.]", "", r.choice(pats[n])) for _ in range(r.randint(2, 4)))
            elif x < 0.8:
                w = "".join(r.choice(letters) for _ in range(r.randint(1, 20)))
            else:
                w = "".join(r.choice(letters + "äöüßéÄÖ'-.,1 ") for _ in range(r.randint(1, 12)))
            ws.append(casing(r, w))
        ws += ["a" * k for k in (1, 2, 3, 99, 100, 101)] + ["é" * k for k in (1, 2, 50, 51)] + ["", "hyphen ation", "hyphenation" * 9, "hyphenation" * 9 + "h", "."]
        k = 40
        for i in range(0, len(ws), k):
            add(n, ws[i:i + k])
    # loaded patterns: overlapping, with equal letters, with weights at the ends, dots, non-ASCII letters
    allwords = []
    for n in range(1, 8):
        allwords += ["".join("ab"[(i >> j) & 1] for j in range(n)) for i in range(2 ** n)]
    for i in range(cx.n(60, 900)):
        lines = []
        al = r.choice(["ab", "ab", "abc", "abä", "aßé"])
        for _ in range(r.randint(1, 6)):
            ls = "".join(r.choice(al) for _ in range(r.randint(1, 4)))
            if r.random() < 0.2:
                ls = "." + ls
            if r.random() < 0.2:
                ls = ls + "."
            p = ""
            for k in range(len(ls) + 1):
                if r.random() < 0.5:
                    p += str(r.randint(0, 9) if r.random() < 0.3 else r.randint(1, 5))
                p += ls[k:k + 1]
            lines.append(r.choice(["", "", " ", "\t"]) + p + r.choice(["", "", " ", "\r"]))
            if r.random() < 0.15:
                lines.append("")
        ws = r.sample(allwords, 25) if cx.quick else list(allwords)
        ws += [casing(r, "".join(r.choice(al) for _ in range(r.randint(2, 14)))) for _ in range(10)]
        if r.random() < 0.1:
            ws += ["".join(r.choice(al) for _ in range(k)) for k in (49, 50, 51, 99, 100, 101)]
        add("", ws, lines)
    return cs


def hyph(cx):
    cases.judge(cx, "hyph", hyph_cases(cx), "HyphTrace", "words", "hyphenation", env=dict(SHIPPED=shipped(cx)), strip=("ws", "lines"))


# ---- C20: style and class texts ---------------------------------------------
STR = ("font-family", "font-style", "font-weight", "font-decoration", "h-align", "v-align")
NUM = ("font-point-size", "width", "height", "line-spacing", "offset-x", "offset-y", "column-width", "line-width")
RGB = ("color", "text-color", "background-color")
FOUR = ("padding", "margin")
KEYS = STR + NUM + RGB + FOUR + ("border",)
UNKNOWN = ("Width", "colour", "font", "foo", "x", "with", "left", "background", "line", "text color", "widht", "row-height", "border-left", "fontfamily")
GOODNUM = ["0", "1", "12", "-3", "+4", "0.5", "-0.25", "12.50", "007", "1e2", "1.5e1", "25e-2", "2E+1", ".5", "3.", "-.75", "100000", "0.125", "1234567.25", "-0",
           "0.001", "0.0004", "-0.00625", "1e-3", "123456.789", "0.123456789", "16777217", "33.333333333", "123456789012.375", "0.1", "0.3", "297.000001"]
BADNUM = ["", "x", "1x", "1,5", "--1", "1.2.3", "e5", "1e", ".", "-", "1 2", "1e+", "#1", "5mm", "12px", "0.5.", "1.5 2", "NaN", "nan", "Inf", "+Inf", "-inf", "Infinity"]
GOODINT = ["0", "1", "2", "10", "-1", "+3", "007"]
BADINT = ["", "x", "1.5", "1e1", "--1", "1x", "0x1", ".5", "-"]
GOODRGB = ["ff0000", "#00ff00", "#AbCdEf", "012345", "#ffffff", "000000", "#000001", "0a0B0c", "#0100fe", "fedcba"]
BADRGB = ["", "#", "fff", "#fff", "gg0000", "#12345", "1234567", "##12345", "#1234567", "red", "00 000", "-12345", "+12345", "0x1234", "#00000g", "##00ff00", "###abcdef", "#a#bcdef", "00ff00#", "#", "##", "# 00ff00"]


def four(r, good, bad, ok):
    if ok:
        return r.choice([",", ",", ", ", ",  "]).join(r.choice(good) for _ in range(4))
    x = r.random()
    vs = [r.choice(good) for _ in range(4)]
    if x < 0.3:
        vs = vs[:r.randint(0, 3)]
    elif x < 0.6:
        vs += [r.choice(good) for _ in range(r.randint(1, 2))]
    elif x < 0.9:
        vs[r.randrange(4)] = r.choice(bad)
    else:
        return ";".join(vs[:1]) + r.choice(["", " ", "px"]).join(vs[1:])
    return ",".join(vs)


def edited(r, v):
    """a value with a character inserted, doubled, left out, or swapped with the next"""
    i = r.randrange(len(v))
    x = r.random()
    if x < 0.35:
        return v[:i] + r.choice("0179.+-,#afgx ") + v[i:]
    if x < 0.6:
        return v[:i] + v[i] + v[i:]
    if x < 0.85:
        return v[:i] + v[i + 1:]
    return v[:i] + v[i + 1:i + 2] + v[i] + v[i + 2:]


def stval(r, k, ok=True):
    if not ok and k not in STR and r.random() < 0.4:
        for _ in range(5):
            v = edited(r, stval(r, k))
            if "e" not in v.lower() or k in RGB:         # (no huge exponents)
                return v
    if k in STR:
        return r.choice(["", "left", "right", "bold", "Arial", "Times New Roman", "space-type", "x y", "italic", "middle", "ä", "12", "#fff", "1,2", "none-such"])
    if k in NUM:
        if ok and r.random() < 0.2:         # up to 15 digits
            d = str(r.randint(1, 10 ** r.randint(1, 15) - 1))
            i = r.randint(0, len(d))
            return r.choice(["", "-", "+"]) + d[:i] + ("." if i < len(d) else "") + d[i:]
        return r.choice(GOODNUM if ok else BADNUM)
    if k in RGB:
        return r.choice(GOODRGB if ok else BADRGB)
    if k == "border":
        return four(r, GOODINT, [b for b in BADINT], ok)
    return four(r, GOODNUM, [b for b in BADNUM if "," not in b], ok)


def blanks(r):
    return r.choice(["", "", " ", "  ", "\n", "\t", "\r\n", " \n\t"])


def stdecls(r, n, pbad, keys=KEYS):
    out = []
    for _ in range(n):
        x = r.random()
        if x < 0.08:
            out.append(blanks(r))
            continue
        if x < 0.2:
            k, v = r.choice(UNKNOWN), r.choice(["1", "x", "", "#fff", "1,2,3,4"])
        else:
            k = r.choice(keys)
            v = stval(r, k, k in STR or r.random() >= pbad)
        d = blanks(r) + k + blanks(r) + ":" + blanks(r) + v + blanks(r)
        if r.random() < pbad * 0.3:
            d = r.choice([k, k + " " + v, k + ":" + v + ":", ":" + k + ":" + v, k + "::" + v, ":" + v, " : ", k + "=" + v])
        out.append(d)
    return ";".join(out) + r.choice(["", "", ";", " ; ", ";;"])


def style_cases(cx):
    r = cx.rnd("style")
    cs = []
    # every key with every value of every kind
    vals = sorted(set(GOODNUM + BADNUM + GOODRGB + BADRGB + ["1,2,3,4", "1, 2, 3, 4", "0.5,1.5,2.5,-3", "1,2,3", "1,2,3,4,5", "1,2,3,x", ",,,", "1,2,3,", "1,2,3,4,",
                                                              "1,2,3,4 5", "left", "Arial", "1,2,3,4.5.6", "#1,2,3,4"]))
    for k in KEYS:
        for v in vals:
            cs.append(dict(op="mut", t="%s:%s" % (k, v)))
    # every pair of keys, in both orders
    for k in KEYS:
        for l in KEYS:
            cs.append(dict(op="mut", t="%s: %s; %s :%s" % (k, stval(r, k), l, stval(r, l))))
    for k in UNKNOWN + tuple(x.upper() for x in KEYS) + tuple(x.replace("-", "") + "s" for x in KEYS):
        cs.append(dict(op="mut", t=k + ": 1"))
    for t in ["", " ", ";", ";;;", " ; ", "\n", ":", "::", "a", "a:b", "a:b:c", "width:1;;height:2", "width:1;height", "width 1", ":1", " :1", "width:1;:"]:
        cs.append(dict(op="mut", t=t))
    for i in range(cx.n(900, 25000)):
        cs.append(dict(op="mut", t=stdecls(r, r.choice([1, 2, 3, 5, 8]), r.choice([0, 0, 0.1, 0.4]))))
    # classes
    names = ["a", "b", "c", "head", "a1", "x-y", "Ä", "a b", "a.b"]
    sels = ["first-row", "last-row", "first-cell", "last-cell", "x", "", "first:row"]
    for i in range(cx.n(700, 15000)):
        pbad = r.choice([0, 0, 0, 0.05, 0.2])
        t, used = "", []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            nm = r.choice(names[:4] if r.random() < 0.8 else names)
            if used and r.random() < 0.45:
                nm = (r.choice(used) if r.random() > pbad * 0.5 else nm) + ":" + r.choice(sels)
            elif ":" not in nm:
                used.append(nm)
            if r.random() < pbad * 0.3:
                nm = r.choice(["", " ", nm + "{", ":" + nm])
            t += blanks(r) + nm + blanks(r) + "{" + blanks(r) + stdecls(r, r.choice([0, 1, 2, 3]), pbad) + blanks(r)
            if r.random() >= pbad * 0.2:
                t += "}"
            t += blanks(r)
        if r.random() < 0.05:
            t += r.choice(["x", "}", "x }", "{", "{}", "a:first-row"])
        cs.append(dict(op="cls", t=t))
    return cs


def styles(cx):
    cases.judge(cx, "style", style_cases(cx), "DecodeTrace", "texts", "style decoding")


# ---- C15: loading -------------------------------------------------------------
def esc(s, q=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    return s.replace('"', "&quot;") if q else s


def token_xml(r, tk, cdata=True):
    """tokens as XML text; r varies the notation"""
    out = []
    i = 0
    while i < len(tk):
        t = tk[i]
        if t["k"] == "s":
            a = "".join("%s%s=%s%s%s" % (r.choice([" ", "  ", "\n"]), n, '"', esc(v, True), '"') for n, v in t["a"])
            if i + 1 < len(tk) and tk[i + 1]["k"] == "e" and tk[i + 1]["n"] == t["n"] and r.random() < 0.6:
                out.append("<%s%s/>" % (t["n"], a))
                i += 1
            else:
                out.append("<%s%s%s>" % (t["n"], a, r.choice(["", "", " "])))
        elif t["k"] == "e":
            out.append("</%s>" % t["n"])
        elif t["k"] == "c":
            s = t["s"]
            if cdata and "]]" not in s and r.random() < 0.1:
                out.append("<![CDATA[%s]]>" % s)
            else:
                out.append(esc(s))
        else:
            out.append(t["x"])
        if r.random() < 0.03 and t["k"] == "e":
            out.append(r.choice(["<!-- note <box> -->", "<?pi x?>"]))
        i += 1
    return "".join(out)


class DocGen:
    """random documents as tokens; err: how many things go wrong"""
    CH = dict(iss=["box", "text", "p", "br", "table", "font", "lf", "setx", "sety", "image", "newpage", "grid", "td", "tr", "part"],
              table=["tr", "tr", "tr", "tr", "box", "td"], tr=["td", "td", "td", "td", "box", "p"], td=["box", "p", "br", "image", "text", "table", "td", "foo", "bar"],
              grid=["gr", "part", "rows", "foo", "box"], part=["box", "text", "p", "foo", "image"])

    def __init__(self, r, err):
        self.r, self.err, self.tk = r, err, []

    def bad(self, p=0.5):
        if self.err > 0 and self.r.random() < p * 0.2:
            self.err -= 1
            return True
        return False

    def st(self, n, a=()):
        self.tk.append(dict(k="s", n=n, a=[list(x) for x in a]))

    def en(self, n):
        if self.bad(0.1):
            x = self.r.random()
            if x < 0.3:
                return                                  # end tag missing
            if x < 0.6:
                n = self.r.choice(["box", "td", "body", n + "x"])
            else:
                self.tk.append(dict(k="x", x=self.r.choice(["<", "&nosuch;", "<1>", "<a b>", "&", "<a b=c>", "\x01"])))
        self.tk.append(dict(k="e", n=n))

    def ch(self, s=None):
        if s is None:
            s = self.r.choice(["x", "some text", " ", "\n  ", "a & b", "<tag>", "{cp}", "ä ö ü", "  two  words ", "\t", "]] >", '"q"'])
        self.tk.append(dict(k="c", s=s))

    def style(self):
        r = self.r
        if self.bad():
            return r.choice(["width: x", "width", "color: red", "padding: 1,2", "border: 1,2,3,4,5", "a:b:c", "width:1;height"])
        return "; ".join("%s: %s" % (k, stval(r, k).replace("\r", "")) for k in r.sample(KEYS, r.randint(0, 2)))

    def attrs(self, n):
        r, a = self.r, []
        if n in ("lf", "setx", "sety") and r.random() < 0.95:
            a.append(({"lf": "lines", "setx": "x", "sety": "y"}[n], r.choice(BADNUM[1:6] if self.bad() else GOODNUM + [" 12 ", ""])))
        if n == "table" and r.random() < 0.5:
            a.append(("repeatheader", r.choice(["11", "-1", "x", "", "1.5", "100"] if self.bad() else ["0", "1", "2", "10", "+3", "007"])))
        if n == "td":
            for k in ("colspan", "rowspan"):
                if r.random() < 0.4:
                    a.append((k, r.choice(["x", "", "1.5", "2x", " 2"] if self.bad() else ["0", "1", "2", "3", "-1", "12", "+2"])))
        if r.random() < 0.3:
            a.append(("class", r.choice(["", "a", "a b", " b  a ", "a\tb", "nosuch", "a a"])))
        if r.random() < 0.3:
            a.append(("style", self.style()))
        if r.random() < 0.1:
            a.append((r.choice(["id", "foo", "Style", "lang"]), r.choice(["", "1", "width: x"])))
        r.shuffle(a)
        return a

    def kids(self, kind, depth, n):
        for _ in range(n):
            self.kid(kind, depth)

    def kid(self, kind, depth):
        r = self.r
        if self.bad(0.3):
            self.elem(r.choice(["foo", "bar", "body", "Box", "style", "document"]), depth - 1, force=True)
            return
        if r.random() < (0.45 if kind != "grid" else 0.1):
            self.ch()
            return
        self.elem(r.choice(self.CH[kind]), depth - 1)

    def elem(self, n, depth, force=False):
        r = self.r
        kind = {"box": "iss", "text": "iss", "table": "table", "tr": "tr", "td": "td", "grid": "grid", "part": "part"}.get(n)
        if depth <= 0 and kind and r.random() < 0.8 and not force:
            n, kind = "p", None
        at = self.attrs(n)
        if n == "grid":
            return self.grid(at, depth)
        if n == "part":
            at = at + [["area", r.choice(["a", "b"])]]
        self.st(n, at)
        m = r.choice([0, 1, 1, 2, 3]) if depth > 0 else r.choice([0, 0, 1])
        if kind:
            self.kids(kind, depth, m)
        elif n in ("p", "image"):
            for _ in range(r.choice([0, 1, 1, 1, 2])):
                if r.random() < 0.85:
                    self.ch()
                else:
                    self.elem(r.choice(["b", "i", "br", "box", "td"]), 0)
        elif n in ("foo", "bar", "rows", "b", "i"):
            self.kids("td" if n != "rows" else "td", depth, m)
        elif r.random() < 0.1:
            self.ch()
        self.en(n)

    def grid(self, at, depth):
        r = self.r
        areas = ["a", "b", "c"]
        w = r.randint(1, 3)
        self.st("grid", at)
        wrap = r.random() < 0.7
        if wrap:
            self.st("rows")
        nr = 0 if self.bad() else r.randint(1, 3)
        used = set()
        for _ in range(nr):
            row = [r.choice(areas) for _ in range(w + (1 if self.bad() else 0))]
            used |= set(row)
            self.st("gr", self.attrs("gr"))
            t = " ".join(row)
            if r.random() < 0.25:           # a comment within the text
                i = r.randint(0, len(t))
                self.ch(t[:i])
                self.tk.append(dict(k="c", s=""))
                t = t[i:]
            self.ch(t)
            self.en("gr")
        if wrap:
            self.en("rows")
        for _ in range(r.randint(0, 2)):
            ar = r.choice(["d", "", "nosuch"]) if self.bad() else r.choice(sorted(used) or ["a"])
            self.st("part", self.attrs("part") + [["area", ar]])
            self.kids("part", depth - 1, r.choice([0, 1, 2]))
            self.en("part")
        if r.random() < 0.1:
            self.elem("foo", 0)
        self.en("grid")

    def doc(self):
        r = self.r
        if r.random() < 0.3:
            self.tk.append(dict(k="c", s=""))
        self.st(r.choice(["documents", "doc", "body"]) if self.bad(0.1) else "document", self.attrs("x") if r.random() < 0.1 else ())
        secs = ["meta", "page", "style", "header", "footer", "body"]
        if r.random() < 0.4:
            r.shuffle(secs)
        for s in secs:
            if r.random() < 0.25 and s != "body":
                continue
            if r.random() < 0.3:
                self.ch(r.choice([" ", "\n", "junk"]))
            if r.random() < 0.05:
                self.elem(r.choice(["foo", "box", "bar"]), 2)
            if s == "meta":
                self.st(s)
                for f in ("author", "creator", "subject"):
                    if r.random() < 0.6:
                        self.st(f)
                        self.ch()
                        self.en(f)
                self.en(s)
            elif s == "page":
                self.st(s)
                for f, vs in (("orientation", ["portrait", "landscape", "x"]), ("format", ["a4", "a3", "letter", ""])):
                    if r.random() < 0.8:
                        self.st(f)
                        self.ch(r.choice(vs))
                        self.en(f)
                if r.random() < 0.8:
                    self.st("margins")
                    for f in ("left", "top", "right", "bottom"):
                        if r.random() < 0.8:
                            self.st(f)
                            self.ch(r.choice(BADNUM[1:4] + [" "]) if self.bad() else r.choice(GOODNUM + ["", " 20 ", "\n15"]))
                            self.en(f)
                    if r.random() < 0.1:
                        self.elem("foo", 0)
                    self.en("margins")
                self.en(s)
            elif s == "style":
                self.st(s)
                t = ""
                for nm in r.sample(["a", "b", "c"], r.randint(0, 3)):
                    t += "%s { %s }\n" % (nm, self.style())
                    if r.random() < 0.3:
                        t += "%s:%s { %s }\n" % (nm if not self.bad() else "zz", r.choice(["first-row", "last-cell"]), self.style())
                if self.bad():
                    t += r.choice(["a { width: 1", "{ width: 1 }", "zz:first-row {}", "a { width }"])
                self.ch(t)
                self.en(s)
            else:
                self.st(s, self.attrs(s) if r.random() < 0.2 else ())
                self.kids("iss", 4, r.choice([0, 1, 2, 4]) if s != "body" else r.choice([1, 3, 6]))
                self.en(s)
        self.en("document")
        if r.random() < 0.1:
            self.tk.append(dict(k="x", x=r.choice(["<box/>", "</x>", "text", "<document/>"])))
        if self.bad(0.3):
            self.tk = self.tk[:r.randint(1, len(self.tk) - 1)]
        return self.tk


def join_chars(tk):
    """adjacent character data is one token for the specification"""
    out = []
    for t in tk:
        if t["k"] == "c" and out and out[-1]["k"] == "c":
            out[-1] = dict(k="c", s=out[-1]["s"] + t["s"])
        else:
            out.append({k: v for k, v in t.items() if k != "x"})
    return out


def load_random(cx):
    cs = []
    for i in range(cx.n(1500, 30000)):
        r = cx.rnd("load", i)
        g = DocGen(r, r.choice([0, 0, 1, 1, 2]))
        tk = g.doc()
        ended = next((k for k, t in enumerate(tk) if t["k"] == "e" and t["n"] == "document"), None)
        cs.append(dict(tk=join_chars(tk), xml=token_xml(r, tk), rfail=ended is None and r.random() < 0.5))
    cases.judge(cx, "load", cs, "LoadTrace", "random", "loading", strip=("xml", "rfail"))


def load_replay(cx):
    n = 3 if cx.quick else 4
    f = cx.path("LoadGen.cfg")
    open(f, "w").write(open(os.path.join(vp.SPEC, "LoadGen.cfg")).read().replace("N = 3", "N = %d" % n))
    ex = cx.tlc("LoadGen", f, tags=("CASE",), workers=4, xmx="6g")
    cx.extra["exported_behaviours"] = len(ex)
    r = cx.rnd("replay")
    for c in ex:
        c["xml"] = token_xml(r, c["tk"] + [dict(k="e", n=x) for x in c["open"]])

    def expect(c, o):
        if o["fault"]:
            return o["fault"]
        if (c["st"] == "err") != bool(o["err"]):
            return "%s: specified is %s, observed %s" % (c["xml"], c["st"], o["err"] or "a document")
        if c["st"] != "err" and o["doc"] != [c["doc"]]:
            return "%s loaded as %s, specified is %s" % (c["xml"], json.dumps(o["doc"][0]["body"]), json.dumps(c["doc"]["body"]))
        return ""
    cases.replay(cx, "load", ex, expect, "exhaustive", "loading")


# ---- C21: descriptions ----------------------------------------------------------
def describe_cases(cx):
    cs = []
    for i in range(cx.n(700, 15000)):
        r = cx.rnd("describe", i)
        tk = DocGen(r, 0).doc()
        cs.append(dict(tk=join_chars(tk), xml=token_xml(r, tk, cdata=False)))
    return cs


def describe(cx):
    cs = describe_cases(cx)
    cases.judge(cx, "describe", cs, "DescribeTrace", "documents", "description", strip=("xml",))
    if cx.violations:
        return
    # the command prints the XML dump
    some = [c for c in cs[:400]][:cx.n(40, 400)]
    obs = cx.drive("describe", [dict(c, dump=True) for c in some])
    exe = cx.go_build(cx.path("describe"), "./cmd/describe", vp.REPO, "the describe command")
    g = cx.groups.setdefault("command", dict(traces=0, undecided=0, steps=0))
    for c, o in zip(some, obs):
        f = cx.path("d.xml")
        with open(f, "w", encoding="utf-8", newline="") as fo:
            fo.write(c["xml"])
        p = subprocess.run([exe, f], cwd=cx.tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        g["traces"] += 1
        cx.traces += 1
        want = "ERROR" if o["load"] else o.get("dumped", "") + "\n"
        have = p.stdout.decode("utf-8", "replace")
        if o["load"]:
            ok = p.returncode != 0 and "ERROR" in have
        else:
            ok = p.returncode == 0 and have == want
        if not ok:
            cx.violation("describe command: exit %d, output differs from the dumped description" % p.returncode, dict(kind="describe-command", case=c),
                         dict(have=have, want=want))
            break
