"""C19: degenerate documents - processing ends within the budget of pages (spec/BoundTrace.tla)."""
import gens, xm, cases

NUMS = ["0", "0", "-1", "-0.001", "0.001", "1e-9", "0.1", "1", "2", "5", "20", "50", "300", "1e6", "-1e6"]
WILD = ["1e300", "-1e300", "1e-300", "1e308", "-1e308"]
NONUM = ["NaN", "Inf", "-Inf"]          # no values of styles
LEN = ["w", "h", "ox", "oy", "ls", "cw", "lw"]


class D(gens.G):
    wild = 0.0

    def num(self):
        return self.ch(WILD) if self.p(self.wild) else self.ch(NUMS)

    def decl(self):
        k = self.ch(LEN + LEN + ["pt", "pt", "pad", "pad", "bor", "mar", "ha", "va", "fam"])
        if k in ("pad", "bor", "mar"):
            v = ",".join(self.num() if k != "bor" else self.ch(["0", "1", "-1", "20", "1000"]) for _ in range(4))
        elif k == "ha":
            v = self.ch(["left", "right", "center", "block", "block", "justify", ""])
        elif k == "va":
            v = self.ch(["top", "middle", "bottom", ""])
        elif k == "fam":
            v = self.ch(["Arial", "Courier", "Times"])
        elif k == "pt":
            v = self.ch(["0", "1", "-4", "6", "0.01", "72", "300", "800", "5000"] + (WILD if self.p(self.wild) else []))
        else:
            v = self.num()
        return dict(k=k, v=v)

    def mess(self, e):
        """degenerate style values somewhere in an element"""
        if self.p(0.5):
            e["d"] = list(e["d"]) + [self.decl() for _ in range(self.r.randint(1, 3))]
        return e

    def word(self, lo=1, hi=9):
        if self.p(0.05):
            return "".join(self.ch(gens.LET[:12]) for _ in range(self.ch([30, 80, 300])))
        return super().word(lo, hi)

    def inline(self, *a, **k):
        out = super().inline(*a, **k)
        for i in out:
            if i["k"] == "p":
                self.mess(i)
        if self.p(0.1):
            out.append(dict(k="t", w=[], cp=False))
        return gens.merge_text(out)

    def text(self, *a, **k):
        return self.mess(super().text(*a, **k))

    def box(self, *a, **k):
        return self.mess(super().box(*a, **k))

    def image(self):
        return self.mess(super().image())

    def cell(self, *a, **k):
        c = self.mess(super().cell(*a, **k))
        if self.p(0.15):
            c["cs"] = self.ch([0, -1, -1000000, 7, 40])
        if self.p(0.15):
            c["rs"] = self.ch([0, -1, -1000000, 7, 40])
        if self.p(0.1):
            c["is"] = []
        if self.p(0.06):
            c["is"] = c["is"] + [self.ch([self.text(0, 3), dict(k="newpage"), dict(k="lf", v="1e6"), dict(k="sety", v="1e6"),
                                          super().table(rows=(0, 2), cols=(0, 2)), dict(k="grid")])]
        return c

    def table(self, *a, **k):
        t = self.mess(super().table(*a, **k))
        if self.p(0.1):
            t["rows"] = [] if self.p(0.3) else [self.ch(t["rows"][:1] + [dict(c=[], d=[], cells=[])]) for _ in range(self.r.randint(1, 6))]
        if self.p(0.4):
            t["rep"] = self.ch([0, 1, 2, 3, 10, 10])
        for r in t["rows"]:
            self.mess(r)
        return t

    def small(self, cls=0.0, kinds=None):
        i = super().small(cls, kinds)
        if i["k"] in ("lf", "setx", "sety") and self.p(0.4):
            i["v"] = self.ch(NONUM) if self.p(self.wild * 0.6) else self.num()
        if i["k"] == "font":
            self.mess(i)
        return i


def doc(r, mode):
    g = D(r, "fake")            # documents as for the recording engine, for both engines
    g.wild = r.choice([0, 0, 0.1])
    g.classes(r.randint(0, 2))
    for c in g.cls:
        g.mess(c)
    kinds = ["lf", "setx", "sety", "font", "text", "text", "box", "box", "newpage", "image", "grid", "table", "table"]
    body = [g.small(0.3, kinds) for _ in range(r.randint(1, 6))]
    if r.random() < 0.3:
        body.append(g.table(rows=(0, 8), cols=(0, 4), span=0.4, words=(0, 4), box=0.3, image=0.1))
    hf = lambda: g.hf(0.2, True) if r.random() < 0.5 else []
    d = g.doc(body, hdr=hf(), ftr=hf(), w=(3, 90), h=(2, 90))
    d["mode"] = mode
    if mode == "pdf":
        d["fmt"], d["ori"] = r.choice(["a5", "a4", "letter", "", "nope"]), r.choice(["portrait", "landscape", "", "nope"])
    if r.random() < 0.3:        # margins larger than the page, none, negative
        for k in ("l", "t", "r", "b"):
            if r.random() < 0.5:
                v = r.choice([0, 0, 5000, -5000, 150000, 300000, 1000000])
                d["g"][k] = v
    return d


def chars(iss):
    return sum(sum(len(w) + 1 for w in i["w"]) + 1 if i["k"] in ("t", "p") else chars(i["is"]) if "is" in i else 1 for i in iss)


def skeleton(d):
    """what the budget is made of: the instructions of the body with their amount of content"""
    out = []
    for i in d["body"]:
        s = dict(k=i["k"], chars=0, boxes=0, rows=0)
        if "is" in i:
            s["chars"] = chars(i["is"])
        if i["k"] == "table":
            cs = [c for r in i["rows"] for c in r["cells"]]
            s.update(chars=sum(chars(c["is"]) for c in cs), boxes=sum(1 for c in cs for b in c["is"] if b["k"] in ("box", "image")),
                     rows=len(i["rows"]) + max([c["rs"] for c in cs] + [0]))     # spans beyond the table add rows
        out.append(s)
    return out


def check(cx):
    cs = []
    for mode, q, t in (("fake", 1200, 20000), ("pdf", 400, 6000)):
        for i in range(cx.n(q, t)):
            d = doc(cx.rnd("degen", mode, i), mode)
            d["id"] = len(cs) + 1
            c = xm.case(d, True, wd=cx.img)
            c["body"] = skeleton(d)
            cs.append(c)
    cases.judge(cx, "degen", cs, "BoundTrace", "degenerate", "degenerate document", strip=("xml", "engine", "wd", "hyph", "geo", "fonts"))
