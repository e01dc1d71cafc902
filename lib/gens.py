"""Generators of model documents. Every generator takes a random.Random and returns a document.

With the fake engine all lengths are multiples of 1/8 mm and point sizes are even, so that the
decisions of the layout (does it fit?) can be made exactly on both sides, and ties do occur."""

LET = "abcdefghijklmnopqrstuvwxyz"
COL = ["000000", "ff0000", "00ff00", "0000ff", "123456", "fedcba", "808080", "ffffff", "0a0b0c"]
FAMS = ["Arial", "Courier", "Times"]


class G:
    def __init__(self, r, mode="fake"):
        self.r = r
        self.mode = mode
        self.cls = []
        self.fams = FAMS if mode == "fake" else ["Courier", "Arial", "Times", "Helvetica"]
        self.cpp = 0.03                 # how often a piece of text mentions page numbers
        self.pats = self.patterns()
        self.frac = r.random() < (0.06 if mode == "fake" else 0.2)     # sizes that are no whole points
        self.vocab = []                 # few words used again and again
        if r.random() < 0.25:
            self.vocab = [self.word(2, 8) for _ in range(r.randint(3, 7))]

    def ch(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def mm8(self, lo, hi):
        """a multiple of 1/8 mm"""
        return self.r.randint(lo * 8, hi * 8) * 125

    # ---- page -------------------------------------------------------------
    def geo(self, w=(30, 90), h=(20, 60), grid=1500):
        r = self.r
        if self.mode == "pdf":
            self.fmt = self.ch(["a5", "a4", "letter", "legal", "a3"])
            self.ori = self.ch(["portrait", "landscape"])
            return page_geo(self.fmt, self.ori, r)
        l, rr = self.mm8(0, 20), self.mm8(0, 20)
        prw = r.randint(w[0] * 1000 // grid, w[1] * 1000 // grid) * grid
        t, b = self.mm8(0, 15), self.mm8(0, 15)
        prh = self.mm8(*h)
        return dict(w=l + rr + 2000 + prw, h=t + b + prh, l=l, t=t, r=rr, b=b)

    # ---- words ------------------------------------------------------------
    def word(self, lo=1, hi=9):
        r = self.r
        if self.vocab and r.random() < 0.9:
            return r.choice(self.vocab)
        k = r.random()
        n = r.randint(lo, hi)
        s = "".join(r.choice(LET) for _ in range(n))
        if self.mode == "fake":
            if k < 0.04:
                s = s + r.choice(["-", ",", ".", "&", "<x>", "\"q\"", "'"])
            elif k < 0.08:
                s = r.choice(["ä", "ß", "é", "-", "x-y", "—", "Ω"]) + s
            elif k < 0.12:
                s = s[0].upper() + s[1:]
            elif k < 0.14:
                # blanks which are none for XML or for the line breaking, and other characters a word may contain
                i = r.randint(0, len(s))
                s = s[:i] + r.choice("\u00a0\u00a0\u0085\u2003\u3000\u2028\u200b\u00ad\u202f\ufeff\u1680") + s[i:]
        elif k < 0.05:
            s = s + r.choice([",", ".", "(a)", "-", "&"])
        return s

    def words(self, lo, hi, wlo=1, whi=9, long=0.0):
        ws = [self.word(wlo, whi) for _ in range(self.r.randint(lo, hi))]
        if ws and self.p(long):
            ws[self.r.randrange(len(ws))] = "".join(self.ch(LET[:8]) for _ in range(self.r.randint(15, 70)))
        return ws

    def patterns(self):
        r = self.r
        ps, seen = [], set()
        for _ in range(r.choice([0, 3, 8, 20])):
            n = r.choice([1, 1, 2, 2, 3])
            l = "".join(r.choice(LET[:12]) for _ in range(n))
            if r.random() < 0.1:
                l = "." + l
            elif r.random() < 0.1:
                l = l + "."
            if l in seen:
                continue
            seen.add(l)
            ps.append(dict(l=l, w=[r.choice([0, 0, 1, 1, 2, 3, 4, 5]) for _ in range(len(l) + 1)]))
        return ps

    # ---- styles -----------------------------------------------------------
    def font_decls(self, most=3):
        r = self.r
        sizes = [40, 60, 80, 100, 120, 160, 160, 200] if self.mode == "fake" else [60, 120, 180, 240]
        if self.p(0.06):
            sizes = [20, 140, 240, 360, 480]
        elif self.frac:
            sizes = [75, 93, 105, 127]
        opts = [("pt", lambda: r.choice(sizes)),
                ("fam", lambda: r.choice(self.fams)),
                ("fwt", lambda: r.choice(["bold", "normal"])), ("fst", lambda: r.choice(["italic", "normal"])),
                ("fdc", lambda: r.choice(["underline", "normal"]))]
        r.shuffle(opts)
        ds = [dict(k=k, v=f()) for k, f in opts[:r.randint(0, most)]]
        return ds

    def colour(self, k):
        return dict(k=k, v=self.ch(COL))

    def text_decls(self, width=0.4, align=None):
        r = self.r
        ds = self.font_decls(2)
        if self.p(0.75):
            ds.append(dict(k="ha", v=align or self.ch(["left", "right", "center", "block", "block", "justify"])))
        if self.p(width):
            ds.append(dict(k="w", v=self.ch([self.mm8(8, 60), self.mm8(8, 60), 1000000, -5000])))
        if self.p(0.5):
            ds.append(dict(k="ls", v=self.ch([500, 1000, 1500, 2000, 3000])))
        if self.p(0.3):
            ds.append(self.colour("tx"))
        if self.p(0.1):
            ds.append(self.ch([dict(k="oy", v=self.mm8(0, 5)), dict(k="ox", v=self.mm8(0, 5)), dict(k="pad", v=[1000, 1000, 1000, 1000])]))
        r.shuffle(ds)
        return ds

    def quad(self, hi, zero=0.3):
        return [0 if self.p(zero) else self.mm8(0, hi) for _ in range(4)]

    def box_decls(self, hmax=30):
        r = self.r
        ds = self.font_decls(2)
        if self.p(0.5):
            ds.append(dict(k="pad", v=self.quad(4)))
        if self.p(0.6):
            ds.append(dict(k="bor", v=[self.ch([0, 0, 1000, 2000, -1000]) for _ in range(4)]))
        if self.p(0.5):
            ds.append(dict(k="w", v=self.ch([self.mm8(15, 60), self.mm8(15, 60), 1000000])))
        if self.p(0.4):
            ds.append(dict(k="h", v=self.ch([self.mm8(1, hmax), self.mm8(1, hmax), 0])))
        if self.p(0.25):
            ds.append(dict(k="ox", v=self.mm8(-2, 6)))
        if self.p(0.25):
            ds.append(dict(k="oy", v=self.mm8(-2, 6)))
        if self.p(0.5):
            ds.append(dict(k="ls", v=self.ch([500, 1000, 1500, 2000])))
        if self.p(0.5):
            ds.append(dict(k="ha", v=self.ch(["left", "right", "center", "block"])))
        for k in ("bg", "fg", "tx"):
            if self.p(0.4):
                ds.append(self.colour(k))
        if self.p(0.5):
            ds.append(dict(k="lw", v=self.ch([0, 250, 500, 1000])))
        if self.p(0.1):
            ds.append(dict(k="mar", v=self.quad(5)))
        r.shuffle(ds)
        return ds

    def any_decls(self, n):
        """declarations of any kind, repeated keys and unknown keys included"""
        pool = self.box_decls() + self.text_decls() + [dict(k="va", v=self.ch(["top", "middle", "bottom"])),
                                                       dict(k="unknown-key", v="7")]
        self.r.shuffle(pool)
        return pool[:n]

    def classes(self, n, selectors=True, few=2):
        for _ in range(n):
            c = dict(n=self.ch(["ca", "cb", "cc", "cd", "ce"]) if self.p(0.9) else "x-y", d=self.any_decls(self.r.randint(0, few + 1)), s=[])
            if selectors:
                for s in ("first-row", "last-row", "first-cell", "last-cell"):
                    if self.p(0.3):
                        c["s"].append(dict(n=s, d=self.any_decls(self.r.randint(0, few))))
            self.cls.append(c)
        seen = {}
        for c in self.cls:
            seen[c["n"]] = c
        if self.p(0.8):          # mostly without redefinitions
            self.cls = [seen[k] for k in seen]

    def cl(self, prob=0.4):
        if not self.p(prob):
            return []
        cs = [self.ch(["ca", "cb", "cc", "cd", "ce", "x-y", "nope"]) for _ in range(self.r.randint(1, 3))]
        if len(self.cls) > 1 and self.p(0.25):       # the same class once more
            cs = [c["n"] for c in self.r.sample(self.cls, min(len(self.cls), self.r.randint(2, 3)))]
            cs.insert(self.r.randint(1, len(cs)), cs[0])
        return cs

    # ---- inline content ---------------------------------------------------
    def inline(self, lo=1, hi=12, para=0.3, br=0.2, cls=0.0, long=0.05, cp=None, whi=9):
        out = []
        cp = self.cpp if cp is None else cp
        left = self.r.randint(lo, hi)
        while left > 0:
            k = self.r.randint(1, left)
            ws = self.words(k, k, 1, whi, long)
            left -= k
            iscp = self.p(cp)
            if iscp:
                ws[self.r.randrange(len(ws))] = self.ch(["{cp}", "p{cp}", "{cp}/{np}", "{cp}{cp}"])
            if self.p(para):
                out.append(dict(k="p", c=self.cl(cls), d=self.font_decls(3) + ([self.colour("tx")] if self.p(0.4) else [])
                                + ([dict(k="ls", v=3000)] if self.p(0.05) else []), w=ws, cp=iscp))
            elif out and out[-1]["k"] == "t":
                out.append(dict(k="br"))
                out.append(dict(k="t", w=ws, cp=iscp))
            else:
                out.append(dict(k="t", w=ws, cp=iscp))
            while self.p(br):
                out.append(dict(k="br"))
        if self.p(0.1):
            out.insert(0, dict(k="br"))
        while self.p(0.06):
            out.insert(self.r.randint(0, len(out)), dict(k="p", c=[], d=self.font_decls(1), w=[], cp=False))
        return merge_text(out)

    # ---- instructions -----------------------------------------------------
    def text(self, lo=1, hi=12, cls=0.0, **kw):
        a = kw.pop("align", None)
        return dict(k="text", c=self.cl(cls), d=self.text_decls(align=a), **{"is": self.inline(lo, hi, cls=cls, **kw)})

    def box(self, lo=0, hi=8, cls=0.0, hmax=30, **kw):
        return dict(k="box", c=self.cl(cls), d=self.box_decls(hmax), **{"is": self.inline(lo, hi, cls=cls, **kw) if hi else []})

    def image(self):
        r = self.r
        src, pw, ph = r.choice(IMAGES)
        ok = pw > 0
        ds = []
        if self.p(0.5):
            ds.append(dict(k="w", v=self.ch([self.mm8(1, 40), self.mm8(1, 40), self.mm8(1, 40), 0, 1000000, 500, 1000])))
        if self.p(0.5):
            ds.append(dict(k="h", v=self.ch([self.mm8(1, 40), self.mm8(1, 40), self.mm8(1, 40), 0, 1000000, 500, 1000])))
        if self.p(0.4):
            ds.append(dict(k="ox", v=self.mm8(-3, 6)))
        if self.p(0.4):
            ds.append(dict(k="oy", v=self.mm8(-3, 6)))
        return dict(k="image", c=[], d=ds, pw=max(pw, 1), ph=max(ph, 1), src=src, ok=ok, px="%dx%d" % (pw, ph))

    def small(self, cls=0.0, kinds=None):
        k = self.ch(kinds or ["lf", "lf", "setx", "sety", "font", "text", "box", "newpage", "image", "grid", "text"])
        if k == "lf":
            return dict(k="lf", v=self.ch([1000, 500, 2000, 3000, 0, 1500, -500 if self.mode == "fake" else 250]))
        if k == "setx":
            return dict(k="setx", v=self.ch([self.mm8(0, 40), self.mm8(0, 40), self.mm8(0, 40), -self.mm8(1, 40), 0]))
        if k == "sety":
            return dict(k="sety", v=self.ch([self.mm8(0, 40), self.mm8(0, 40), self.mm8(0, 40), -self.mm8(1, 20), 0]))
        if k == "font":
            return dict(k="font", c=self.cl(cls), d=self.font_decls(3) + ([dict(k="tx", v="ff0000")] if self.p(0.2) else []))
        if k == "text":
            return self.text(0, 6, cls)
        if k == "box":
            return self.box(0, 4, cls, hmax=10)
        if k == "image":
            return self.image()
        if k == "table":
            return self.table(cls=cls, rows=(1, 3), cols=(1, 3), span=0.15)
        return dict(k=k)

    def cell(self, cls, span, words=(0, 3), box=0.0, height=0.2, pad=0.5, cw=0.0, image=0.0, **kw):
        r = self.r
        cs = rs = 0
        if self.p(span):
            cs = r.choice([1, 2, 2, 3, 0, -1])
        if self.p(span):
            rs = r.choice([1, 2, 2, 3, 0, -2])
        ds = self.font_decls(1)
        if self.p(pad):
            ds.append(dict(k="pad", v=self.quad(2)))
        if self.p(0.3):
            ds.append(dict(k="bor", v=[self.ch([0, 1000]) for _ in range(4)]))
        if self.p(0.5):
            ds.append(dict(k="va", v=self.ch(["top", "middle", "bottom", "strange"])))
        if self.p(0.4):
            ds.append(dict(k="ha", v=self.ch(["left", "right", "center", "block"])))
        if self.p(height):
            ds.append(dict(k="h", v=self.mm8(1, 14)))
        if self.p(cw):
            ds.append(dict(k="cw", v=self.ch([r.randint(1, 12) * 1500, r.randint(1, 12) * 1500, r.randint(1, 12) * 1500, 0, -2000, 750])))
        for k in ("bg", "fg", "tx"):
            if self.p(0.15):
                ds.append(self.colour(k))
        if self.p(0.2):
            ds.append(dict(k="lw", v=self.ch([0, 250, 500, 1000])))
        if self.p(0.2):
            ds.append(dict(k="ls", v=self.ch([500, 1000, 2000])))
        r.shuffle(ds)
        iss = self.inline(words[0], words[1], para=0.2, br=0.1, cls=cls, long=0, whi=5) if words[1] else []
        if self.p(box):
            iss.insert(r.randint(0, len(iss)), self.box(0, 3, cls, hmax=10, long=0, whi=5))
            if self.p(0.3):
                iss.insert(r.randint(0, len(iss)), self.box(0, 3, cls, hmax=10, long=0, whi=5))
        if self.p(image):
            iss.insert(r.randint(0, len(iss)), self.image())
        return dict(c=self.cl(cls), d=ds, cs=cs, rs=rs, **{"is": merge_text(iss)})

    def table(self, rows=(1, 4), cols=(1, 4), cls=0.0, span=0.2, ragged=0.3, rep=None, **kw):
        r = self.r
        nr = r.randint(*rows)
        nc = r.randint(*cols)
        ds = []
        if self.p(0.4):
            ds.append(dict(k="w", v=self.ch([r.randint(8, 50) * 1500, r.randint(8, 50) * 1500, 1000000])))
        if self.p(0.3):
            ds.append(dict(k="bor", v=[1000] * 4))
        if self.p(0.3):
            ds.append(dict(k="pad", v=self.quad(2)))
        if self.p(0.3):
            ds.append(self.colour("bg"))
        if self.p(0.3):
            ds += self.font_decls(2)
        rws = []
        for _ in range(nr):
            n = nc if not self.p(ragged) else r.randint(0, nc)
            rws.append(dict(c=self.cl(cls), d=self.font_decls(1) if self.p(0.2) else [],
                            cells=[self.cell(cls, span, **kw) for _ in range(n)]))
        return dict(k="table", c=self.cl(cls), d=ds, rep=r.choice([0, 0, 1, 2]) if rep is None else rep, rows=rws)

    def hf(self, cls=0.0, paging=False):
        if self.p(0.25):
            return []
        kinds = ["text", "text", "sety", "setx", "font", "lf"]
        if paging:
            kinds += ["box", "box", "newpage", "table", "image", "grid"]
        return [self.small(cls, kinds) for _ in range(self.r.randint(1, 4))]

    def doc(self, body, hdr=None, ftr=None, **geo):
        if ftr and any(i["k"] == "table" for i in body + ftr) and [i["k"] for i in ftr[:2]] != ["setx", "sety"]:
            # where the footer of a page ended by a table row starts is not specified
            ftr = [dict(k="setx", v=self.mm8(0, 20)), dict(k="sety", v=self.mm8(0, 40))] + ftr
        d = dict(mode=self.mode, g=self.geo(**geo), cls=self.cls, hdr=hdr or [], ftr=ftr or [], body=body, pats=self.pats)
        if self.frac:
            d["frac"] = True
        if self.mode == "pdf":
            d.update(fmt=self.fmt, ori=self.ori)
        return d


# images written by the driver into the working directory: name, pixels (0: unreadable)
IMAGES = [("a.png", 40, 20), ("a.png", 40, 20), ("b.png", 30, 90), ("c.jpg", 64, 64), ("d.gif", 100, 10), ("sub/e.png", 7, 13),
          ("big.png", 900, 700), ("broken.png", 0, 0), ("missing.png", 0, 0)]

SIZES = dict(a3=(841.89, 1190.55), a4=(595.28, 841.89), a5=(420.94, 595.28), letter=(612, 792), legal=(612, 1008))


def page_geo(fmt, ori, r, margins=None):
    w, h = SIZES.get(fmt, SIZES["a4"])
    if ori == "landscape":
        w, h = h, w
    um = lambda pt: int(round(pt * 25400 / 72))
    l, t, rr, b = margins or (r.randint(0, 40) * 500, r.randint(0, 40) * 500, r.randint(0, 40) * 500, r.randint(0, 60) * 500)
    return dict(w=um(w), h=um(h), l=l, t=t, r=rr, b=b)


def merge_text(iss):
    """adjacent character data is one instruction of the document"""
    out = []
    for i in iss:
        if i["k"] == "t" and out and out[-1]["k"] == "t":
            out[-1] = dict(k="t", w=out[-1]["w"] + i["w"], cp=out[-1]["cp"] or i["cp"])
        else:
            out.append(i)
    return out


# ---- documents by purpose ---------------------------------------------------
def g_text(r, mode="fake"):
    """a text in every alignment, width and mix of fonts, on a page it may or may not fit"""
    g = G(r, mode)
    body = [g.text(1, 25, long=0.1 if mode == "fake" else 0) for _ in range(r.randint(1, 2))]
    if g.p(0.5):
        body.insert(0, dict(k="setx", v=g.mm8(0, 30)))
    return g.doc(body, w=(20, 60), h=(30, 80))


def g_block(r, mode="fake"):
    g = G(r, mode)
    g.pats = [p for k in range(3) for p in g.patterns()]
    seen = {p["l"]: p for p in g.pats}
    g.pats = list(seen.values())
    body = [g.text(1, 30, align="block", long=0.2, whi=14) for _ in range(r.randint(1, 2))]
    for b in body:
        if not any(x["k"] == "ha" for x in b["d"]):
            b["d"].append(dict(k="ha", v="block"))
    if g.p(0.4):
        body = [dict(k="box", c=[], d=[x for x in b["d"] if x["k"] not in ("oy", "ox")], **{"is": b["is"]}) for b in body]
    return g.doc(body, w=(20, 60), h=(40, 90))


def g_box(r, mode="fake"):
    g = G(r, mode)
    g.classes(r.randint(0, 2), False)
    body = []
    for _ in range(r.randint(1, 4)):
        if g.p(0.4):
            body.append(g.small(0.2, ["setx", "sety", "lf", "font"]))
        body.append(g.box(0, 10, 0.3))
    body.append(g.text(1, 2))
    d = g.doc(body, hdr=[g.box(0, 3)] if g.p(0.2) else [], ftr=[g.box(0, 3)] if g.p(0.2) else [], w=(40, 90), h=(40, 120))
    return d


def g_boxbreak(r, mode="fake"):
    """boxes close to the bottom of the page"""
    g = G(r, mode)
    g.cpp = g.ch([0.03, 0.03, 0.4])
    body = []
    geo = g.geo(h=(20, 50))
    bottom = geo["h"] - geo["b"]
    for _ in range(r.randint(1, 4)):
        b = g.box(0, 4, 0, hmax=25)
        if g.p(0.6):
            b["d"] = [x for x in b["d"] if x["k"] != "h"] + [dict(k="h", v=g.mm8(1, 20))]
        h = dict((x["k"], x["v"]) for x in b["d"])
        need = h.get("h", 9000) + h.get("oy", 0) + h.get("pad", [0] * 4)[1] + h.get("pad", [0] * 4)[3]
        k = r.random()
        if k < 0.5:
            y = bottom - need + g.ch([-125, 0, 125, -250, 250, -1000, 1000])
            if y > 0:
                body.append(dict(k="sety", v=y))
        elif k < 0.7:
            body.append(dict(k="lf", v=g.ch([1000, 2000, 500])))
        elif k < 0.8:
            body.append(dict(k="newpage"))
        body.append(b)
    d = g.doc(body, hdr=g.hf() if g.p(0.4) else [], ftr=g.hf() if g.p(0.4) else [])
    if mode == "fake":
        d["g"] = geo
    return d


def g_spans(r, mode="fake"):
    """tables whose interest is the spans"""
    g = G(r, mode)
    t = g.table(rows=(1, 5), cols=(1, 5), span=0.5, ragged=0.5, words=(0, 1), height=0.5, pad=0.1)
    return g.doc([t], w=(60, 120), h=(60, 200))


def g_widths(r, mode="fake"):
    g = G(r, mode)
    t = g.table(rows=(1, 4), cols=(1, 5), span=0.2, words=(0, 2), cw=0.5, pad=0.2)
    body = [t]
    if g.p(0.3):
        body.insert(0, dict(k="setx", v=g.mm8(0, 20)))
    return g.doc(body, w=(75, 150), h=(60, 200))


def g_heights(r, mode="fake"):
    g = G(r, mode)
    cw = g.ch([0, 0.3, 0.6])
    t = g.table(rows=(1, 4), cols=(1, 4), span=g.ch([0.2, 0.4]), words=(0, g.ch([3, 6, 12])), box=g.ch([0, 0.3]), height=g.ch([0, 0.25]), cw=cw)
    top = [dict(k="sety", v=0)] if g.p(0.12) else []      # at the edge of the page
    return g.doc(top + [t], w=(75, 120), h=(150, 400))


def g_paging(r, mode="fake"):
    """tables that run over several pages"""
    g = G(r, mode)
    g.cpp = g.ch([0.03, 0.03, 0.4])
    body = []
    if g.p(0.5):
        body.append(dict(k="sety", v=g.mm8(5, 50)))
    elif g.p(0.5):
        body.append(g.text(1, 20))
    if g.p(0.4):
        body.append(dict(k="setx", v=g.mm8(2, 25)))
    body.append(g.table(rows=(2, 12), cols=(1, 3), span=g.ch([0, 0, 0.15]), words=(0, 3), height=0.6, rep=r.choice([0, 1, 1, 2, 3]), box=0.05))
    if g.p(0.3):
        body.append(g.table(rows=(1, 5), cols=(1, 3), span=0, words=(0, 2), height=0.6, rep=r.choice([0, 1, 2])))
    body.append(g.text(1, 3))
    return g.doc(body, hdr=g.hf() if g.p(0.4) else [], ftr=g.hf() if g.p(0.4) else [], w=(40, 90), h=(30, 70))


def g_cascade(r, mode="fake"):
    g = G(r, mode)
    g.classes(r.randint(1, 5))
    body = [g.small(0.8, ["text", "box", "font", "image", "table", "text", "box", "table"]) for _ in range(r.randint(1, 3))]
    body.append(g.table(rows=(1, 4), cols=(1, 4), cls=0.6, span=0.05, words=(0, 2), box=0.1))
    return g.doc(body, w=(60, 120), h=(80, 200))


def g_leak(r, mode="fake"):
    g = G(r, mode)
    g.classes(r.randint(0, 3))
    kinds = ["text", "box", "table", "font", "text", "box", "table", "newpage", "image", "lf"]
    body = [g.small(0.3, kinds) for _ in range(r.randint(2, 6))]
    if g.p(0.4):
        body.append(dict(k="lf", v=1000))
    body.append(dict(k="text", c=[], d=[], **{"is": [dict(k="t", w=["plain"], cp=False)]}))
    body.append(dict(k="box", c=[], d=[], **{"is": []}))
    return g.doc(body, hdr=g.hf(0.3, True), ftr=g.hf(0.3, True), w=(40, 90), h=(30, 90))


def g_hf(r, mode="fake"):
    g = G(r, mode)
    g.cpp = g.ch([0.03, 0.03, 0.4])
    g.classes(r.randint(0, 2))
    kinds = ["text", "box", "newpage", "table", "text", "lf", "sety", "newpage", "font"]
    body = [g.small(0.2, kinds) for _ in range(r.randint(1, 6))]
    if g.p(0.4):
        body.append(g.text(10, 40))
    hdr, ftr = g.hf(0.2, True), g.hf(0.2, True)
    for h in (hdr, ftr):
        if g.p(0.5):
            h.append(dict(k="text", c=[], d=g.font_decls(2), **{"is": [dict(k="t", w=["page", "{cp}", "of", "{np}"], cp=True)]}))
    return g.doc(body, hdr=hdr, ftr=ftr, w=(40, 90), h=(25, 60))


def g_image(r, mode="fake"):
    g = G(r, mode)
    body = []
    for _ in range(r.randint(1, 3)):
        if g.p(0.4):
            body.append(g.small(0, ["setx", "sety", "lf"]))
        body.append(g.image())
    if g.p(0.5):
        body.append(g.table(rows=(1, 2), cols=(1, 3), span=0.1, words=(0, 2), height=0.7, image=0.6, ragged=0.1))
    body.append(g.text(1, 3))
    d = g.doc(body, hdr=[g.image()] if g.p(0.2) else [], w=(40, 120), h=(40, 120))
    return d


def g_cursor(r, mode="fake"):
    g = G(r, mode)
    g.classes(r.randint(0, 1))
    kinds = ["lf", "setx", "sety", "font", "text", "box", "newpage", "image", "grid", "table"]
    body = []
    for _ in range(r.randint(3, 10)):
        body.append(g.small(0.1, kinds))
        if body[-1]["k"] == "text" and g.p(0.5):     # in the current font, with others in it
            body[-1]["d"] = [x for x in body[-1]["d"] if x["k"] in ("ha", "w", "ls")]
        if body[-1]["k"] in ("text", "box", "table", "image") and g.p(0.4):
            body.append(dict(k="lf", v=g.ch([1000, 500, 2000])))
        if g.p(0.4):
            body.append(dict(k="text", c=[], d=[], **{"is": [dict(k="t", w=["x"], cp=False)]}))
    return g.doc(body, hdr=g.hf() if g.p(0.3) else [], ftr=g.hf() if g.p(0.3) else [], w=(30, 90), h=(25, 90))


def g_mix(r, mode="fake"):
    g = G(r, mode)
    g.classes(r.randint(0, 3))
    kinds = ["lf", "setx", "sety", "font", "text", "text", "box", "box", "newpage", "image", "grid", "table", "table"]
    body = [g.small(0.3, kinds) for _ in range(r.randint(1, 8))]
    return g.doc(body, hdr=g.hf(0.2, True) if g.p(0.5) else [], ftr=g.hf(0.2, True) if g.p(0.5) else [], w=(30, 100), h=(25, 100))


class Odd(G):
    """degenerate and oversized, but exact"""
    def odd(self, e, pt=False):
        if self.p(0.45):
            k = self.ch(["w", "w", "h", "h", "pad", "ls", "cw", "ox", "oy", "lw"] + (["pt"] if pt else []))
            v = {"w": [0, -5000, 125, 1000, 3000], "h": [0, -3000, 125, 60000, 100000, 200000], "ls": [0, 250, 8000],
                 "cw": [0, -1500, 1500, 75000, 300000], "ox": [-30000, 50000], "oy": [-30000, 50000, 100000], "lw": [0, -1000, 8000],
                 "pt": [20, 480, 960]}.get(k)
            e["d"] = list(e["d"]) + [dict(k=k, v=self.ch(v) if v else [self.ch([0, 2000, 20000, 60000, -2000]) for _ in range(4)])]
        return e

    def text(self, *a, **k):
        return self.odd(super().text(*a, **k), True)

    def box(self, *a, **k):
        return self.odd(super().box(*a, **k), True)

    def cell(self, *a, **k):
        c = self.odd(super().cell(*a, **k), True)
        if self.p(0.1):
            c["cs"] = self.ch([-5, 6, 9])
        if self.p(0.1):
            c["rs"] = self.ch([-5, 6, 9])
        return c

    def table(self, *a, **k):
        t = self.odd(super().table(*a, **k))
        if self.p(0.2):
            t["rep"] = self.ch([3, 10])
        return t


def g_odd(r, mode="fake"):
    g = Odd(r, mode)
    g.classes(r.randint(0, 1))
    kinds = ["lf", "setx", "sety", "font", "text", "text", "box", "box", "newpage", "table", "table"]
    body = [g.small(0.1, kinds) for _ in range(r.randint(1, 5))]
    if g.p(0.4):
        body.append(g.table(rows=(0, 6), cols=(0, 3), span=0.3, words=(0, 3), height=0.5))
    return g.doc(body, hdr=g.hf(0.2, True) if g.p(0.4) else [], ftr=g.hf(0.2, True) if g.p(0.4) else [], w=(9, 90), h=(6, 70))


# ---- registered fonts ---------------------------------------------------------
VARIANTS = [("regular", ""), ("bold", "B"), ("italic", "I"), ("bold+italic", "BI")]
FACES = {"": "DejaVuSansMono.ttf", "B": "DejaVuSansMono-Bold.ttf", "I": "DejaVuSansMono-Oblique.ttf", "BI": "DejaVuSansMono-BoldOblique.ttf"}


def fontdef(r):
    """a font definition: mono font and families with their variants and faces"""
    fams = []
    for name in r.sample(["Deja", "My Mono", "mono-x", "Z9"], r.randint(1, 3)):
        vs = [(s, v, v) for s, v in VARIANTS]
        if r.random() < 0.4:                      # any file for any variant
            faces = list(FACES)
            vs = [(s, v, r.choice(faces)) for s, v in VARIANTS]
        r.shuffle(vs)
        if r.random() < 0.2:
            vs.append((lambda x: (x[0], x[1], r.choice(list(FACES))))(r.choice(vs)))
        fams.append((name, vs))
    if r.random() < 0.6:                          # a family with some variants only
        fams.append(("Some", [(s, v, v) for s, v in r.sample(VARIANTS, r.randint(1, 3))]))
    r.shuffle(fams)
    return dict(mono=r.choice(["", "", "Deja", "Courier", "Nosuch"]), fams=fams)


def fontreg(fd):
    return [dict(n=n, v=v, key="utf8" + n.lower().replace(" ", "#20"), face=face) for n, vs in fd["fams"] for _, v, face in vs]


def g_fonts(r, mode="pdf", fd=None):
    """texts in built-in, registered, partly registered and unknown fonts"""
    g = G(r, mode)
    fd = fd or fontdef(r)
    full = [n for n, vs in fd["fams"] if n != "Some"]
    g.fams = g.fams + full * 2
    g.classes(r.randint(0, 2))
    kinds = ["text", "text", "box", "font", "table", "newpage"]
    body = [g.small(0.3, kinds) for _ in range(r.randint(2, 6))]
    if g.p(0.4):
        some = [n for n, vs in fd["fams"] if n == "Some"]
        n = g.ch(some * 3 + ["Nosuch"])
        v = g.ch(VARIANTS)[1]
        ds = [dict(k="fam", v=n), dict(k="fwt", v="bold" if "B" in v else "normal"), dict(k="fst", v="italic" if "I" in v else "normal")]
        body.insert(r.randint(0, len(body)), dict(k="text", c=[], d=ds, **{"is": [dict(k="t", w=["odd"], cp=False)]}))
    hdr = g.hf(0.2) if g.p(0.4) else []
    if g.p(0.4):
        hdr = [dict(k="text", c=[], d=g.font_decls(2), **{"is": [dict(k="t", w=["of", "{np}"] if g.p(0.7) else ["{cp}", "of", "{np}"], cp=True)]})]
    if g.p(0.1):
        body += [dict(k="newpage")] * g.ch([7, 8, 9, 10, 18])
    d = g.doc(body, hdr=hdr)
    d["reg"] = fontreg(fd)
    return d


# ---- documents of size ----------------------------------------------------------
def g_scale(r, mode="fake"):
    """one thing in large numbers"""
    g = G(r, mode)
    g.frac = False
    k = g.ch(["words", "words", "pieces", "rows", "rows", "cols", "instr", "pages", "classes", "pattern", "bigspans", "celltext", "longwords", "bighdr"])
    hdr = ftr = []
    kw = dict(w=(40, 120), h=(60, 250))
    tiny = [dict(k="pt", v=g.ch([40, 60]) if mode == "fake" else 60), dict(k="ls", v=g.ch([1000, 1500]))]
    if k == "words":
        al = g.ch(["left", "right", "center", "block", "block"])
        ws = g.words(260, 700, 1, g.ch([3, 7]))
        e = dict(k=g.ch(["text", "box"]) if len(ws) < 450 else "text", c=[], d=tiny + [dict(k="ha", v=al)],
                 **{"is": [dict(k="t", w=ws, cp=False)]})
        if e["k"] == "box":
            kw = dict(w=(120, 160), h=(200, 400))
        body = [e]
    elif k == "pieces":
        iss = []
        for i in range(r.randint(60, 140)):
            iss.append(dict(k="p", c=[], d=g.font_decls(1), w=g.words(1, 3), cp=False) if i % 2 else dict(k="t", w=g.words(1, 3), cp=False))
            if g.p(0.1):
                iss.append(dict(k="br"))
        body = [dict(k="text", c=[], d=tiny + [dict(k="ha", v=g.ch(["left", "block", "center"]))], **{"is": merge_text(iss)})]
    elif k == "rows":
        body = [g.table(rows=(30, 70), cols=(1, 2), span=g.ch([0, 0.05]), words=(0, 1), height=0.7, pad=0.1, ragged=0.05, rep=r.choice([0, 1, 3, 6, 10]))]
        body[0]["d"] += tiny[:1]
        kw = dict(w=(40, 80), h=(60, 120))
    elif k == "cols":
        body = [g.table(rows=(2, 4), cols=(10, 24), span=0.15, words=(0, 1), height=0.5, pad=0.1, cw=0.2, ragged=0.3)]
        kw = dict(w=(90, 150), h=(60, 120))
    elif k == "instr":
        body = [g.small(0.1, ["lf", "setx", "sety", "font", "text", "box", "grid", "image", "lf"]) for _ in range(r.randint(40, 90))]
        kw = dict(w=(40, 90), h=(60, 120))
    elif k == "pages":
        n = g.ch([9, 10, 11, 30, 100, 105] if mode == "fake" else [9, 11, 30])
        body = []
        for i in range(n):
            if i:
                body.append(dict(k="newpage"))
            if g.p(0.3) or i in (8, 9, 99):
                body.append(dict(k="text", c=[], d=[], **{"is": [dict(k="t", w=["on", "{cp}"], cp=True)]}))
        hdr = [dict(k="text", c=[], d=g.text_decls(align=g.ch(["right", "center", "left"])), **{"is": [dict(k="t", w=["{cp}", "of", "{np}"], cp=True)]})]
        ftr = g.hf()
    elif k == "classes":
        names = ["k%d" % i for i in range(r.randint(15, 40))]
        for n in names:
            g.cls.append(dict(n=n, d=g.any_decls(g.ch([1, 1, 2])), s=[]))
        body = []
        for _ in range(r.randint(1, 3)):
            e = g.ch([g.text, g.box])(1, 3)
            e["c"] = [g.ch(names) for _ in range(r.randint(4, 12))]
            e["d"] = e["d"][:1]
            body.append(e)
    elif k == "bigspans":
        body = [g.table(rows=(4, 10), cols=(2, 8), span=0, words=(0, 1), height=0.6, pad=0.1, cw=0.1, ragged=0.3)]
        for rw in body[0]["rows"]:
            for c in rw["cells"]:
                if g.p(0.2):
                    c["cs"] = r.randint(2, 8)
                if g.p(0.2):
                    c["rs"] = r.randint(2, 8)
        kw = dict(w=(90, 150), h=(60, 250))
    elif k == "celltext":
        body = [g.table(rows=(1, 3), cols=(1, 3), span=0.1, words=(20, 60), height=0, pad=0.5, ragged=0.1, box=0.3, cw=0.3)]
        body[0]["d"] += tiny
        kw = dict(w=(75, 120), h=(200, 300))
    elif k == "longwords":
        ps = {}
        for _ in range(25):
            l = "".join(g.ch(LET[:5]) for _ in range(g.ch([1, 2, 3])))
            ps[l] = dict(l=l, w=[g.ch([0, 0, 1, 1, 2, 3]) for _ in range(len(l) + 1)])
        g.pats = list(ps.values())
        ws = ["".join(g.ch(LET[:5]) for _ in range(g.ch([3, 8, 50, 98, 99, 100, 101, 102, 130, 200]))) for _ in range(r.randint(3, 12))]
        body = [dict(k=g.ch(["text", "box"]), c=[], d=tiny + [dict(k="ha", v="block")], **{"is": [dict(k="t", w=ws, cp=False)]})]
        kw = dict(w=(60, 200), h=(150, 250))
    elif k == "bighdr":
        hdr = [g.small(0.1, ["text", "setx", "sety", "font", "box", "table", "image", "lf"]) for _ in range(r.randint(8, 20))]
        ftr = [g.small(0.1, ["text", "setx", "sety", "font", "box", "lf"]) for _ in range(r.randint(5, 12))]
        body = [g.text(1, 5), dict(k="newpage"), g.box(1, 3), dict(k="newpage"), g.text(1, 5)]
        kw = dict(w=(60, 90), h=(60, 120))
    else:
        # long words under many patterns
        ps = {}
        for _ in range(60):
            l = "".join(g.ch(LET[:5]) for _ in range(g.ch([1, 2, 3, 4, 9, 12])))
            ps[l] = dict(l=l, w=[g.ch([0, 0, 0, 1, 1, 2, 3]) for _ in range(len(l) + 1)])
        g.pats = list(ps.values())
        body = [dict(k="text", c=[], d=tiny + [dict(k="ha", v="block")],
                     **{"is": [dict(k="t", w=["".join(g.ch(LET[:5]) for _ in range(r.randint(2, 60))) for _ in range(r.randint(5, 20))], cp=False)]})]
    return g.doc(body, hdr=hdr, ftr=ftr, **kw)
