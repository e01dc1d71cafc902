"""The document model of the specification and its XML form.

A model document is a dict (see spec/Xpdf.tla): lengths are integers in 1/1000 mm, texts are lists
of words.  render() writes the XML the code reads; the specification reads the model itself."""
import random, re
from xml.sax.saxutils import escape

KEYS = dict(fam="font-family", pt="font-point-size", fst="font-style", fwt="font-weight", fdc="font-decoration",
            bor="border", pad="padding", mar="margin", w="width", h="height", ls="line-spacing",
            ox="offset-x", oy="offset-y", cw="column-width", ha="h-align", va="v-align",
            fg="color", tx="text-color", bg="background-color", lw="line-width")
MM = {"w", "h", "ls", "ox", "oy", "cw", "lw"}


def num(v):
    """thousandths as a decimal number"""
    if isinstance(v, str):      # a number that is no length of the model
        return v
    s = "-" if v < 0 else ""
    v = abs(v)
    return s + (str(v // 1000) if v % 1000 == 0 else ("%d.%03d" % (v // 1000, v % 1000)).rstrip("0"))


def value(k, v):
    if k in MM:
        return num(v)
    if k in ("bor", "pad", "mar") and not isinstance(v, str):
        return ",".join(num(x) for x in v)
    if k == "pt" and not isinstance(v, str):      # tenths
        return str(v // 10) if v % 10 == 0 else "%d.%d" % (v // 10, v % 10)
    if k in ("fg", "tx", "bg"):
        return v if v.startswith("#") else "#" + v
    return str(v)


def decls(ds):
    return "; ".join("%s: %s" % (KEYS.get(x["k"], x["k"]), value(x["k"], x["v"])) for x in ds)


class Renderer:
    def __init__(self, seed=0, noise=True, wd=""):
        self.r = random.Random(seed)
        self.noise = noise
        self.wd = wd

    def ws(self, least=0):
        if not self.noise or self.r.random() < 0.6:
            return " " * least
        return "".join(self.r.choice([" ", "  ", "\n", "\t", "\r\n"]) for _ in range(max(least, self.r.randint(0, 3))))

    def attrs(self, e, **more):
        s = ""
        if e.get("c"):
            s += ' class="%s"' % (self.ws() + "".join((self.ws(1) if i else "") + c for i, c in enumerate(e["c"])) + self.ws())
        if e.get("d"):
            s += ' style="%s"' % escape(self.decls(e["d"]), {'"': "&quot;"})
        for k, v in more.items():
            s += ' %s="%s"' % (k, v)
        return s

    def decls(self, ds):
        s = decls(ds)
        if not self.noise or self.r.random() < 0.7:
            return s
        # other ways to write the same
        return self.ws() + "".join(self.ws() + ";" + self.ws() if x == ";" else self.ws() + ":" + self.ws() if x == ":" else x
                                   for x in re.split("([:;])", s)) + self.ws() + self.r.choice(["", ";", " ; ;"])

    def source(self, src):
        """other names of the same file"""
        k = self.r.random()
        if not self.noise or k < 0.7:
            return src
        if k < 0.8:
            return "./" + src
        if k < 0.87:
            return "sub/../" + src
        if not self.wd:
            return src
        if k < 0.94:
            return "../%s/%s" % (self.wd.rstrip("/").split("/")[-1], src)
        return self.wd + "/" + src

    def words(self, ws):
        out = self.ws()
        for i, w in enumerate(ws):
            if i:
                out += self.ws(1)
            out += escape(w)
        return out + self.ws()

    def ins(self, i):
        k = i["k"]
        if k == "t":
            return self.words(i["w"])
        if k == "p":
            return "<p%s>%s</p>" % (self.attrs(i), self.words(i["w"]))
        if k == "br":
            return "<br/>"
        if k == "font":
            return "<font%s/>" % self.attrs(i)
        if k == "lf":
            return '<lf lines="%s"/>' % num(i["v"])
        if k in ("setx", "sety"):
            return '<%s %s="%s"/>' % (k, k[-1], num(i["v"]))
        if k == "newpage":
            return "<newpage/>"
        if k in ("box", "text"):
            return "<%s%s>%s</%s>" % (k, self.attrs(i), self.content(i["is"]), k)
        if k == "image":
            return "<image%s>%s</image>" % (self.attrs(i), escape(self.source(i["src"])))
        if k == "grid":
            return i.get("raw") or '<grid><rows><gr>a a</gr><gr>b c</gr></rows><parts><part area="a"></part></parts></grid>'
        if k == "table":
            more = {}
            if i["rep"] or self.r.random() < 0.3:
                more["repeatheader"] = i["rep"]
            return "<table%s>%s</table>" % (self.attrs(i, **more), "".join(self.row(x) for x in i["rows"]))
        raise ValueError(k)

    def content(self, iss):
        # white space between the items is character data without words
        out = ""
        for i in iss:
            out += self.ws() + self.ins(i)
        return out + self.ws()

    def row(self, r):
        return "%s<tr%s>%s</tr>" % (self.ws(), self.attrs(r), "".join(self.cell(c) for c in r["cells"]))

    def cell(self, c):
        more = {}
        if "raw" in c:
            return c["raw"]
        if c["cs"] != 0:
            more["colspan"] = c["cs"]
        if c["rs"] != 0:
            more["rowspan"] = c["rs"]
        return "<td%s>%s</td>" % (self.attrs(c, **more), self.content(c["is"]))

    def block(self, name, iss):
        # character data between instructions is an instruction of its own that does nothing
        return "<%s>%s</%s>" % (name, "".join(self.ws() + self.ins(i) for i in iss) + self.ws(), name)

    def doc(self, d):
        g = d["g"]
        style = ""
        for c in d["cls"]:
            style += "%s { %s }\n" % (c["n"], self.decls(c["d"]))
            for s in c["s"]:
                style += "%s:%s { %s }\n" % (c["n"], s["n"], self.decls(s["d"]))
        out = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<document>"
        out += "<meta><author>a</author></meta>"
        out += "<page><orientation>%s</orientation><format>%s</format>" % (d.get("ori", "portrait"), d.get("fmt", "a4"))
        out += "<margins><left>%s</left><top>%s</top><right>%s</right><bottom>%s</bottom></margins></page>" % (
            num(g["l"]), num(g["t"]), num(g["r"]), num(g["b"]))
        out += "<style>%s</style>" % escape(style)
        out += self.block("header", d["hdr"]) + self.block("footer", d["ftr"]) + self.block("body", d["body"])
        return out + "</document>\n"


def render(d, noise=True, wd=""):
    return Renderer(d["id"], noise, wd).doc(d)


def pattern(p):
    """the text form of a hyphenation pattern: weights between the letters"""
    s = ""
    for i, w in enumerate(p["w"]):
        if w or (i == 0 and p.get("z")):
            s += str(w)
        if i < len(p["l"]):
            s += p["l"][i]
    return s


def case(d, noise=True, **more):
    """the harness case of a document"""
    g = d["g"]
    c = dict(id=d["id"], xml=render(d, noise, more.get("wd", "")), engine=d["mode"], wd=d.get("wd", ""),
             hyph="\n".join(pattern(p) for p in d["pats"]) or "zzzz1zzzz",
             geo=dict(W=g["w"] / 1000, H=g["h"] / 1000, Left=g["l"] / 1000, Top=g["t"] / 1000,
                      Right=g["r"] / 1000, Bottom=g["b"] / 1000))
    if d.get("fonts"):
        c["fonts"] = d["fonts"]
    c.update(more)
    return c
