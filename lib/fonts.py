"""C22: font definitions -> registry (spec/FontsTrace.tla), and texts in registered fonts -> PDF
(spec/Trace.tla with the registry as part of the document)."""
import json, os, shutil
import vp, cases, gens, layout

SRC = "/usr/share/fonts/truetype/dejavu/"


def toml(s):
    return json.dumps(s, ensure_ascii=False)


def write_def(cx, r, i, fd):
    """writes the definition; returns (path, dir, the model's definition)"""
    base = cx.path("fonts")
    faces = os.path.join(base, "faces")
    if not os.path.isdir(faces):
        os.makedirs(faces)
        for f in gens.FACES.values():
            shutil.copy(SRC + f, faces)
    d = os.path.join(base, "d%d" % i)
    os.makedirs(os.path.join(d, "sub"))
    out, fonts = [], []
    if fd["mono"] or r.random() < 0.3:
        out.append("MonoFont = " + toml(fd["mono"]))
    for n, vs in fd["fams"]:
        out.append("[[Fonts]]\nName = " + toml(n))
        st = []
        for s, v, face in vs:
            f = gens.FACES[face]
            how = r.choice(["near", "sub", "up", "dots", "abs"])
            if how == "near":
                shutil.copy(os.path.join(faces, f), d)
                p = f
            elif how == "sub":
                shutil.copy(os.path.join(faces, f), os.path.join(d, "sub"))
                p = "sub/" + f
            elif how == "up":
                p = "../faces/" + f
            elif how == "dots":
                p = "./sub/../../faces//" + f
            else:
                p = os.path.join(faces, f)
            out.append("[[Fonts.StyleDefinitions]]\nStyle = %s\nFilePath = %s" % (toml(s), toml(p)))
            st.append(dict(s=s, p=p))
        fonts.append(dict(n=n, st=st))
    path = os.path.join(d, r.choice(["fontdef.toml", "other name.toml"]))
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
    return path, d, dict(mono=fd["mono"], fonts=fonts)


def check(cx):
    defs, cs = [], []
    for i in range(cx.n(24, 200)):
        r = cx.rnd("fontdef", i)
        fd = gens.fontdef(r)
        path, d, model = write_def(cx, r, i, fd)
        defs.append((fd, path))
        p = path
        if r.random() < 0.5:                    # relative to the working directory of the driver
            p = os.path.relpath(path, cx.tmp)
        cs.append(dict(path=p, dir=d, stop=r.choice([1, 2, 99]), **{"def": model}))
    cases.judge(cx, "fonts", cs, "FontsTrace", "definitions", "font definition", strip=("path",))
    docs = []
    for i in range(cx.n(150, 2500)):
        r = cx.rnd("fonts", i)
        fd, path = r.choice(defs)
        d = gens.g_fonts(r, "pdf", fd)
        d["fonts"], d["grp"] = path, "fonts/pdf"
        docs.append(d)
    layout.run(cx, docs)
