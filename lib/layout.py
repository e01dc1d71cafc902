"""Conformance of the layout: documents -> real code -> marks -> validated by spec/Trace.tla."""
import json, random
import gens, xm
from vp import suspects

OBS = ("fault", "load", "err", "T", "R", "L", "I", "pages", "sizes")
EMPTY = dict(load="", err="", T=[], R=[], L=[], I=[], pages=0, sizes=[])


def attach(docs, obs):
    out = []
    for d, o in zip(docs, obs):
        if "T" not in o:
            o = dict(EMPTY, **o)
        out.append(dict(d, obs={k: o[k] for k in OBS}))
    return out


def corpus(cx, plan):
    """plan: (generator, mode, quick, thorough) or (family, bound, quick, thorough), 0 for all -> documents"""
    docs = []
    for name, mode, q, t in plan:
        if mode in "123456789":      # a family: all of its documents
            part = family(cx, name, mode)
            k = cx.n(q, t)
            if k and k < len(part):
                part = cx.rnd("family", name).sample(part, k)
            docs += part
            continue
        snap = mode == "snap"
        part = []
        for i in range(cx.n(q, t)):
            r = cx.rnd(name, mode, i)
            d = getattr(gens, "g_" + name)(r, "fake" if snap else mode)
            d["grp"] = name + "/" + mode
            part.append(d)
        if snap:
            fit(cx, part)
        docs += part
    return docs


def family(cx, name, n):
    """the documents of a family of spec/Families.tla"""
    docs = cx.tlc("Families", "Families.cfg", env=dict(FAM=name, N=n), tags=("DOC",), xmx="6g")
    docs.sort(key=json.dumps)
    cx.extra.setdefault("families", {})["%s up to %s" % (name, n)] = len(docs)
    for d in docs:
        d["grp"] = "family " + name
    return docs


def fit(cx, docs):
    """cuts the pages of the documents off exactly where something ends (or 1/8 mm beside it): that it
    still fits, or just does not, depends on nothing else"""
    number(docs)
    for d, o in zip(docs, cx.drive("run", [xm.case(d, wd=cx.img) for d in docs])):
        r = cx.rnd("fit", d["id"])
        g = d["g"]
        ends = set()
        for t in o.get("T", ()):
            try:
                ends.add(t["y"] + int(float(t["f"].split("/")[1]) * 375))
            except (IndexError, ValueError):
                pass
        for x in o.get("R", ()):
            for half in (0, 125, 250, 500):
                ends.add(x["y"] + x["h"] + half)
        ends = sorted(e for e in ends if g["t"] + 6000 < e < 1000000 and e % 125 == 0)
        if ends:
            g["h"] = r.choice(ends) + r.choice([0, 0, 0, 125, -125]) + g["b"]


def ends(*plan):
    """liveness on the specification alone: with weak fairness the machine gets to the end of every document"""
    def part(cx):
        docs = number(corpus(cx, plan))
        cx.tlc("Trace", "Live.cfg", [json.dumps(dict(d, obs=EMPTY)) for d in docs], tags=())
        cx.extra["liveness_checked"] = len(docs)
    return part


def number(docs, start=1):
    for i, d in enumerate(docs):
        d["id"] = start + i
    return docs


def run(cx, docs, prop=None, noise=True, recheck=True):
    """drives and validates documents; reports violations. Returns the verdicts by id."""
    number(docs)
    img = cx.img
    cases = [xm.case(d, noise, wd=img) for d in docs]
    obs = cx.drive("run", cases)
    full = attach(docs, obs)
    byid = {d["id"]: d for d in full}
    vals = validate(cx, full, prop)
    got = {v["id"]: v for v in vals}
    if set(got) != set(byid):
        from vp import CheckError
        raise CheckError("TLC judged %d of %d documents" % (len(got), len(byid)))
    bad = []
    for d in docs:
        v = got[d["id"]]
        g = cx.groups.setdefault(d.get("grp", "?"), dict(traces=0, undecided=0, steps=0))
        g["steps"] += v["steps"]
        if v["amb"] and "fault" not in v["bad"]:
            cx.undecided += 1
            g["undecided"] += 1
            continue
        cx.traces += 1
        g["traces"] += 1
        if v["bad"]:
            bad.append((d, v))
        else:
            cx.sample(cases[d["id"] - 1]["xml"])
    for d, v in suspects(bad, lambda b: byid[b[0]["id"]]["obs"]):
        # once more, alone, in a process of its own
        how = ""
        if recheck:
            for before in ([d], cx.history(docs, d["id"] - 1)):
                o2 = cx.drive("run", [xm.case(x, noise, wd=img) for x in before], chunks=1)[-1:]
                v2 = validate(cx, attach([d], o2), prop)
                if v2 and v2[0]["bad"]:
                    break
                how = " (after other documents in the same process, not alone)"
            else:
                cx.notes.append("document %s: difference not reproduced" % d["id"])
                continue
        o = byid[d["id"]]["obs"]
        why = o["fault"] or o["load"] or o["err"]
        cx.violation("document %s (%s): observed output differs from the specification in %s%s%s" % (
            d["id"], d.get("grp", "?"), ", ".join(sorted(v["bad"])), (": " + why) if why else "", how),
            dict(kind="layout", model={k: d[k] for k in d if k != "obs"}, xml=xm.render(d, noise)),
            dict(aspects=sorted(v["bad"]), all=sorted(v["diff"]), observed=o))
    if bad and not cx.violations:
        from vp import CheckError
        raise CheckError("; ".join(cx.notes))
    return got


def validate(cx, full, prop=None):
    lines = [json.dumps(d, ensure_ascii=False) for d in full]
    return cx.tlc("Trace", "Trace.cfg", lines, prop)
