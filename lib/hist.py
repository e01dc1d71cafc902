"""C24: histories of loading, processing and describing (spec/Hist.tla), replayed and judged."""
import concurrent.futures
import json
import gens, xm, cases, vp

KINDS = ["cascade", "image", "leak", "paging", "hf", "image", "mix", "heights", "block", "box", "cursor", "scale"]


def documents(cx, n):
    docs = []
    for i in range(n):
        r = cx.rnd("hist-doc", i)
        d = getattr(gens, "g_" + KINDS[i % len(KINDS)])(r, "fake")
        d["id"] = i + 1
        # documents share class names, pattern letters and, in two directories, the names of their images
        docs.append(xm.case(d, True, wd=cx.img2() if (i + i // len(KINDS)) % 2 else cx.img))
    return docs


def alone(cx, docs):
    """what each document yields alone, every observation in a process of its own"""
    jobs = []
    for d in docs:
        for ops in ([dict(o="load", s=1), dict(o="proc", s=1, e="fake")], [dict(o="load", s=1), dict(o="proc", s=1, e="pdf")],
                    [dict(o="load", s=1), dict(o="desc", s=1)]):
            jobs.append(dict(id=len(jobs) + 1, docs=[d], ops=ops, slices=1))
    cx.xh
    with concurrent.futures.ThreadPoolExecutor(vp.NCPU) as ex:
        obs = list(ex.map(lambda j: cx.drive("hist", [j], chunks=1)[0], jobs))
    with concurrent.futures.ThreadPoolExecutor(vp.NCPU) as ex:
        runs = list(ex.map(lambda d: cx.drive("run", [d], chunks=1)[0], docs))
    for i, d in enumerate(docs):
        ref = {}
        for o in obs[3 * i:3 * i + 3]:
            if o["fault"]:          # nothing to compare with: C19 is about the ends of processing
                cx.notes.append("document %d alone: %s" % (d["id"], o["fault"]))
                break
            for e in o["ev"]:
                if e["k"] == "dump" and e["at"] > 1:
                    continue            # only as it was loaded
                if ref.setdefault(e["k"], e["v"]) != e["v"]:
                    ref[e["k"]] = e["v"] + " or " + ref[e["k"]]
        if not any(o["fault"] for o in obs[3 * i:3 * i + 3]) and not runs[i].get("fault"):
            d["ref"], d["calls"] = ref, runs[i]["calls"]
    if sum("ref" in d for d in docs) < 3:
        raise vp.CheckError("; ".join(cx.notes))
    return [d for d in docs if "ref" in d]


def shapes(cx):
    """(slots, runs, slices, extras, engines) and how many of the histories are replayed"""
    if cx.quick:
        return [((2, 0, 1, 3, 2), 60), ((2, 2, 3, 0, 2), 120), ((2, 2, 2, 1, 2), 120), ((2, 3, 2, 0, 1), 60)]
    return [((2, 0, 1, 3, 2), None), ((2, 0, 1, 4, 2), None), ((2, 2, 3, 0, 2), None), ((2, 2, 4, 0, 2), None),
            ((2, 2, 2, 1, 2), 6000), ((2, 3, 2, 0, 1), None), ((3, 3, 2, 0, 1), 6000)]


def histories(cx):
    out = []
    for sh, n in shapes(cx):
        env = dict(zip(("SLOTS", "RUNS", "SLICES", "EXTRAS", "ENGINES"), map(str, sh)))
        hs = cx.tlc("HistGen", "HistGen.cfg", env=env, tags=("HIST",))
        hs.sort(key=json.dumps)
        cx.extra.setdefault("histories_explored", {})["slots=%d runs=%d slices=%d extras=%d engines=%d" % sh] = len(hs)
        if n and n < len(hs):
            hs = cx.rnd("hist", sh).sample(hs, n)
        out += [(h, sh) for h in hs]
    return out


def mk(docs, pick, ops, slices):
    ds = [docs[p] for p in pick]
    ref = [[s + 1, k, v] for s, d in enumerate(ds) for k, v in sorted(d["ref"].items())]
    due = sum(1 for o in ops if o["o"] in ("proc", "desc", "begin")) + sum(len(o["ss"]) for o in ops if o["o"] == "conc")
    return dict(docs=[{k: v for k, v in d.items() if k != "ref"} for d in ds], ops=ops, slices=slices, ref=ref, due=due)


def check(cx):
    docs = documents(cx, cx.n(30, 120))
    docs = alone(cx, docs)
    cs = []
    for i, (h, sh) in enumerate(histories(cx)):
        r = cx.rnd("hist", i)
        pick = [r.randrange(len(docs)) for _ in range(sh[0])]
        if r.random() < 0.2:
            pick[-1] = pick[0]
        ops = [dict(o=o, s=s, r=rr, e=e) for o, s, rr, e in h]
        cs.append(mk(docs, pick, ops, sh[2]))
    cases.judge(cx, "hist", cs, "HistTrace", "histories", "history", strip=("docs", "slices"))
    if cx.violations:
        return
    # at the same time, with the race detector and without
    def conc(key, n):
        out = []
        for i in range(n):
            r = cx.rnd("conc", key, i)
            k = r.randint(2, 4)
            pick = [r.randrange(len(docs)) for _ in range(k)]
            ops = [dict(o="load", s=s + 1) for s in range(k)]
            for _ in range(r.randint(1, 3)):
                ss = [r.randint(1, k) * r.choice([1, 1, 1, -1]) for _ in range(r.randint(2, 8))]
                ops.append(dict(o="conc", s=1, ss=ss, e=r.choice(["fake", "pdf"])))
            out.append(mk(docs, pick, ops, 1))
        return out
    cases.judge(cx, "hist", conc("plain", cx.n(60, 1000)), "HistTrace", "concurrent", "concurrent processing", strip=("docs", "slices"))
    if not cx.violations:
        cs = conc("race", cx.n(80, 600))
        for i, c in enumerate(cs):
            c["id"] = i + 1
        race = lambda xs: cx.drive("hist", xs, xh=cx.xhrace, timeout=800, chunks=None if len(xs) == len(cs) else 1)
        cases.judged(cx, "hist", cs, race(cs), "HistTrace", "race detector", "concurrent processing", None, ("docs", "slices"), redo=race)
