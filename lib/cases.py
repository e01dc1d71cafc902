"""Conformance of everything that is not layout: cases -> real code -> judged by a module of the
specification, or replays of the behaviours the specification exports."""
import json
import vp


def judge(cx, mode, cases, module, group, what, env=None, timeout=None, strip=(), chunks=None):
    """cases (dicts, numbered here) are run by the harness, and the specification's module judges
    them together with their observations. strip: fields only the harness needs."""
    for i, c in enumerate(cases):
        c["id"] = i + 1
    obs = cx.drive(mode, cases, env, timeout)
    return judged(cx, mode, cases, obs, module, group, what, env, strip, chunks)


def spec_lines(cases, obs, strip):
    out = []
    for c, o in zip(cases, obs):
        c2 = {k: v for k, v in c.items() if k not in strip}
        c2["obs"] = {k: v for k, v in o.items() if k != "id"}
        out.append(json.dumps(c2, ensure_ascii=False))
    return out


def judged(cx, mode, cases, obs, module, group, what, env, strip, chunks=None, redo=None):
    lines = spec_lines(cases, obs, strip)
    got = {v["id"]: v for v in cx.tlc(module, module + ".cfg", lines, chunks=chunks, env=env)}
    if len(got) != len(cases):
        raise vp.CheckError("%s judged %d of %d cases" % (module, len(got), len(cases)))
    g = cx.groups.setdefault(group, dict(traces=0, undecided=0, steps=0))
    bad = []
    for c in cases:
        v = got[c["id"]]
        g["steps"] += v["steps"]
        if v["amb"] and "fault" not in v["bad"]:
            cx.undecided += 1
            g["undecided"] += 1
            continue
        cx.traces += 1
        g["traces"] += 1
        if v["bad"]:
            bad.append((c, v))
    for c in cases[:2]:
        cx.sample({k: c[k] for k in c})
    n0 = len(cx.violations)
    for c, v in vp.suspects(bad, lambda b: obs[b[0]["id"] - 1]):
        i = c["id"]
        run = redo or (lambda cs: cx.drive(mode, cs, env, chunks=1))
        how = ""
        for before in ([c], cx.history(cases, i - 1)):
            o2 = run(before)[-1:]
            v2 = cx.tlc(module, module + ".cfg", spec_lines([c], o2, strip), env=env)
            if v2 and v2[0]["bad"]:
                break
            how = " (after others in the same process, not alone)"
        else:
            cx.notes.append("case %s: difference not reproduced" % i)
            continue
        cx.violation("%s: case %d (%s): the code differs from the specification in %s%s" % (what, i, group, ", ".join(sorted(v["bad"])), how),
                     dict(kind=mode, case=c, **(dict(before=before[:-1]) if how else {})), dict(bad=sorted(v["bad"]), observed=o2[0], verdict=v))
    if bad and len(cx.violations) == n0:
        raise vp.CheckError("; ".join(cx.notes))
    return got


def replay(cx, mode, cases, expect, group, what, env=None):
    """cases come from the specification together with what has to be observed: expect(case, obs)
    says what is wrong, or ''."""
    for i, c in enumerate(cases):
        c["id"] = i + 1
    obs = cx.drive(mode, cases, env)
    g = cx.groups.setdefault(group, dict(traces=0, undecided=0, steps=0))
    n = 0
    for c, o in zip(cases, obs):
        g["traces"] += 1
        cx.traces += 1
        w = "" if o.get("fault") == vp.NOTRUN else expect(c, o)
        if w and n < (1 if str(o.get("fault")).startswith(("hang", "crash")) else 3):
            for before in ([c], cx.history(cases, c["id"] - 1)):
                o2 = cx.drive(mode, before, env, chunks=1)[-1]
                w2 = expect(c, o2)
                if w2:
                    break
            else:
                raise vp.CheckError("case %s: difference not reproduced" % json.dumps(c)[:300])
            n += 1
            cx.violation("%s (%s): %s" % (what, group, w2), dict(kind=mode, case=c), dict(observed=o2))
    for c in cases[:1] + cases[-1:]:
        cx.sample(c)
