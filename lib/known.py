"""Known findings: genuine defects listed in known-findings.txt, each identified by its failing case."""
import json, os, re
import vp, layout


def listed(prop):
    for l in open(os.path.join(vp.VERIF, "known-findings.txt"), encoding="utf-8"):
        m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            yield m.group(2), m.group(3)


def check(cx):
    """the layout findings of this property: their documents are judged strictly"""
    for case, what in listed(cx.prop):
        with open(os.path.join(vp.VERIF, case), encoding="utf-8") as f:
            d = json.load(f)
        before, cx.violations = cx.violations, []
        layout.run(cx, [d])
        # only the difference that is known counts as the finding
        new = [v for v in cx.violations if v.detail["all"] != d["finding"]]
        if cx.violations and not new:
            cx.findings.append("%s (%s)" % (what, case))
        cx.violations = before + new
