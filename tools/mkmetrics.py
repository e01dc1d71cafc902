#!/usr/bin/env python3
"""Writes harness/metrics.json and spec/Metrics.tla: the published widths (1/1000 em) of the
standard PDF fonts for the characters 32..126, taken from the font definitions in directory argv[1].
Oblique and italic variants of Helvetica and Courier have the widths of the upright ones."""
import json, sys, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = dict(courier="Courier", courierb="Courier-Bold", courieri="Courier-Oblique", courierbi="Courier-BoldOblique",
             helvetica="Helvetica", helveticab="Helvetica-Bold", helveticai="Helvetica-Oblique", helveticabi="Helvetica-BoldOblique",
             times="Times-Roman", timesb="Times-Bold", timesi="Times-Italic", timesbi="Times-BoldItalic")
w = {}
for f, n in names.items():
    cw = json.load(open(os.path.join(sys.argv[1], f + ".json")))["Cw"]
    w[n] = [cw[i] for i in range(32, 127)]
json.dump(w, open(os.path.join(here, "harness/metrics.json"), "w"))
chars = "".join(chr(i) for i in range(32, 127)).replace("\\", "\\\\").replace('"', '\\"')
with open(os.path.join(here, "spec/Metrics.tla"), "w") as o:
    o.write("------------------------------ MODULE Metrics ------------------------------\n")
    o.write("(* Widths in 1/1000 em of the characters of the standard PDF fonts. Generated *)\n(* by tools/mkmetrics.py.                                                      *)\nEXTENDS Base\n")
    o.write('Chars == "%s"\n' % chars)
    o.write("AsFcn(ws) == FoldLeft(LAMBDA f, i : (CharAt(Chars, i) :> ws[i]) @@ f, <<>>, [i \\in 1..95 |-> i])\n")
    for n in names.values():
        o.write("W_%s == AsFcn(<<%s>>)\n" % (n.replace("-", ""), ", ".join(map(str, w[n]))))
    o.write("StdWidths(name) == CASE " + "\n  [] ".join('name = "%s" -> W_%s' % (n, n.replace("-", "")) for n in names.values()) + "\n")
    o.write("=" * 78 + "\n")
