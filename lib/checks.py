"""The checks, one per property."""
import sys, traceback, json, os
import vp, layout
import smallparts as sp
import faults, fonts, degen, hist, known


class Plan:
    """documents for the layout machine"""
    def __init__(self, *plan):
        self.plan = plan

    def __call__(self, cx):
        layout.run(cx, layout.corpus(cx, self.plan))


LAYOUT_ASSUME = ["The recording engine implements engine.Engine as engine/fpdf.go does (checked against the PDFs the real engine writes)",
                 "documents are finite; lengths are multiples of 1/8 mm with the recording engine"]

# (family of spec/Families.tla, bound, how many of its documents quickly, how many thoroughly; 0: all of them) or,
# per document generator and mode (fake: the recording engine; pdf: gofpdf, its files read back; snap:
# the recording engine, pages cut off where something ends): how many documents quickly, how many thoroughly
CHECKS = {
    "C01": [Plan(("lines", "4", 80, 4000), ("text", "fake", 150, 2500), ("block", "fake", 250, 3500), ("paging", "fake", 60, 800), ("heights", "fake", 80, 1000),
                 ("mix", "fake", 80, 1200), ("scale", "fake", 60, 500), ("paging", "snap", 40, 500), ("mix", "snap", 60, 500), ("block", "pdf", 60, 800))],
    "C02": [Plan(("lines", "4", 150, 6000), ("text", "fake", 250, 3500), ("block", "fake", 300, 3500), ("heights", "fake", 60, 800), ("scale", "fake", 80, 600),
                 ("text", "pdf", 80, 800), ("block", "pdf", 80, 800))],
    "C03": [Plan(("lines", "4", 120, 4000), ("text", "fake", 250, 3500), ("block", "fake", 200, 2500), ("heights", "fake", 60, 1000), ("box", "fake", 100, 1200),
                 ("scale", "fake", 30, 300), ("text", "pdf", 80, 800), ("block", "pdf", 80, 800))],
    "C04": [sp.hyph],
    "C05": [Plan(("boxes", "1", 120, 0), ("box", "fake", 400, 5000), ("boxbreak", "fake", 80, 1500), ("leak", "fake", 60, 800), ("heights", "fake", 80, 1000),
                 ("box", "snap", 60, 500), ("box", "pdf", 80, 1000))],
    "C06": [Plan(("boxes", "1", 200, 0), ("boxbreak", "fake", 400, 6000), ("boxbreak", "snap", 200, 2500), ("mix", "fake", 100, 1500), ("boxbreak", "pdf", 80, 1200))],
    "C07": [Plan(("spans", "1", 250, 6000), ("spans", "fake", 500, 7000), ("widths", "fake", 80, 1000), ("paging", "fake", 40, 500), ("scale", "fake", 50, 400))],
    "C08": [Plan(("columns", "1", 200, 4000), ("widths", "fake", 500, 7000), ("spans", "fake", 80, 1000), ("paging", "fake", 40, 500), ("scale", "fake", 50, 400), ("widths", "pdf", 80, 800))],
    "C09": [Plan(("cells", "1", 150, 0), ("heights", "fake", 450, 5000), ("spans", "fake", 100, 1200), ("scale", "fake", 50, 400), ("heights", "pdf", 60, 800))],
    "C10": [Plan(("rows", "4", 120, 2500), ("paging", "fake", 250, 2500), ("paging", "snap", 200, 2000), ("hf", "fake", 60, 800), ("scale", "fake", 60, 400), ("paging", "pdf", 40, 500))],
    "C11": [Plan(("cascade", "1", 150, 0), ("cascade", "fake", 400, 4500), ("leak", "fake", 50, 800), ("scale", "fake", 40, 300))],
    "C12": [Plan(("leaks", "3", 150, 4000), ("leak", "fake", 350, 3500), ("hf", "fake", 100, 1500), ("mix", "fake", 80, 1000), ("scale", "fake", 40, 300), ("leak", "pdf", 60, 800))],
    "C13": [Plan(("hf", "2", 150, 0), ("hf", "fake", 260, 4000), ("paging", "fake", 80, 1200), ("boxbreak", "fake", 80, 1200), ("mix", "fake", 40, 800), ("hf", "snap", 80, 800), ("mix", "snap", 60, 500),
                 ("scale", "fake", 60, 500), ("hf", "pdf", 80, 1000))],
    "C14": [sp.text_replay, sp.text_long],
    "C15": [sp.load_replay, sp.load_random],
    "C16": [Plan(("images", "1", 200, 0), ("image", "fake", 400, 5000), ("mix", "fake", 60, 1000), ("image", "snap", 80, 800), ("image", "pdf", 80, 1000)), known.check],
    "C17": [Plan(("pages", "1", 60, 0), ("text", "pdf", 80, 1500), ("box", "pdf", 80, 1500), ("mix", "pdf", 100, 1500), ("widths", "pdf", 50, 800), ("image", "pdf", 50, 800),
                 ("hf", "pdf", 50, 800), ("cascade", "pdf", 30, 500))],
    "C18": [faults.commands, faults.loaders, faults.runs],
    "C19": [degen.check, Plan(("hf", "2", 60, 800), ("rows", "4", 40, 800), ("odd", "fake", 300, 4500), ("hf", "fake", 60, 800), ("paging", "fake", 60, 800), ("paging", "snap", 60, 500),
                              ("scale", "fake", 60, 500), ("odd", "pdf", 60, 800)),
            layout.ends(("hf", "2", 20, 400), ("rows", "4", 15, 300), ("odd", "fake", 20, 600))],
    "C20": [sp.styles],
    "C21": [sp.describe],
    "C22": [fonts.check, Plan(("cascade", "pdf", 40, 600), ("leak", "pdf", 40, 600))],
    "C23": [Plan(("cursor", "3", 250, 0), ("cursor", "fake", 400, 5000), ("mix", "fake", 80, 1200), ("cursor", "snap", 100, 1000), ("scale", "fake", 50, 400), ("cursor", "pdf", 80, 1200))],
    "C24": [hist.check],
}
LEVEL = {}
BOUNDED = ("Trusts TLC, the renderer of the document model into XML and the observing side of the harness. ")
LAYOUT = ("The laws of the property are invariants of the layout machine (spec/Xpdf.tla, spec/Laws.tla), which TLC checks in every state of "
          "the machine on all documents of a bounded family (spec/Families.tla) and on generated documents; the real code runs the same documents, and "
          "every mark it makes is compared with the machine's. Bounded by the families and by the documents generated from VERIF_SEED. ")
TECHNIQUE = {
    "": "TLA+ layout machine model-checked with TLC on bounded families of documents; runs of the real code (recording engine, gofpdf) validated against it by TLC",
    "C04": "TLA+ specification of pattern hyphenation (Hyphen.tla); words and pattern sets run through the real hyphenator and validated by TLC",
    "C14": "TLA+ specification of white space normalisation (Text.tla); all texts up to a bound exported by TLC and replayed, longer ones validated by TLC",
    "C15": "TLA+ loading machine (Load.tla); all token sequences up to a bound exported by TLC and replayed into the real loader, longer documents validated by TLC",
    "C18": "TLA+ fault model (Faults.tla); all combinations of faults exported by TLC and replayed into the commands, single faults in the library validated by TLC",
    "C19": "TLA+ page budget machine (Bound.tla) for degenerate documents, layout machine for all others with liveness (every document ends) checked by TLC",
    "C20": "TLA+ specification of style decoding (Decode.tla); style texts run through the real decoder and validated by TLC",
    "C21": "TLA+ description machine on top of the loading machine (Describe.tla); descriptions made by the real code validated by TLC",
    "C22": "TLA+ model of font definitions and selection (Fonts.tla), layout machine with pdf metrics; real runs validated by TLC",
    "C24": "TLA+ machine of histories of loading, processing and describing (Hist.tla); histories exported by TLC, replayed (sequentially, interleaved at engine calls, concurrently under the race detector) and validated by TLC",
}
NOTE = {
    "": LAYOUT + BOUNDED + "The recording engine stands for gofpdf; both are compared with the machine.",
    "C04": "Bounded: pattern sets and words sampled by VERIF_SEED (random sets over small alphabets, the built-in English patterns, letters beyond ASCII); " + BOUNDED,
    "C14": "Exhaustive up to the bound over one character of every class (blank, tab, CR, LF, backslash, others); longer texts are sampled. " + BOUNDED,
    "C15": "Exhaustive for token sequences of up to 3 (thorough: 4) tokens inside a section; longer documents and broken ones are sampled. " + BOUNDED,
    "C18": "Exhaustive over the combinations of faults of a command; the library's faults are one per run at sampled places. " + BOUNDED,
    "C19": "Termination of the real code is observed within 30 seconds (confirmed with 90) for sampled degenerate documents; liveness is checked on the machine for bounded documents only. " + BOUNDED,
    "C20": "Bounded: style texts generated by VERIF_SEED from all keys and kinds of values, valid and not; floating point values are compared through their exact decimal text. " + BOUNDED,
    "C21": "Bounded: documents generated by VERIF_SEED. " + BOUNDED,
    "C22": "Bounded: font definitions and documents generated by VERIF_SEED with the installed DejaVu fonts. " + BOUNDED,
    "C24": "Exhaustive over histories up to the bounds in the evidence (quick: a sample of them); interleavings are at the calls of the engine interface; races are seen where they happen. " + BOUNDED,
}

def main(argv):
    prop, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    if prop not in CHECKS:
        print("unknown property", prop)
        return 2
    cx = vp.Ctx(prop, tier)
    try:
        for part in CHECKS[prop]:
            part(cx)
            if cx.violations:
                break
        return cx.finish(LEVEL.get(prop, "model_checking"), LAYOUT_ASSUME)
    except vp.CheckError as e:
        print("ERROR of the check:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        cx.close()
