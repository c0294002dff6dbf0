import stamps
LEVEL = "other"
RULE = ("Value-flow rules over the three evidence-base operations: a true overlap verdict only after an equality of an element of each base, a false one "
        "only after a loop over all of both (no early exit, no skipped pair); the combination contains only and all premise ids, interleaved, cut at 120; "
        "the sameness verdict is position-wise equality with equal length.")
ASSUME = ["std container and iterator semantics"]


def check(rep):
    stamps.overlap(rep)
    stamps.merge(rep)
    stamps.same(rep)
    rep.floor("stamp", len(rep.obl), 10, "evidence-base obligations")
