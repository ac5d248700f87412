"""C04: typed slots and collections only ever hold conforming values."""
from .. import common as C
from .. import hist as H

RUNS = {"quick": 480, "thorough": 4000}
RULE = ("Each case: a random schema, objects, and a history of up to 14 "
        "constructions, assignments, deletions, collection edits, selector "
        "operations and conversions with conforming, coercible and refused "
        "values; a third of the steps is hit by a misbehaving coerce, check "
        "or default function, a failing input iterator, an interrupt or an "
        "allocation failure; after every step every slot and item reachable "
        "is checked against the declared schema.")
ASSUMES = ["Properties declared unsafe are outside the property.",
           "Values are not edited behind the library's back (plain lists "
           "inside untyped slots may be)."]


def gen(rng, tier):
    case, g = H.gen_hist(rng, rng.randrange(2, 15), {"nones": 1}, faults=.35)
    return case


def run(case, stats):
    w = C.world(case)
    sp = H.Spec(w)
    m = sp.misfit(w.objs)
    if m:
        return C.violation("misfit:setup", "a value that does not conform is "
                           "in place", where=m[0], rule=m[1])
    for i, op in enumerate(case["ops"]):
        s = C.run1(w, [op], stats)
        out = C.outs(s)[0]
        if s.stuck:
            return C.violation("stuck", "an operation does not end", op=op)
        with w.node:
            m = sp.misfit(w.objs)
        if m:
            return C.violation(
                "misfit:" + op["o"] + ":" + op.get("m", ""),
                "a value that does not conform is in place after a step",
                op=op, outcome=out, where=m[0], rule=m[1])
    return None
