"""Shared parts of the property modules."""
import json

from . import sim as simmod
from .gen import Gen
from .node import Node
from .sim import Sim, HarnessError
from .world import World, COUNTER


def world(case, setup=True, salt=None, stats=None):
    """A fresh node with the case's schema and setup objects on it."""
    n = Node(case.get("salt", 0) if salt is None else salt)
    w = World(n, case.get("spec"))
    if setup and case.get("setup"):
        with n:
            for op in case["setup"]:
                out = plain(w, op)
                if out[0] != "ok":
                    raise SetupFailed(op, out)
    return w


class SetupFailed(Exception):
    pass


def plain(w, op):
    """Run an op outside any simulation (no steps, no faults)."""
    class T:
        quiet = 1
    return w.execute(None, T, op)


def run1(w, ops, stats=None, trace=False, cap=300000):
    with w.node:
        return Sim([ops], w.execute, trace=trace, cap=cap, stats=stats).run()


def runN(w, threads, stats=None, trace=False, cap=400000, first=0):
    with w.node:
        return Sim(threads, w.execute, trace=trace, cap=cap, stats=stats,
                   first=first).run()


def outs(sim, t=0):
    return [h[3] for h in sim.threads[t].history]


def snaps(w, names=None):
    with w.node:
        return {k: w.T.snap(o) for k, o in w.objs.items()
                if names is None or k in names}


# ------------------------------------------------------------ fault placement
def pick_step(rng, trace, want):
    """A step of a traced op: half the time uniform over distinct code
    locations, else uniform over steps.  want: 'pre' or 'me'."""
    if want == "pre":
        idx = [i for i, x in enumerate(trace) if x[3]]
    elif want == "ki":
        idx = [i for i, x in enumerate(trace) if x[3] and x[0] is not None]
    else:
        idx = [i for i, x in enumerate(trace) if x[2] == simmod.K_CALL]
    if not idx:
        return None
    r = rng.random()
    if r < .7:
        byloc = {}
        for i in idx:
            byloc.setdefault((trace[i][0], trace[i][1]), []).append(i)
        keys = list(byloc)
        if r < .45:
            # the locations this batch has used least
            cnt = [SPOTS.get((want, k), 0) for k in keys]
            low = min(cnt)
            keys = [k for k, n in zip(keys, cnt) if n <= low]
        k = keys[rng.randrange(len(keys))]
        SPOTS[want, k] = SPOTS.get((want, k), 0) + 1
        idx = byloc[k]
        if rng.random() < .5:
            idx = idx[:2]
    return idx[rng.randrange(len(idx))] + 1


# how often each code location was chosen for an event in this batch
SPOTS = {}


def once_step(rng, trace):
    """A step of a code location that the op passes only once or twice: first
    use and slow path code."""
    byloc = {}
    for i, x in enumerate(trace):
        if x[3] and x[0] is not None:
            byloc.setdefault((x[0], x[1]), []).append(i)
    rare = [(k, v[0]) for k, v in byloc.items() if len(v) < 3]
    if not rare:
        return None
    if rng.random() < .6:
        cnt = [SPOTS.get(("once", k), 0) for k, _ in rare]
        low = min(cnt)
        rare = [x for x, n in zip(rare, cnt) if n <= low]
    k, i = rare[rng.randrange(len(rare))]
    SPOTS["once", k] = SPOTS.get(("once", k), 0) + 1
    return i + 1


def place_switches(rng, case_threads, traces, n, nthreads, once=False):
    """Add n preemptions to the ops of the threads."""
    spots = [(ti, oi) for ti, tr in enumerate(traces)
             for oi, t in enumerate(tr) if t]
    for _ in range(n):
        ti, oi = spots[rng.randrange(len(spots))]
        if once:
            oi = 0
            st = once_step(rng, traces[ti][0])
        else:
            st = pick_step(rng, traces[ti][oi], "pre")
        if st is None:
            continue
        to = rng.randrange(nthreads - 1)
        if to >= ti:
            to += 1
        case_threads[ti][oi].setdefault("sw", []).append([st, to])


def place_fault(rng, op, trace, kinds=("KI", "ME")):
    k = kinds[rng.randrange(len(kinds))]
    st = pick_step(rng, trace, "ki" if k == "KI" else "me")
    if st is None:
        return False
    op["flt"] = [[st, k]]
    return True


CB_ACTS = ["raise", "value", "type", "attr", "key", "ki", "me", "none",
           "junk", "falsy"]


def violation(cls, what, **kw):
    return dict(cls=cls, what=what, **kw)
