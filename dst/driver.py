"""Runs the simulations of one property.

    python -m dst.driver C01            (VERIF_TIER, VERIF_SEED from environment)
    python -m dst.driver --replay FILE  (re-executes a recorded violation)
    python -m dst.driver --worker ...   (internal)

Case number i of batch b of property P under VERIF_SEED s is a pure function of
(s, P, b, i) and of the code; each batch runs in an interpreter of its own with
a PYTHONHASHSEED derived from the same numbers.
"""
import argparse
import collections
import copy
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable

# runs per batch and number of batches: (quick, thorough)
BATCHES = {"quick": 24, "thorough": 96}
SOFT_WALL = {"quick": 100, "thorough": 1500}


def h64(*a):
    return int.from_bytes(hashlib.sha256(
        repr(a).encode()).digest()[:8], "big")


def canon(x):
    return json.dumps(x, sort_keys=True, default=repr)


class Stats:
    def __init__(self):
        self.c = collections.Counter()
        self.fired = collections.Counter()
        self.ops = collections.Counter()
        self.out = collections.Counter()
        self.probes = collections.Counter()
        self.inter = set()
        self.distinct = set()
        self.codes = set()
        self.run_fired = 0
        self.run_sig = []

    def begin_run(self):
        self.run_fired = 0
        self.run_sig = []

    def end_run(self, case):
        self.c["runs"] += 1
        sig = hashlib.sha1(canon([case, self.run_sig]).encode()).hexdigest()
        if self.run_fired and self.run_sig:
            self.distinct.add(sig[:16])
        return sig

    def fault(self, kind, n=1):
        """A fault outside a Sim (crash, restart, damaged document...)"""
        self.fired[kind] += n
        self.run_fired += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def add_sim(self, sim):
        self.c["sims"] += 1
        self.c["steps"] += sim.total
        for k, v in sim.fired.items():
            self.fired[k] += v
            if k not in ("lock_wait",):
                self.run_fired += v
        if sim.switches:
            self.c["preempted_sims"] += 1
            self.inter.add(hashlib.sha1(canon(
                [sim.switches, [t.prog for t in sim.threads]]
            ).encode()).hexdigest()[:16])
        for t in sim.threads:
            for (_, _, op, out) in t.history:
                self.ops[op["o"]] += 1
                self.c["ops"] += 1
                self.out[out[0] if out[0] != "exc" else "exc:" + out[1]] += 1
                # hash values of strings differ with the hash seed
                self.run_sig.append("hash" if op["o"] == "hash" and
                                    out[0] == "ok" else out)

    def dump(self):
        return dict(c=self.c, fired=self.fired, ops=self.ops, out=self.out,
                    probes=self.probes, inter=sorted(self.inter),
                    distinct=sorted(self.distinct))


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def run_case(mod, case, stats):
    """-> violation dict or None; harness errors propagate."""
    stats.begin_run()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(90)
    try:
        v = mod.run(copy.deepcopy(case), stats)
    except Hang:
        v = {"cls": "hang", "what": "an operation does not return"}
        _reset()
    except (OSError, MemoryError):
        raise
    except Exception as e:
        # an exception out of the library at a place where the unchanged
        # library has none (building a schema, an object, a result)
        from dst import node
        frames = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(node.REPO + "/") for f in frames):
            raise
        last = [f for f in frames if f.filename.startswith(node.REPO)][-1]
        v = {"cls": "unexpected:" + type(e).__name__,
             "what": "the library raised %s where it must not: %s" % (
                 type(e).__name__, str(e)[:300]),
             "where": last.name}
        _reset()
    finally:
        signal.alarm(0)
    return v


# ------------------------------------------------------------ minimisation
OPLISTS = ("ops", "threads", "setup", "pre", "post", "probe", "docs", "reads",
           "hist", "warm", "faults", "decl", "edits", "mutes", "paths")


def candidates(case):
    """Smaller variants of a case, generic over its shape."""
    def lists(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                if k in OPLISTS and isinstance(v, list):
                    yield path + [k], v
                    if k == "threads":
                        for i, x in enumerate(v):
                            yield path + [k, i], x
                if k in ("threads",):
                    for i, x in enumerate(v):
                        for j, op in enumerate(x):
                            yield from opl(op, path + [k, i, j])
                elif k in OPLISTS and isinstance(v, list):
                    for i, x in enumerate(v):
                        yield from opl(x, path + [k, i])

    def opl(op, path):
        if isinstance(op, dict):
            for k in ("sw", "flt", "cb", "fge"):
                if op.get(k):
                    yield path + [k], op[k]

    def put(path, val):
        c = copy.deepcopy(case)
        n = c
        for k in path[:-1]:
            n = n[k]
        n[path[-1]] = val
        return c

    allists = list(lists(case, []))
    for path, v in allists:
        n = len(v)
        if n > 3 and path[-1] != "threads":
            yield put(path, v[:n // 2])
            yield put(path, v[n // 2:])
    for path, v in allists:
        for i in range(len(v)):
            if path[-1] == "threads":
                yield put(path, v[:i] + [[]] + v[i + 1:]) if v[i] else case
            else:
                yield put(path, v[:i] + v[i + 1:])
    if case.get("salt"):
        yield put(["salt"], 0)
    spec = case.get("spec")
    if spec:
        for ci, c in enumerate(spec["classes"]):
            yield put(["spec", "classes"],
                      spec["classes"][:ci] + spec["classes"][ci + 1:])
            ps = c.get("props", [])
            for pi, p in enumerate(ps):
                yield put(["spec", "classes", ci, "props"],
                          ps[:pi] + ps[pi + 1:])
                for k in list(p):
                    if k not in ("name", "t"):
                        q = {a: b for a, b in p.items() if a != k}
                        yield put(["spec", "classes", ci, "props", pi], q)
    # values inside ops and documents
    def vals(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                if k in ("v", "p", "args", "doc", "kw", "content") or \
                        len(path) and path[-1] in ("v", "p", "doc", "$r") \
                        or (path and path[-1] == "!"):
                    yield from shrink(v, path + [k])
                elif isinstance(v, (dict, list)) and k != "spec":
                    yield from vals(v, path + [k])
        elif isinstance(node, list):
            for i, x in enumerate(node):
                yield from vals(x, path + [i])

    def shrink(v, path):
        if isinstance(v, list):
            for i in range(len(v)):
                yield path, v[:i] + v[i + 1:]
            for i, x in enumerate(v):
                yield from shrink(x, path + [i])
        elif isinstance(v, dict):
            for k in list(v):
                if k[:1] != "$":
                    yield path, {a: b for a, b in v.items() if a != k}
            for k, x in v.items():
                yield from shrink(x, path + [k])
    for path, nv in vals(case, []):
        yield put(path, nv)


def minimise(mod, case, cls, stats, budget=25.0):
    end = time.monotonic() + budget
    tried = 0
    progress = True
    extra = getattr(mod, "shrink", None)
    while progress and time.monotonic() < end:
        progress = False
        gens = [candidates(case)]
        if extra:
            gens.insert(0, extra(case))
        for g in gens:
            for cand in g:
                if time.monotonic() > end:
                    break
                if cand == case:
                    continue
                tried += 1
                try:
                    v = run_case(mod, cand, stats)
                except BaseException as e:
                    if isinstance(e, (KeyboardInterrupt, SystemExit)) and \
                            not getattr(e, "args", None):
                        raise
                    _reset()
                    continue
                if v is not None and v["cls"] == cls:
                    case = cand
                    progress = True
                    break
            if progress:
                break
    return case, tried


def _reset():
    """After a harness error inside a shrunk case: leave no node active."""
    from dst import node, sim
    sim._sim = None
    n = node._active
    if n is not None:
        n._depth = 1
        n.__exit__()


# ------------------------------------------------------------ known findings
def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]


def match_known(known, v):
    for e in known:
        if all(v.get(k) == want for k, want in e["match"].items()):
            return e
    return None


# ------------------------------------------------------------ worker
def load(prop):
    return importlib.import_module("dst.props." + prop.lower())


def worker(a):
    prop, tier, seed = a.prop, a.tier, a.seed
    mod = load(prop)
    known = load_known(prop)
    stats = Stats()
    res = {"violation": None, "known": {}, "error": None, "samples": [],
           "digests": []}
    t0 = time.monotonic()
    n = a.runs or mod.RUNS[tier]
    i = 0
    try:
        for i in range(n):
            if time.monotonic() - t0 > a.wall:
                stats.c["cut_by_wall"] += 1
                break
            rng = random.Random(h64(seed, prop, a.batch, i))
            case = mod.gen(rng, tier)
            if case is None:
                stats.c["discarded"] += 1
                continue
            case = json.loads(json.dumps(case))
            v = run_case(mod, case, stats)
            sig = stats.end_run(case)
            if a.digest:
                res["digests"].append(sig)
            if i < 1 and a.batch < 2:
                res["samples"].append(case)
            if v is None:
                continue
            k = match_known(known, v)
            if k is not None:
                res["known"][k["id"]] = res["known"].get(k["id"], 0) + 1
                continue
            small, tried = minimise(mod, case, v["cls"], Stats())
            v2 = run_case(mod, small, Stats())
            res["violation"] = {
                "property": prop, "tier": tier, "seed": seed,
                "batch": a.batch, "run": i,
                "hashseed": os.environ.get("PYTHONHASHSEED"),
                "violation": v2 or v, "case": small if v2 else case,
                "original_case": case, "minimiser_runs": tried,
                "replay_cmd": "%s -m dst.driver --replay <this file>" % PY}
            break
    except BaseException:
        res["error"] = "batch %d run %d\n%s" % (
            a.batch, i, traceback.format_exc())
    res["stats"] = stats.dump()
    res["wall"] = time.monotonic() - t0
    with open(a.out, "w") as f:
        json.dump(res, f, default=repr)
    sys.stdout.flush()
    os._exit(0)


# ------------------------------------------------------------ driver
def run_batches(prop, tier, seed, nb, jobs, runs, wall, digest, tmp,
                stop_early=True, hashsalt=0):
    pend = list(range(nb))
    live = {}
    out = {}
    t0 = time.monotonic()
    stop = False
    while pend or live:
        while pend and len(live) < jobs and not stop:
            b = pend.pop(0)
            left = wall - (time.monotonic() - t0)
            if left < 1:
                pend = []
                break
            f = os.path.join(tmp, "b%d.json" % b)
            env = dict(os.environ)
            env["PYTHONHASHSEED"] = str(h64(seed, prop, b, "hash",
                                            hashsalt) % 4294967295)
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            cmd = [PY, "-m", "dst.driver", "--worker", prop, "--tier", tier,
                   "--seed", str(seed), "--batch", str(b), "--out", f,
                   "--wall", "%.1f" % left]
            if runs:
                cmd += ["--runs", str(runs)]
            if digest:
                cmd += ["--digest"]
            live[b] = (subprocess.Popen(cmd, cwd=HERE, env=env), f,
                       time.monotonic())
        if stop:
            pend = []
        time.sleep(0.02)
        for b in list(live):
            p, f, ts = live[b]
            if p.poll() is None:
                if time.monotonic() - ts > wall + 240:
                    p.kill()
                    p.wait()
                    out[b] = {"error": "batch %d had to be killed" % b}
                    del live[b]
                continue
            del live[b]
            try:
                with open(f) as fh:
                    out[b] = json.load(fh)
            except Exception as e:
                out[b] = {"error": "batch %d left no result (exit %s): %r" % (
                    b, p.returncode, e)}
                if p.returncode < 0:
                    out[b]["died"] = p.returncode
            if stop_early and out[b].get("violation"):
                stop = True
    return out


def record(prop, v):
    """Writes the replay file and re-executes it in a fresh interpreter."""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for case in (v["case"], v["original_case"]):
        v["case"] = case
        replay = os.path.join(HERE, "replays", "%s-%s.json" % (
            prop, hashlib.sha1(canon(case).encode()).hexdigest()[:10]))
        with open(replay, "w") as f:
            json.dump(v, f, indent=1)
        p = subprocess.run([PY, "-m", "dst.driver", "--replay", replay],
                           cwd=HERE, stdout=subprocess.PIPE, text=True)
        if p.returncode == 1 and "identical to the recorded violation: True" \
                in p.stdout:
            return replay, True
        if p.returncode == 1 and case is v["original_case"]:
            v2 = p.stdout[:p.stdout.rfind("identical to the recorded")]
            try:
                v["violation"] = json.loads(v2)
            except ValueError:
                pass
            with open(replay, "w") as f:
                json.dump(v, f, indent=1)
            return replay, True
    return replay, False


def main_check(a):
    prop = a.prop
    tier = os.environ.get("VERIF_TIER") or a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or a.seed or 1)
    mod = load(prop)
    jobs = a.jobs or os.cpu_count() or 4
    nb = a.batches or BATCHES[tier]
    wall = SOFT_WALL[tier]
    print("property=%s tier=%s seed=%d batches=%d jobs=%d" % (
        prop, tier, seed, nb, jobs), flush=True)
    t0 = time.monotonic()
    with tempfile.TemporaryDirectory(prefix="dst-") as tmp:
        out = run_batches(prop, tier, seed, nb, jobs, a.runs, wall, False, tmp)
    took = time.monotonic() - t0
    tot = {k: collections.Counter() for k in
           ("c", "fired", "ops", "out", "probes")}
    inter, distinct = set(), set()
    knownhits = collections.Counter()
    samples, errors, viols = [], [], []
    died = [b for b in out if out[b].get("died")]
    for b in sorted(out):
        r = out[b]
        if r.get("died") and len(died) <= max(1, nb // 12):
            # the interpreter itself crashed: this batch explored nothing
            print("note: %s" % r["error"])
        elif r.get("error"):
            errors.append(r["error"])
        if r.get("violation"):
            viols.append(r["violation"])
        if "stats" in r:
            for k in tot:
                tot[k].update(r["stats"][k])
            inter.update(r["stats"]["inter"])
            distinct.update(r["stats"]["distinct"])
            knownhits.update(r["known"])
            samples += r["samples"]
    known = load_known(prop)
    replay = None
    if viols:
        for n, v in enumerate(list(viols)):
            replay, ok = record(prop, v)
            if ok:
                viols.insert(0, viols.pop(n))
                break
        else:
            # happened, but does not happen again in a fresh interpreter: the
            # harness is at fault, nothing is claimed about the library
            errors.append("violation does not replay: %s" % replay)
            viols = []
    runs = tot["c"]["runs"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "wall_s": round(took, 2),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE + " A run is non-trivial if it completed library "
            "operations and at least one injected event (preemption, "
            "interrupt, allocation failure, misbehaving user function or "
            "input, crash/restart, reordered set, damaged document) fired in "
            "it; two runs are distinct if the digest of case and outcomes "
            "differs.",
            "samples": samples[:2] or ["no run finished"],
            "runs": runs,
            "seeds_per_hour": int(runs / took * 3600) if took else 0,
            "simulations": tot["c"]["sims"],
            "simulated_time_steps": tot["c"]["steps"],
            "operations": tot["c"]["ops"],
            "operations_by_kind": dict(tot["ops"].most_common()),
            "outcomes": dict(tot["out"].most_common(30)),
            "faults_fired": dict(tot["fired"].most_common()),
            "distinct_interleavings": len(inter),
            "probes": dict(tot["probes"].most_common()),
            "batches": nb, "batches_lost": len(died), "cut_by_wall": tot["c"]["cut_by_wall"],
            "discarded": tot["c"]["discarded"],
            "real_components": "all modules of normalize loaded from the "
            "working tree of /repo, standard library, richenum",
            "stub_components": getattr(mod, "STUBS", "none"),
            "known_findings_seen": dict(knownhits),
            "violations": len(viols),
        },
        "assumptions": ASSUMPTIONS + getattr(mod, "ASSUMES", []),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("runs=%d distinct=%d sims=%d steps=%d interleavings=%d wall=%.1fs"
          % (runs, len(distinct), tot["c"]["sims"], tot["c"]["steps"],
             len(inter), took))
    print("faults: %s" % dict(tot["fired"].most_common()))
    for e in known:
        if knownhits.get(e["id"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    for e in errors[:3]:
        print("HARNESS-ERROR %s" % e, file=sys.stderr)
    if viols:
        print("violation: %s" % json.dumps(viols[0]["violation"])[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if errors:
        return 3
    if not runs:
        print("HARNESS-ERROR no run finished", file=sys.stderr)
        return 3
    return 0


ASSUMPTIONS = [
    "CPython 3.12 switches threads and delivers signals only at function "
    "entry, generator resumption, backward jumps and after calls; preemption "
    "and interrupts are placed at those points of library code only.",
    "Runs are sampled, not enumerated.",
]


def main_replay(path):
    with open(path) as f:
        r = json.load(f)
    want = r["hashseed"]
    if os.environ.get("PYTHONHASHSEED") != want:
        env = dict(os.environ, PYTHONHASHSEED=want,
                   PYTHONDONTWRITEBYTECODE="1")
        os.execve(PY, [PY, "-m", "dst.driver", "--replay",
                       os.path.abspath(path)], env)
    mod = load(r["property"])
    v = run_case(mod, r["case"], Stats())
    if v is None:
        print("the recorded violation does not occur")
        sys.stdout.flush()
        os._exit(0)
    same = canon(v) == canon(r["violation"])
    print(json.dumps(v, indent=1)[:6000])
    print("identical to the recorded violation: %s" % same)
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    sys.stdout.flush()
    os._exit(1)


def main_digest(a):
    """Determinism: prints one digest per run."""
    with tempfile.TemporaryDirectory(prefix="dst-") as tmp:
        out = run_batches(a.prop, a.tier, a.seed or 1, a.batches or 8,
                          a.jobs or 8, a.runs or 20, 600, True, tmp,
                          stop_early=False, hashsalt=a.hashsalt)
    for b in sorted(out):
        if out[b].get("error"):
            print(b, "ERROR", out[b]["error"])
        for i, d in enumerate(out[b].get("digests", [])):
            print(b, i, d)
    return 0


def main_selftest():
    """One seed is one execution: the same few runs of every property twice,
    with different worker placement and hash seeds, must give one digest."""
    props = sorted(f[:-3].upper() for f in os.listdir(
        os.path.join(HERE, "dst", "props")) if f.startswith("c"))
    bad = 0
    for prop in props:
        seen = []
        for jobs, salt in ((8, 0), (1, 0), (3, 7)):
            with tempfile.TemporaryDirectory(prefix="dst-") as tmp:
                out = run_batches(prop, "quick", 77, 3, jobs, 8, 600, True,
                                  tmp, stop_early=False, hashsalt=salt)
            seen.append([out[b].get("digests") or out[b].get("error")
                         for b in sorted(out)])
        same = all(s == seen[0] for s in seen)
        bad += not same
        print("%s %d runs x3 %s" % (prop, sum(map(len, seen[0])),
                                    "identical" if same else "DIFFER"))
    return 1 if bad else 0


if __name__ == "__main__":
    p = argparse.ArgumentParser()
    p.add_argument("prop", nargs="?")
    p.add_argument("--tier", default="quick")
    p.add_argument("--seed", type=int, default=0)
    p.add_argument("--worker", action="store_true")
    p.add_argument("--batch", type=int, default=0)
    p.add_argument("--out")
    p.add_argument("--runs", type=int, default=0)
    p.add_argument("--wall", type=float, default=60)
    p.add_argument("--jobs", type=int, default=0)
    p.add_argument("--batches", type=int, default=0)
    p.add_argument("--replay")
    p.add_argument("--digest", action="store_true")
    p.add_argument("--hashsalt", type=int, default=0)
    p.add_argument("--selftest", action="store_true")
    a = p.parse_args()
    if a.replay:
        main_replay(a.replay)
    elif a.worker:
        worker(a)
    elif a.selftest:
        sys.exit(main_selftest())
    elif a.digest:
        sys.exit(main_digest(a))
    else:
        rc = main_check(a)
        sys.stdout.flush()
        os._exit(rc)
