"""
Exhaustive explorer for kotarot/sawatabi.

A check module defines SLICES(tier) -> list of Slice.  A Slice is a finite, fully enumerated set of cases
(operation histories, inputs, environment answers); each case is executed on the real code imported from
/repo and compared with a reference model.  Nothing is sampled: every case of every slice is executed, in
a fixed order (simplest first), spread over worker processes.  The first case (in enumeration order) that
disagrees becomes the counterexample and is written to replays/, from where `python -m mc.run --replay F`
re-executes exactly that case.
"""
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import json
import os
import pickle
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
CASE_CPU_LIMIT = 60.0  # CPU seconds one case may take; a case normally takes milliseconds


class Violation(Exception):
    """The implementation disagrees with the reference model on this case."""


class CaseHang(BaseException):
    pass


# ---------------------------------------------------------------------------------------------------
# Loading the code under test
# ---------------------------------------------------------------------------------------------------
class _SourceOnly(importlib.machinery.SourceFileLoader):
    """Compiles from source every time: a stale .pyc can never hide a change of the working tree."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            return compile(f.read(), path, "exec", dont_inherit=True)


class _RepoFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "sawatabi" and not fullname.startswith("sawatabi."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(fullname, init, loader=_SourceOnly(fullname, init), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=_SourceOnly(fullname, base + ".py"))
        return None


def load_repo():
    """Imports sawatabi from /repo's working tree (never from an installed copy or a bytecode cache)."""
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    if not any(isinstance(f, _RepoFinder) for f in sys.meta_path):
        sys.meta_path.insert(0, _RepoFinder())
    import sawatabi

    where = os.path.realpath(sawatabi.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"sawatabi was imported from {where}, not from {REPO}")
    return sawatabi


# ---------------------------------------------------------------------------------------------------
# Slices
# ---------------------------------------------------------------------------------------------------
class Slice:
    """
    name   : identifies the slice (replay needs it)
    cases  : a list or a callable returning an iterator of JSON-able cases, simplest first
    run    : run(case, cov) executes one case on the real code; raises Violation on disagreement
    bounds : text describing the enumerated space
    """

    def __init__(self, name, cases, run, bounds, weight=1):
        self.name, self._cases, self.run, self.bounds, self.weight = name, cases, run, bounds, weight

    def cases(self):
        return self._cases() if callable(self._cases) else iter(self._cases)


class Cov:
    """What one worker covered."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.known = {}

    def state(self, obj):
        self.states.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest())

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key, n=1):
        self.outcomes[key] = self.outcomes.get(key, 0) + n

    def known_finding(self, key):
        self.known[key] = self.known.get(key, 0) + 1


def histories(alphabet, depth, min_depth=0):
    """All words over the alphabet of length min_depth..depth, shortest first."""
    for n in range(min_depth, depth + 1):
        yield from itertools.product(alphabet, repeat=n)


def jsonable(x):
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x
    return repr(x)


def _alarm(signum, frame):
    raise CaseHang()


def run_one(sl, case, cov):
    """Returns None or a message describing the violation."""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        sl.run(case, cov)
        return None
    except Violation as e:
        return str(e)
    except CaseHang:
        return f"the case did not finish within {CASE_CPU_LIMIT:.0f} CPU seconds"
    except KeyboardInterrupt:
        raise
    except (MemoryError, OSError) as e:  # the sandbox, not the code under test
        if isinstance(e, MemoryError) or getattr(e, "errno", None) in (12, 24, 28):
            raise
        return "unexpected exception: " + traceback.format_exc()
    except BaseException:
        return "unexpected exception: " + traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _worker(slices, w, n, conn):
    cov = Cov()
    bad = []
    per_slice = []
    index = 0
    for si, sl in enumerate(slices):
        count = 0
        tr0, st0 = cov.transitions, len(cov.states)
        stop = False
        for ci, case in enumerate(sl.cases()):
            if index % n == w:
                count += 1
                msg = run_one(sl, case, cov)
                if msg is not None:
                    bad.append((si, ci, case, msg))
                    stop = True
            index += 1
            if stop:
                break
        per_slice.append((count, cov.transitions - tr0, len(cov.states) - st0))
        if stop:
            break
    conn.send_bytes(pickle.dumps((cov, bad, per_slice)))
    conn.close()


def explore(slices, workers=None):
    import multiprocessing as mp

    n = workers or WORKERS
    ctx = mp.get_context("fork")
    procs = []
    for w in range(n):
        r, s = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(slices, w, n, s), daemon=False)
        p.start()
        s.close()
        procs.append((p, r))
    total = Cov()
    bad = []
    per_slice = [[0, 0, 0] for _ in slices]
    for p, r in procs:
        try:
            cov, b, ps = pickle.loads(r.recv_bytes())
        except EOFError:
            p.join()
            raise RuntimeError(f"worker died with exit code {p.exitcode}")
        p.join()
        total.states |= cov.states
        total.transitions += cov.transitions
        total.traces += cov.traces
        for k, v in cov.outcomes.items():
            total.outcomes[k] = total.outcomes.get(k, 0) + v
        for k, v in cov.known.items():
            total.known[k] = total.known.get(k, 0) + v
        bad.extend(b)
        for i, (a, t, s) in enumerate(ps):
            per_slice[i][0] += a
            per_slice[i][1] += t
            per_slice[i][2] += s
    bad.sort(key=lambda x: (x[0], x[1]))
    return total, bad, per_slice


# ---------------------------------------------------------------------------------------------------
# Known findings
# ---------------------------------------------------------------------------------------------------
def known_findings(prop):
    """id -> description for the known findings of this property (the 'fixed' entries suppress nothing)."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {x["id"]: x["what"] for x in data.get("known", []) if x["property"] == prop}


# ---------------------------------------------------------------------------------------------------
# Main
# ---------------------------------------------------------------------------------------------------
def case_hash(prop, sl, case):
    return hashlib.sha256(json.dumps([prop, sl, jsonable(case)], sort_keys=True).encode()).hexdigest()[:12]


def main(prop, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    load_repo()
    mod = importlib.import_module("mc.checks." + prop.lower())
    slices = mod.SLICES(tier)
    known = known_findings(prop)

    if replay:
        with open(replay) as f:
            rp = json.load(f)
        for t in ("quick", "thorough"):
            for sl in mod.SLICES(t):
                if sl.name != rp["slice"]:
                    continue
                for ci, case in enumerate(sl.cases()):
                    if jsonable(case) == rp["case"]:
                        msg = run_one(sl, case, Cov())
                        print("replayed:", rp["slice"], json.dumps(rp["case"]))
                        print(msg or "the case holds")
                        return 1 if msg else 0
        print("case not found in the enumerated space", file=sys.stderr)
        return 2

    cov, bad, per_slice = explore(slices)
    unlisted = [k for k in cov.known if k not in known]
    wall = time.time() - t0
    violations = len(bad) + len(unlisted)

    samples = []
    for i, sl in enumerate(slices):
        last = None
        for ci, case in enumerate(itertools.islice(sl.cases(), 400)):
            last = case
        if last is not None:
            samples.append({"slice": sl.name, "case": jsonable(last)})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(cov.states), "transitions": cov.transitions,
            "traces_validated_against_impl": cov.traces, "samples": samples[:12],
            "exhaustive": not bad,
            "slices": [{"slice": sl.name, "bounds": sl.bounds, "cases_run": per_slice[i][0], "transitions": per_slice[i][1]} for i, sl in enumerate(slices)],
            "distinct_outcomes": len(cov.outcomes),
            "outcomes": dict(sorted(cov.outcomes.items(), key=lambda kv: str(kv[0]))[:40]),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": violations,
    }
    evidence["coverage"]["outcomes"] = {str(k): v for k, v in evidence["coverage"]["outcomes"].items()}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))

    for k in sorted(cov.known):
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {known[k]}")
    print(f"{prop} {tier}: slices={len(slices)} cases={sum(p[0] for p in per_slice)} states={len(cov.states)} "
          f"transitions={cov.transitions} traces={cov.traces} outcomes={len(cov.outcomes)} wall={wall:.1f}s")
    if not bad and not unlisted:
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    if bad:
        si, ci, case, msg = bad[0]
        path = os.path.join(VERIF, "replays", f"{prop}-{case_hash(prop, slices[si].name, case)}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "slice": slices[si].name, "case": jsonable(case), "message": msg,
                       "replay": f"cd /verif && ./check {prop} --replay {path}"}, f, indent=1)
        print(f"counterexample in slice {slices[si].name}: {json.dumps(jsonable(case))}")
        print(msg)
    else:
        path = os.path.join(VERIF, "replays", f"{prop}-unlisted.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "unlisted_findings": unlisted}, f)
        print("findings not listed in known_findings.json:", unlisted)
    print(f"VIOLATION property={prop} replay={path}")
    return 1
