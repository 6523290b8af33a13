"""C17: a failing callback costs one window, never the stream."""
import itertools
import re

from mc import stream as S
from mc.checks.c16 import make_data, order_of, reference
from mc.core import Slice, Violation

ASSUMPTIONS = ["callbacks fail with exceptions derived from Exception", "a mapping may have changed the model it was given before it fails"]


class Odd(Exception):
    def __str__(self):
        return ""


class Two(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


def make_exc(kind, w, stage):
    return {
        "value": lambda: ValueError(f"boom {stage} {w}"),
        "key": lambda: KeyError(f"k{w}"),
        "empty": lambda: Odd(),
        "two": lambda: Two(f"a{w}", 2),
        "stop": lambda: StopIteration(f"stop {w}"),
        "unicode": lambda: RuntimeError("élan ☃ {x} %s \n second line"),
        "assert": lambda: AssertionError(f"assert {w}"),
        "os": lambda: OSError(5, "io"),
        "attr": lambda: AttributeError("no attribute"),
        "type": lambda: TypeError("type"),
        "index": lambda: IndexError("index"),
    }[kind]()


STEM = {"map": r"\bmap", "solve": r"\bsolv", "unmap": r"\bunmap", "attenuate": r"\battenuat"}


class Faulty:
    """The model is a plain list of the windows that were mapped; the sampleset names the window."""

    def __init__(self, alg, faults, exc, mtype, results):
        self.alg, self.faults, self.exc, self.mtype, self.results = alg, faults, exc, mtype, results
        self.w = None
        self.calls = {}
        self.errors = []
        self.raised = {}

    def window(self, w):
        self.w = w

    def read(self, pm):
        """the windows a model stands for"""
        import sawatabi

        if isinstance(pm, sawatabi.model.LogicalModel):
            names = [r["name"] for r in pm.select_interaction("body > 0").to_dict(orient="records") if not r["removed"] and r["name"][0] == "w"]
            return sorted(int(n[1:]) for n in names), pm.get_mtype()
        return list(pm["log"]), pm["mtype"]

    def boom(self, stage):
        e = make_exc(self.exc, self.w, stage)
        self.raised[self.w] = e
        raise e

    def window_from(self, e):
        """on the real runner the window is known by its elements: set by subclasses"""

    def map(self, pm, ps, e, i, o):
        import sawatabi

        self.window_from(e)
        f = self.faults[self.w]
        self.calls.setdefault(self.w, []).append(("map", self.read(pm), ps, list(e), list(i), list(o)))
        if f == "map":
            self.boom("map")
        if self.alg == "Attenuation":
            if not pm.get_variables():
                pm.variables("x", shape=(2,))
            x = pm.get_variables_by_name("x")
            pm.add_interaction(x[0], name=f"w{self.w}", coefficient=1.0, attributes={"attn_ts": float(self.w)})
            if f == "attenuate":  # a reference timestamp that cannot be compared with the others
                pm.add_interaction(x[1], name=f"z{self.w}", coefficient=1.0, attributes={"attn_ts": "bad"})
        elif isinstance(pm, sawatabi.model.LogicalModel):
            pm = {"log": [self.w], "mtype": pm.get_mtype()}
        else:
            pm["log"].append(self.w)
        if f == "mapmut":
            self.boom("map")
        return pm

    def solve(self, solver, model, ps, e, i, o):
        self.calls.setdefault(self.w, []).append(("solve", self.read(model), ps, list(e), list(i), list(o)))
        if self.faults[self.w] == "solve":
            self.boom("solve")
        return ("sampleset", self.w)

    def unmap(self, ss, e, i, o):
        self.calls.setdefault(self.w, []).append(("unmap", None, ss, list(e), list(i), list(o)))
        if self.faults[self.w] == "unmap":
            self.boom("unmap")
        return self.results(self.w)

    def filter(self, e):
        return bool(e[1][0] & 1)


def result(kind):
    return {"str": lambda w: f"result {w}", "none": lambda w: None, "dict": lambda w: {"w": w}, "empty": lambda w: "", "list": lambda w: [w, w], "tuple": lambda w: (w,)}[kind]


def check_history(alg, exp, h, outputs, faults, mtype, results, attenuation_faults, cov):
    model, ss = [], None
    poisoned = False
    if [w for w, _ in exp] != [w for w, _ in outputs]:
        raise Violation(f"windows {outputs}")
    for (w, ref), (_, outs) in zip(exp, outputs):
        if len(outs) != 1:
            raise Violation(f"window {w} gave {len(outs)} outputs: {[str(x)[:80] for x in outs]}")
        if not isinstance(ref, tuple):
            if w in h.calls:
                raise Violation(f"callbacks were called for the outdated window {w}")
            cov.outcome("outdated")
            continue
        f = faults[w]
        calls = h.calls.get(w, [])
        stages = ["map", "solve", "unmap"]
        expect_poison = poisoned or f == "attenuate"
        if f in ("map", "mapmut"):
            stages, failed = stages[:1], "map"
        elif alg == "Attenuation" and expect_poison:
            stages, failed = stages[:1], "attenuate"
        elif f == "solve":
            stages, failed = stages[:2], "solve"
        elif f == "unmap":
            failed = "unmap"
        else:
            failed = None
        if [c[0] for c in calls] != stages:
            raise Violation(f"window {w} (fault {f}): the callbacks {[c[0] for c in calls]} were called, expected {stages}; output {str(outs[0])[:300]}")
        if f not in ("map", "mapmut"):
            new_model = model + [w]
        else:
            new_model = model
        for name, m, s, *lists in calls:
            if name == "map" and m != (model, mtype):
                raise Violation(f"window {w}: map got the model of the windows {m}, expected {(model, mtype)}")
            if name == "solve" and m[0] != new_model:
                raise Violation(f"window {w}: solve got the model {m[0]}, expected {new_model}")
            want = ("sampleset", w) if name == "unmap" else ss
            if s != want:
                raise Violation(f"window {w}: {name} got the sampleset {s}, expected {want}")
            if tuple(lists) != ref:
                raise Violation(f"window {w}: {name} got {lists}, expected {ref}")
        model = new_model
        if f == "attenuate":
            poisoned = True
        if failed is None or failed == "unmap":
            ss = ("sampleset", w)
        if failed is None:
            if outs[0] != results(w):
                raise Violation(f"window {w}: the output is {outs[0]!r}, unmapping returned {results(w)!r}")
        else:
            if not isinstance(outs[0], str):
                raise Violation(f"window {w}: the output is {outs[0]!r}")
            first = outs[0].strip().split("\n")[0].lower()
            named = [k for k in STEM if re.search(STEM[k], first)]
            if failed not in named:
                raise Violation(f"window {w}: {failed} failed but the output says {first!r}")
            if failed != "attenuate":
                if len(named) > 1 and h.exc != "value":
                    raise Violation(f"window {w}: {failed} failed but the output says {first!r}")
                e = h.raised[w]
                if str(e) not in outs[0] or type(e).__name__ not in outs[0]:
                    raise Violation(f"window {w}: the output does not tell the error {e!r}: {outs[0]!r}")
        cov.outcome((alg, failed))


def stream_of(n):
    return [(t, make_data("alt", t)) for t in range(n)]


CFG = {"Window": (2, 1), "Partial": (2, 1), "Attenuation": (2, 1), "Delta": (1, 1), "Incremental": (1, 1)}


def run_direct(case, cov):
    alg, mtype, n, faults, exc, res, order, commits = case
    size, period = CFG[alg]
    st = stream_of(n)
    wins = S.windows_of(alg, size, period, st)[:len(faults)]
    o = order_of(order, len(wins))
    mask = sum(1 << i for i in range(n) if i & 1)
    for cm in range(1 << len(wins)) if commits == "all" else [0, (1 << len(wins)) - 1]:
        h = Faulty(alg, faults, exc, mtype, result(res))
        out = S.deliver_all(alg, S.options(alg, size, period), mtype, None, st, wins, o, cm, h)
        if out is None:
            cov.outcome("undrivable")
            return
        try:
            check_history(alg, reference(alg, wins, o, mask), h, out, faults, mtype, result(res), None, cov)
        except Violation as e:
            raise Violation(f"bundle ends {cm:b}: {e}")
        cov.step(len(o))
        cov.trace()
        cov.state((alg, mtype, faults, order, sorted((w, [c[:3] for c in cs]) for w, cs in h.calls.items())))


class RealFaulty(Faulty):
    """windows are recognised by their elements (as handed to map)"""

    def __init__(self, *a, key=None):
        super().__init__(*a)
        self.key = key

    def window_from(self, e):
        self.w = self.key[max(x[0] for x in e)]


def run_real(case, cov):
    alg, mtype, n, faults, exc, res = case
    size = period = 1
    st = stream_of(n)
    wins = S.windows_of(alg, size, period, st)
    mask = sum(1 << i for i in range(n) if i & 1)
    h = RealFaulty(alg, faults, exc, mtype, result(res), key={max(x[0] for x in els): i for i, (_, els) in enumerate(wins)})
    out = S.run_real(alg, S.options(alg, size, period), mtype, None, st, wins, h)
    order = [w for w, _ in out]
    if sorted(order) != list(range(len(wins))):
        raise Violation(f"outputs for the windows {order}, expected one for each of {len(wins)}: {[str(x)[:100] for _, x in out]}")
    check_history(alg, reference(alg, wins, order, mask), h, [(w, [x]) for w, x in out], faults, mtype, result(res), None, cov)
    cov.step(len(wins))
    cov.trace()
    cov.state((alg, mtype, faults))


def SLICES(tier):
    q = tier == "quick"
    F = (None, "map", "mapmut", "solve", "unmap")

    def direct(algs, nw, excs=("value",), res=("str",), orders=("fwd",), commits="all", F=F, types=("ising", "qubo")):
        def gen():
            for faults in itertools.product(F, repeat=nw):
                for alg in algs:
                    for mt in types:
                        for x in excs:
                            for r in res:
                                for o in orders:
                                    yield (alg, mt, nw, faults, x, r, o, commits)
        return gen

    def real():
        for faults in itertools.product(F, repeat=2):
            for alg in S.ALGS if not q else ("Window", "Incremental"):
                yield (alg, "ising", 2, faults, "value", "str")
        for faults in ((None, "mapmut", None), ("solve", "map", None), (None, "solve", "unmap", None), (None, "attenuate", None)):
            for alg in S.ALGS:
                if ("attenuate" in faults) == (alg == "Attenuation"):
                    yield (alg, "qubo", len(faults), faults, "key", "str")

    def long():
        """long streams: every fault at regular distances, runs of failures, and everything failing"""
        for n in (8, 17, 40) if q else (8, 9, 10, 16, 17, 33, 40, 70, 101):
            pats = [tuple(f if i % k == j else None for i in range(n)) for f in F[1:] for k, j in ((3, 1), (2, 0), (7, 6))]
            pats += [tuple(f if n // 4 <= i < n // 4 + r else None for i in range(n)) for f in F[1:] for r in (3, 5, n // 2)]
            pats += [tuple(F[(i * 3 + i // 4) % len(F)] for i in range(n)), ("solve",) * (n - 1) + (None,), ("mapmut",) * (n - 1) + (None,), (None,) * n]
            for faults in pats:
                for k, alg in enumerate(S.ALGS):
                    if q and n > 20 and alg == "Attenuation":
                        continue
                    yield (alg, ("ising", "qubo")[k % 2], n, faults, ("value", "key", "two")[k % 3], "str", ("fwd", "s1")[n % 2], "ends")

    FA = F + ("attenuate",)
    plain = ("Window", "Delta", "Incremental", "Partial")
    excs = ("value", "key", "empty", "two", "stop", "unicode", "assert", "os", "attr", "type", "index")
    return [
        Slice("faults", direct(plain, 4, commits="ends" if q else "all"), run_direct, "every assignment of faults to 4 windows, 4 algorithms, both types"),
        Slice("bundles", direct(plain, 3), run_direct, "every assignment of faults to 3 windows, every pattern of bundle boundaries"),
        Slice("attenuation", direct(("Attenuation",), 3, F=FA, commits="ends" if q else "all"), run_direct, "every assignment of faults to 3 windows"),
        Slice("errors", direct(plain, 2, excs=excs), run_direct, "every kind of exception in two windows"),
        Slice("results", direct(plain, 2, res=("none", "dict", "empty", "list", "tuple")), run_direct, "every kind of result"),
        Slice("orders", direct(plain, 3, orders=("rev", "s0", "s1", "f2"), commits="ends"), run_direct, "windows delivered out of order"),
        Slice("long", long, run_direct, "streams of up to 40 (thorough 101) windows x 28 fault patterns (periodic, runs, all)"),
        Slice("runner", real, run_real, "fault assignments on the real DirectRunner"),
    ] + ([] if q else [Slice("deep", direct(plain, 6, commits="ends", types=("ising",)), run_direct, "6 windows")])
