"""C01: the physical model's energy is exactly the live interactions plus the offset."""
import itertools

from mc.core import Slice, Violation, histories
from mc import lm
from mc.lm import default_name, in_unit, key_of, poly_diff, run_history

ASSUMPTIONS = ["coefficients and scales are finite numbers", "energies are compared as multilinear polynomials, i.e. on all assignments at once"]

ARR = {"x": [3]}
CORE = [
    ("add", "x0", {"c": 1.5}),
    ("add", "x0.x1", {"c": 2.0, "s": 0.5}),
    ("phys",),
    ("rm", "x0"),
    ("upd", "x0", {"c": -4.0}),
    ("add", "x0", {"name": "n1", "c": -1.5}),
    ("add", "x1.x0", {"name": "n2", "c": -1.0}),
    ("upd", "x1.x0", {"c": 0.75}),
    ("rm", "x1.x0"),
    ("upd", "x0", {"s": 0.25}),
    ("upd", "x0.x1", {"c": 1.0, "s": 3.0}),
    ("updn", "n1", {"c": 8.0}),
    ("updn", "n2", {"s": -0.5}),
    ("rmn", "n1"),
    ("rmn", "n2"),
    ("off", 2.5),
    ("add", "x1", {"c": 0.0}),
    ("add", "x1.x2", {"c": 3.0, "s": -2.0}),
    ("upd", "x2", {"c": 1.25}),
    ("off", -1.0),
    ("select",),
    ("upd", "x0", {"c": 0.0}),
]
SMALL = [
    ("add", "x0", {"c": 1.0}),
    ("rm", "x0"),
    ("phys",),
    ("add", "x0", {"name": "n1", "c": 0.5}),
    ("rmn", "n1"),
    ("upd", "x0", {"c": -2.0, "s": 2.0}),
]
PAIRS = [
    ("add", "x0.x1", {"c": 1.0}),
    ("rm", "x1.x0"),
    ("phys",),
    ("add", "x1.x0", {"name": "n2", "c": -1.0}),
    ("add", "x0", {"c": 0.5}),
]
# start states with several interactions, some of them removed or already converted
PREFIXES = [
    [("add", "x0", {"c": 1.0}), ("add", "x0.x1", {"c": 2.0}), ("add", "x1", {"name": "n1", "c": -3.0}), ("add", "x1.x2", {"name": "n2", "c": 0.5})],
    [("add", "x0", {"c": 1.0}), ("add", "x0.x1", {"c": 2.0}), ("add", "x0", {"name": "n1", "c": 4.0}), ("rm", "x0"), ("phys",)],
    [("add", "x0", {"c": 1.0}), ("add", "x1", {"c": 2.0}), ("add", "x2", {"c": 4.0}), ("add", "x0.x1", {"c": 8.0}), ("rm", "x0"), ("rm", "x2")],
    [("off", 7.0), ("add", "x0.x1", {"c": 1.0}), ("phys",), ("rm", "x0.x1"), ("add", "x0.x1", {"name": "n2", "c": 5.0})],
]


def observe(real, ref):
    d = poly_diff(real.poly(), ref.energy())
    if d:
        raise Violation("energy differs: " + d)
    ref.apply(("phys",))
    phys = real.op_phys()
    if phys.get_mtype() != ref.mtype:
        raise Violation(f"physical model type {phys.get_mtype()}")
    if not (abs(phys.get_offset() / lm.UNIT - ref.offset) <= 1e-9 * max(1.0, abs(ref.offset))):
        raise Violation(f"offset of the physical model is {phys.get_offset()}, expected {ref.offset}")
    from mc.lm import poly_of_bqm

    d = poly_diff(poly_of_bqm(phys.to_bqm()), ref.energy())
    if d:
        raise Violation("energy of the second conversion differs: " + d)


def run(case, cov):
    real, ref = run_history(case, cov, observe)
    cov.outcome(tuple(sorted((k, v) for k, v in ref.energy().items() if v)).__hash__() % 997)


VALUES = [0, 0.0, -0.0, 1, -1, 1.0, 0.5, -2.5, 0.1, 1e-12, -1e-9, 1e-30, 1e12, 123456.75, 7,
          ("np", "float64", 0.25), ("np", "int64", 2), ("np", "float32", -0.5), ("np", "int32", 3)]


def run_values(case, cov):
    def obs(real, ref):
        mags = [abs(r["coef"] * r["scale"]) for r in ref.rows] + [abs(ref.offset)]
        d = poly_diff(real.poly(), ref.energy(), atol=1e-12 * max(mags) if len(ref.rows) > 1 else 0.0)
        if d:
            raise Violation("energy differs: " + d)

    run_history(case, cov, obs)


LABELS = ["x:2", "x:10", "x:0", "ab:1,0", "ab:0,1", "a:0", "y:1,0,1"]
LARR = {"x": [12], "ab": [2, 2], "a": [1], "y": [2, 1, 2]}


def label_cases():
    for mt in ("ising", "qubo"):
        for u, v in itertools.permutations(LABELS, 2):
            t, r = f"{u}.{v}", f"{v}.{u}"
            base = [("add", t, {"c": 2.0}), ("add", u, {"c": 1.0}), ("add", v, {"c": -3.0})]
            for ops in ([], [("upd", r, {"c": 5.0})], [("rm", r)], [("add", r, {"name": "other", "c": 7.0})], [("add", r, {"c": 7.0})],
                        [("rm", r), ("phys",), ("add", r, {"c": 9.0})], [("rm", u)], [("rm", v), ("upd", t, {"s": 0.5})],
                        [("updn", default_name(r), {"c": 6.0})], [("rmn", default_name(t))]):
                yield (mt, LARR, base + ops)


def size_cases(ns):
    """many interactions: one per variable, one per neighbouring pair, and many on one key; edited here and there"""
    for mt in ("ising", "qubo"):
        for n in ns:
            rows = [("add", f"x:{i}", {"c": i + 1.0}) for i in range(n)] + [("add", f"x:{i}.x:{(i + 3) % n}", {"c": i - 2.5, "s": 0.5}) for i in range(n)]
            many = [("add", "x:0", {"name": f"s{i}", "c": i + 0.5}) for i in range(n)] + [("add", "x:1.x:0" if i % 2 else "x:0.x:1", {"name": f"t{i}", "c": 0.25 * i, "s": -2.0}) for i in range(n)]
            some = [0, 1, n // 2, n - 2, n - 1]
            for base in (rows, many):
                nm = (lambda i: f"x[{i}]") if base is rows else (lambda i: f"s{i}")
                for e in ([], [("updn", nm(i), {"c": 100.0 + i}) for i in some], [("rmn", nm(i)) for i in some], [("rmn", nm(i)) for i in some] + [("phys",)] + [("add", f"x:{i}", {"name": nm(i), "c": 7.0}) for i in some],
                          [("phys",)] + [("rmn", nm(i)) for i in range(n)], [("rmn", nm(i)) for i in range(0, n, 2)] + [("phys",)] + [("updn", nm(i), {"s": 3.0}) for i in range(1, n, 2)]):
                    yield (mt, {"x": [n]}, base + e)
            yield (mt, {"x": [n]}, [("add", "x:0", {"c": 1.0})] + [("upd", "x:0", {"c": float(i)}) for i in range(n)])
            yield (mt, {"x": [n]}, [o for i in range(n) for o in (("add", "x:0", {"c": i + 1.0}), ("rm", "x:0"), ("phys",))] + [("add", "x:0", {"c": 5.0})])


def small_histories(ops, n):
    for mt in ("ising", "qubo"):
        for h in histories(ops, n, 1):
            yield (mt, ARR, list(h))


def SLICES(tier):
    q = tier == "quick"

    def core():
        for h in histories(CORE, 3 if q else 4):
            for mt in ("ising", "qubo") if len(h) < 4 else ("ising" if hash(repr(h)) % 2 else "qubo",):
                yield (mt, ARR, list(h))

    def prefixed():
        for h in histories(CORE, 2 if q else 3, 1):
            for pre in PREFIXES:
                for mt in ("ising", "qubo"):
                    yield (mt, ARR, pre + list(h))

    def small():
        for h in histories(SMALL, 5 if q else 7, 4):
            yield ("ising", ARR, list(h))

    def pairs():
        for h in histories(PAIRS, 5 if q else 7, 4):
            yield ("qubo", ARR, list(h))

    def values():
        for mt in ("ising", "qubo"):
            for c, s in itertools.product(VALUES, VALUES):
                for t in ("x0", "x0.x1"):
                    yield (mt, ARR, [("add", t, {"c": c, "s": s})])
                    yield (mt, ARR, [("add", t, {"c": 1.0}), ("upd", t, {"c": c, "s": s})])
                yield (mt, ARR, [("add", "x0", {"c": c}), ("add", "x0", {"name": "n1", "c": s})])
                yield (mt, ARR, [("add", "x1.x0", {"c": c}), ("add", "x0.x1", {"name": "n1", "c": s}), ("off", 0.5)])
            for c in VALUES:
                yield (mt, ARR, [("off", c)])
                yield (mt, ARR, [("add", "x0", {"c": 1.0}), ("off", c)])

    ns = (8, 9, 16, 17, 33, 65) if q else (7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129)
    return [
        Slice("sizes", lambda: size_cases(ns), run, f"models of {ns} variables with 2n interactions, or n on one key, x 14 edit patterns, both types"),
        Slice("values", values, run_values, f"all pairs of {len(VALUES)} numeric values/types as coefficient and scale, 1- and 2-body, added or updated, alone or two on one key"),
        Slice("units-small", lambda: small_histories(CORE, 2 if q else 3), in_unit(run, -45), "all histories of length <= 2 (thorough 3) over the operations with all energies multiplied by 2**-45"),
        Slice("units-large", lambda: small_histories(CORE, 2 if q else 3), in_unit(run, 45), "all histories of length <= 2 (thorough 3) over the operations with all energies multiplied by 2**45"),
        Slice("labels", label_cases, run, "all ordered pairs of 7 labels over 4 arrays of 1-3 dimensions, addressed in both orders"),
        Slice("core", core, run, f"all histories of length <= {3 if q else 4} over {len(CORE)} operations, both model types (length 4: one type per history)"),
        Slice("prefixed", prefixed, run, f"4 non-initial states x all histories of length 1..{2 if q else 3} over {len(CORE)} operations, both model types"),
        Slice("deep-linear", small, run, f"all histories of length 4..{5 if q else 7} over {len(SMALL)} operations"),
        Slice("deep-pairs", pairs, run, f"all histories of length 4..{5 if q else 7} over {len(PAIRS)} operations"),
    ]
