"""C04: deleting a variable removes it from the energy and from every constraint."""
import itertools

from mc.core import Slice, Violation, histories
from mc.lm import check_table, constraint_labels, in_unit, poly_diff, run_history

ASSUMPTIONS = ["deleted variables are not used again in later additions"]
ARR = {"x": [3], "xx": [1, 2]}
ROWS = [("add", "x0", {"c": 1.0}), ("add", "x0.x1", {"c": 2.0, "s": 0.5}), ("add", "x1", {"name": "n1", "c": -3.0}), ("add", "x2.x1", {"c": 4.0}),
        ("add", "xx00.x0", {"c": 8.0}), ("add", "x1.x0", {"name": "n2", "c": 16.0}), ("add", "xx01", {"c": 32.0}), ("off", 0.5)]
CONS = [
    [],
    [("con", "h", "nhot", {"vars": ["x0", "x1", "x2"], "n": 1})],
    [("con", "h", "nhot", {"vars": ["x0", "x1"], "n": 2, "strength": 2.0}), ("con", "z", "zoo", {"vars": ["x1", "x2"]})],
    [("con", "e", "eq", {"vars1": ["x0", "x1"], "vars2": ["x2", "xx00"], "strength": 3.0})],
    [("con", "z", "zoo", {"vars": ["x0", "x1", "xx00", "xx01"], "strength": 5.0}), ("con", "e", "eq", {"vars1": ["x0"], "vars2": ["x0", "x1"]}), ("con", "h", "nhot", {"vars": ["xx01"], "n": 1})],
    [("con", "h1", "nhot", {"vars": ["x2"], "n": 1}), ("con", "h2", "nhot", {"vars": ["x1", "xx01"], "n": 1}), ("con", "e", "eq", {"vars1": ["xx00"], "vars2": ["x1"]})],
]
DELS = [("del", t) for t in ("x0", "x1", "x2", "xx00", "xx01")]
MID = [("phys",), ("ising",), ("qubo",), ("rm", "x0"), ("upd", "x0.x1", {"c": 5.0}), ("rmn", "n2"), ("rmcon", "e"), ("select",)]


def observe(real, ref, total=5):
    m = real.m
    check_table(real.table(), ref, timestamps=False)
    if sorted(m.get_deleted_array()) != sorted(ref.deleted) or m.get_deleted_size() != len(ref.deleted):
        raise Violation(f"deleted variables are {m.get_deleted_array()}, expected {ref.deleted}")
    both = set(ref.deleted) & set(ref.fixed)
    if (not both and m.get_size() != total - len(ref.deleted) - len(ref.fixed)) or m.get_all_size() != total:
        raise Violation(f"sizes are {m.get_size()}/{m.get_all_size()} with {len(ref.deleted)} of {total} variables deleted and {len(ref.fixed)} fixed")
    got = {k: constraint_labels(c) for k, c in m.get_constraints().items()}
    want = {k: {a: sorted(v) for a, v in p.items() if a.startswith("vars")} for k, (kind, p) in ref.constraints.items()}
    if got != want:
        raise Violation(f"constraint variables are {got}, expected {want}")
    phys = real.op_phys()
    from mc.lm import poly_of_bqm

    p = poly_of_bqm(phys.to_bqm())
    d = poly_diff(p, ref.energy(), modulo_constant=ref.modulo_constant())
    if d:
        raise Violation("energy differs: " + d)
    for k, v in p.items():
        if any(x in ref.deleted for x in k) and v:
            raise Violation(f"the deleted variable still occurs in {k}")


def run(case, cov):
    real, ref = run_history(case, cov, observe)
    cov.outcome((len(ref.deleted), ref.mtype, len([r for r in ref.rows if not r["removed"]])))


def run_large(case, cov):
    n = case[1]["x"][0]

    def look(real, ref):
        observe(real, ref, n)

    real, ref = run_history(case, cov, look)
    cov.outcome((n, len(ref.deleted)))


def SLICES(tier):
    q = tier == "quick"

    def dels():
        for mt in ("qubo", "ising"):
            for n in range(0, 4 if q else 6):
                for ds in itertools.permutations(DELS, n):
                    for cons in CONS:
                        if q and n == 3 and mt == "ising":
                            continue
                        yield (mt, ARR, ROWS + cons + list(ds))

    def mixed():
        for mt in ("qubo", "ising"):
            for cons in CONS:
                for m1 in [None] + MID:
                    for d1 in DELS[:4]:
                        for m2 in [None] + MID:
                            for d2 in [None] + ([DELS[1]] if q else DELS):
                                if (m1 is None and m2 is None) or d1 == d2:
                                    continue
                                if q and m1 and m2 and (d2 or mt == "ising"):
                                    continue
                                ops = [o for o in (m1, d1, m2, d2) if o]
                                if ("rmcon", "e") in ops and not any(c[1] == "e" for c in cons):
                                    continue
                                yield (mt, ARR, ROWS + cons + ops)

    def before():
        """constraints and interactions added after the deletion; the deleted variable deleted twice"""
        for mt in ("qubo", "ising"):
            for d in DELS[:2]:
                for cons in CONS:
                    c2 = [(c[0], c[1], c[2], {k: ([v for v in vs if v != d[1]] if k.startswith("vars") else vs) for k, vs in c[3].items()}) for c in cons]
                    rows = [r for r in ROWS if r[0] == "off" or d[1] not in r[1].split(".")]
                    yield (mt, ARR, [d] + rows + c2)
                    yield (mt, ARR, rows[:2] + [d] + c2 + rows[2:] + [("phys",)])
                    yield (mt, ARR, ROWS + cons + [d, ("phys",), d])
                    yield (mt, ARR, ROWS + cons + [d, d])

    def fixes():
        """other variables fixed before, between and after the deletions; a deleted variable fixed afterwards"""
        for mt in ("qubo", "ising"):
            for cons in CONS:
                for d1, d2 in itertools.permutations(DELS[:4], 2):
                    for v in ("x0", "x1", "x2", "xx00"):
                        for val in ((1, 0) if mt == "qubo" else (1, -1)):
                            f = ("fix", v, val)
                            seqs = [[d1, f], [d1, d2, f], [d1, ("phys",), f, ("phys",)]]
                            if v != d2[1]:
                                seqs += [[d1, f, d2]]
                            if v not in (d1[1], d2[1]):
                                seqs += [[f, d1], [f, d1, d2], [f, ("ising",), d1, ("qubo",), d2]]
                            for s in seqs:
                                if q and len(s) > 2 and (val != 1) == (d1[1] < d2[1]):
                                    continue
                                yield (mt, ARR, ROWS + cons + s)

    def sizes():
        """deletions from models with many interactions and wide constraints"""
        for mt in ("qubo", "ising"):
            for n in (8, 9, 12, 16, 17, 33) if q else (8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 64, 65):
                rows = [("add", f"x:{i}", {"c": i + 1.0}) for i in range(n)] + [("add", f"x:{i}.x:{(i + 3) % n}", {"c": i - 2.0, "s": 0.5}) for i in range(n)]
                cons = [("con", "h", "nhot", {"vars": [f"x:{i}" for i in range(n)], "n": 2}), ("con", "e", "eq", {"vars1": [f"x:{i}" for i in range(0, n, 2)], "vars2": [f"x:{i}" for i in range(1, n, 2)]}), ("con", "z", "zoo", {"vars": ["x:0", "x:3"]})]
                for ds in ([0], [n - 1], [3, 0], [n // 2, n - 1, 1], list(range(n - 1)), list(range(n - 1, 0, -1)), list(range(0, n, 2))):
                    yield (mt, {"x": [n]}, rows + cons + [("del", f"x:{i}") for i in ds])

    return [
        Slice("deletions", dels, run, f"all ordered selections of up to {3 if q else 5} of 5 variables deleted from a model with 7 interactions and each of {len(CONS)} constraint sets"),
        Slice("mixed", mixed, run, f"deletions interleaved with {len(MID)} other operations (conversions, edits, removed constraints) x {len(CONS)} constraint sets, both types"),
        Slice("before", before, run, "deletion before or between the additions, and repeated deletion"),
        Slice("fixes", fixes, run, "up to two deletions with a variable fixed before, between or after them (also a deleted one), both values, constraint sets and types"),
        Slice("units-small", lambda: (c for c in dels() if len([o for o in c[2] if o[0] == 'del']) <= (2 if q else 3)), in_unit(run, -45), "up to 2 (thorough 3) deletions with all energies multiplied by 2**-45"),
        Slice("units-large", lambda: (c for c in dels() if len([o for o in c[2] if o[0] == 'del']) <= (2 if q else 3)), in_unit(run, 45), "up to 2 (thorough 3) deletions with all energies multiplied by 2**45"),
        Slice("sizes", sizes, run_large, "7 deletion sequences on models of 8 to 33 (thorough 65) variables with 2n interactions and wide constraints"),
    ]
