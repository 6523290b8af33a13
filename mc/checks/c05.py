"""C05: fixing a variable restricts the energy to that value."""
import itertools

from mc.core import Slice, Violation, histories
from mc.lm import Real, apply_both, check_table, fresh_clock, in_unit, label, poly_diff, poly_of_bqm, poly_restrict, run_history, CLOCK, Ref

ASSUMPTIONS = ["fixed variables are not used again in later additions",
               "with constraints in an Ising model energies are compared up to the constant of the type conversion (see C06)"]
ARR = {"x": [3], "xx": [2]}
TERMS = [("add", "x0", {"c": 1.0}), ("add", "x0.x1", {"c": 2.0, "s": 0.5}), ("add", "x1", {"name": "n1", "c": -3.0, "s": 2.0}), ("add", "x2.x1", {"c": 4.0}),
         ("add", "xx0.x0", {"c": 8.0, "s": -1.0}), ("add", "x1.x0", {"name": "n2", "c": 16.0}), ("add", "x1", {"c": 0.25}), ("off", 0.5), ("add", "x0", {"name": "n3", "c": 32.0, "s": -0.25}), ("add", "x0.x2", {"name": "n4", "c": 5.0, "s": 0.0}), ("add", "x0", {"name": "n5", "c": 7.0, "s": 0.0})]
CONS = [
    [],
    [("con", "h", "nhot", {"vars": ["x0", "x1", "x2"], "n": 1})],
    [("con", "h", "nhot", {"vars": ["x0", "x1"], "n": 2, "strength": 2.0}), ("con", "z", "zoo", {"vars": ["x1", "x2", "xx0"]})],
    [("con", "e", "eq", {"vars1": ["x0", "x1"], "vars2": ["x2", "xx0"], "strength": 3.0})],
]
VARS = ["x0", "x1", "x2", "xx0"]


def values(mt):
    return (1, -1) if mt == "ising" else (1, 0)


def check_restriction(real, before, fixes, modulo):
    want = before
    for t, v in fixes:
        want = poly_restrict(want, label(t), v)
    phys = real.op_phys()
    bqm = phys.to_bqm()
    d = poly_diff(poly_of_bqm(bqm), want, modulo_constant=modulo)
    if d:
        raise Violation("energy is not the restriction: " + d)
    for t, v in fixes:
        if label(t) in bqm.variables:
            raise Violation(f"the fixed variable {label(t)} is still in the physical model")


def run_restrict(case, cov):
    """differential: the energy after fixing equals the restriction of the energy the same model had before"""
    mt, arrays, ops, fixes = case
    fresh_clock()
    a, b, ref = Real(mt, arrays), Real(mt, arrays), Ref(mt, arrays)
    for op in ops:
        apply_both(a, ref, op)
        b.apply(op)
        cov.step()
    before = b.poly()  # b is converted, a keeps its pending removals
    has_con = bool(ref.constraints)
    for t, v in fixes:
        apply_both(a, ref, ("fix", t, v))
        cov.step()
    cov.state(ref.canon())
    cov.trace()
    cov.outcome(len(fixes))
    check_restriction(a, before, fixes, modulo=has_con and mt == "ising")
    d = poly_diff(a.poly(), ref.energy(), modulo_constant=has_con)
    if d:
        raise Violation("energy differs from the reference: " + d)
    if sorted(a.m.get_fixed_array()) != sorted({label(t) for t, _ in fixes}) or a.m.get_fixed_size() != len({t for t, _ in fixes}) \
            or a.m.get_size() != a.m.get_all_size() - a.m.get_fixed_size():
        raise Violation(f"fixed variables are {a.m.get_fixed_array()}, sizes {a.m.get_size()}/{a.m.get_all_size()}")


MIX = [
    ("fix", "x0", 1), ("fix", "x1", 1), ("fix", "x0", -1), ("fix", "x1", 0), ("fix", "x1", -1), ("fix", "x2", 0), ("fix", "x2", 2),
    ("phys",), ("rm", "x0"), ("rm", "x0.x1"), ("rmn", "n2"), ("upd", "x0.x1", {"c": 5.0, "s": 2.0}), ("upd", "x2.x1", {"s": 3.0}), ("off", -1.0),
    ("add", "x2", {"c": 1.5}), ("add", "x2.xx0", {"c": 0.5}),
]


def observe(real, ref):
    check_table(real.table(), ref, timestamps=False)
    d = poly_diff(real.poly(), ref.energy(), modulo_constant=ref.modulo_constant())
    if d:
        raise Violation("energy differs: " + d)
    for lb in ref.fixed:
        if lb in real.op_phys().to_bqm().variables:
            raise Violation(f"the fixed variable {lb} is still in the physical model")
    if sorted(real.m.get_fixed_array()) != sorted(ref.fixed):
        raise Violation(f"fixed variables are {real.m.get_fixed_array()}, expected {sorted(ref.fixed)}")


def run_mixed(case, cov):
    real, ref = run_history(case, cov, observe)
    cov.outcome((tuple(sorted(ref.fixed.items()))))


def SLICES(tier):
    q = tier == "quick"

    def restrict():
        for mt in ("ising", "qubo"):
            for cons in CONS:
                for n in range(0, 4 if q else 5):
                    for vs in itertools.permutations(VARS, n):
                        for vals in itertools.product(values(mt), repeat=n):
                            if q and n == 3 and (cons or vs[0] > vs[1]):
                                continue
                            if q and n == 2 and cons and mt == "ising" and vs[0] > vs[1]:
                                continue
                            yield (mt, ARR, TERMS + cons, [list(z) for z in zip(vs, vals)])

    def subsets():
        """every sub-model of the terms, with one of the terms removed beforehand (still pending or converted)"""
        for mt in ("ising", "qubo"):
            for n in range(1, 4 if q else 5):
                for ts in itertools.combinations(TERMS, n):
                    for fx in ([("x0", 1)], [("x1", values(mt)[1])], [("x0", values(mt)[1]), ("x1", 1)], [("x1", 1), ("x0", values(mt)[1])]):
                        yield (mt, ARR, list(ts), [list(f) for f in fx])
                        for r in ts:
                            if r[0] != "add":
                                continue
                            if q and n == 3 and len(fx) == 1:
                                continue
                            rm = ("rmn", r[2]["name"]) if "name" in r[2] else ("rm", r[1])
                            yield (mt, ARR, list(ts) + [rm], [list(f) for f in fx])

    def mixed():
        for mt in ("ising", "qubo"):
            for h in histories(MIX, 2 if q else 3, 1):
                # do not touch a variable after it was fixed
                fixed, ok = set(), True
                for op in h:
                    if op[0] in ("upd", "add", "rm") and any(u in fixed for u in op[1].split(".")):
                        ok = False
                    if op[0] == "rmn" and fixed & {"x0", "x1"}:
                        ok = False
                    if op[0] == "fix":
                        if op[1] in fixed:
                            ok = False
                        if op[2] in values(mt):
                            fixed.add(op[1])
                if ok:
                    yield (mt, ARR, TERMS + list(h))
                    if not q:
                        yield (mt, ARR, TERMS + CONS[2] + list(h))

    def kinds():
        """coefficients x scales x values, the value as an integer, a float, a bool or a numpy number"""
        num = [1.0, -3.0, 0.0, 2, -0.5, 1e-9, 1e9, ("np", "float64", -0.75), ("np", "int64", 4)]
        for mt in ("ising", "qubo"):
            lo = values(mt)[1]
            for v in (1, lo, 1.0, float(lo), True, ("np", "int64", 1), ("np", "int8", lo), ("np", "float64", float(lo)), ("np", "float64", 1.0)) + ((False,) if mt == "qubo" else ()):
                for c, s in itertools.product(num, num):
                    yield (mt, ARR, [("add", "x0", {"c": c, "s": s}), ("add", "x0.x1", {"c": c, "s": s}), ("add", "x1", {"c": 1.0}), ("fix", "x0", v)])
                for cons in CONS:
                    for t in VARS:
                        yield (mt, ARR, TERMS + cons + [("fix", t, v)])
                        yield (mt, ARR, TERMS + cons + [("fix", t, v), ("phys",), ("fix", "xx1", v)])

    def sizes():
        """many variables fixed in models with many interactions"""
        for mt in ("ising", "qubo"):
            lo = values(mt)[1]
            for n in (8, 9, 12, 16, 17, 33) if q else (8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 64, 65):
                rows = [("add", f"x:{i}", {"c": i + 1.0}) for i in range(n)] + [("add", f"x:{i}.x:{(i + 3) % n}", {"c": i - 2.0, "s": 0.5}) for i in range(n)] + [("add", f"x:0.x:{i}", {"name": f"s{i}", "c": 0.25 * i}) for i in range(1, n)]
                for con in ([], [("con", "h", "nhot", {"vars": [f"x:{i}" for i in range(n)], "n": 2})]):
                    for fx in ([0], [n - 1], [3, 0], [n // 2, n - 1, 1], list(range(n - 1)), list(range(n - 1, 0, -1)), list(range(0, n, 2))):
                        yield (mt, {"x": [n]}, rows + con + [("fix", f"x:{i}", lo if i % 3 else 1) for i in fx])

    def redo():
        """an interaction is removed, converted away and added again under its old name, then the variable is fixed again"""
        for mt in ("ising", "qubo"):
            for a, b in itertools.product(values(mt), values(mt)):
                for mid in ([], [("phys",)]):
                    yield (mt, ARR, [("add", "x0.x1", {"name": "foo", "c": 2.0}), ("fix", "x0", a)] + mid + ([("phys",)]) +
                           [("add", "x2.x1", {"name": "foo", "c": 3.0})] + mid + [("fix", "x2", b), ("phys",)])

    return [
        Slice("restrict", restrict, run_restrict, f"a model with 10 interactions x {len(CONS)} constraint sets x ordered selections of up to {3 if q else 4} variables x all values, both types"),
        Slice("subsets", subsets, run_restrict, f"all sub-models of up to {3 if q else 4} terms x 4 fix sequences x each interaction removed before, both types"),
        Slice("kinds", kinds, run_mixed, "81 coefficient and scale pairs and 4 constraint sets x the value as integer, float, bool or numpy number, both types"),
        Slice("units-small", lambda: (c for c in restrict() if len(c[3]) <= (2 if q else 3)), in_unit(run_restrict, -45), "up to 2 (thorough 3) fixed variables with all energies multiplied by 2**-45"),
        Slice("units-large", lambda: (c for c in restrict() if len(c[3]) <= (2 if q else 3)), in_unit(run_restrict, 45), "up to 2 (thorough 3) fixed variables with all energies multiplied by 2**45"),
        Slice("sizes", sizes, run_mixed, "7 sequences of fixes on models of 8 to 33 (thorough 65) variables with 3n interactions"),
        Slice("mixed", mixed, run_mixed, f"all histories of length <= {2 if q else 3} over {len(MIX)} fixes, refused fixes and edits on a rich model, both types"),
        Slice("redo", redo, run_mixed, "re-used interaction names around fixes"),
    ]
