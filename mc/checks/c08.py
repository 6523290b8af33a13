"""C08: a constraint's penalty is exactly its formula, for any way of building it."""
import itertools

from mc.core import Slice, Violation, histories
from mc.lm import Real, Ref, constraint_labels, constraint_poly, fresh_clock, in_unit, label, make_constraint, poly_diff, poly_eval, poly_of_bqm, poly_sum, poly_to_ising

ASSUMPTIONS = ["compared up to an additive constant, as the property says"]
ARR = {"x": [3], "xx": [2, 2]}
# (form, targets): how a group of variables is supplied
GROUPS = [
    ("one", ["x0"]), ("list", ["x1", "x0"]), ("set", ["x2", "xx01"]), ("array", "x"), ("list", ["x1", "x1", "xx11"]), ("slice", "xx"), ("list", []), ("set", ["x0", "x2"]), ("array", "xx"),
]


class Supplied:
    """A container of variables as a caller would supply it; spoil() is what the caller may do with it afterwards."""

    def __init__(self, real, form, what):
        if form == "one":
            self.obj, self.labels = real.var(what[0]), [label(what[0])]
        elif form == "array":
            self.obj = real.m.get_variables_by_name(what)
            self.labels = [label(t) for t in (["x0", "x1", "x2"] if what == "x" else ["xx00", "xx01", "xx10", "xx11"])]
        elif form == "slice":  # first row of a two-dimensional array
            self.obj = real.m.get_variables_by_name(what)[0]
            self.labels = [label("xx00"), label("xx01")]
        elif form == "set":
            self.obj, self.labels = {real.var(t) for t in what}, [label(t) for t in what]
        else:
            self.obj, self.labels = [real.var(t) for t in what], [label(t) for t in what]
        self.form = form

    def snapshot(self):
        if self.form == "set":
            return sorted(v.label for v in self.obj)
        if self.form == "list":
            return [v.label for v in self.obj]
        return None

    def spoil(self, real):
        if self.form == "set":
            self.obj.clear()
            self.obj.add(real.var("xx10"))
        elif self.form == "list":
            self.obj.clear()
            self.obj.append(real.var("xx10"))


def ctor(real, kind, groups, params):
    from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint

    cls = {"nhot": NHotConstraint, "zoo": ZeroOrOneHotConstraint, "eq": EqualityConstraint}[kind]
    kw = dict(params)
    keys = ["variables_1", "variables_2"] if kind == "eq" else ["variables"]
    used = []
    sets = []
    for k, g in zip(keys, groups):
        if g is None or len(g[1]) == 0:  # an empty container is refused by the API; leave it out
            sets.append(set())
            continue
        s = Supplied(real, *g)
        used.append(s)
        kw[k] = s.obj
        sets.append(set(s.labels))
    return cls(**kw), used, sets


def params_of(kind, sets, params):
    p = {"strength": params.get("strength", 1.0)}
    if kind == "eq":
        p["vars1"], p["vars2"] = sorted(sets[0]), sorted(sets[1])
    else:
        p["vars"] = sorted(sets[0])
        p["n"] = params.get("n", 1)
    return p


def check_sets(c, kind, sets):
    got = constraint_labels(c)
    keys = ["vars1", "vars2"] if kind == "eq" else ["vars"]
    for k, s in zip(keys, sets):
        if got[k] != sorted(s):
            raise Violation(f"the constraint has {k} {got[k]}, expected {sorted(s)}")


def check_energy(real, ref, cons, what=""):
    """cons: {label: (kind, params)} with labels as variables"""
    q = {}
    for kind, p in cons.values():
        q = poly_sum(q, constraint_poly(kind, p))
    if ref.mtype == "ising":
        q = poly_to_ising(q)
    exp = poly_sum(ref.poly(), q)
    got = poly_of_bqm(real.m.to_physical().to_bqm())
    d = poly_diff(got, exp, modulo_constant=True)
    if d:
        raise Violation(f"{what}energy differs: {d}")
    return got


def minimisers(real, ref, got, kind, p):
    """Where the constraint is alone, its minimisers are exactly the assignments that satisfy it (if there are any)."""
    vs = sorted(set(p.get("vars", [])) | set(p.get("vars1", [])) | set(p.get("vars2", [])))
    if not vs or p["strength"] <= 0 or len(vs) > 6:
        return
    lo, good, energies = None, [], {}
    for bits in itertools.product((0, 1), repeat=len(vs)):
        a = dict(zip(vs, bits))
        if kind == "nhot":
            ok = sum(bits) == p["n"]
        elif kind == "zoo":
            ok = sum(bits) <= 1
        else:
            ok = sum(a[v] for v in p["vars1"]) == sum(a[v] for v in p["vars2"])
        e = poly_eval({k: v for k, v in got.items() if k}, a if ref.mtype == "qubo" else {k: 2 * b - 1 for k, b in a.items()})
        energies[bits] = e
        lo = e if lo is None else min(lo, e)
        if ok:
            good.append(bits)
    if good:
        best = [b for b, e in energies.items() if e <= lo + 1e-3 * p["strength"]]
        if best != good:
            raise Violation(f"minimisers {best}, satisfying assignments {good}")


def fresh(mt, base, arrays=ARR):
    fresh_clock()
    real, ref = Real(mt, arrays), Ref(mt, arrays)
    for op in base:
        real.apply(op)
        ref.apply(op)
    return real, ref


def run_build(case, cov):
    """A constraint built by a history of additions and removals, in any supplied form."""
    mt, kind, groups, params, steps = case
    real, ref = fresh(mt, [("add", "x0", {"c": 1.0}), ("add", "x0.x1", {"c": -2.0})])
    c, used, sets = ctor(real, kind, groups, params)
    for s in used:
        s.spoil(real)
    real.m.add_constraint(c)
    for act, side, g in steps:
        if act == "phys":
            real.m.to_physical()
            ref.apply(("phys",))
            cov.step()
            continue
        if act == "conv":
            to = ("qubo",) if ref.mtype == "ising" else ("ising",)
            real.apply(to)
            ref.apply(to)
            cov.step()
            continue
        s = Supplied(real, *g)
        before = s.snapshot()
        i = side - 1 if kind == "eq" else 0
        suffix = {"add": "_to", "rm": "_from"}[act] + f"_{side}" if kind == "eq" else ""
        method = {"add": "add_variable", "rm": "remove_variable"}[act] + suffix
        must_fail = not s.labels or (act == "rm" and not set(s.labels) <= sets[i])
        try:
            getattr(c, method)(s.obj)
            failed = None
        except (TypeError, ValueError) as e:
            failed = e
        if (failed is not None) != must_fail:
            raise Violation(f"{method}({g}) on {sets}: {'must be refused' if must_fail else f'raised {failed!r}'}")
        if s.snapshot() != before:
            raise Violation(f"{method} changed the caller's container from {before} to {s.snapshot()}")
        if not must_fail:
            sets[i] = sets[i] | set(s.labels) if act == "add" else sets[i] - set(s.labels)
        s.spoil(real)
        cov.step()
    check_sets(c, kind, sets)
    p = params_of(kind, sets, params)
    cov.trace()
    cov.state((mt, kind, repr(p)))
    cov.outcome((kind, len(sets[0])))
    got = check_energy(real, ref, {"c": (kind, p)})
    check_energy(real, ref, {"c": (kind, p)}, "second conversion: ")
    check_sets(c, kind, sets)
    return got


def run_params(case, cov):
    mt, kind, groups, params = case
    real, ref = fresh(mt, [])
    c, used, sets = ctor(real, kind, groups, params)
    real.m.add_constraint(c)
    p = params_of(kind, sets, params)
    cov.step()
    cov.trace()
    cov.state((mt, kind, repr(p)))
    got = check_energy(real, ref, {"c": (kind, p)})
    minimisers(real, ref, got, kind, p)
    if kind == "nhot" and c.get_n() != p["n"] or c.get_strength() != p["strength"]:
        raise Violation("getters do not return n and strength")


def run_refuse(case, cov):
    kind, kw = case
    real, ref = fresh("qubo", [])
    from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint

    cls = {"nhot": NHotConstraint, "zoo": ZeroOrOneHotConstraint, "eq": EqualityConstraint}[kind]
    cov.step()
    cov.trace()
    try:
        cls(**kw)
    except (TypeError, ValueError):
        return
    raise Violation(f"{kind}({kw}) was accepted")


CONS = [
    ("a", "nhot", {"vars": ["x0", "x1", "x2"], "n": 1}), ("b", "nhot", {"vars": ["x1", "x2", "xx01"], "n": 2, "strength": 2.5}),
    ("c", "eq", {"vars1": ["x0", "x1"], "vars2": ["xx01"], "strength": 0.5}), ("d", "zoo", {"vars": ["x0", "xx01"], "strength": 4}),
    ("a", "zoo", {"vars": ["x0", "x1", "xx10"]}), ("b", "eq", {"vars1": ["x2"], "vars2": ["x2", "xx10"], "strength": 3.0}),
]
BASE = [("add", "x0", {"c": 1.0}), ("add", "x0", {"name": "x[0] (a)", "c": 5.0}), ("add", "x0.x1", {"name": "x[0]*x[1] (a)", "c": -3.0, "s": 2.0}), ("off", 1.0)]


def run_several(case, cov):
    mt, ops = case
    real, ref = fresh(mt, BASE)
    for op in ops:
        real.apply(tuple(op))
        ref.apply(tuple(op))
        cov.step()
    cov.trace()
    cov.state((mt, repr(sorted(ref.constraints.items()))))
    check_energy(real, ref, ref.constraints)
    if set(real.m.get_constraints()) != set(ref.constraints):
        raise Violation(f"constraints {sorted(real.m.get_constraints())}, expected {sorted(ref.constraints)}")
    check_energy(real, ref, ref.constraints, "second conversion: ")


def run_large(case, cov):
    mt, kind, arrays, params = case
    real, ref = fresh(mt, [], arrays)
    real.m.add_constraint(make_constraint(kind, params, real.var, "c"))
    p = {k: ([label(v) for v in vs] if k.startswith("vars") else vs) for k, vs in params.items()}
    p.setdefault("strength", 1.0)
    cov.step()
    cov.trace()
    cov.state(case)
    check_energy(real, ref, {"c": (kind, p)})


def SLICES(tier):
    q = tier == "quick"
    steps1 = [("phys", 0, None)] + [(a, 1, g) for g in GROUPS for a in ("add", "rm")]
    steps2 = [("phys", 0, None)] + [(a, s, g) for g in GROUPS[:5] for a in ("add", "rm") for s in (1, 2)]

    def build():
        for mt, kind, depth in (("qubo", "nhot", 3), ("ising", "nhot", 2), ("qubo", "zoo", 2), ("ising", "zoo", 2)):
            params = {"n": 2, "strength": 1.5} if kind == "nhot" else {"strength": 2.0}
            for g in [None] + GROUPS:
                for h in histories(steps1, depth - (g not in (None, GROUPS[2], GROUPS[3])) + (not q)):
                    yield (mt, kind, [g], params, list(h))
        for mt, depth in (("qubo", 2), ("ising", 1)):
            for g1, g2 in itertools.product([None] + GROUPS[:5], repeat=2):
                for h in histories(steps2, depth + (not q)):
                    yield (mt, "eq", [g1, g2], {"strength": 0.5}, list(h))

    def params():
        us = ["x0", "x1", "x2", "xx11"]
        subsets = [list(s) for n in range(len(us) + 1) for s in itertools.combinations(us, n)]
        strengths = [1.0, 0.5, 10, 0.0, -2.0, 1e-6, 1e6]
        for mt in ("qubo", "ising"):
            for st in strengths:
                for s in subsets:
                    yield (mt, "zoo", [("list", s)], {"strength": st})
                    for n in (1, 2, 3, 5):
                        yield (mt, "nhot", [("list", s)], {"n": n, "strength": st})
            for st in strengths[:5 if q else None]:
                for s1, s2 in itertools.product(subsets, repeat=2):
                    yield (mt, "eq", [("list", s1), ("set", s2)], {"strength": st})

    refuse = [("nhot", {"n": 0}), ("nhot", {"n": -1}), ("nhot", {"n": 1.5}), ("nhot", {"n": "1"}), ("nhot", {"label": ""}), ("nhot", {"label": 1}), ("nhot", {"strength": "1"}),
              ("zoo", {"label": ""}), ("zoo", {"strength": "1"}), ("eq", {"label": ""}), ("eq", {"strength": None}), ("nhot", {"variables": "x"}), ("nhot", {"variables": ["x"]}),
              ("zoo", {"variables": ("x",)}), ("eq", {"variables_1": ["x"]}), ("eq", {"variables_2": "x"})]

    def several():
        ops = [("con",) + c for c in CONS] + [("rmcon", "a"), ("phys",)]
        for mt in ("qubo", "ising"):
            for n in range(1, 4 if q else 5):
                for h in itertools.product(ops, repeat=n):
                    live = set()
                    ok = True
                    for o in h:
                        if o[0] == "con":
                            live.add(o[1])
                        elif o[0] == "rmcon":
                            ok = ok and o[1] in live
                            live.discard(o[1])
                    if ok:
                        yield (mt, list(h))

    def typed():
        """the model changes its type between the additions and removals"""
        g1 = [GROUPS[i] for i in (0, 1, 2, 3, 5, 7)]
        conv = ("conv", 0, None)
        for mt in ("qubo", "ising"):
            for kind in ("nhot", "zoo", "eq"):
                params = {"n": 2, "strength": 1.5} if kind == "nhot" else {"strength": 2.0}
                for g in g1:
                    for sides in ((1,), (2,))[: 2 if kind == "eq" else 1]:
                        for a, b in itertools.product(("add", "rm"), repeat=2):
                            for h1, h2 in itertools.product(g1, repeat=2):
                                s1, s2 = (a, sides[0], h1), (b, sides[0], h2)
                                for steps in ([conv, s1], [s1, conv, s2], [conv, s1, conv], [conv, s1, conv, s2]):
                                    if (len(steps) < 3 or steps[-1] is conv) and (h2 != g1[0] or b == "rm"):
                                        continue
                                    if q and len(steps) >= 3 and (g not in g1[1:4] or h1 not in g1[:4]):
                                        continue
                                    yield (mt, kind, [g, g1[1]] if kind == "eq" else [g], params, steps)

    def large():
        for mt in ("qubo", "ising"):
            for n in range(1, 13):
                vs = [f"x:{i}" for i in range(12)][:n]
                yield (mt, "nhot", {"x": [12]}, {"vars": vs, "n": 3})
                yield (mt, "zoo", {"x": [12]}, {"vars": vs})
                yield (mt, "eq", {"x": [12]}, {"vars1": vs[::2], "vars2": vs[1::2], "strength": 2.0})
            for n in (16, 17, 33, 50) if q else (15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100):
                vs = [f"x:{i}" for i in range(n)]
                for k in (1, 2, n // 2, n, n + 3):
                    yield (mt, "nhot", {"x": [n]}, {"vars": vs, "n": k, "strength": 0.5})
                yield (mt, "zoo", {"x": [n]}, {"vars": vs, "strength": 3.0})
                yield (mt, "eq", {"x": [n]}, {"vars1": vs[:1], "vars2": vs[1:]})
                yield (mt, "eq", {"x": [n]}, {"vars1": vs[: n - 2], "vars2": vs[n - 2:], "strength": 2.0})
                yield (mt, "eq", {"x": [n]}, {"vars1": vs[: n - 2], "vars2": vs[2:], "strength": 2.0})
                yield (mt, "eq", {"x": [n]}, {"vars1": vs[::2], "vars2": vs[1::2], "strength": 2.0})
            grid = [f"xx:{i},{j}" for i in range(3) for j in range(4)]
            yield (mt, "nhot", {"xx": [3, 4]}, {"vars": grid, "n": 2})
            yield (mt, "eq", {"xx": [3, 4]}, {"vars1": grid[:6], "vars2": grid[6:]})

    return [
        Slice("refuse", refuse, run_refuse, "invalid parameters"),
        Slice("params", params, run_params, "all subsets of 4 variables (pairs of subsets for equality) x strengths x n, both types, with minimisers"),
        Slice("several", several, run_several, f"all histories of length <= {3 if q else 4} of adding {len(CONS)} constraints, removing and converting, next to interactions with clashing names"),
        Slice("large", large, run_large, "up to 12 variables, and selected sizes up to 50 (thorough 100), one- and two-dimensional (label order differs from index order)"),
        Slice("units-small", lambda: (c for c in several() if len(c[1]) < (3 if q else 4)), in_unit(run_several, -45), "up to 2 (thorough 3) constraint operations with all energies multiplied by 2**-45"),
        Slice("units-large", lambda: (c for c in several() if len(c[1]) < (3 if q else 4)), in_unit(run_several, 45), "up to 2 (thorough 3) constraint operations with all energies multiplied by 2**45"),
        Slice("large-units-small", large, in_unit(run_large, -45), "the large constraints with all energies multiplied by 2**-45"),
        Slice("large-units-large", large, in_unit(run_large, 45), "the large constraints with all energies multiplied by 2**45"),
        Slice("typed", typed, run_build, "up to two additions or removals with model type conversions before, between and after them, all constraint kinds"),
        Slice("build", build, run_build, f"all histories of length <= {3 if q else 4} of additions and removals supplied as single variable, list, set, array, row; containers reused by the caller afterwards"),
    ]
