"""C22: copies and serialised models are independent and behave identically."""
import copy
import itertools
import pickle

from mc.core import Slice, Violation
from mc.lm import CLOCK, Real, Ref, Refused, apply_both, check_table, constraint_labels, fresh_clock, poly_diff, poly_of_bqm, target_labels

ASSUMPTIONS = ["the state coder of the streaming step is pickle", "the clock is controlled by the harness"]
ARR = {"x": [3], "y": [2, 2]}
OPS = [
    ("add", "x0", {"c": 1.0, "a": {"k": [1]}}),
    ("add", "x0.x1", {"c": -2.0, "s": 0.5}),
    ("upd", "x0", {"c": 3.0, "a": {"k": 5, "m": "z"}}),
    ("rm", "x0"),
    ("rm", "x0.x1"),
    ("phys",),
    ("off", 2.5),
    ("del", "x1"),
    ("fix", "x1", 1),
    ("con", "h", "nhot", {"vars": ["x0", "x2"], "n": 1}),
    ("conadd", "h", "x1"),
    ("rmcon", "h"),
    ("conv",),
    ("append", "x", [1]),
    ("vars", "z", [2]),
    ("add", "x2", {"name": "n", "c": 0.25}),
    ("updn", "n", {"s": 4.0}),
    ("con", "e", "eq", {"vars1": ["x0"], "vars2": ["x1", "x2"]}),
]
SETUPS = [
    [],
    [("add", "x0", {"c": 1.0, "a": {"k": [1]}}), ("add", "x0.x1", {"c": -2.0}), ("con", "h", "nhot", {"vars": ["x0", "x2"], "n": 1}), ("off", 1.0)],
    [("add", "x0", {"c": 1.0}), ("add", "x1.x2", {"c": 2.0}), ("fix", "x2", 1), ("add", "x1", {"name": "n", "c": 1.5}), ("phys",), ("rm", "x0")],
    [("add", "x0", {"c": 1.0, "a": {"k": 1}}), ("add", "x1", {"c": 2.0}), ("del", "x0"), ("con", "e", "eq", {"vars1": ["x1"], "vars2": ["x2"]}), ("con", "h", "nhot", {"vars": ["x1", "x2"], "n": 1})],
]


class R2(Real):
    def op_conadd(self, c, t):
        self.m.get_constraints_by_label(c).add_variable(self.var(t))

    def op_append(self, name, shape):
        self.m.append(name, shape=tuple(shape))

    def op_vars(self, name, shape):
        self.m.variables(name, shape=tuple(shape))

    def op_conv(self):
        self.m.to_qubo() if self.m.get_mtype() == "ising" else self.m.to_ising()


class F2(Ref):
    def op_conadd(self, c, t):
        from mc.lm import label

        if c not in self.constraints:
            raise Refused()
        kind, p = self.constraints[c]
        if label(t) not in p["vars"]:
            p["vars"].append(label(t))

    def op_append(self, name, shape):
        if name in self.arrays:
            self.arrays[name] = tuple(a + b for a, b in zip(self.arrays[name], shape))
        else:
            self.arrays[name] = tuple(shape)

    def op_vars(self, name, shape):
        self.arrays[name] = tuple(shape)

    def op_conv(self):
        self.op_qubo() if self.mtype == "ising" else self.op_ising()


def clone(real, how):
    out = R2.__new__(R2)
    out.m = {"deep": copy.deepcopy, "pickle": lambda m: pickle.loads(pickle.dumps(m)), "twice": lambda m: pickle.loads(pickle.dumps(copy.deepcopy(pickle.loads(pickle.dumps(m))))),
             "proto": lambda m: pickle.loads(pickle.dumps(m, protocol=2))}[how](real.m)
    return out


def phys_view(p):
    return (p.get_mtype(), p.get_offset(), sorted(poly_of_bqm(p.to_bqm()).items(), key=repr), repr(sorted(p.to_polynomial())), repr(sorted(p._label_to_index.items())) if hasattr(p, "_label_to_index") else "")


def observe(real, ref, who):
    """everything a user can see, against the reference"""
    m = real.m
    try:
        check_table(real.table(), ref, timestamps=True)
        if m.get_mtype() != ref.mtype:
            raise Violation(f"the type is {m.get_mtype()}, expected {ref.mtype}")
        if {k: tuple(a.shape) for k, a in m.get_variables().items()} != {k: tuple(s) for k, s in ref.arrays.items()}:
            raise Violation(f"the variables are { {k: a.shape for k, a in m.get_variables().items()} }, expected {ref.arrays}")
        if sorted(m.get_deleted_array()) != sorted(ref.deleted) or sorted(m.get_fixed_array()) != sorted(ref.fixed):
            raise Violation(f"deleted {m.get_deleted_array()} and fixed {m.get_fixed_array()}, expected {ref.deleted} and {ref.fixed}")
        got = {k: (constraint_labels(c), c.get_strength()) for k, c in m.get_constraints().items()}
        want = {k: ({a: sorted(v) for a, v in p.items() if a.startswith("vars")}, p["strength"]) for k, (_, p) in ref.constraints.items()}
        if got != want:
            raise Violation(f"the constraints are {got}, expected {want}")
        probe = copy.deepcopy(m)
        p = probe.to_physical()
        d = poly_diff(poly_of_bqm(p.to_bqm()), ref.energy(), modulo_constant=ref.modulo_constant())
        if d:
            raise Violation(f"the problem differs: {d}")
        if abs(m.get_offset() - ref.offset) > 1e-9:
            raise Violation(f"the offset is {m.get_offset()}, expected {ref.offset}")
    except Violation as e:
        raise Violation(f"{who}: {e}")


def run_copy(case, cov):
    """history before; copy; history on one side (or both) after"""
    mtype, setup, before, how, after = case
    fresh_clock()
    a, ra = R2(mtype, ARR), F2(mtype, ARR)
    for op in list(setup) + list(before):
        CLOCK.now += 10
        apply_both(a, ra, op)
    b, rb = clone(a, how), copy.deepcopy(ra)
    if not (a.m == b.m) or a.m != b.m or not (b.m == a.m):
        raise Violation(f"the copy does not equal the original after {setup} {before}")
    observe(b, rb, "the fresh copy")
    early = []
    for side, op in after:
        CLOCK.now += 10
        for s, real, ref in (("a", a, ra), ("b", b, rb)):
            if s in side:
                refused = apply_both(real, ref, op)
                if op[0] == "phys" and not refused:
                    p = real.op_phys()
                    early.append((p, phys_view(p)))
                cov.step()
        if side == "ab" and not (a.m == b.m):
            raise Violation(f"original and copy differ after the same operations {after}")
    CLOCK.now += 10
    cov.trace()
    cov.state((ra.canon(), rb.canon()))
    cov.outcome((how, len(after)))
    observe(a, ra, "the original")
    observe(b, rb, "the copy")
    for p, v in early:
        if phys_view(p) != v:
            raise Violation("a physical model changed after its conversion")
    e = a.m.empty()
    if e.get_mtype() != ra.mtype or e.get_variables() or e.get_constraints() or e.get_offset() or e.get_deleted_array() or e.get_fixed_array() or len(e.select_interaction("body > 0")) or e != type(e)(mtype=ra.mtype):
        raise Violation(f"the empty sibling has {e!r}")


def run_phys(case, cov):
    """physical models: copies, and independence of the logical model they came from"""
    mtype, setup, how, after = case
    fresh_clock()
    a, ra = R2(mtype, ARR), F2(mtype, ARR)
    for op in setup:
        apply_both(a, ra, op)
    p = a.op_phys()
    ra.apply(("phys",))
    v = phys_view(p)
    p2 = {"deep": copy.deepcopy, "pickle": lambda m: pickle.loads(pickle.dumps(m))}[how](p)
    if not (p == p2) or p != p2 or phys_view(p2) != v:
        raise Violation(f"the copy of a physical model differs: {phys_view(p2)} instead of {v}")
    for op in after:
        CLOCK.now += 10
        if op[0] == "padd":
            p2.add_interaction(tuple(op[1]) if len(op[1]) > 1 else op[1][0], len(op[1]), op[2])
        elif op[0] == "bqm":
            q = p.to_bqm()
            q.scale(3.0)
            q.offset = 7.0
        elif op[0] == "poly":
            q = p.to_polynomial()
            q.clear()
        else:
            apply_both(a, ra, op)
        cov.step()
        if phys_view(p) != v:
            raise Violation(f"the physical model changed after {op}: {phys_view(p)} instead of {v}")
    p3 = a.op_phys()
    ra.apply(("phys",))
    d = poly_diff(poly_of_bqm(p3.to_bqm()), ra.energy(), modulo_constant=ra.modulo_constant())
    if d:
        raise Violation(f"the next conversion differs: {d}")
    if any(o[0] == "padd" and o[2] not in (0.0,) for o in after) and p2 == p:
        raise Violation("a changed physical model equals the unchanged one")
    cov.trace()
    cov.state((ra.canon(), repr(v)))
    cov.outcome(how)


def run_empty(case, cov):
    mtype, setup, ops = case
    fresh_clock()
    a, ra = R2(mtype, ARR), F2(mtype, ARR)
    for op in setup:
        apply_both(a, ra, op)
    kept = copy.deepcopy(ra)
    b = R2.__new__(R2)
    b.m = a.m.empty()
    rb = F2(ra.mtype, {})
    observe(b, rb, "the empty model")
    for n, s in ARR.items():
        b.m.variables(n, shape=tuple(s))
    rb.arrays = {k: tuple(v) for k, v in ARR.items()}
    for op in ops:
        CLOCK.now += 10
        apply_both(b, rb, op)
        cov.step()
    observe(b, rb, "the sibling")
    observe(a, kept, "the original")
    cov.trace()
    cov.state((ra.canon(), rb.canon()))


def content(ref):
    """what two models must share to be equal"""
    def v(x):
        return repr(x)

    rows = sorted((repr(r["name"]), repr(r["key"]), float(r["coef"]), float(r["scale"]), sorted((k, v(x)) for k, x in r["attrs"].items()), r["ts"], r["removed"], r["dirty"]) for r in ref.rows)
    return (ref.mtype, sorted(ref.arrays.items()), rows, float(ref.offset), sorted(ref.deleted), sorted(ref.fixed.items()), sorted((k, kind, repr(sorted((a, sorted(b) if isinstance(b, list) else b) for a, b in p.items()))) for k, (kind, p) in ref.constraints.items()))


EQ = [
    ("ising", []), ("qubo", []),
    ("ising", [("add", "x0", {"c": 1.0, "t": 1})]), ("qubo", [("add", "x0", {"c": 1.0, "t": 1})]),
    ("ising", [("add", "x0", {"c": 1.5, "t": 1})]), ("ising", [("add", "x0", {"c": 1.0, "s": 2.0, "t": 1})]), ("ising", [("add", "x0", {"c": 1.0, "t": 2})]), ("ising", [("add", "x1", {"c": 1.0, "t": 1})]),
    ("ising", [("add", "x0", {"c": 1.0, "t": 1, "name": "n"})]), ("ising", [("add", "x0", {"c": 1.0, "t": 1, "a": {"k": 1}})]), ("ising", [("add", "x0", {"c": 1.0, "t": 1, "a": {"k": 2}})]), ("ising", [("add", "x0", {"c": 1.0, "t": 1, "a": {"l": 1}})]),
    ("ising", [("add", "x0.x1", {"c": 1.0, "t": 1})]), ("ising", [("add", "x0.x2", {"c": 1.0, "t": 1})]), ("ising", [("add", "x0", {"c": 1.0, "t": 1}), ("rm", "x0")]),
    ("ising", [("add", "x0", {"c": 1.0, "t": 1}), ("add", "x1", {"c": 1.0, "t": 1})]), ("ising", [("add", "x0", {"c": 1.0, "t": 1}), ("add", "x1", {"c": 2.0, "t": 1})]), ("ising", [("add", "x0", {"c": 1.0, "t": 1}), ("add", "x1", {"c": 1.0, "t": 1, "a": {"k": 1}})]),
    ("ising", [("add", "x0", {"c": 1.0, "t": 1, "a": {"k": 1}}), ("add", "x1", {"c": 1.0, "t": 1})]),
    ("ising", [("off", 1.0)]), ("ising", [("off", -1.0)]), ("ising", [("del", "x0")]), ("ising", [("del", "x1")]), ("ising", [("fix", "x0", 1)]), ("ising", [("fix", "x0", -1)]), ("ising", [("fix", "x1", 1)]), ("qubo", [("fix", "x0", 0)]),
    ("ising", [("con", "h", "nhot", {"vars": ["x0", "x1"], "n": 1})]), ("ising", [("con", "h", "nhot", {"vars": ["x0", "x1"], "n": 2})]), ("ising", [("con", "h", "nhot", {"vars": ["x0", "x2"], "n": 1})]), ("ising", [("con", "g", "nhot", {"vars": ["x0", "x1"], "n": 1})]),
    ("ising", [("con", "h", "nhot", {"vars": ["x0", "x1"], "n": 1, "strength": 2.0})]), ("ising", [("con", "h", "zoo", {"vars": ["x0", "x1"]})]), ("ising", [("con", "h", "eq", {"vars1": ["x0"], "vars2": ["x1"]})]), ("ising", [("con", "h", "eq", {"vars1": ["x1"], "vars2": ["x0"]})]), ("ising", [("con", "h", "eq", {"vars1": ["x0"], "vars2": ["x1", "x2"]})]), ("ising", [("con", "h", "eq", {"vars1": ["x0"], "vars2": ["x1"], "strength": 3.0})]), ("ising", [("con", "h", "zoo", {"vars": ["x0", "x1"], "strength": 0.5})]),
    ("ising", [("append", "x", [1])]), ("ising", [("vars", "z", [2])]), ("ising", [("vars", "z", [3])]), ("ising", [("append", "y", [0, 1])]), ("ising", [("append", "y", [1, 0])]),
    ("ising", [("add", "x0", {"c": 1.0, "t": 1}), ("phys",)]), ("ising", [("add", "x0", {"c": 1.0, "t": 1}), ("phys",), ("add", "x1", {"c": 1.0, "t": 1})]),
    ("ising", [("con", "h", "nhot", {"vars": ["x0", "x1"], "n": 1}), ("con", "g", "nhot", {"vars": ["x0", "x1"], "n": 1})]),
]


def build(mtype, ops):
    fresh_clock()
    a, ra = R2(mtype, ARR), F2(mtype, ARR)
    for op in ops:
        CLOCK.now += 10
        apply_both(a, ra, op)
    return a, ra


def run_eq(case, cov):
    (mt1, o1), (mt2, o2), how = case
    a, ra = build(mt1, o1)
    b, rb = build(mt2, o2)
    if how != "none":
        b = clone(b, how)
    eq, ne = a.m == b.m, a.m != b.m
    if bool(eq) == bool(ne):
        raise Violation(f"== is {eq} and != is {ne}")
    cov.step()
    cov.trace()
    cov.state((content(ra), content(rb)))
    same_history = (mt1, list(o1)) == (mt2, list(o2))
    same_content = content(ra) == content(rb)
    cov.outcome((same_history, bool(eq)))
    if same_history and not eq:
        raise Violation("two models built by the same calls are not equal")
    # `dirty` tells whether a row was converted; that alone is no difference in contents
    strip = lambda c: c[:2] + ([r[:7] for r in c[2]],) + c[3:]
    if strip(content(ra)) != strip(content(rb)) and eq:
        raise Violation("models with different contents are equal")
    for other in (None, 1, "x", {}, a.m.to_physical() if same_history else None):
        if a.m == other or not (a.m != other):
            raise Violation(f"a model equals {other!r}")
    pa, pb = a.m.to_physical(), b.m.to_physical()
    d = poly_diff(poly_of_bqm(pa.to_bqm()), poly_of_bqm(pb.to_bqm()))
    if same_history and pa != pb:
        raise Violation("the physical models of equal models are not equal")
    if (d or pa.get_mtype() != pb.get_mtype()) and (pa == pb):
        raise Violation(f"different physical models are equal: {d}")


def SLICES(tier):
    q = tier == "quick"
    types = ("ising", "qubo")

    def copies(befores, hows, afters, setups=SETUPS, types=types):
        def g():
            for after in afters:
                for mt in types:
                    for s in setups:
                        for b in befores:
                            for h in hows:
                                yield (mt, s, b, h, after)
        return g

    one = [[(side, op)] for op in OPS for side in ("a", "b", "ab")]
    two = [[("a", o1), ("b", o2)] for o1 in OPS for o2 in OPS] + [[("ab", o1), ("ab", o2)] for o1 in OPS for o2 in OPS]
    both3 = [[("a", o1), ("b", o2), ("ab", o3)] for o1 in OPS[::2] for o2 in OPS[1::2] for o3 in OPS[::3]]

    def phys():
        padds = [("padd", ["x[0]"], 9.0), ("padd", ["x[0]", "x[1]"], -9.0), ("bqm",), ("poly",)]
        for mt in types:
            for s in SETUPS[1:]:
                for how in ("deep", "pickle") if not q else ("pickle",):
                    for n in (1, 2) if q else (1, 2, 3):
                        for after in itertools.product(padds + OPS if n < 3 else padds + OPS[:8], repeat=n):
                            yield (mt, s, how, list(after))

    def empties():
        for mt in types:
            for s in SETUPS:
                for n in (0, 1, 2) if not q or s is SETUPS[1] else (0, 1):
                    for ops in itertools.product(OPS, repeat=n):
                        yield (mt, s, list(ops))

    def many():
        """models with many interactions: the copy is made after n additions, every operation follows"""
        for n in (20, 70) if q else (5, 20, 33, 70, 150):
            rows = [("add", ("x0", "x1", "x2", "x0.x1", "x1.x2", "y:0,1", "y:1,1.x0")[i % 7], {"name": f"r{i}", "c": i / 4 - 3, "s": 1.0 + (i % 3) / 2, "a": {("k", "m", "p")[i % 3]: i}}) for i in range(n)]
            rows += [("rmn", f"r{i}") for i in range(0, n, 9)]
            for mt in types:
                for how in ("deep", "pickle"):
                    for tail in ([], [("phys",)]):
                        for o in OPS[5 if q else 0:]:
                            for side in ("a", "b") if q else ("a", "b", "ab"):
                                yield (mt, rows + tail, [], how, [(side, o)])

    def eqs():
        for how in ("none", "deep", "pickle"):
            for x in EQ:
                for y in EQ:
                    if how == "none" or x == y or not q:
                        yield (x, y, how)

    return [
        Slice("copies", copies([[]] + [[o] for o in OPS], ("deep", "pickle"), [[]] + one, setups=SETUPS if not q else SETUPS[1:2], types=types if not q else ("ising",)), run_copy, "4 setups, one operation before the copy, one after on either or both sides"),
        Slice("copies-qubo", copies([[]], ("deep", "pickle", "twice", "proto"), one, types=("qubo",) if q else types), run_copy, "the same for QUBO models and repeated copies"),
        Slice("two", copies([[]], ("pickle",) if q else ("deep", "pickle"), two, setups=SETUPS[1:3] if q else SETUPS, types=("ising",) if q else types), run_copy, "different operations on both sides"),
        Slice("many", many, run_copy, "models of 20 and 70 (thorough up to 150) interactions, one operation on either side"),
        Slice("physical", phys, run_phys, "physical models under later operations"),
        Slice("empty", empties, run_empty, "empty siblings and up to 2 operations on them"),
        Slice("equality", eqs, run_eq, f"all pairs of {len(EQ)} models"),
    ] + ([] if q else [Slice("three", copies([[]], ("deep", "pickle"), both3, types=("ising",)), run_copy, "three operations after the copy")])
