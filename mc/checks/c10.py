"""C10: all views of a physical model describe the same problem."""
import itertools

from mc.core import Slice, Violation, histories
from mc.lm import CLOCK, Real, Ref, Refused, apply_both, fresh_clock, poly_diff, poly_of_bqm, poly_sum, padd

ASSUMPTIONS = ["every variable with an interaction belongs to an array that is declared in the model"]
ARRS = [{"x": [3]}, {"y": [2], "x": [2]}, {"b": [2, 2], "a": [1]}, {"x": [12]}]


def labels_in_order(m, names):
    """names: the arrays in the order in which they were declared"""
    out = []
    if set(names) != set(m.get_variables()):
        raise Violation(f"the model has arrays {list(m.get_variables())}, declared were {list(names)}")
    for name in names:
        arr = m.get_variables()[name]
        for idx in itertools.product(*[range(d) for d in arr.shape]):
            out.append(name + "".join(f"[{i}]" for i in idx))
    return out


def check_views(phys, order, want=None, modulo_constant=False):
    """phys: physical model; order: labels in declaration order; want: the expected polynomial"""
    bqm = phys.to_bqm()
    p = poly_of_bqm(bqm)
    if bqm.vartype.name != ("SPIN" if phys.get_mtype() == "ising" else "BINARY"):
        raise Violation(f"the BQM of a {phys.get_mtype()} model is {bqm.vartype.name}")
    if want is not None:
        d = poly_diff(p, want, modulo_constant=modulo_constant)
        if d:
            raise Violation("the binary quadratic model differs from the logical model: " + d)
    if abs(float(bqm.offset) - float(phys.get_offset())) > 1e-9 * max(1.0, abs(float(bqm.offset))):
        raise Violation(f"offset of the BQM {bqm.offset}, of the physical model {phys.get_offset()}")
    l2i, i2l = phys._label_to_index, phys._index_to_label
    occurring = {v for k, c in p.items() for v in k if c != 0.0}
    if set(bqm.variables) != occurring:
        raise Violation(f"the BQM has variables {sorted(bqm.variables)} but terms of {sorted(occurring)}")
    exp = [v for v in order if v in occurring]
    if set(exp) != occurring:
        raise Violation(f"variables {sorted(occurring - set(exp))} occur in the problem but are not declared")
    if l2i != {v: i for i, v in enumerate(exp)}:
        raise Violation(f"label to index {l2i}, expected {exp} in this order")
    if i2l != dict(enumerate(exp)):
        raise Violation(f"index to label {i2l}, expected {exp} in this order")
    q = {(): p[()]}
    seen = set()
    for i, j, v in phys.to_polynomial():
        if not (isinstance(i, int) and isinstance(j, int)):
            raise Violation(f"polynomial indices {i!r}, {j!r} are not integers")
        if i not in i2l or j not in i2l:
            raise Violation(f"polynomial term {(i, j, v)} has an unknown index")
        if frozenset((i, j)) in seen:
            raise Violation(f"two polynomial terms on {(i, j)}")
        seen.add(frozenset((i, j)))
        padd(q, (i2l[i],) if i == j else tuple(sorted((i2l[i], i2l[j]))), float(v))
    d = poly_diff(q, p)
    if d:
        raise Violation("the polynomial differs from the binary quadratic model: " + d)


def run(case, cov):
    mt, arrays, ops = case
    fresh_clock()
    real, ref = Real(mt, arrays), Ref(mt, arrays)
    names = dict.fromkeys(arrays)
    for op in ops:
        CLOCK.now += 10.0
        if op[0] == "append":
            real.m.append(op[1], shape=tuple(op[2]))
            names.setdefault(op[1])
            continue
        if op[0] == "vars":
            real.m.variables(op[1], shape=tuple(op[2]))
            names.setdefault(op[1])
            continue
        apply_both(real, ref, tuple(op))
        cov.step()
    cov.state(ref.canon())
    cov.trace()
    phys = real.m.to_physical()
    want = ref.energy()
    cov.outcome(len(phys._label_to_index))
    snap = repr((phys._raw_interactions, phys.get_offset(), phys._label_to_index, phys._index_to_label))
    check_views(phys, labels_in_order(real.m, names), want, ref.modulo_constant())
    check_views(phys, labels_in_order(real.m, names), want, ref.modulo_constant())
    if repr((phys._raw_interactions, phys.get_offset(), phys._label_to_index, phys._index_to_label)) != snap:
        raise Violation("looking at a physical model changed it")
    again = real.m.to_physical()
    if not (again == phys) or again != phys:
        raise Violation(f"a second conversion gives {again!r}, not equal to {phys!r}")


NUMBERS = [1e-12, -1e-12, 1e-9, -3e-7, 1e-3, 0.1, -1.0 / 3.0, 0.5, -1.0, 2.0, 7.5, -100.25, 1000000.5, -1234567.5, 3.25e8, -1e12, 1e15]
TERMS = ["x0", "x2", "x0.x1", "x2.x1"]


def run_values(case, cov):
    """Every term occurs once and has a number of its own: all views carry these numbers, up to rounding."""
    mt, terms = case
    fresh_clock()
    real, ref = Real(mt, {"x": [3]}), Ref(mt, {"x": [3]})
    for t, c, s in terms:
        apply_both(real, ref, ("add", t, {"c": c, "s": s}))
        cov.step()
    cov.state(ref.canon())
    cov.trace()
    phys = real.m.to_physical()
    check_views(phys, labels_in_order(real.m, ["x"]), ref.energy(), ref.modulo_constant())
    want = {k: v for k, v in ref.energy().items() if k}
    got = {k: v for k, v in poly_of_bqm(phys.to_bqm()).items() if k}
    d = poly_diff(got, want, atol=0.0)
    if d:
        raise Violation("the binary quadratic model differs from the logical model: " + d)
    i2l = phys._index_to_label
    got = {}
    for i, j, v in phys.to_polynomial():
        padd(got, (i2l[i],) if i == j else tuple(sorted((i2l[i], i2l[j]))), float(v))
    d = poly_diff(got, want, atol=0.0)
    if d:
        raise Violation("the polynomial differs from the logical model: " + d)


MODELS = [
    [], [("add", "x0", {"c": 1.0})], [("add", "x0", {"c": 1.0}), ("off", 2.0)], [("add", "x0", {"c": 2.0})], [("add", "x0", {"c": 0.5, "s": 2.0})],
    [("add", "x1", {"c": 1.0})], [("add", "x0", {"c": 1.0}), ("add", "x1", {"c": 1.0})], [("add", "x1", {"c": 1.0}), ("add", "x0", {"c": 1.0})],
    [("add", "x0.x1", {"c": 1.0})], [("add", "x1.x0", {"c": 1.0})], [("add", "x0.x1", {"c": -1.0})], [("add", "x0", {"c": 1.0}), ("add", "x0", {"name": "n", "c": -1.0})],
    [("add", "x0", {"c": 1.0}), ("add", "x0.x1", {"c": 1.0})], [("add", "x0", {"c": 1.0}), ("add", "x0.x1", {"c": 1.0}), ("rm", "x0.x1")], [("off", 2.0)],
    [("add", "x0", {"c": 1.0, "a": {"k": 1}, "t": 5.0})], [("add", "x0", {"name": "other", "c": 1.0})],
]
EQ_ARRS = [{"x": [2]}, {"x": [3]}, {"y": [1], "x": [2]}]


def phys_of(spec):
    mt, ai, mi = spec
    real = Real(mt, EQ_ARRS[ai])
    for op in MODELS[mi]:
        real.apply(op)
    return real.m.to_physical()


def facts(p):
    return (p.get_mtype(), tuple(sorted((k, round(v, 9)) for k, v in poly_of_bqm(p.to_bqm()).items())), tuple(sorted(p._label_to_index.items())), tuple(sorted(p._index_to_label.items())))


def run_eq(case, cov):
    a, b = case
    fresh_clock()
    p, q = phys_of(a), phys_of(b)
    want = facts(p) == facts(q)
    cov.step()
    cov.trace()
    cov.state(facts(p))
    cov.outcome("equal" if want else "different")
    got = p == q
    if got is not want and bool(got) != want:
        raise Violation(f"== is {got} for {p!r} and {q!r}")
    if bool(p != q) == bool(got):
        raise Violation("== and != agree")
    if not (p == p) or p == "x" or p == None or p == facts(p):  # noqa: E711
        raise Violation("a physical model is not equal to itself, or equal to something else")


def direct(case, cov):
    """Equality of physical models that differ in exactly one component, made from a conversion."""
    import copy

    mt, mi, what = case
    fresh_clock()
    p, q = phys_of((mt, 0, mi)), phys_of((mt, 0, mi))
    r = copy.deepcopy(p)
    cov.step()
    cov.trace()
    cov.state((mt, mi, what))
    if not (p == q and q == p and p == r):
        raise Violation("two conversions of the same model are not equal")
    if what == "index":
        if len(q._label_to_index) < 2:
            return
        a, b = list(q._label_to_index)[:2]
        i, j = q._label_to_index[a], q._label_to_index[b]
        q._label_to_index[a], q._label_to_index[b] = j, i
        q._index_to_label[i], q._index_to_label[j] = b, a
    elif what == "offset":
        q._offset = q._offset + 1e-3
    elif what == "offset-slightly":
        q._offset = q._offset + 1e-9
    elif what in ("linear-slightly", "quadratic-slightly"):
        body = 1 if what.startswith("linear") else 2
        if not q._raw_interactions[body]:
            return
        k, v = next(iter(q._raw_interactions[body].items()))
        q.add_interaction(k, body=body, coefficient=v + 1e-9)
    elif what == "linear":
        q.add_interaction("x[0]", body=1, coefficient=123.0)
    elif what == "quadratic":
        q.add_interaction(("x[0]", "x[1]"), body=2, coefficient=123.0)
    if p == q or q == p or not (p != q):
        raise Violation(f"models that differ in {what} are equal: {p!r} {q!r}")
    if not p == r:
        raise Violation("changing one physical model changed a comparison of others")


OPS3 = [
    ("add", "x0", {"c": 1.0}), ("add", "x0", {"name": "n", "c": -1.0}), ("add", "x2", {"c": 2.0, "s": 0.5}), ("add", "x0.x1", {"c": 3.0}), ("add", "x2.x1", {"c": -1.5}),
    ("add", "x1.x0", {"name": "m", "c": -3.0}), ("rm", "x0"), ("rm", "x0.x1"), ("upd", "x1", {"c": 0.0}), ("upd", "x1.x2", {"c": 4.0}), ("off", 2.5), ("phys",),
    ("ising",), ("qubo",), ("con", "h", "nhot", {"vars": ["x0", "x2"], "n": 1}), ("append", "x", [1]), ("vars", "w", [2]),
]
OPS_MULTI = {
    1: [("add", "y1", {"c": 1.0}), ("add", "x0", {"c": -1.0}), ("add", "x1.y0", {"c": 2.0}), ("add", "y1.x1", {"c": 1.0}), ("rm", "y1"), ("append", "y", [1]), ("vars", "a", [1]), ("con", "z", "zoo", {"vars": ["x0", "y0", "y1"]}), ("phys",)],
    2: [("add", "b10", {"c": 1.0}), ("add", "b01", {"c": -1.0}), ("add", "a0.b00", {"c": 2.0}), ("add", "b11.b00", {"c": 1.0}), ("append", "b", [0, 1]), ("append", "b", [1, 0]), ("con", "e", "eq", {"vars1": ["a0"], "vars2": ["b01", "b10"]}), ("qubo",), ("ising",)],
    3: [("add", "x:10", {"c": 1.0}), ("add", "x:2", {"c": -1.0}), ("add", "x:11.x:3", {"c": 2.0}), ("add", "x:9.x:10", {"c": 1.0}), ("add", "x:0", {"c": 1.0}), ("append", "x", [2]), ("del", "x:2"), ("fix", "x:10", 1)],
}


def SLICES(tier):
    q = tier == "quick"

    def one():
        for h in histories(OPS3, 3 if q else 4, 0):
            for mt in ("ising", "qubo"):
                yield (mt, ARRS[0], list(h))

    def multi():
        for ai, ops in OPS_MULTI.items():
            for n in range(1, 4 if q else 5):
                for h in itertools.product(ops, repeat=n):
                    gone = [i for i, o in enumerate(h) if o[0] in ("del", "fix")]
                    if gone and any(o[0] in ("add",) and ("x:2'" in repr(o) or "x:10" in repr(o)) for o in h[min(gone):]):
                        continue  # interactions on variables that were deleted or fixed before
                    for mt in ("ising", "qubo"):
                        yield (mt, ARRS[ai], list(h))

    specs = [(mt, ai, mi) for mt in ("ising", "qubo") for ai in range(len(EQ_ARRS)) for mi in range(len(MODELS))]
    pairs = [(a, b) for a in specs for b in specs]
    one_off = [(mt, mi, w) for mt in ("ising", "qubo") for mi in range(len(MODELS)) for w in ("index", "offset", "linear", "quadratic", "offset-slightly", "linear-slightly", "quadratic-slightly")]
    def values():
        for mt in ("ising", "qubo"):
            for c, d in itertools.product(NUMBERS, repeat=2):
                for a, b in itertools.combinations(TERMS, 2):
                    yield (mt, [(a, c, 1.0), (b, d, 1.0)])
                for t in TERMS:
                    yield (mt, [(t, c, d)])

    return [
        Slice("values", values, run_values, f"one or two terms with every pair of {len(NUMBERS)} coefficients and scales of very different size"),
        Slice("equality", pairs, run_eq, f"all ordered pairs of {len(specs)} physical models"),
        Slice("one-difference", one_off, direct, "each component changed alone, also by as little as 1e-9"),
        Slice("arrays", multi, run, f"all histories of length <= {3 if q else 4} on several, multi-dimensional, long and growing arrays"),
        Slice("histories", one, run, f"all histories of length <= {3 if q else 4} over {len(OPS3)} operations, both types"),
    ]
