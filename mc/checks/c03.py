"""C03: rejected edits and failed conversions leave the model untouched; conversions are repeatable."""
import itertools

from mc.core import Slice, Violation
from mc.lm import CLOCK, Real, Ref, apply_both, check_table, close, constraint_labels, fresh_clock, poly_diff

ASSUMPTIONS = ["refused means that the call raises an exception"]
ARR = {"x": [3]}
ENV = {"A": 2.0}
GOOD = [
    ("add", "x0", {"c": 1.0, "a": {"k": 1}}),
    ("add", "x0.x1", {"c": 2.0}),
    ("add", "x1", {"name": "ph", "c": ("ph", "A")}),
    ("rm", "x0"),
    ("phys", ENV),
    ("upd", "x0", {"c": 3.0}),
    ("con", "c1", "nhot", {"vars": ["x0", "x1"], "n": 1}),
    ("con", "c2", "zoo", {"vars": ["x1", "x2"], "strength": 2.0}),
    ("con", "boom", "boom", {}),
    ("rmcon", "c1"),
    ("rmcon", "boom"),
    ("rmn", "ph"),
    ("off", 1.5),
    ("off", ("ph", "B")),
    ("del", "x2"),
    ("fix", "x1", 1),
]
FAIL = [
    ("phys",),                       # fails while a placeholder is live
    ("phys", {"B": 1.0}),
    ("add", "x0", {"c": 9.0}),       # fails if the name exists
    ("add", "x2", {"name": "x[0]", "c": 9.0, "a": {"q": 1}}),
    ("updn", "ph", {"c": 9.0, "a": {"q": 1}}),
    ("upd", "x2", {"c": 9.0, "s": 3.0, "a": {"q": 1}}),  # fails while it is removed
    ("updn", "x[2]", {"c": 9.0, "a": {"q": 1}, "t": 3}),
    ("rmn", "x[0]*x[1]"),
    ("updn", "x[1]*x[0]", {"c": 9.0, "a": {"q": 1}}), ("rmn", "x[1]*x[0]"), ("updn", "PH", {"c": 9.0}), ("rmn", " ph"), ("rmn", "p"), ("updn", "x[0]*", {"s": 9.0}), ("updn", "x", {"c": 9.0}),  # almost the name of an interaction
    ("bad", "no_target"), ("bad", "same_pair", "x0"), ("bad", "triple", "x0", "x1", "x2"), ("bad", "str_target"),
    ("bad", "add_coef", "x0"), ("bad", "add_scale", "x0"), ("bad", "add_ts", "x0"), ("bad", "add_attr", "x0"),
    ("bad", "upd_coef", "x0"), ("bad", "upd_scale", "x0"), ("bad", "upd_ts", "x0"), ("bad", "upd_attr", "x0"),
    ("bad", "upd_both", "x0"), ("bad", "upd_none"), ("bad", "upd_name"), ("bad", "rm_both", "x0"), ("bad", "rm_none"), ("bad", "rm_name"),
    ("bad", "del_none"), ("bad", "del_type"), ("bad", "fix_value", "x0", 2), ("bad", "fix_value", "x0", 0.5), ("bad", "fix_type"), ("bad", "con_type"), ("bad", "rmcon"),
    ("bad", "pyqubo_type"), ("bad", "pyqubo_name", "x1", "x0"), ("bad", "pyqubo_name", "x1", "x2", "x0"), ("bad", "pyqubo_unknown", "x1"), ("bad", "pyqubo_range", "x1"), ("bad", "merge_self_dims"), ("bad", "merge_label"), ("bad", "get_attr"), ("bad", "get_attrs"), ("bad", "array_type"),
    ("bad", "merge_type"), ("bad", "vars_shape"), ("bad", "vars_type"), ("bad", "append_dims"), ("bad", "select"),
]
START = [
    ("add", "x0", {"c": 1.0, "a": {"k": 1}}), ("add", "x0.x1", {"c": 2.0, "s": 0.5}), ("add", "x1", {"name": "ph", "c": ("ph", "A"), "t": 4}),
    ("add", "x2", {"c": -1.0}), ("rm", "x2"), ("off", 0.5), ("con", "c1", "nhot", {"vars": ["x0", "x1", "x2"], "n": 2}),
    ("con", "e", "eq", {"vars1": ["x0"], "vars2": ["x1", "x2"], "strength": 0.5}),
]
FULL = {"A": 2.0, "B": -4.0}


def observe(real, ref):
    m = real.m
    rows = real.table()
    check_table(rows, ref)
    for got, want, what in ((m.get_all_size(), 3, "total size"), (m.get_deleted_size(), len(ref.deleted), "deleted size"), (m.get_fixed_size(), len(ref.fixed), "fixed size"),
                            (sorted(m.get_deleted_array()), sorted(ref.deleted), "deleted"), (sorted(m.get_fixed_array()), sorted(ref.fixed), "fixed"),
                            (sorted(m.get_constraints()), sorted(ref.constraints), "constraints"), (m.get_mtype(), ref.mtype, "mtype"),
                            (sorted(m.get_variables()), ["x"], "arrays"), (tuple(m.get_variables_by_name("x").shape), (3,), "shape")):
        if got != want:
            raise Violation(f"{what} is {got}, expected {want}")
    if isinstance(ref.offset, (int, float)) and not close(m.get_offset(), ref.offset):
        raise Violation(f"offset is {m.get_offset()}, expected {ref.offset}")
    if "boom" in ref.constraints:
        for _ in range(2):
            try:
                real.op_phys(FULL)
            except Exception:
                pass
            else:
                raise Violation("a conversion with a failing constraint succeeded")
        check_table(real.table(), ref)
        m.remove_constraint("boom")
        del ref.constraints["boom"]
    p1 = real.op_phys(FULL)
    b1 = real_poly(p1)
    d = poly_diff(b1, ref.energy(FULL), modulo_constant=ref.modulo_constant())
    if d:
        raise Violation("energy differs: " + d)
    ref.apply(("phys", FULL))
    check_table(real.table(), ref)
    p2 = real.op_phys(FULL)
    if real_poly(p2) != b1 or not (p2 == p1):
        raise Violation(f"a repeated conversion differs: {b1} then {real_poly(p2)}")
    # a failing conversion in between does not change the next one
    try:
        m.to_physical({"unrelated": 1.0})
    except Exception:
        pass
    p3 = real.op_phys(FULL)
    if real_poly(p3) != b1 or not (p3 == p1):
        raise Violation(f"the conversion after a failed one differs: {b1} then {real_poly(p3)}")
    check_table(real.table(), ref)


def real_poly(phys):
    from mc.lm import poly_of_bqm

    return poly_of_bqm(phys.to_bqm())


def snapshot(real):
    """Everything a user can read of the model."""
    m = real.m
    df = m.select_interaction("body > 0")
    names = list(df["name"])
    return {
        "columns": sorted(map(str, df.columns)), "table": [sorted((str(k), repr(v)) for k, v in r.items()) for r in df.to_dict(orient="records")], "mtype": m.get_mtype(),
        "attributes": [sorted((k, repr(v)) for k, v in m.get_attributes(name=n).items()) for n in names], "offset": repr(m.get_offset()),
        "sizes": (m.get_size(), m.get_all_size(), m.get_deleted_size(), m.get_fixed_size()), "deleted": m.get_deleted_array(), "fixed": m.get_fixed_array(),
        "constraints": {k: (constraint_labels(c), c.get_strength(), c.get_label()) for k, c in m.get_constraints().items()},
        "variables": {k: (tuple(v.shape), repr(v)) for k, v in m.get_variables().items()},
    }


def run(case, cov):
    mtype, arrays, ops = case
    fresh_clock()
    real, ref = Real(mtype, arrays), Ref(mtype, arrays)
    for op in ops:
        CLOCK.now += 10.0
        before = snapshot(real)
        if apply_both(real, ref, op):
            after = snapshot(real)
            for k in before:
                if before[k] != after[k]:
                    raise Violation(f"the refused call {op!r} changed {k}: {before[k]} became {after[k]}")
        cov.step()
    CLOCK.now += 10.0
    cov.state(ref.canon())
    cov.trace()
    observe(real, ref)
    cov.outcome((len(ref.rows), len(ref.constraints), len(ref.deleted), len(ref.fixed)))


def SLICES(tier):
    q = tier == "quick"

    def around():
        for mt in ("ising", "qubo"):
            for f in FAIL:
                for g in [None] + GOOD:
                    for t in [None] + GOOD:
                        if g is not None and t is not None and (mt == "ising" or (q and (f[0] == "bad" or t[0] in ("con", "rmcon", "off")))):
                            continue
                        yield (mt, ARR, START + [o for o in (g, f, t) if o])

    def from_start():
        for n in range(0, 3 if q else 4):
            for h in itertools.product(GOOD + FAIL[:6], repeat=n):
                yield ("qubo" if n % 2 else "ising", ARR, list(h))

    def two_fail():
        for f, g in itertools.product(FAIL, FAIL[:6] if q else FAIL):
            yield ("qubo", ARR, START + [f, g])

    return [
        Slice("around", around, run, f"a rich start state x one of {len(FAIL)} calls that may be refused, preceded by none or one of {len(GOOD)} edits, followed by none or one edit (both sides at once: QUBO only; quick: a subset)"),
        Slice("from-start", from_start, run, f"all histories of length <= {2 if q else 3} over {len(GOOD) + 6} edits and failing calls from the empty model"),
        Slice("two-failures", two_fail, run, f"all pairs of one of {len(FAIL)} and one of {6 if q else len(FAIL)} calls that may be refused, from a rich start state"),
    ]
