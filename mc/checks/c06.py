"""C06: converting between Ising and QUBO preserves the problem."""
import itertools

from mc.core import Slice, Violation, histories
from mc.lm import (CLOCK, Real, Ref, apply_both, check_table, close, fresh_clock, in_unit, poly_diff, poly_of_bqm, poly_to_ising, poly_to_qubo)

ASSUMPTIONS = ["the constant of a converted model follows the convention pinned by the repository's tests (known finding C06-offset-sign); the exact constant is also accepted"]
ARR = {"x": [3]}
TERMS = [("add", "x0", {"c": 1.0}), ("add", "x0.x1", {"c": 2.0, "s": 0.5}), ("add", "x1", {"name": "n1", "c": -3.0, "s": 2.0}), ("add", "x2.x1", {"c": 4.0, "a": {"k": 1}}),
         ("add", "x1.x0", {"name": "n2", "c": 16.0, "s": -1.0}), ("add", "x2", {"c": 0.0}), ("off", 0.5), ("add", "x0.x1", {"name": "n3", "c": 2.0, "s": 0.5}), ("add", "x1", {"name": "n4", "c": -3.0, "s": 2.0})]
OPS = [
    ("ising",), ("qubo",), ("phys",),
    ("add", "x0", {"c": 1.0, "s": 3.0}), ("add", "x0.x1", {"c": 2.0, "s": 0.5}), ("add", "x0.x1", {"name": "n2", "c": -5.0}), ("add", "x1.x2", {"c": 1.5}),
    ("rm", "x0"), ("rm", "x1.x0"), ("upd", "x0.x1", {"c": 7.0}), ("upd", "x0", {"s": 0.25}), ("off", 1.0),
    ("del", "x1"), ("fix", "x1", 1),
    ("con", "h", "nhot", {"vars": ["x0", "x1", "x2"], "n": 2}), ("con", "e", "eq", {"vars1": ["x0"], "vars2": ["x1"], "strength": 2.0}),
    ("select",),
]


def observe(real, ref, cov):
    check_table(real.table(), ref, timestamps=False)
    if real.m.get_mtype() != ref.mtype:
        raise Violation(f"model type is {real.m.get_mtype()}, expected {ref.mtype}")
    off = real.offset()
    if not (close(off, ref.offset) or close(off, ref.offset + ref.true_minus_pinned)):
        raise Violation(f"offset is {off}, expected {ref.offset} (or, with the exact constant, {ref.offset + ref.true_minus_pinned})")
    phys = real.op_phys()
    if phys.get_mtype() != ref.mtype:
        raise Violation(f"physical model type is {phys.get_mtype()}, expected {ref.mtype}")
    p = poly_of_bqm(phys.to_bqm())
    d = poly_diff(p, ref.energy(), modulo_constant=True)
    if d:
        raise Violation("energy differs: " + d)
    if not ref.constraints and not (close(p[()], ref.offset) or close(p[()], ref.offset + ref.true_minus_pinned)):
        raise Violation(f"constant of the physical model is {p[()]}, expected {ref.offset} (exact: {ref.offset + ref.true_minus_pinned})")
    for r in real.table():
        its = r["interacts"] if isinstance(r["interacts"], tuple) else (r["interacts"],)
        kinds = {v.__class__.__name__ for v in its}
        if not r["removed"] and kinds != {"Spin" if ref.mtype == "ising" else "Binary"}:
            raise Violation(f"interaction {r['name']!r} of a {ref.mtype} model is on {kinds} variables")
    vt = {v.__class__.__name__ for a in real.m.get_variables().values() for v in a.bit_list}
    if vt != {"Spin" if ref.mtype == "ising" else "Binary"}:
        raise Violation(f"variables of a {ref.mtype} model are {vt}")
    if not close(ref.true_minus_pinned, 0.0) and not ref.constraints and close(p[()], ref.offset):
        return True
    return False


def run(case, cov):
    mt, arrays, ops, clock = case
    fresh_clock()
    real, ref = Real(mt, arrays), Ref(mt, arrays)
    for op in ops:
        CLOCK.now += clock
        apply_both(real, ref, op)
        cov.step()
    cov.state(ref.canon())
    cov.trace()
    cov.outcome((ref.mtype, len(ref.rows)))
    observe(real, ref, cov)
    if ref.constraints:
        return
    # there and back: exactly the original energies, for both directions of the round trip
    before = real.poly()
    off = real.offset()
    first, second = (("qubo",), ("ising",)) if ref.mtype == "ising" else (("ising",), ("qubo",))
    for k in range(2):
        for op in (first, second):
            CLOCK.now += clock
            real.apply(op)
            cov.step()
        d = poly_diff(real.poly(), before)
        if d or not close(real.offset(), off):
            raise Violation(f"round trip {k + 1} changed the energy: {d} offset {off} -> {real.offset()}")
    tab = real.table()
    real.apply(second)  # to the type it already has
    if real.table() != tab and repr(real.table()) != repr(tab):
        raise Violation("converting to the type the model already has changed the table")
    d = poly_diff(real.poly(), before)
    if d:
        raise Violation("converting to the type the model already has changed the energy: " + d)


def run_finding(case, cov):
    """The listed inputs of the known finding: the constant after one conversion has the wrong sign."""
    mt, t, c = case
    fresh_clock()
    real = Real(mt, ARR)
    real.apply(("add", t, {"c": c}))
    before = real.poly()
    real.apply(("qubo",) if mt == "ising" else ("ising",))
    after = real.poly()
    exact = poly_to_qubo(before) if mt == "ising" else poly_to_ising(before)
    cov.step()
    cov.trace()
    cov.state(case)
    d = poly_diff(after, exact, modulo_constant=True)
    if d:
        raise Violation("converted energy differs beyond the constant: " + d)
    if not close(after[()], exact[()]):
        if close(after[()], -exact[()]):
            cov.known_finding("C06-offset-sign")
        else:
            raise Violation(f"the constant after conversion is {after[()]}, neither the exact {exact[()]} nor the known finding's {-exact[()]}")


VAL = [0.0, 1.0, -2.5, 1e-9, 1e9, 3, ("np", "float64", 0.75), ("np", "int64", -4)]


def SLICES(tier):
    q = tier == "quick"

    def hist():
        for h in histories(OPS, 3 if q else 4, 1):
            if not any(o[0] in ("ising", "qubo") for o in h):
                continue
            # nothing is added to a variable that was deleted or fixed before
            gone, ok = False, True
            for o in h:
                if gone and (o[0] in ("add", "upd", "rm", "con", "fix", "del")) and "x1" in repr(o):
                    ok = False
                gone = gone or o[0] in ("del", "fix")
            if ok:
                for mt in ("ising", "qubo"):
                    yield (mt, ARR, list(h), 10.0)

    def rich():
        for h in histories(OPS, 2 if q else 3, 1):
            gone, ok = False, True
            for o in h:
                if gone and (o[0] in ("add", "upd", "rm", "con", "fix", "del")) and "x1" in repr(o):
                    ok = False
                gone = gone or o[0] in ("del", "fix")
            if ok:
                for i, mt in enumerate(("ising", "qubo")):
                    yield (mt, ARR, TERMS + list(h), [0.0, -5.0, 10.0][(i + len(h)) % 3])

    def convs():
        """conversion sequences on a rich model, the clock standing still, running or running backwards"""
        for n in range(1, 5 if q else 7):
            for h in itertools.product([("ising",), ("qubo",), ("phys",)], repeat=n):
                for mt in ("ising", "qubo"):
                    for clock in (0.0, -5.0, 10.0):
                        yield (mt, ARR, TERMS + list(h), clock)

    def values():
        for mt in ("ising", "qubo"):
            to = ("qubo",) if mt == "ising" else ("ising",)
            for c, s in itertools.product(VAL, VAL):
                for t in ("x0", "x0.x1"):
                    yield (mt, ARR, [("add", t, {"c": c, "s": s}), to], 1.0)
            for n in (1, 2, 3):
                for ts in itertools.combinations(TERMS, n):
                    yield (mt, ARR, list(ts) + [to], 1.0)

    def fixed():
        """a variable fixed (both values) or deleted before, between or after conversions of models with constraints"""
        cons = [[], [OPS[14]], [OPS[15]], [OPS[14], OPS[15]], [("con", "z", "zoo", {"vars": ["x0", "x1"], "strength": 0.5}), ("con", "h1", "nhot", {"vars": ["x1"], "n": 1})]]
        conv = [("ising",), ("qubo",)]
        for mt in ("ising", "qubo"):
            lo = -1 if mt == "ising" else 0
            for c in cons:
                for v in ("x0", "x1", "x2"):
                    for val in (1, lo):
                        f = ("fix", v, val)
                        there = ("qubo",) if mt == "ising" else ("ising",)
                        back = (mt,)
                        g = ("fix", v, 1 if val == 1 else (0 if mt == "ising" else -1))
                        other = ("fix", "x2" if v != "x2" else "x0", g[2])
                        for h in ([f, there], [f, there, back], [f, there, back, there], [f, ("phys",), there], [there, g], [there, g, back], [f, there, other], [f, there, other, back], [f, there, ("phys",), back, ("phys",)],
                                  [f, there, ("del", other[1]), back]):
                            yield (mt, ARR, TERMS + h[:-1] + c + h[-1:], 1.0)
                            yield (mt, ARR, TERMS + c + h, 1.0)

    def sizes():
        for n in (8, 9, 12, 16, 17, 33) if q else (8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 64, 65):
            rows = [("add", f"x:{i}", {"c": i + 1.0}) for i in range(n)] + [("add", f"x:{i}.x:{(i + 3) % n}", {"c": i - 2.0, "s": 0.5}) for i in range(n)] + [("off", 1.0)]
            for mt in ("ising", "qubo"):
                to = ("qubo",) if mt == "ising" else ("ising",)
                for h in ([to], [to, (mt,)], [("phys",), to, (mt,), to], [("rm", "x:0"), to], [to, ("add", "x:0", {"name": "new", "c": 3.0}), (mt,)], [("con", "h", "nhot", {"vars": [f"x:{i}" for i in range(n)], "n": 2}), to]):
                    yield (mt, {"x": [n]}, rows + h, 1.0)

    finding = [(mt, t, c) for mt in ("qubo", "ising") for t in ("x0", "x0.x1") for c in (1.0, -3.0)]
    return [
        Slice("constant", finding, run_finding, "single 1- and 2-body interactions converted once: the constant"),
        Slice("values", values, run, f"all pairs of {len(VAL)} values as coefficient and scale; all sub-models of up to 3 terms"),
        Slice("conversions", convs, run, f"all sequences of up to {4 if q else 6} type and physical conversions on a rich model x 3 clocks (still, backwards, forwards)"),
        Slice("rich", rich, run, f"all histories of length <= {2 if q else 3} over {len(OPS)} operations on a rich model"),
        Slice("fixed", fixed, run, "a variable fixed to either value (or another one deleted) around up to three conversions x 5 constraint sets added before or after, both types"),
        Slice("units-small", lambda: itertools.chain((c for c in convs() if c[3] == 10.0 and len(c[2]) < len(TERMS) + 4), fixed()), in_unit(run, -45), "conversion sequences and fixed variables with all energies multiplied by 2**-45"),
        Slice("units-large", lambda: itertools.chain((c for c in convs() if c[3] == 10.0 and len(c[2]) < len(TERMS) + 4), fixed()), in_unit(run, 45), "conversion sequences and fixed variables with all energies multiplied by 2**45"),
        Slice("sizes", sizes, run, "models of 8 to 33 (thorough 65) variables with 2n interactions x 6 histories"),
        Slice("histories", hist, run, f"all histories of length <= {3 if q else 4} over {len(OPS)} operations with at least one type conversion, both types"),
    ]
