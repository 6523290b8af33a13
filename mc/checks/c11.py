"""C11: importing a PyQUBO expression preserves its energy function."""
import itertools

from mc.core import Slice, Violation
from mc import lm
from mc.lm import Real, fresh_clock, in_unit, label, padd, poly_diff, poly_of_bqm

ASSUMPTIONS = ["the model has no interactions before the import (an import sets the offset)", "the installed PyQUBO cannot compile a placeholder in front of a variable with this dependency set, so that such compiled models are put together from PyQUBO's own parts; they are imported into QUBO models (Ising models refuse them)"]
TERMS = ["", "x0", "x1", "x2", "x0.x1", "x0.x2", "x1.x2"]
NEST = [  # shapes as nested data: ("sum"|"mul"|"sq"|"neg"|"sub", ...) over variables and numbers
    ("sq", ("sum", "x0", "x1")), ("sq", ("sum", "x0", "x1", "x2", -1)), ("sq", ("sub", "x0", "x1")), ("mul", ("sum", "x0", 1), ("sum", "x1", 2)), ("mul", ("sum", "x0", "x1"), ("sum", "x1", "x2")),
    ("sum", ("mul", "x0", "x1"), ("mul", 3, ("mul", "x1", "x0"))), ("neg", ("mul", "x0", "x2")), ("sum", "x0", ("mul", "x0", "x0")), ("mul", ("sub", 1, "x0"), ("sub", 1, "x1")),
    ("sum", ("sq", ("sub", ("sum", "x0", "x1", "x2"), 1)), ("mul", 2.5, "x1"), 4), ("sum", ("mul", "x0", "x1"), ("neg", ("mul", "x0", "x1"))), ("mul", -2, ("sq", ("sum", "x2", 3))),
    ("sum", ("sq", ("sum", "x0", 1)), ("sq", ("sum", "x1", 1)), ("mul", "x0", "x1")),
]
NEST2 = [("mul", "y00", "y11"), ("sq", ("sum", "y00", "y01", "y10", "y11", -2)), ("sum", "y01", ("mul", "y01", "z1"), 0.5), ("mul", ("sum", "z0", "y10"), ("sum", "z1", "y10")), ("sum", ("mul", "x:10", "x:9"), "x:11", 1), ("sq", ("sub", "x:2", "x:10"))]


def pad(a, b, f=1.0):
    for k, v in b.items():
        padd(a, k, f * v)
    return a


def times(a, b, spin):
    out = {}
    for ka, va in a.items():
        for kb, vb in b.items():
            both = set(ka) & set(kb)
            k = (set(ka) | set(kb)) - (both if spin else set())
            padd(out, tuple(sorted(k)), va * vb)
    return out


def ev(e, spin):
    """The polynomial of an expression."""
    if isinstance(e, str):
        return {(label(e),): 1.0}
    if isinstance(e, (int, float)):
        return {(): float(e)}
    op, args = e[0], [ev(a, spin) for a in e[1:]]
    if op == "sum":
        out = {}
        for a in args:
            pad(out, a)
        return out
    if op == "sub":
        return pad(dict(args[0]), args[1], -1.0)
    if op == "neg":
        return {k: -v for k, v in args[0].items()}
    if op == "sq":
        return times(args[0], args[0], spin)
    if op == "mul":
        return times(args[0], args[1], spin)
    raise AssertionError(op)


def mk(e, var):
    if isinstance(e, str):
        return var(e)
    if isinstance(e, (int, float)):
        return e
    op, args = e[0], [mk(a, var) for a in e[1:]]
    if op == "sum":
        out = args[0]
        for a in args[1:]:
            out = out + a
        return out
    if op == "sub":
        return args[0] - args[1]
    if op == "neg":
        return -args[0]
    if op == "sq":
        return args[0] ** 2
    return args[0] * args[1]


def of_coeffs(cs):
    e = ["sum"]
    for t, c in zip(TERMS, cs):
        if c is None:
            continue
        vs = t.split(".") if t else []
        x = c if not vs else ("mul", c, vs[0]) if len(vs) == 1 else ("mul", ("mul", c, vs[0]), vs[1])
        e.append(x)
    return tuple(e)


def run(case, cov):
    mt, arrays, e, compiled, *pre = case
    fresh_clock()
    want = {k: v for k, v in ev(e, mt == "ising").items()}
    a, b = Real(mt, arrays), Real(mt, arrays)
    expr = mk(e, a.var)
    if lm.UNIT != 1.0:
        expr = lm.UNIT * expr
    try:
        given = expr.compile() if compiled else expr
        probe = expr.compile()
    except Exception:  # noqa: BLE001  PyQUBO itself cannot compile a constant
        cov.outcome("not compilable")
        return
    before = (dict(given.compiled_qubo.qubo), given.compiled_qubo.offset) if compiled else None
    cov.step()
    cov.trace()
    cov.state((mt, tuple(sorted(want.items()))))
    for offset in pre:  # an offset from before the import does not remain
        a.m.offset(offset)
    a.m.from_pyqubo(given)
    b.m.from_pyqubo(given)
    cov.outcome("imported")
    for what, r in (("", a), ("second import of the same object: ", b)):
        for n in range(2):
            d = poly_diff(r.poly(), want)
            if d:
                raise Violation(f"{what}energy differs: {d}")
    if compiled and (dict(given.compiled_qubo.qubo), given.compiled_qubo.offset) != before:
        raise Violation("the compiled model was modified by the import")
    again = expr.compile()
    if again.compiled_qubo.qubo != probe.compiled_qubo.qubo or again.compiled_qubo.offset != probe.compiled_qubo.offset:
        raise Violation("the expression was modified by the import")
    # an imported model is an ordinary model: its interactions can be edited like others
    rows = a.table()
    if rows:
        r = rows[0]
        a.m.remove_interaction(name=r["name"])
        k = r["key"] if isinstance(r["key"], tuple) else (r["key"],)
        cov.step()
        exp = dict(want)
        padd(exp, k, r["coefficient"] * r["scale"])
        d = poly_diff(a.poly(), exp)
        if d:
            raise Violation(f"after removing {r['name']!r}: energy differs: {d}")


SYM = {  # coefficients with placeholders: expression and value
    "a": (lambda p: p("a"), lambda a, b: a),
    "2a+b-1": (lambda p: 2 * p("a") + p("b") - 1, lambda a, b: 2 * a + b - 1),
    "ab": (lambda p: p("a") * p("b"), lambda a, b: a * b),
    "-3aa": (lambda p: -3 * p("a") * p("a"), lambda a, b: -3 * a * a),
}
KEYS = [("x[0]",), ("x[1]",), ("x[0]", "x[1]"), ("x[1]", "y[0][1]"), ()]
STRUCTURE = {"x[0]": ("x", 0), "x[1]": ("x", 1), "y[0][1]": ("y", 0, 1)}


def run_placeholder(case, cov):
    """a compiled PyQUBO model whose coefficients are functions of placeholders"""
    import pyqubo

    choice, form = case
    fresh_clock()

    def value(c, feed):
        return 0.0 if c is None else SYM[c][1](**feed) if isinstance(c, str) else float(c)

    def coefficient(c):
        return SYM[c][0](pyqubo.Placeholder)._compile_param() if isinstance(c, str) else float(c)

    models = [Real("qubo", {"x": [2], "y": [1, 2]}) for _ in range(3)]
    if form == "model":
        qubo = {(k[0], k[-1]): coefficient(c) for k, c in zip(KEYS, choice) if k and c is not None}
        given = pyqubo.Model(pyqubo.CompiledQubo(qubo, coefficient(choice[-1] or 0.0)), dict(STRUCTURE), {})
    else:  # an ordinary expression: only its constant has placeholders
        var = {"x[0]": models[0].var("x0"), "x[1]": models[0].var("x1"), "y[0][1]": models[0].var("y01")}
        given = 0.0
        for k, c in zip(KEYS, choice):
            if c is not None:
                t = SYM[c][0](pyqubo.Placeholder) if isinstance(c, str) else c
                for v in k:
                    t = t * var[v]
                given = t + given
    feeds = [{"a": 2.0, "b": -0.5}, {"a": -1.5, "b": 4.0}]
    cov.step()
    cov.trace()
    cov.state((choice, form))

    def own(feed):
        m = given if form == "model" else given.compile()
        return poly_of_bqm(m.compiled_qubo.evaluate(feed))

    before = [own(f) for f in feeds]
    for n, real in enumerate(models):
        real.m.from_pyqubo(given)
        for f in feeds:
            want = {tuple(sorted(k)): value(c, f) for k, c in zip(KEYS, choice) if c is not None}
            d = poly_diff(poly_of_bqm(real.m.to_physical(placeholder=dict(f)).to_bqm()), want)
            if d:
                raise Violation(f"import {n + 1} of the same object, values {f}: energy differs: {d}")
    if [own(f) for f in feeds] != before:
        raise Violation("the PyQUBO object was modified by the import")
    for f in feeds:  # the first import does not notice the later ones
        want = {tuple(sorted(k)): value(c, f) for k, c in zip(KEYS, choice) if c is not None}
        d = poly_diff(poly_of_bqm(models[0].m.to_physical(placeholder=dict(f)).to_bqm()), want)
        if d:
            raise Violation(f"the first import after the later ones, values {f}: energy differs: {d}")
    cov.outcome(form)


def SLICES(tier):
    q = tier == "quick"
    X = {"x": [3]}

    def coeffs():
        vals = [None, 1, -2.5] if q else [None, 1, -2.5, 0.5]
        for cs in itertools.product(vals, repeat=len(TERMS)):
            if all(c is None for c in cs[1:]):
                continue
            for i, mt in enumerate(("ising", "qubo")):
                yield (mt, X, of_coeffs(cs), bool(sum(c is None for c in cs) % 2) if q else False)
                if not q:
                    yield (mt, X, of_coeffs(cs), True)

    def nested():
        for mt in ("ising", "qubo"):
            for comp in (False, True):
                for e in NEST:
                    yield (mt, X, e, comp)
                for e, f in itertools.product(NEST, repeat=2):
                    yield (mt, X, ("sum", e, ("mul", 0.5, f)), comp)
                for e in NEST2:
                    yield (mt, {"y": [2, 2], "z": [2], "x": [12]}, e, comp)
                for e, f in itertools.product(NEST2, repeat=2):
                    yield (mt, {"z": [2], "y": [2, 2], "x": [12]}, ("sub", e, f), comp)

    def extreme():
        for mt in ("ising", "qubo"):
            for c in (0, 0.0, 1e-9, 1e9, -1e9, 1, True):
                for t in ("x0", "x0.x1"):
                    vs = t.split(".")
                    term = ("mul", c, vs[0]) if len(vs) == 1 else ("mul", ("mul", c, vs[0]), vs[1])
                    for const in (None, 0, 3.5, -1e6):
                        e = ("sum", term, "x2") + (() if const is None else (const,))
                        yield (mt, X, e, False)
                        yield (mt, X, e, len(vs) == 2, -7.25)

    def three():
        for mt in ("ising", "qubo"):
            for e, f, g in itertools.product(NEST, repeat=3):
                yield (mt, X, ("sum", e, ("mul", 0.5, f), ("neg", g)), False)

    def large():
        for n in (8, 9, 12, 17, 33) if q else (8, 9, 10, 11, 12, 16, 17, 31, 32, 33, 50, 65):
            vs = [f"x:{i}" for i in range(n)]
            es = [("sum",) + tuple(vs) + (1.5,), ("sq", ("sum",) + tuple(vs) + (-2,)), ("sum",) + tuple(("mul", ("mul", i + 0.5, vs[i]), vs[(i + 3) % n]) for i in range(n)),
                  ("sum",) + tuple(("mul", i - 2.5, v) for i, v in enumerate(vs)) + (("sq", ("sum", vs[0], vs[n - 1])),),
                  ("sub", ("sq", ("sum",) + tuple(("mul", i + 1, v) for i, v in enumerate(vs))), ("mul", vs[0], vs[1]))]
            ys = [f"y:{i},{j}" for i in range(3) for j in range(n // 2)]
            for mt in ("ising", "qubo"):
                for e in es:
                    for comp in (False, True):
                        yield (mt, {"x": [n]}, e, comp)
                yield (mt, {"x": [n], "y": [3, n // 2]}, ("sum", ("sq", ("sum",) + tuple(ys)), ("mul", vs[0], ys[-1])), False)

    def placeholders():
        c = [None, 1.5, "a", "2a+b-1", "ab"] if q else [None, 1.5, "a", "2a+b-1", "ab", "-3aa"]
        for choice in itertools.product(c, repeat=len(KEYS)):
            if any(x is not None for x in choice[:-1]):
                yield (choice, "model")
        for choice in itertools.product([None, 1.5, -2], [None, 2], [None, 1], [None, -0.5], list(SYM) + [3.0]):
            if any(x is not None for x in choice[:-1]):
                yield (choice, "expression")

    out = [
        Slice("placeholders", placeholders, run_placeholder, "compiled models with every choice of 5 (thorough 6) kinds of coefficients for 4 terms and the constant, expressions with a symbolic constant; each imported three times"),
        Slice("large", large, run, "sums, squares of sums and chains over 8 to 33 (thorough 65) variables"),
        Slice("nested", nested, run, f"{len(NEST)} + {len(NEST2)} expression shapes (sums, products, squares; 1-d, 2-d and several arrays) and all pairs, as expression and compiled"),
        Slice("values", extreme, run, "zero, tiny, huge coefficients and constants, into models without and with an offset"),
        Slice("units-small", nested, in_unit(run, -45), "the same expression shapes with all energies multiplied by 2**-45"),
        Slice("units-large", nested, in_unit(run, 45), "the same expression shapes with all energies multiplied by 2**45"),
        Slice("coefficients", coeffs, run, "every assignment of 3 (thorough: 4) coefficient choices to all 7 monomials of 3 variables"),
    ]
    if not q:
        out.append(Slice("triples", three, run, "all triples of expression shapes"))
    return out
