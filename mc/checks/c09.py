"""C09: placeholders resolve to the values given at conversion time, every time."""
import itertools

from mc.core import Slice, Violation, histories
from mc.lm import CLOCK, MissingPlaceholder, Real, Ref, Refused, fresh_clock, poly_diff, poly_of_bqm

ASSUMPTIONS = ["values of placeholders are numbers; constraint strengths cannot be placeholders (the API takes numbers only)"]
ARR = {"x": [3]}
A, B = ("ph", "A"), ("ph", "B")
EXPRS = [A, B, ("*", 2.0, A), ("+", A, 1.0), ("+", A, B), ("*", A, B), ("-", A, B), ("*", A, A), ("+", ("*", A, 3.0), ("*", B, -0.5)), ("*", ("+", A, 1.0), ("+", B, 2.0)), ("-", 1.0, A)]
NUMS = [1.0, -2.5, 0.0, 3, ("np", "float64", 0.5), ("np", "int64", 2)]
ENVS = [{"A": 1.0, "B": 1.0}, {"A": 2.0, "B": -3.0}, {"A": 0.0, "B": 5.0}, {"A": -4, "B": 0.25}, {"A": 1e6, "B": 1e-6}, {"A": 1.5, "B": 2.0, "Z": 9.0}]
PARTIAL = [{}, {"A": 2.0}, {"B": 2.0}, {"Z": 1.0}, None]


def convert(real, ref, env, cov):
    cov.step()
    given = dict(env) if env is not None else None
    try:
        want = ref.energy(env or {})
    except MissingPlaceholder:
        want = None
    try:
        phys = real.m.to_physical(placeholder=given) if env is not None else real.m.to_physical()
    except Exception as e:  # noqa: BLE001
        if want is not None:
            raise Violation(f"conversion with {env} raised {e!r}") from None
        if given != env:
            raise Violation(f"the caller's values changed from {env} to {given}") from None
        cov.outcome("missing value")
        return None
    if want is None:
        raise Violation(f"conversion with {env} succeeded although a value is missing: {phys!r}")
    if given != env:
        raise Violation(f"the caller's values changed from {env} to {given}")
    ref.apply(("phys", env or {}))
    got = poly_of_bqm(phys.to_bqm())
    d = poly_diff(got, want, modulo_constant=ref.modulo_constant())
    if d:
        raise Violation(f"conversion with {env}: energy differs: {d}")
    zero = [k for k, v in want.items() if k and v == 0.0 and got.get(k, 0.0) != 0.0]
    if zero:
        raise Violation(f"terms {zero} must vanish with {env}")
    cov.outcome("converted")
    return phys


def run(case, cov):
    mt, ops, envs = case
    fresh_clock()
    real, ref = Real(mt, ARR), Ref(mt, ARR)
    for op in ops:
        CLOCK.now += 10.0
        if op[0] == "phys":
            convert(real, ref, op[1], cov)
            continue
        ref.apply(tuple(op))
        real.apply(tuple(op))
        cov.step()
    cov.state(ref.canon())
    cov.trace()
    first = []
    for env in envs:
        first.append(convert(real, ref, env, cov))
    # the same values again: the same model, whatever was converted in between; earlier results stay as they are
    keep = [None if p is None else (poly_of_bqm(p.to_bqm()), p.get_offset()) for p in first]
    for env, p in zip(envs, first):
        again = convert(real, ref, env, cov)
        if p is not None and again != p:
            raise Violation(f"conversion with {env} gave {again!r} the second time, {p!r} the first time")
    for p, k in zip(first, keep):
        if p is not None and (poly_of_bqm(p.to_bqm()), p.get_offset()) != k:
            raise Violation("an earlier physical model changed")


def run_plain(case, cov):
    """The model with placeholders against the real model with the values written in the first place."""
    mt, ops, env = case
    fresh_clock()
    real, plain = Real(mt, ARR), Real(mt, ARR)
    for op in ops:
        CLOCK.now += 10.0
        real.apply(op)
        plain.apply(substitute(op, env))
        cov.step(2)
    cov.trace()
    cov.state((mt, repr(ops), repr(env)))
    p, r = real.m.to_physical(placeholder=env), plain.m.to_physical()
    d = poly_diff(poly_of_bqm(p.to_bqm()), poly_of_bqm(r.to_bqm()))
    if d:
        raise Violation(f"differs from the model with the values written in: {d}")
    if set(p.to_bqm().variables) != set(r.to_bqm().variables):
        raise Violation(f"variables {list(p.to_bqm().variables)}, with the values written in {list(r.to_bqm().variables)}")


def value(v, env):
    if isinstance(v, (list, tuple)) and v:
        if v[0] == "np":
            return v
        if v[0] == "ph":
            return env[v[1]]
        if v[0] == "coef":
            return value(v[1], env)
        a, b = value(v[1], env), value(v[2], env)
        return {"+": a + b, "-": a - b, "*": a * b}[v[0]]
    return v


def substitute(op, env):
    if op[0] == "off":
        return ("off", value(op[1], env))
    if op[0] in ("add", "upd"):
        return (op[0], op[1], {k: (value(v, env) if k in ("c", "s") else v) for k, v in (op[2] or {}).items()})
    return op


OPS = [
    ("add", "x0", {"c": A}), ("add", "x0.x1", {"c": ("+", A, 1.0), "s": 2.0}), ("add", "x1", {"c": 3.0, "s": B}), ("add", "x0", {"name": "n", "c": 2.0}),
    ("upd", "x0", {"c": ("*", A, B)}), ("upd", "x0", {"c": 4.0}), ("upd", "x0.x1", {"s": B}), ("upd", "x1", {"s": 1.5}),
    ("rm", "x0"), ("off", A), ("off", ("*", 2.0, B)), ("off", 1.0),
    ("phys", ENVS[1]), ("phys", ENVS[2]), ("phys", {}), ("phys", {"A": 7.0}), ("ising",), ("qubo",), ("select",),
]


def valid(h):
    """histories in which no call is refused (refusals are C03's subject)"""
    fresh_clock()
    ref = Ref("qubo", ARR)
    try:
        for o in h:
            if o[0] == "phys":
                try:
                    ref.apply(o)
                except (Refused, MissingPlaceholder):
                    pass
            else:
                ref.apply(o)
    except Refused:
        return False
    return any("'ph'" in repr(o) for o in h)


def SLICES(tier):
    q = tier == "quick"

    def exprs():
        vals = EXPRS + NUMS
        for mt in ("ising", "qubo"):
            for c, s in itertools.product(vals, vals):
                if c in NUMS and s in NUMS:
                    continue
                for i, t in enumerate(("x0", "x0.x1")):
                    for env in ENVS if not q else ENVS[i:4 + i]:
                        yield (mt, [("add", t, {"c": c, "s": s}), ("add", "x1", {"c": 1.0})], [env])
            for o in EXPRS:
                yield (mt, [("add", "x0", {"c": 1.0}), ("off", o)], ENVS)

    def plain():
        for mt in ("ising", "qubo"):
            for env in ENVS[:4]:
                for c, s, o in itertools.product(EXPRS[:6 if q else None], EXPRS[:4] + NUMS[:3], EXPRS[:3] + NUMS[:2]):
                    yield (mt, [("add", "x0", {"c": c, "s": s}), ("add", "x0.x1", {"c": s, "s": c}), ("add", "x1", {"c": 1.0, "s": s}), ("off", o)], env)

    def several():
        for mt in ("ising", "qubo"):
            for n in (1, 2, 3):
                for envs in itertools.product(ENVS[:4] + PARTIAL, repeat=n):
                    yield (mt, [("add", "x0", {"c": A}), ("add", "x0.x1", {"c": 1.0, "s": ("+", B, 1.0)}), ("off", A)], list(envs))
                    if n < 3:
                        yield (mt, [("add", "x0", {"c": A}), ("add", "x1", {"c": B}), ("rm", "x1")], list(envs))
                        yield (mt, [("add", "x0", {"c": 1.0}), ("off", ("*", A, B))], list(envs))
                        yield (mt, [("add", "x0.x2", {"c": A, "s": B}), ("con", "h", "nhot", {"vars": ["x0", "x1", "x2"], "n": 1})], list(envs))
                        yield (mt, [("add", "x0.x2", {"c": A, "s": B}), ("add", "x0", {"c": B}), ("off", 2.0), ("fix", "x0", 1)], list(envs))

    def hist():
        for h in histories(OPS, 3 if q else 4, 1):
            if valid(h):
                for mt in ("ising", "qubo"):
                    yield (mt, list(h), [ENVS[1], ENVS[3], {"A": 1.0}] if len(h) < 3 else [ENVS[3]])

    def many():
        """n placeholders, used in turn or all in one expression; one value missing; two conversions with other values"""
        for n in (5, 8, 9, 17, 33) if q else (5, 6, 7, 8, 9, 10, 11, 16, 17, 31, 32, 33, 64):
            P = [("ph", f"p{i}") for i in range(n)]
            env = [{f"p{i}": (i * 7 % 11) - 4.5 + k for i in range(n)} for k in range(2)]
            miss = {k: v for k, v in env[0].items() if k != f"p{n - 1}"}
            s, t = P[0], P[0]
            for p in P[1:]:
                s = ("+", s, p)
            for p in P[1:6]:
                t = ("*", t, p)
            rows = [("add", "x0", {"name": f"n{i}", "c": P[i]}) for i in range(n)] + [("add", "x0.x1", {"name": f"m{i}", "c": 2.0, "s": P[i]}) for i in range(n)]
            for mt in ("ising", "qubo"):
                for ops in (rows, rows + [("off", P[n - 1])], [("add", "x0", {"c": s, "s": t}), ("add", "x1", {"c": t})], rows[:n] + [("off", s)], [("add", "x0", {"c": 1.0}), ("off", t), ("add", "x1", {"c": s})]):
                    for envs in ([env[0]], [env[0], env[1], env[0]], [miss, env[1]], [dict(env[0], unused=3.0)]):
                        yield (mt, ops, envs)

    def compiled():
        """coefficients and offsets in PyQUBO's compiled form, as importing an expression leaves them"""
        C = [("coef", e) for e in EXPRS]
        for mt in ("ising", "qubo"):
            for c, s in itertools.product(C, [1.0, -2.5, A, ("+", A, B), 0.0]):
                yield (mt, [("add", "x0", {"c": c, "s": s}), ("add", "x0.x1", {"c": C[1], "s": 2.0}), ("add", "x1", {"c": B})], ENVS[:4] + PARTIAL)
            for o in C:
                yield (mt, [("add", "x0", {"c": 1.0}), ("off", o)], ENVS[:4] + PARTIAL)
                yield (mt, [("add", "x0", {"c": o}), ("off", o)], ENVS[:4])
            for c, d in itertools.product(C[:6] + [2.0, A], repeat=2):
                yield (mt, [("add", "x0", {"c": c}), ("phys", ENVS[1]), ("upd", "x0", {"c": d}), ("add", "x0", {"name": "n", "c": c}), ("upd", "x0", {"s": 3.0})], ENVS[:3])
                yield (mt, [("add", "x0.x1", {"c": c}), ("add", "x1.x0", {"name": "n", "c": d}), ("rm", "x0.x1")], ENVS[:2])

    return [
        Slice("compiled", compiled, run, "coefficients and offsets in PyQUBO's compiled form"),
        Slice("many", many, run, "up to 33 (thorough 64) placeholders in as many interactions, or in one expression"),
        Slice("expressions", exprs, run, f"all pairs of {len(EXPRS)} expressions and {len(NUMS)} numbers as coefficient and scale, 1- and 2-body, offsets, over {len(ENVS)} value assignments"),
        Slice("written-in", plain, run_plain, "models with expressions in coefficients, scales and offset against models with the values written in"),
        Slice("repeated", several, run, "all sequences of up to 3 conversions over full, partial and missing values, each repeated"),
        Slice("histories", hist, run, f"all histories of length <= {3 if q else 4} over {len(OPS)} operations that use a placeholder"),
    ]
