"""C27: the utility functions compute what they say, for every argument."""
import itertools
import sys
import time

from mc.core import Slice, Violation

ASSUMPTIONS = ["the clocks are time.time, time_ns, perf_counter, perf_counter_ns, monotonic, monotonic_ns, process_time; the harness controls them all"]
REAL = {n: getattr(time, n) for n in ("time", "time_ns", "perf_counter", "perf_counter_ns", "monotonic", "monotonic_ns", "process_time", "process_time_ns")}


class Clock:
    """One instant behind all clocks."""

    def __init__(self, now):
        self.now = now

    def __enter__(self):
        fake = {}
        for n, f in REAL.items():
            fake[id(f)] = (lambda: round(self.now * 10 ** 9)) if n.endswith("_ns") else (lambda: self.now)
            setattr(time, n, fake[id(f)])
        self.patched = []
        for name, mod in list(sys.modules.items()):  # names imported from the time module
            if name.startswith("sawatabi"):
                for k, v in list(vars(mod).items()):
                    if id(v) in fake and v in REAL.values():
                        self.patched.append((mod, k, v))
                        setattr(mod, k, fake[id(v)])
        return self

    def __exit__(self, *a):
        for n, f in REAL.items():
            setattr(time, n, f)
        for mod, k, v in self.patched:
            setattr(mod, k, v)


REFS = {"elementwise_add": lambda a, b: a + b, "elementwise_sub": lambda a, b: a - b, "elementwise_max": lambda a, b: a if a >= b else b, "elementwise_min": lambda a, b: a if a <= b else b}


def run_elementwise(case, cov):
    from sawatabi.utils import Functions

    fn, kind, a, b = case
    t = tuple if kind == "tuple" else list
    x, y = t(a), t(b)
    got = getattr(Functions, fn)(x, y)
    want = t(REFS[fn](i, j) for i, j in zip(a, b))
    cov.step()
    cov.trace()
    cov.state(case)
    if type(got) is not t or len(got) != len(want) or any(g != w for g, w in zip(got, want)):
        raise Violation(f"{fn}({x}, {y}) is {got!r}, expected {want!r}")
    if x != t(a) or y != t(b):
        raise Violation(f"{fn} changed its arguments to {x}, {y}")


BADS = [1, None, "ab", {1, 2}, {0: 1}, range(2)]


def run_refused(case, cov):
    from sawatabi.utils import Functions

    fn, i = case
    good = [(1, 2), [1, 2]]
    cov.step()
    cov.trace()
    cov.state(case)
    pairs = [(good[0], good[1]), (good[1], good[0])] + [(g, BADS[i]) for g in good] + [(BADS[i], g) for g in good] + [(BADS[i], BADS[i])]
    for a, b in pairs:
        try:
            r = getattr(Functions, fn)(a, b)
        except TypeError:
            continue
        raise Violation(f"{fn}({a!r}, {b!r}) is {r!r} but must be refused")


def run_flatten(case, cov):
    from sawatabi.utils import Functions

    def build(c):
        return c if not isinstance(c, (list, tuple)) else [build(x) for x in c]

    def flat(c):
        return [c] if not isinstance(c, list) else [y for x in c for y in flat(x)]

    nested = build(case)
    cov.step()
    cov.trace()
    cov.state(case)
    got = list(Functions._flatten(nested))
    if got != flat(nested):
        raise Violation(f"flattening {nested} gives {got}")


UNITS = {"current_time": (1, False), "current_time_as_int": (1, True), "current_time_ms": (10 ** 3, False), "current_time_ms_as_int": (10 ** 3, True), "current_time_us": (10 ** 6, False), "current_time_us_as_int": (10 ** 6, True), "current_time_ns": (10 ** 9, False), "current_time_ns_as_int": (10 ** 9, True)}


def run_time(case, cov):
    import sawatabi.utils as u

    fn, now = case
    f, as_int = UNITS[fn]
    with Clock(now):
        got = getattr(u, fn)()
    cov.step()
    cov.trace()
    cov.state(case)
    want = now * f
    slack = 1e-9 * max(1.0, abs(want)) if f != 1 else 0.0
    if as_int:
        # the whole units that have passed; on the edge of a unit rounding may go either way
        ok = isinstance(got, int) and not isinstance(got, bool) and (-slack <= want - got < 1 + slack)
    else:
        ok = isinstance(got, float) and abs(got - want) <= slack
    if not ok:
        raise Violation(f"{fn}() at {now!r} is {got!r}")


class Boom(Exception):
    pass


RETURNS = [None, 0, "text", [1, 2], {"return": 1, "profile": 2}, (), False]


def run_profile(case, cov):
    from sawatabi.utils import profile

    ri, args, kwargs, took, fails, layers = case
    clock = Clock(1000.0)
    calls = []

    def work(*a, **k):
        "the docstring"
        calls.append((a, dict(k)))
        clock.now += took
        if fails:
            raise Boom("no")
        return RETURNS[ri]

    f = work
    for _ in range(layers):
        f = profile(f)
    cov.step()
    cov.trace()
    cov.state(case)
    if f.__name__ != "work" or f.__doc__ != "the docstring":
        raise Violation(f"the decorated function is called {f.__name__!r}")
    if calls:
        raise Violation("decorating called the function")
    for n in (1, 2):
        with clock:
            try:
                out = f(*args, **kwargs)
                err = None
            except Boom as e:
                out, err = None, e
        if calls != [(tuple(args), dict(kwargs))] * n:
            raise Violation(f"the function was called with {calls}")
        if fails:
            if err is None:
                raise Violation(f"the error of the function was swallowed, result {out!r}")
            continue
        if err is not None:
            raise Violation(f"{err!r} was raised")
        for _ in range(layers):
            if set(out) != {"return", "profile"} or set(out["profile"]) != {"function_name", "execution_sec"}:
                raise Violation(f"the result is {out!r}")
            if out["profile"]["function_name"] != "work" or abs(out["profile"]["execution_sec"] - took) > 1e-6 * max(1.0, took):
                raise Violation(f"a function that took {took} s is reported as {out['profile']}")
            out = out["return"]
        if out is not RETURNS[ri]:
            raise Violation(f"the function returned {RETURNS[ri]!r}, the decorated one {out!r}")


def run_method(case, cov):
    """decorated methods, nested calls and two functions with one decorator"""
    from sawatabi.utils import profile

    took = case
    clock = Clock(5.0)

    class K:
        def __init__(self):
            self.n = 0

        @profile
        def go(self, d=0):
            self.n += 1
            clock.now += took
            return self.go(d - 1)["return"] + 1 if d else 1

    a, b = K(), K()
    cov.step()
    cov.trace()
    cov.state(case)
    with clock:
        r = a.go(3)
        s = b.go()
    if r["return"] != 4 or a.n != 4 or b.n != 1 or s["return"] != 1:
        raise Violation(f"results {r}, {s}")
    if abs(r["profile"]["execution_sec"] - 4 * took) > 1e-6 * max(1.0, 4 * took) or abs(s["profile"]["execution_sec"] - took) > 1e-6 * max(1.0, took):
        raise Violation(f"times {r['profile']}, {s['profile']} for 4 and 1 times {took} s")


def SLICES(tier):
    q = tier == "quick"
    vals = (-2, 0, 1, 3) if q else (-7, -2, -1, 0, 1, 3, 100)
    els = [(fn, kind, list(a), list(b)) for fn in REFS for kind in ("tuple", "list") for n in range(0, 3) for a in itertools.product(vals, repeat=n) for b in itertools.product(vals, repeat=n)]
    els += [(fn, kind, list(a), list(b)) for fn in REFS for kind in ("tuple", "list") for a in itertools.product((0, 1, 2), repeat=3) for b in itertools.product((0, 1, 2), repeat=3)]
    els += [(fn, "list", [a, 2.5], [b, 0.25]) for fn in REFS for a in (10 ** 15, -0.5, 1e-9) for b in (-(10 ** 15), 0.5, 1e-9)]

    for n in (4, 5, 7, 8, 9, 16, 17, 33, 64, 100, 257):
        a, b = [(i * 7) % 11 - 5 for i in range(n)], [(i * 5) % 13 - 6 for i in range(n)]
        els += [(fn, kind, x, y) for fn in REFS for kind in ("tuple", "list") for x, y in ((a, b), (b, a), (a, a), ([v * 2 ** 53 + 1 for v in a], b), ([v / 4 for v in a], b))]

    def shapes(depth, width):
        out = [0, "ab", (1,)[0]]
        for _ in range(depth):
            out = out[:4] + [list(c) for n in range(0, width + 1) for c in itertools.product(out[:4], repeat=n)]
        return out

    flats = [s for s in shapes(3, 3) if isinstance(s, list)]
    deep, wide = 7, [list(range(300)), [[i, [i]] for i in range(60)], [[]] * 20 + [1]]
    for _ in range(60):
        deep = [deep, 1]
    flats += wide + [[deep]]
    times = [0.0, 0.25, 0.999, 1.0, 1.5, 59.9999, 1612345678.0, 1612345678.123456, 1612345678.9999, 1794996303.7701843, 2 ** 31 + 0.5, 2 ** 33 + 0.125]
    prof = [(r, a, k, t, f, l) for r in range(len(RETURNS)) for a in ([], [1], [1, "b"]) for k in ({}, {"x": 1}, {"func": 2, "args": 3}) for t in (0.0, 0.001, 2.5, 3600.0) for f in (False, True) for l in (1, 2)]
    return [
        Slice("elementwise", els, run_elementwise, "all pairs of vectors of up to 2 numbers over 4 (thorough 7) values and of 3 over 3 values, tuples and lists"),
        Slice("refused", [(fn, i) for fn in REFS for i in range(len(BADS))], run_refused, "all mixtures of tuple, list and other types"),
        Slice("flatten", flats, run_flatten, "all nested lists of depth <= 3 and width <= 3 over 4 elements"),
        Slice("time", [(fn, t) for fn in UNITS for t in times], run_time, f"8 functions at {len(times)} instants"),
        Slice("profile", prof, run_profile, "all combinations of arguments, results, durations and errors, once and twice decorated, called twice"),
        Slice("methods", [0.0, 0.5, 7.0], run_method, "methods and recursion"),
    ]
