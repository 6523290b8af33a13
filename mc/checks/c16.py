"""C16: each processed window gets exactly its elements, newcomers and leavers."""
import itertools

from mc import stream as S
from mc.core import Slice, Violation

ASSUMPTIONS = ["windows are delivered to the solving step one at a time (keyed state), in any order, with bundle boundaries anywhere", "a bundle boundary encodes and decodes the state with its declared coder"]


def make_data(kind, i):
    return {"same": 5, "alt": i % 2, "rev": -i, "dict": {"k": [i % 2]}, "str": "ab"[i % 2], "none": None}[kind]


class Rec:
    def __init__(self, alg, mask):
        self.calls, self.mask, self.alg, self.n = [], mask, alg, 0
        self.bad = []

    def map(self, pm, ps, e, i, o):
        self.n += 1
        self.calls.append(("map", list(e), list(i), list(o)))
        if self.alg == "Attenuation":
            import sawatabi

            return sawatabi.model.LogicalModel(mtype="ising")
        return ("model", self.n)

    def solve(self, solver, model, ps, e, i, o):
        self.calls.append(("solve", list(e), list(i), list(o)))
        return ("sampleset", self.n)

    def unmap(self, ss, e, i, o):
        self.calls.append(("unmap", list(e), list(i), list(o)))
        return f"out {self.n}"

    def filter(self, e):
        if not (isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], float) and isinstance(e[1], tuple)):
            self.bad.append(e)
            return False
        return bool(self.mask >> e[1][0] & 1)


def reference(alg, wins, order, mask):
    """-> [(window, None | (elements, incoming, outgoing))]"""
    prev_end, prev = None, []
    out = []
    for w in order:
        end, els = wins[w]
        if prev_end is not None and end < prev_end:
            out.append((w, prev_end))
            continue
        cur = list(els)
        if alg == "Incremental":
            cur += prev
        elif alg == "Partial":
            cur += [e for e in prev if mask >> e[1][0] & 1 and e not in cur]
        key = lambda e: (e[0], e[1][0])
        cur.sort(key=key)
        out.append((w, (cur, [e for e in cur if e not in prev], [e for e in prev if e not in cur])))
        prev_end, prev = end, cur
    return out


def compare(exp, h, outputs, cov):
    """exp: reference; h: recorded calls; outputs: [(window, [outputs])]"""
    if h.bad:
        raise Violation(f"the filter was given {h.bad[0]!r}")
    if [w for w, _ in exp] != [w for w, _ in outputs]:
        raise Violation(f"windows {outputs}")
    calls = list(h.calls)
    n = 0
    for (w, ref), (_, outs) in zip(exp, outputs):
        if len(outs) != 1 or not isinstance(outs[0], str):
            raise Violation(f"window {w} produced {outs!r} instead of one output")
        if not isinstance(ref, tuple):
            if outs[0].startswith("out "):
                raise Violation(f"window {w} is outdated but produced {outs[0]!r}")
            cov.outcome("outdated")
            continue
        n += 1
        if len(calls) < 3:
            raise Violation(f"window {w} should be processed, but its output is {outs[0]!r}")
        for name in ("map", "solve", "unmap"):
            c = calls.pop(0)
            if c[0] != name:
                raise Violation(f"window {w}: {c[0]} was called instead of {name}")
            for what, got, want in zip(("elements", "incoming", "outgoing"), c[1:], ref):
                if got != want:
                    raise Violation(f"window {w}, {name}: {what} are {got}, expected {want}")
        if outs[0] != f"out {n}":
            raise Violation(f"window {w}: the output is {outs[0]!r}, unmapping returned 'out {n}'")
        cov.outcome((len(ref[0]), len(ref[1]), len(ref[2])))
    if calls:
        raise Violation(f"additional callbacks were called: {calls}")


PERMS = {"fwd": None, "rev": lambda e: e[::-1], "rot": lambda e: e[1:] + e[:1]}


def run_direct(case, cov):
    alg, size, period, times, data, mask, order, commits, perm = case
    stream = [(t, make_data(data, i)) for i, t in enumerate(times)]
    wins = S.windows_of(alg, size, period, stream)
    if order == "all":
        orders = itertools.permutations(range(len(wins)))
    else:
        orders = [order_of(order, len(wins))]
    for o in orders:
        for cm in [0, (1 << len(wins)) - 1] if commits == "ends" else range(1 << len(wins)) if commits == "all" else [commits]:
            h = Rec(alg, mask)
            out = S.deliver_all(alg, S.options(alg, size, period), "ising", None, stream, wins, o, cm, h, PERMS[perm])
            if out is None:
                cov.outcome("undrivable")
                return
            exp = reference(alg, wins, o, mask)
            try:
                compare(exp, h, out, cov)
            except Violation as e:
                raise Violation(f"delivery order {list(o)}, bundle ends {cm:b}: {e}")
            cov.step(len(o))
            cov.trace()
            cov.state((alg, [(r if isinstance(r, tuple) else "old") for _, r in exp]))


def order_of(name, n):
    ids = list(range(n))
    if name == "fwd":
        return ids
    if name == "rev":
        return ids[::-1]
    if name[0] == "s":  # swap k and k+1
        k = int(name[1:])
        if k + 1 < n:
            ids[k], ids[k + 1] = ids[k + 1], ids[k]
        return ids
    if name[0] == "f":  # k first
        k = int(name[1:])
        return ids[k:k + 1] + ids[:k] + ids[k + 1:] if k < n else ids
    raise KeyError(name)


def run_real(case, cov):
    alg, size, period, times, data, mask = case
    stream = [(t, make_data(data, i)) for i, t in enumerate(times)]
    wins = S.windows_of(alg, size, period, stream)
    h = Rec(alg, mask)
    out = S.run_real(alg, S.options(alg, size, period), "ising", None, stream, wins, h)
    order = [w for w, _ in out]
    if sorted(order) != list(range(len(wins))):
        raise Violation(f"outputs for the windows {order}, expected one for each of {len(wins)}")
    compare(reference(alg, wins, order, mask), h, [(w, [x]) for w, x in out], cov)
    cov.step(len(wins))
    cov.trace()
    cov.state((alg, size, period, times))


SLIDING = [(2, 1), (1, 1), (3, 1), (2, 2), (1, 2), (3, 2)]


def SLICES(tier):
    q = tier == "quick"

    def orders_for(nw, full):
        if nw <= full:
            return ["all"]
        return ["fwd", "rev"] + [f"s{k}" for k in range(nw - 1)] + [f"f{k}" for k in range(2, nw)]

    def times(grid, n):
        for k in range(1, n + 1):
            yield from itertools.product(grid, repeat=k)

    def direct(algs, grid, n, cfgs, masks=(0,), data=("alt",), perms=("fwd",), full=5, commits=0):
        def gen():
            for t in times(grid, n):
                for alg in algs:
                    for size, period in cfgs:
                        if alg in ("Delta", "Incremental") and (size, size) != (size, period):
                            continue
                        nw = len(S.windows_of(alg, size, period, [(x, 0) for x in t]))
                        for mask in [m for m in masks if m < 1 << len(t)] if alg == "Partial" else [0]:
                            for d in data:
                                for p in perms:
                                    for o in orders_for(nw, full):
                                        yield (alg, size, period, t, d, mask, o, commits, p)
        return gen

    def real(cfgs, streams):
        def gen():
            for t in streams:
                for size, period in cfgs:
                    for alg in S.ALGS:
                        if alg in ("Delta", "Incremental") and size != period:
                            continue
                        yield (alg, size, period, t, "alt", 0b0101)
        return gen

    def dense():
        """windows of many elements, long streams"""
        for n in (12, 20, 40, 70) if q else (9, 10, 11, 12, 16, 17, 20, 33, 40, 70, 130):
            for t in (tuple(i / 4 for i in range(n)), tuple((n - i) / 2 for i in range(n)), (3,) * n, tuple(i * 7 % 11 for i in range(n)), tuple(range(n)), tuple((i * i) % 17 / 2 for i in range(n))):
                for alg in S.ALGS:
                    for size, period in ((5, 1), (10, 5), (20, 10), (3, 3), (64, 64), (1, 4)):
                        if alg in ("Delta", "Incremental") and size != period:
                            continue
                        for mask in (0x5A5A5A5A5A5A5A5A5A, (1 << 140) - 1) if alg == "Partial" else (0,):
                            for o, p, d in (("fwd", "fwd", "alt"), ("s1", "rev", "same"), ("f3", "rot", "dict")):
                                yield (alg, size, period, t, d, mask, o, 0x5555, p)

    fixed = [(1, 1), (2, 2), (3, 3)]
    G = (0, 1, 2, 3)
    F = (-2.5, -1, 0, 0.5, 1.75)
    out = [
        Slice("window", direct(("Window", "Delta", "Incremental"), G, 4, SLIDING + fixed[2:], full=5 if q else 6), run_direct, "all streams of up to 4 elements over 4 times in any arrival order, all window sizes/periods, all delivery orders"),
        Slice("partial", direct(("Partial",), G[:3], 4 if not q else 3, SLIDING[:5], masks=range(16), full=5), run_direct, "as window, every set of retained elements"),
        Slice("attenuation", direct(("Attenuation",), G, 3, [(2, 1), (1, 1)], full=3), run_direct, "streams of up to 3 elements"),
        Slice("real-time", direct(("Window", "Delta", "Incremental", "Partial"), F, 3, [(2, 0.5), (1, 1), (1.5, 1.5), (0.5, 1.5), (0.25, 0.25)], masks=(1, 6), full=4, perms=("fwd", "rev")), run_direct, "negative and fractional times, sizes and periods"),
        Slice("close", direct(("Window", "Delta", "Incremental", "Partial"), (0, 0.000001, 0.000999, 0.001, 0.9999), 3, [(1, 1), (0.5, 0.5), (2, 1)] if q else [(1, 1), (0.5, 0.5), (2, 1), (0.001, 0.001)], masks=(1, 6), full=3, perms=("fwd", "rev")), run_direct, "event times less than a millisecond apart, in any arrival order"),
        Slice("bundles", direct(S.ALGS, G[:3], 3, [(2, 1), (1, 1), (2, 2)], masks=(0, 1, 5), full=2, data=("alt", "dict"), perms=("fwd", "rot"), commits="all"), run_direct, "every pattern of bundle boundaries"),
        Slice("data", direct(S.ALGS, (0, 1), 4, [(2, 1), (1, 1)], masks=(3, 10), full=3, data=("same", "rev", "dict", "str", "none"), perms=("fwd", "rev", "rot")), run_direct, "equal and incomparable data, equal times"),
        Slice("dense", dense, run_direct, "streams of up to 70 (thorough 130) elements with up to 64 time units per window, 6 time patterns, 3 deliveries"),
        Slice("runner", real([(2, 1), (2, 2), (1, 2)] if q else SLIDING + fixed, [(0,), (0, 1, 3), (3, 0, 1), (1, 1, 4, 2)] if q else list(times((0, 1, 4), 3)) + [(3, 2, 1, 0, 5)]), run_real, "the whole pipeline on the real DirectRunner"),
    ]
    if not q:
        out.append(Slice("long", direct(("Window", "Incremental", "Partial"), G, 5, [(2, 1), (1, 1), (2, 2)], masks=(0, 9, 21), full=5), run_direct, "streams of up to 5 elements"))
    return out
