"""C25: every element reaches exactly the windows that the options configure for its event time."""
import itertools

import apache_beam as beam

from mc import stream as S
from mc.checks.c16 import Rec, compare, make_data, reference
from mc.core import Slice, Violation

ASSUMPTIONS = ["the pipeline runs on Beam's DirectRunner (windows may be delivered in any order; an outdated one is announced by its output)"]


def run(case, cov):
    alg, size, period, times, data, mask, reassign, more = case
    stream = [(t, make_data(data, i)) for i, t in enumerate(times)]
    eff = [(i, d) for i, (_, d) in enumerate(stream)] if reassign else stream
    wins = S.windows_of(alg, size, period, eff)
    h = Rec(alg, mask)
    opts = S.options(alg, size, period, **more)
    if reassign:
        opts["input.reassign_timestamp"] = True
    kept = dict(opts)
    out = S.run_real(alg, opts, "ising", None, stream, wins, h)
    order = [w for w, _ in out]
    if sorted(order) != list(range(len(wins))):
        missing = [wins[w][0] / 1e6 for w in range(len(wins)) if w not in order]
        twice = [wins[w][0] / 1e6 for w in set(order) if order.count(w) > 1]
        raise Violation(f"{len(order)} outputs for {len(wins)} windows; no output for the windows that end at {missing}, several for {twice}")
    compare(reference(alg, wins, order, mask), h, [(w, [x]) for w, x in out], cov)
    if opts != kept:
        raise Violation(f"the options were changed from {kept} to {opts}")
    done = {e for c in h.calls if c[0] == "map" for e in map(repr, c[1])}
    if order == sorted(order) and done != {repr(e) for _, els in wins for e in els}:
        raise Violation("some element reached no window")
    cov.step(len(wins))
    cov.trace()
    cov.state((alg, size, period, times, reassign))
    cov.outcome(("in order" if order == sorted(order) else "out of order", len(wins)))


def gen(algs, sizes, periods, streams, reassign=(False,), masks=(0,), more=({},), data=("alt",)):
    def cases():
        for t in streams:
            for alg in algs:
                for size in sizes:
                    for period in periods if alg in ("Window", "Partial", "Attenuation") else [size]:
                        for r in reassign:
                            for mask in masks if alg == "Partial" else (0,):
                                for mo in more:
                                    for d in data:
                                        yield (alg, size, period, t, d, mask, r, mo)
    return cases


E = 1 / 64  # exact in seconds and in microseconds
HALF = tuple(x / 2 for x in range(0, 16))
LONG = (0, 1 - E, 1, 1 + E, 1.5, 2, 3 - E, 3, 4.5, 7, 7.25, 12 - E, 12, 12 + E, 19.5, 30, 60 - E, 60)
NEG = (-7.5, -3, -2 - E, -2, -1, -E, 0, 0.5, 2)
EPOCH = tuple(1612345678.25 + 0.75 * k for k in range(10))
SCATTER = (5, 0, 9, 5, 2, 0, 9.5, 33)


def SLICES(tier):
    q = tier == "quick"
    sizes = (1, 2, 3) if q else (0.5, 1, 1.5, 2, 3, 5, 10)
    periods = (1, 2, 3) if q else (0.5, 1, 1.5, 2, 3, 4, 7)
    small = [t for n in (1, 2) for t in itertools.product((0, 1, 2, 3), repeat=n)] if q else [t for n in (1, 2, 3) for t in itertools.product((0, 1, 2, 3), repeat=n)]
    return [
        Slice("grid", gen(S.ALGS, sizes, periods, [HALF, LONG], masks=(0b1010011010010110,)), run, f"dense streams of 16 and 18 elements (window borders and just off them) x sizes {sizes} x periods {periods} x all algorithms"),
        Slice("numbers", gen(S.ALGS, (0.5, 2.5, 4, 10, 60), (0.25, 5, 60) if q else (0.25, 0.5, 1, 5, 10, 60), [EPOCH, NEG, SCATTER], masks=(0b101,)), run, "fractional and large sizes and periods; epoch, negative and unsorted times"),
        Slice("index", gen(S.ALGS, (1, 2, 3), (1, 2, 5), [SCATTER, (7,) * 9] if q else [SCATTER, (7,) * 9, NEG, EPOCH], reassign=(True,), masks=(0b110,), more=({}, {"output.with_timestamp": False})), run, "event times replaced by the index"),
        Slice("long", gen(S.ALGS, (8, 40) if q else (1, 8, 20, 40), (4, 40) if q else (1, 4, 10, 40), [tuple(i / 4 for i in range(150)), tuple(i * 37 % 101 for i in range(101))], reassign=(False, True), masks=(0x123456789ABCDEF,)), run, "streams of 101 and 150 elements"),
        Slice("small", gen(S.ALGS, (1, 2), (1, 2), small), run, f"all streams of up to {2 if q else 3} elements over 4 times"),
    ]
