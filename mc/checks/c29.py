"""C29: the shipped number-partitioning application reports a true, and with the exact solver optimal, split of every window."""
import glob
import importlib.util
import itertools
import os
import re
import sys
import tempfile

from mc import core
from mc import stream as S
from mc.checks.c16 import order_of
from mc.core import Slice, Violation
from mc.lm import fresh_clock

ASSUMPTIONS = ["the numbers are positive and arrive in the order of distinct event times (the application numbers its variables by arrival)"]


def app(name="npp_window"):
    """the application module, from the source in the repository"""
    if name not in sys.modules:
        path = os.path.join(core.REPO, "sample", "algorithm", name + ".py")
        spec = importlib.util.spec_from_file_location(name, path, loader=core._SourceOnly(name, path))
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
    return sys.modules[name]


SOLVERS = {}


def parse(text):
    """-> (numbers, length, (sum, elements), (sum, elements), diff)"""
    m = re.fullmatch(r"\s*INPUT -->\s*\[([\d, ]*)\]\s*\(length: (\d+)\)\s*SOLUTION ==>\s*Set\(\+\) : sum=(\d+), elements=\[([\d, ]*)\]\s*Set\(-\) : sum=(\d+), elements=\[([\d, ]*)\]\s*diff\s*: (\d+)\s*", text)
    if not m:
        raise Violation(f"the output is {text!r}")
    ints = [[int(v) for v in m.group(i).replace(",", " ").split()] for i in (1, 4, 6)]
    return ints[0], int(m.group(2)), (int(m.group(3)), ints[1]), (int(m.group(5)), ints[2]), int(m.group(7))


def best_diff(nums):
    sums = {0}
    for n in nums:
        sums = {s + n for s in sums} | {abs(s - n) for s in sums}
    return min(sums)


def check_output(text, nums, optimal):
    if len(nums) == 1:
        if not text.startswith("Failed to solve"):
            raise Violation(f"a window with one number gave {text!r}")
        return "single"
    got, length, p, n, diff = parse(text)
    if got != nums or length != len(nums):
        raise Violation(f"the reported input is {got} ({length}), the window's is {nums}")
    if sorted(p[1] + n[1]) != sorted(nums) or sum(p[1]) != p[0] or sum(n[1]) != n[0] or diff != abs(p[0] - n[0]):
        raise Violation(f"for {nums} the sets {p} and {n} with difference {diff} were reported")
    if optimal and diff != best_diff(nums):
        raise Violation(f"for {nums} the difference is {diff}, the best is {best_diff(nums)}")
    return (len(nums), diff == best_diff(nums))


class App:
    def __init__(self, mask):
        self.mod, self.mask = app(), mask

    def filter(self, e):
        return bool(self.mask >> e[1][0] & 1)

    def map(self, *a):
        return self.mod.npp_mapping(*a)

    def solve(self, *a):
        return self.mod.npp_solving(*a)

    def unmap(self, *a):
        return self.mod.npp_unmapping(*a)


def expected(alg, wins, order, mask):
    """the numbers of each delivered window by event time, None for outdated ones"""
    prev, last, out = [], -1, []
    for w in order:
        if w < last:
            out.append(None)
            continue
        last = w
        cur = set(wins[w][1])
        if alg == "Incremental":
            cur |= set(prev)
        elif alg == "Partial":
            cur |= {e for e in prev if mask >> e[1][0] & 1}
        prev = sorted(cur)
        out.append([e[1][1] for e in prev])
    return out


def run(case, cov):
    from sawatabi.solver import LocalSolver

    alg, size, period, times, nums, mask, exact, order, commits, real = case
    fresh_clock()
    stream = list(zip(times, nums))
    wins = S.windows_of(alg, size, period, stream)
    opts = S.options(alg, size, period)
    h = App(mask)
    if exact not in SOLVERS:
        SOLVERS[exact] = LocalSolver(exact=exact)
    solver = SOLVERS[exact]
    if real:
        out = [(w, [x]) for w, x in S.run_real(alg, opts, "ising", solver, stream, wins, h)]
    else:
        out = S.deliver_all(alg, opts, "ising", solver, stream, wins, order_of(order, len(wins)), commits, h)
        if out is None:
            cov.outcome("undrivable")
            return
    if sorted(w for w, _ in out) != list(range(len(wins))):
        raise Violation(f"outputs for the windows {[w for w, _ in out]} of {len(wins)}")
    want = expected(alg, wins, [w for w, _ in out], mask)
    for (w, texts), numbers in zip(out, want):
        if len(texts) != 1:
            raise Violation(f"window {w} gave {len(texts)} outputs")
        if numbers is None:
            if "outdated" not in texts[0]:
                raise Violation(f"an outdated window gave {texts[0]!r}")
            continue
        try:
            cov.outcome(check_output(texts[0], numbers, exact and alg != "Attenuation"))
        except Violation as e:
            raise Violation(f"window {w}: {e}")
        cov.state((alg, tuple(numbers)))
        cov.step()
    cov.trace()


SHIPPED = {"npp_window": ("Window", 30, 5), "npp_delta": ("Delta", 10, 10), "npp_incremental": ("Incremental", 10, 10), "npp_partial": ("Partial", 10, 10), "npp_attenuation": ("Attenuation", 20, 5)}


def run_shipped(case, cov):
    """the application as it is started from the command line: a file of numbers in, files of solutions out"""
    import datetime

    name, nums = case
    alg, size, period = SHIPPED[name]
    app()
    wins = S.windows_of(alg, size, period, list(enumerate(nums)))
    mask = sum(1 << i for i, n in enumerate(nums) if n > 90)
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, "in"), "w") as f:
            f.write("".join(f"{n}\n" for n in nums) + "not a number\n")
        getattr(app(name), name)(input_path=os.path.join(d, "in"), output_path=os.path.join(d, "out"))
        text = "".join(open(p).read() for p in sorted(glob.glob(os.path.join(d, "out*"))))
    blocks = re.findall(r"<<<\n\[([^\]]*)\] (.*?)\n>>>\n", text, re.S)
    if len(blocks) != len(wins):
        raise Violation(f"{len(blocks)} outputs for {len(wins)} windows")
    ends = {str(datetime.datetime.utcfromtimestamp(0) + datetime.timedelta(microseconds=S.stamp(end))): w for w, (end, _) in enumerate(wins)}
    order = [ends.get(b[0]) for b in blocks]
    if sorted(order, key=repr) != sorted(range(len(wins)), key=repr):
        raise Violation(f"the outputs are stamped {[b[0] for b in blocks]}, expected {sorted(ends)}")
    for (_, t), numbers in zip(blocks, expected(alg, wins, order, mask)):
        if numbers is None:
            if "outdated" not in t:
                raise Violation(f"an outdated window gave {t!r}")
        else:
            cov.outcome((name, check_output(t, numbers, False)))
            cov.state((name, tuple(numbers)))
        cov.step()
    cov.trace()


def SLICES(tier):
    q = tier == "quick"
    plain = ("Window", "Delta", "Incremental", "Partial", "Attenuation")
    cfgs = [(2, 1), (3, 1), (2, 2), (4, 2), (2, 3)]

    def gen(algs, streams, cfgs=cfgs, masks=(0b101,), exact=(True,), orders=("fwd",), commits=(0,), real=0):
        def g():
            for times, nums in streams:
                for alg in algs:
                    for size, period in cfgs:
                        if alg in ("Delta", "Incremental") and period > size:
                            continue
                        if alg in ("Delta", "Incremental") and (size, period) in ((3, 1), (4, 2)):
                            continue
                        for mask in masks if alg == "Partial" else (0,):
                            for e in exact:
                                for o in orders:
                                    for c in commits:
                                        yield (alg, size, period, list(times), list(nums), mask, e, o, c, real)
        return g

    vals = (1, 2, 5) if q else (1, 2, 3, 7)
    small = [(range(n), v) for n in range(1, 4 if q else 5) for v in itertools.product(vals, repeat=n)]
    gaps = [(t, (3, 1, 4, 1, 5, 9)[:len(t)]) for n in (2, 3, 4) for t in itertools.combinations((0, 1, 2.5, 3, 6, 11), n)]
    longer = [(range(len(v)), v) for v in ([5, 4, 3, 2, 1, 6, 7, 8], [1] * 9, [2 ** k for k in range(8)], [100, 1, 1, 1, 99, 1, 1, 1, 98, 3])]
    many = [(range(len(v)), v) for v in ([(k * 37) % 101 + 1 for k in range(40)], [1 + k // 9 for k in range(40)], [10 ** 6 + k * k for k in range(25)])]
    files = [[3], [5, 8], list(range(1, 13)), [91, 1, 95, 2] * 6 + [7], [7 * k % 50 + 1 for k in range(46)]]
    return [
        Slice("numbers", gen(plain, small, cfgs=cfgs[:3] if q else cfgs), run, f"all streams of up to {3 if q else 4} numbers over {vals}, sizes and periods, 5 algorithms, exact solver"),
        Slice("gaps", gen(plain, gaps, masks=(1, 0b1111)), run, "irregular event times and windows with gaps"),
        Slice("longer", gen(plain, longer, masks=(0, 0b10010001, 0b1111111111), exact=(True, False)), run, "longer streams, exact solver and annealing"),
        Slice("many", gen(plain, many, cfgs=[(12, 5), (13, 13), (40, 40)], masks=(0, (1 << 40) - 1, int("a5" * 5, 16)), exact=(False,)), run, "streams of 25 and 40 numbers in windows of up to 40, annealing"),
        Slice("many-exact", gen(("Window", "Delta", "Partial"), many, cfgs=[(10, 7), (11, 11)], masks=(0, 0b1100000000110)), run, "windows of up to 11 numbers, exact solver"),
        Slice("bundles", gen(plain, longer[:2] + gaps[-6:], orders=("fwd", "rev", "s0", "s1"), commits=(0, 0b111111111111, 0b10101010101)), run, "out-of-order delivery and bundle boundaries"),
        Slice("runner", gen(plain, longer[:1] + gaps[-1:] if q else longer + gaps[-9:], cfgs=[(3, 1), (2, 2)] if q else cfgs, real=1), run, "the real DirectRunner"),
        Slice("shipped", [(n, f) for f in (files if not q else files[1:4]) for n in SHIPPED], run_shipped, "the five programs started on files of numbers"),
    ]
