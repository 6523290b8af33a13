"""C20: the reference number-partitioning solver is optimal and complete."""
import contextlib
import io
import itertools

from mc.core import Slice, Violation

ASSUMPTIONS = ["the numbers are non-negative integers"]


def best_subsets(numbers):
    """all index sets with the largest sum that is at most half of the total"""
    n, total = len(numbers), sum(numbers)
    best, sets = -1, []
    for m in range(1 << n):
        s = 0
        k, i = m, 0
        while k:
            if k & 1:
                s += numbers[i]
            k >>= 1
            i += 1
        if 2 * s <= total:
            if s > best:
                best, sets = s, [m]
            elif s == best:
                sets.append(m)
    return best, sets


def bits(p, n):
    m = 0
    for i in p:
        if not 0 <= i < n or m >> i & 1:
            raise Violation(f"the partition {p} repeats an index or has a wrong one")
        m |= 1 << i
    return m


def run(case, cov):
    from sawatabi.utils.npp import solve_npp_with_dp

    kind, spec = case
    lists = itertools.product(range(spec[1]), repeat=spec[2]) if kind == "block" else [spec]
    prefix = tuple(spec[0]) if kind == "block" else ()
    for tail in lists:
        numbers = list(prefix) + list(tail)
        check(solve_npp_with_dp, numbers, cov)


def check(solve, numbers, cov):
    n, total = len(numbers), sum(numbers)
    best, sets = best_subsets(numbers)
    for all_ in (False, True):
        arg = list(numbers)
        try:
            res = solve(arg, enumerate_all=all_)
            flag, ones, others = res
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{numbers} (enumerate_all={all_}): {type(e).__name__}: {e}")
        if arg != numbers:
            raise Violation(f"the list {numbers} was changed to {arg}")
        if bool(flag) != (2 * best == total):
            raise Violation(f"{numbers} (enumerate_all={all_}): the flag is {flag}, the best sums are {best} and {total - best}")
        if len(ones) != len(others):
            raise Violation(f"{numbers}: {len(ones)} partitions but {len(others)} complements")
        got = []
        for p, o in zip(ones, others):
            a, b = bits(p, n), bits(o, n)
            if a & b or a | b != (1 << n) - 1:
                raise Violation(f"{numbers}: {p} and {o} do not split the indices")
            sa, sb = sum(numbers[i] for i in p), sum(numbers[i] for i in o)
            if abs(sa - sb) != total - 2 * best:
                raise Violation(f"{numbers} (enumerate_all={all_}): the sums are {sa} and {sb}, {best} and {total - best} is possible")
            got.append(a)
        if not all_ and len(got) != 1:
            raise Violation(f"{numbers}: {len(got)} partitions instead of one")
        if all_:
            if len(set(got)) != len(got):
                raise Violation(f"{numbers}: a partition is listed twice: {ones}")
            if set(got) != set(sets):
                raise Violation(f"{numbers}: {len(got)} solutions {sorted(got)}, expected the {len(sets)} subsets {sorted(sets)} (as bit sets)")
            cov.outcome((bool(flag), min(len(sets), 20)))
        cov.step()
    cov.trace()
    cov.state((tuple(sorted(numbers)), best))


def run_print(case, cov):
    from sawatabi.utils.npp import solve_npp_with_dp

    for all_ in (False, True):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            a = solve_npp_with_dp(list(case), all_, True)
        quiet = io.StringIO()
        with contextlib.redirect_stdout(quiet):
            b = solve_npp_with_dp(list(case), all_)
        if quiet.getvalue():
            raise Violation(f"{case}: something was printed although no table was asked for: {quiet.getvalue()[:80]!r}")
        if a != b:
            raise Violation(f"{case}: printing the table changes the result: {a} instead of {b}")
        cov.step()
    cov.trace()


def SLICES(tier):
    q = tier == "quick"

    def blocks(length, top, head=2):
        def g():
            if length <= head:
                yield ("block", ((), top, length))
            else:
                for pre in itertools.product(range(top), repeat=head):
                    yield ("block", (pre, top, length - head))
        return g

    out = [Slice(f"len{k}", blocks(k, t, 2 if k < 7 else 3), run, f"all lists of {k} numbers below {t}") for k, t in ([(0, 2), (1, 30), (2, 20), (3, 12), (4, 9), (5, 7), (6, 5), (7, 4), (8, 3), (10, 2)] if q else [(0, 2), (1, 60), (2, 40), (3, 25), (4, 14), (5, 10), (6, 8), (7, 6), (8, 4), (9, 3), (12, 2)])]
    big = [[100], [100, 1], [7, 7, 7, 7, 7], [1, 2, 4, 8, 16, 32], [1, 2, 4, 8, 16, 31], [50, 1, 1, 1], [0] * 8, [13, 0, 0, 13], [99, 98, 97, 96], [1] * 10, [0, 0, 1, 1000], [40, 41, 42, 43, 44], [2, 10, 3, 8, 5, 7, 9, 5, 3, 2], [3, 3, 3, 3, 3, 3, 3, 3, 24]]
    out.append(Slice("big", [("list", b) for b in big], lambda c, cov: run(("list", c[1]), cov), "selected larger lists"))
    longer = []
    for n in (9, 11, 12, 13) if q else (9, 10, 11, 12, 13, 14, 15, 16):
        for mod, mul in ((7, 5), (31, 12), (64, 37), (150, 101)):
            v = [(i * i * mul + 3 * i + 1) % mod for i in range(n)]
            longer += [v, [x + 1 for x in v], sorted(v), sorted(v, reverse=True), [x * 10 for x in v]]
        longer += [[1] * n, [2] * (n - 1) + [1], [i + 1 for i in range(n)], [0] * (n - 3) + [1, 2, 3], [500] + [1] * (n - 1), [1] * (n - 1) + [500], [64] * (n // 2) + [65] * (n - n // 2)]
    out.append(Slice("longer", [("list", b) for b in longer], lambda c, cov: run(("list", c[1]), cov), f"{len(longer)} lists of 9 to {13 if q else 16} numbers below 1500"))
    out.append(Slice("print", list(itertools.product(range(4), repeat=3)) + [()], run_print, "all lists of 3 numbers below 4 with the table printed"))
    return out
