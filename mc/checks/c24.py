"""C24: SawatabiSolver anneals by the Metropolis rule along the configured schedule."""
import itertools
import math

from mc.core import Slice, Violation
from mc.checks.c12 import HI, LO, kwargs_of, size
from mc.sa import Ambiguous, Problem, patched, physical, simulate, temperatures

ASSUMPTIONS = ["the random numbers of a read are used in the order in which they were drawn, one per rising move (as now) or one per try",
               "runs in which the solver does not create its generator through numpy.random.default_rng are checked for the schedule only"]


def run(case, cov):
    from sawatabi.solver import SawatabiSolver

    mt, name, opts, script = case
    real, phys = physical(mt, name)
    prob = Problem(phys)
    kw = kwargs_of(prob, opts)
    with patched(script) as pt:
        ss, stats = SawatabiSolver().solve(phys, need_stats=True, **kw)
    cov.step(opts["num_sweeps"] * prob.n)
    cov.trace()
    sweeps = opts["num_sweeps"]
    temps = temperatures(opts, sweeps)
    rev = opts.get("reverse_options")
    for r, st in enumerate(stats):
        th = [float(t) for t in st["temperature_history"]]
        if len(th) != sweeps:
            raise Violation(f"{len(th)} temperatures for {sweeps} sweeps")
        for k, (a, b) in enumerate(zip(th, temps)):
            small = 1e-6 if (rev and k == 0) else 1e-300
            scale = max(abs(b), rev["reverse_temperature"] if rev else 0.0)
            if rev and k > 0 and b < 1e-8:
                small = 1e-6
            if abs(a - b) > 1e-9 * scale + small:
                raise Violation(f"temperatures {th}, expected {temps}")
    if not pt.made:
        cov.outcome("unscripted")
        return
    init = opts["initial_states"][0]
    perms = [list(range(prob.n))] if opts.get("pickup_mode") == "sequential" else script["perms"]
    st = stats[0]
    got = None
    for d in ss.data(fields=["sample"], sorted_by=None):
        got = prob.spins(dict(d.sample))
    exp = []
    for mapping in ("uphill", "try"):
        try:
            x, e, hist, acc = simulate(prob, init, perms, script["u"], temps, mapping)
        except Ambiguous:
            cov.outcome("ambiguous")
            return
        exp.append((x, hist, acc))
        if got == x and [int(a) for a in st["acceptance_history"]] == acc and all(prob.eq(float(a), b) for a, b in zip(st["energy_history"], hist)):
            cov.state((mt, name, x, tuple(acc), tuple(th[:1])))
            cov.outcome((mapping, sum(acc)))
            return
    raise Violation(f"final state {got}, energies {[float(a) for a in st['energy_history']]}, accepted {list(st['acceptance_history'])}; the Metropolis rule gives (state, energies, accepted) {exp[0]}")


def run_schedule(case, cov):
    """Temperatures and default options on longer runs, unscripted."""
    from sawatabi.solver import SawatabiSolver

    mt, name, opts, reads = case
    real, phys = physical(mt, name)
    ss, stats = SawatabiSolver().solve(phys, need_stats=True, num_reads=reads, seed=3, **opts)
    cov.step()
    cov.trace()
    sweeps = opts.get("num_sweeps", 100)
    temps = temperatures(opts, sweeps)
    rev = opts.get("reverse_options")
    cov.state((mt, repr(opts)))
    if len(stats) != reads:
        raise Violation(f"{len(stats)} statistics for {reads} reads")
    for st in stats:
        th = [float(t) for t in st["temperature_history"]]
        if len(th) != sweeps:
            raise Violation(f"{len(th)} temperatures for {sweeps} sweeps")
        for k, (a, b) in enumerate(zip(th, temps)):
            tol = 1e-9 * max(abs(b), rev["reverse_temperature"] if rev else 0.0) + (1e-6 if rev and b < 1e-8 else 1e-300)
            if abs(a - b) > tol:
                raise Violation(f"temperature {k} is {a}, expected {b} ({opts})")
        prob = Problem(phys)
        if any(int(a) > prob.n or int(a) < 0 for a in st["acceptance_history"]):
            raise Violation(f"accepted moves per sweep {st['acceptance_history']} with {prob.n} variables")


def SLICES(tier):
    q = tier == "quick"
    types = ("ising", "qubo")

    def metropolis():
        """all initial states x visiting orders x random numbers"""
        U = (LO, 0.35, HI)
        plan = [("one", 4), ("oneoff", 4), ("free", 2), ("pair", 2), ("hole", 2), ("tri", 1), ("rev", 1), ("con", 1)]
        if not q:
            plan += [("one", 7), ("pair", 3), ("free", 3)]
        for (name, sweeps), mt in itertools.product(plan, types):
            n = size(mt, name)
            perms = list(itertools.permutations(range(n)))
            for init in itertools.product((-1, 1), repeat=n):
                for ps in itertools.product(perms, repeat=sweeps):
                    for us in itertools.product(U, repeat=n * sweeps):
                        yield (mt, name, {"num_sweeps": sweeps, "initial_states": [list(init)], "initial_temperature": 2.0, "cooling_rate": 0.8}, {"bits": [0], "perms": [list(p) for p in ps], "u": list(us)})

    def threshold():
        """a single rising move of known size at many temperatures, the number just below and just above exp(-d/T)"""
        for mt, d in (("ising", 2.0), ("qubo", 1.0)):  # x0 with coefficient 1 from the good to the bad state
            for t in (0.05, 0.3, 1.0, 2.0, 7.5, 100.0, 1e4):
                p = math.exp(-d / t)
                for u in {max(0.0, p * (1 - 1e-4) - 1e-6), min(HI, p * (1 + 1e-4) + 1e-6), LO, HI, 0.5}:
                    if abs(u - p) > 1e-8:
                        for c in (1.0, 0.5):
                            yield (mt, "one", {"num_sweeps": 1, "initial_states": [[1]], "initial_temperature": t, "cooling_rate": c}, {"bits": [0], "perms": [[0]], "u": [u]})

    def units():
        """the same problem and schedule in units of 2**-60 to 2**60"""
        U = (LO, 0.35, HI)
        for k in (-60, -40, -20, 20, 40, 60):
            f = 2.0 ** k
            for (name, sweeps), mt in itertools.product([("one", 3), ("oneoff", 2), ("free", 2), ("pair", 2), ("tri", 1)], types):
                n = size(mt, name)
                perms = [list(range(n))[::-1], list(range(n))]
                for init in itertools.product((-1, 1), repeat=n):
                    for us in itertools.product(U, repeat=n * sweeps) if n * sweeps < 4 or not q else [(a, b, c, d) for a in U for b in U for c in U for d in U[::2]]:
                        yield (mt, f"{name}@{k}", {"num_sweeps": sweeps, "initial_states": [list(init)], "initial_temperature": 2.0 * f, "cooling_rate": 0.8}, {"bits": [0], "perms": perms, "u": list(us)})

    def schedules():
        U = [[LO], [HI], [0.3], [0.7, 0.2, 0.05, 0.9, 0.5, 0.4]]
        revs = [None, {}] + [{"reverse_period": p, "reverse_temperature": t} for p in (0, 1, 2, 3, 6) for t in (0.5, 10.0)]
        for name, mt in itertools.product(("one", "pair", "tri", "con", "hole", "rev"), types):
            n = size(mt, name)
            perms = [list(p) for p in itertools.permutations(range(n))]
            for t, c, rev, mode, u in itertools.product((3.0, 1e-9, 0.0, 50.0), (0.9, 0.5, 1.0, 0.0), revs, ("random", "sequential"), U):
                if rev and t != 3.0:
                    continue
                for init in ([[1] * n], [[-1] * n], [[(-1) ** i for i in range(n)]]):
                    yield (mt, name, {"num_sweeps": 5, "initial_states": init, "initial_temperature": t, "cooling_rate": c, "reverse_options": rev, "pickup_mode": mode}, {"bits": [0], "perms": perms, "u": u})

    def large():
        """a model of 12 variables over many sweeps: orders and numbers follow fixed patterns"""
        n = 12
        rot = [[(i * m + k) % n for i in range(n)] for m in (1, 5, 7, 11) for k in range(n)]
        us = [[LO], [HI], [0.3], [0.01, 0.9, 0.2, 0.6, 0.05, 0.5, 0.8], [(k * 37 % 101) / 101.0 for k in range(101)], [(k * 53 % 97) / 97.0 for k in range(97)]]
        for mt in types:
            for sweeps, t, u, mode in itertools.product((1, 7, 30, 64) if q else (1, 2, 5, 7, 16, 30, 64, 130), (0.5, 4.0, 30.0), us, ("random", "sequential")):
                for init in ([1] * n, [-1] * n, [(-1) ** (i // 2) for i in range(n)]):
                    for rev in (None, {"reverse_period": 20, "reverse_temperature": 8.0}):
                        if rev and (t != 4.0 or init[0] != init[-1]):
                            continue
                        yield (mt, "big", {"num_sweeps": sweeps, "initial_states": [init], "initial_temperature": t, "cooling_rate": 0.93, "reverse_options": rev, "pickup_mode": mode}, {"bits": [0], "perms": rot[len(u) % 40:] + rot[:len(u) % 40], "u": u})

    def long():
        for mt in types:
            for name in ("one", "tri", "big"):
                for reads in (1, 3):
                    yield (mt, name, {}, reads)
                    for n, t, c in itertools.product((0, 1, 17), (100.0, 1.0, 1e-3), (0.9, 0.99, 0.3)):
                        yield (mt, name, {"num_sweeps": n, "initial_temperature": t, "cooling_rate": c}, reads)
                        for p in (0, 1, 8, 17, 40):
                            yield (mt, name, {"num_sweeps": n, "cooling_rate": c, "initial_temperature": t, "reverse_options": {"reverse_period": p, "reverse_temperature": t * 2}}, reads)
                    yield (mt, name, {"num_sweeps": 1200, "initial_temperature": 1.0, "cooling_rate": 0.5}, 1)

    return [
        Slice("threshold", threshold, run, "one rising move at 7 temperatures with the random number on both sides of exp(-d/T)"),
        Slice("units", units, run, "problems and temperatures in units of 2**-60 to 2**60, every initial state and sequence over 3 random numbers"),
        Slice("long", long, run_schedule, "schedules of up to 1200 sweeps and the defaults, one and several reads"),
        Slice("large", large, run, "12 variables, up to 64 (thorough 130) sweeps in patterned orders with patterned numbers"),
        Slice("schedules", schedules, run, "all combinations of temperatures, cooling rates, reverse options, modes, initial states and number sequences, 5 sweeps"),
        Slice("metropolis", metropolis, run, "every initial state x every visiting order of every sweep x every sequence over 3 random numbers, 1 to 3 variables"),
    ]
