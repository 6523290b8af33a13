"""C12: SawatabiSolver reports real assignments with their true energies, whatever the random choices."""
import itertools

from mc.core import Slice, Violation
from mc.sa import MODELS, Problem, check_history, check_sampleset, patched, physical

ASSUMPTIONS = ["random choices enter through numpy.random.default_rng and are enumerated there (initial bits, visiting orders, acceptance numbers at both extremes); what the solver returns is checked without assuming how it uses them"]
LO, HI = 0.0, 1.0 - 2.0 ** -53


def kwargs_of(prob, opts):
    kw = dict(opts)
    if kw.get("initial_states") is not None:
        kw["initial_states"] = [prob.user(s) for s in kw["initial_states"]]
    return kw


def solve(case, cov):
    from sawatabi.solver import SawatabiSolver

    mt, name, opts, script = case
    real, phys = physical(mt, name)
    prob = Problem(phys)
    kw = kwargs_of(prob, opts)
    reads, sweeps = opts.get("num_reads", 1), opts.get("num_sweeps", 100)
    if script is None:
        res = SawatabiSolver().solve(phys, **kw)
    else:
        with patched(script) as pt:
            res = SawatabiSolver().solve(phys, **kw)
        cov.outcome("scripted" if pt.made else "unscripted")
    cov.step()
    cov.trace()
    if opts.get("need_stats"):
        ss, stats = res
    else:
        ss, stats = res, None
    seen = check_sampleset(prob, ss, reads)
    cov.state((mt, name, tuple(sorted(seen)), repr(stats)))
    if stats is not None:
        if len(stats) != reads:
            raise Violation(f"{len(stats)} statistics for {reads} reads")
        for r, st in enumerate(stats):
            init = opts["initial_states"][r] if opts.get("initial_states") else None
            check_history(prob, st, sweeps, init, seen)
    if opts.get("initial_states") and sweeps == 0:
        exp = {tuple(s) for s in opts["initial_states"]}
        if seen != exp:
            raise Violation(f"without sweeps the samples are {seen}, the initial states {exp}")


def size(mt, name):
    return {"one": 1, "oneoff": 1, "free": 2, "pair": 2, "hole": 2, "tri": 3, "rev": 3, "con": 3, "wide": 3, "tiny": 3, "huge": 2, "big": 12}[name.partition("@")[0]]


def SLICES(tier):
    q = tier == "quick"
    types = ("ising", "qubo")

    def choices():
        """every random choice of short runs"""
        plan = [("one", 3), ("oneoff", 3), ("free", 2), ("pair", 2), ("hole", 2), ("tri", 1), ("rev", 1), ("wide", 1), ("tiny", 1), ("huge", 1), ("con", 1), ("pair@-50", 1), ("tri@-70", 1), ("con@50", 1), ("one@-90", 2)]
        if not q:
            plan += [("one", 6), ("oneoff", 6), ("free", 3), ("pair", 3), ("hole", 3), ("tri", 2), ("con", 2)]
        for name, sweeps in plan:
            for mt in types:
                n = size(mt, name)
                perms = list(itertools.permutations(range(n)))
                for bits in itertools.product((0, 1), repeat=n):
                    for ps in itertools.product(perms, repeat=sweeps):
                        for us in itertools.product((LO, HI), repeat=n * sweeps):
                            for given in (False, True):
                                opts = {"num_sweeps": sweeps, "need_stats": True, "initial_states": [[2 * b - 1 for b in bits]] if given else None, "initial_temperature": 3.0, "cooling_rate": 0.7}
                                yield (mt, name, opts, {"bits": list(bits), "perms": [list(p) for p in ps], "u": list(us)})

    def options():
        names = ["one", "oneoff", "pair", "tri", "hole", "con"]
        reverse = [None, {}, {"reverse_period": 2, "reverse_temperature": 10.0}, {"reverse_period": 0, "reverse_temperature": 1.0}, {"reverse_period": 9, "reverse_temperature": 0.5}]
        temps = [(100.0, 0.9), (1e-9, 0.5), (2.0, 1.0), (1.0, 0.0), (0.0, 0.9)]
        for name, mt in itertools.product(names, types):
            n = size(mt, name)
            perms = [list(p) for p in itertools.permutations(range(n))]
            for reads, sweeps, (t, c), rev, mode, stats in itertools.product((1, 2, 3), (0, 1, 4), temps, reverse, ("random", "sequential"), (False, True)):
                base = {"num_reads": reads, "num_sweeps": sweeps, "initial_temperature": t, "cooling_rate": c, "reverse_options": rev, "pickup_mode": mode, "need_stats": stats}
                script = {"bits": [0, 1, 1, 0, 1], "perms": perms, "u": [0.1, HI, 0.6, LO, 0.3]}
                states = [list(s) for s in itertools.product((-1, 1), repeat=n)]
                for k, init in enumerate((None, [states[(3 * r + 1) % len(states)] for r in range(reads)])):
                    if q and stats and k == 0 and reads == 2:
                        continue
                    yield (mt, name, dict(base, initial_states=init), script)

    def reads():
        """all combinations of initial states over two reads"""
        for name, mt in itertools.product(("one", "oneoff", "pair", "hole", "free"), types):
            states = [list(s) for s in itertools.product((-1, 1), repeat=size(mt, name))]
            for init in itertools.product(states, repeat=2 if q else 3):
                for sweeps, mode in itertools.product((0, 1, 2), ("random", "sequential")):
                    for us in itertools.product((LO, HI), repeat=3):
                        yield (mt, name, {"num_reads": len(init), "num_sweeps": sweeps, "initial_states": list(init), "pickup_mode": mode, "need_stats": True, "initial_temperature": 1.0}, {"bits": [0], "perms": [[1, 0]], "u": list(us)})

    def seeded():
        """unscripted runs on all models, the large one included"""
        for name, mt in itertools.product(MODELS, types):
            n = size(mt, name)
            for seed in range(6 if q else 30):
                init = [[-1 if (i * 7 + seed) % 3 else 1 for i in range(n)]]
                yield (mt, name, {"num_sweeps": 8, "seed": seed, "initial_states": init, "need_stats": True, "initial_temperature": 10.0, "cooling_rate": 0.6}, None)
                yield (mt, name, {"num_sweeps": 8, "seed": seed, "num_reads": 4}, None)
                yield (mt, name, {"num_sweeps": 3, "seed": seed, "reverse_options": {"reverse_period": 2, "reverse_temperature": 5.0}, "num_reads": 2}, None)

    def many():
        """many reads and many sweeps, with and without statistics and given initial states"""
        for name, mt in itertools.product(MODELS, types):
            n = size(mt, name)
            for reads, sweeps in ((5, 1), (8, 2), (10, 3), (16, 1), (17, 2), (33, 1), (64, 0), (100, 2), (130, 1), (1, 64), (2, 101), (1, 300)):
                if q and n > 3 and reads * sweeps > 100:
                    continue
                for stats, given in ((False, False), (True, True)) if q else itertools.product((False, True), repeat=2):
                    init = [[-1 if (i * 7 + r * 5 + r // 3) % 3 else 1 for i in range(n)] for r in range(reads)] if given else None
                    yield (mt, name, {"num_sweeps": sweeps, "seed": 3 + reads, "num_reads": reads, "initial_states": init, "need_stats": stats and sweeps < 20, "initial_temperature": 5.0, "cooling_rate": 0.8}, None)

    return [
        Slice("many", many, solve, "up to 130 reads and up to 300 sweeps on all models"),
        Slice("seeded", seeded, solve, "real generators, fixed seeds, all models (12 variables included)"),
        Slice("reads", reads, solve, f"all initial states of {2 if q else 3} reads x sweeps x modes x acceptance patterns"),
        Slice("options", options, solve, "all combinations of reads, sweeps, temperatures, cooling rates, reverse options, initial states, pickup modes and statistics"),
        Slice("choices", choices, solve, "every initial state x every visiting order of every sweep x every acceptance pattern, 1 to 3 variables"),
    ]
