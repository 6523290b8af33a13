"""C13: SawatabiSolver is reproducible and leaves its inputs alone."""
import copy
import itertools
import random

import numpy as np

from mc.core import Slice, Violation
from mc.lm import Real, decode, fresh_clock
from mc.sa import MODELS, Problem, physical

ASSUMPTIONS = ["runs of one process and library version; timing information is not compared"]
REV = {"reverse_period": 2, "reverse_temperature": 4.0}
# label -> (mtype, model, options, must be refused)
SOLVES = {
    "A0": ("ising", "tri", {"num_sweeps": 4, "num_reads": 2, "seed": 0}, False),
    "B5": ("qubo", "con", {"num_sweeps": 3, "seed": 5, "need_stats": True}, False),
    "I1": ("qubo", "pair", {"num_sweeps": 2, "num_reads": 2, "seed": 1, "initial_states": [[1, -1], [-1, -1]], "need_stats": True}, False),
    "R7": ("ising", "pair", {"num_sweeps": 5, "seed": 7, "initial_states": [[1, 1]], "reverse_options": REV, "need_stats": True, "pickup_mode": "sequential"}, False),
    "N": ("ising", "pair", {"num_sweeps": 2}, False),
    "bad-mode": ("ising", "tri", {"num_sweeps": 2, "seed": 3, "pickup_mode": "unknown"}, True),
    "bad-init": ("qubo", "pair", {"num_sweeps": 2, "num_reads": 3, "seed": 3, "initial_states": [[1, -1]]}, True),
    "bad-rev": ("ising", "pair", {"num_sweeps": 2, "seed": 3, "reverse_options": {"reverse_period": 1}}, True),
    "bad-empty": ("ising", None, {"seed": 3}, True),
    "bad-type": ("ising", "logical", {"seed": 3}, True),
}


def model_of(mt, name):
    from sawatabi.model import LogicalModel

    if name is None:
        lm = LogicalModel(mtype=mt)
        return lm, lm.to_physical()
    if name == "logical":
        lm = physical(mt, "pair")[0].m
        return lm, lm
    real, phys = physical(mt, name)
    return real.m, phys


def table(lm):
    return repr(lm.select_interaction("body > 0").to_dict(orient="records"))


def facts(lm, phys):
    f = [table(lm), repr(lm.get_offset()), lm.get_mtype(), {k: v.shape for k, v in lm.get_variables().items()}, sorted(lm.get_constraints())]
    if phys is not lm:
        f += [repr(phys._raw_interactions), phys.get_offset(), phys.get_mtype(), repr(phys._label_to_index), repr(phys._index_to_label), repr(phys.to_bqm()), phys.to_polynomial()]
    return repr(f)


def result_of(res):
    ss, stats = res if isinstance(res, tuple) else (res, None)
    rows = [(tuple(sorted((k, int(v)) for k, v in d.sample.items())), float(d.energy), int(d.num_occurrences)) for d in ss.data(fields=["sample", "energy", "num_occurrences"], sorted_by=None)]
    st = None if stats is None else [{k: [float(x) for x in v] for k, v in s.items()} for s in stats]
    return (list(ss.variables), ss.vartype.name, rows, st)


def global_state():
    s = np.random.get_state()
    return (s[0], s[1].tolist(), s[2:], random.getstate())


def one(solver, mt, name, opts, refused, phys_pair=None):
    """Runs one solve; checks that nothing but the result came of it. Returns the result."""
    lm, phys = phys_pair or model_of(mt, name)
    kw = {k: decode(v) if k == "seed" else copy.deepcopy(v) for k, v in opts.items()}
    if kw.get("initial_states") is not None:
        prob = Problem(phys)
        kw["initial_states"] = [prob.user(s) for s in kw["initial_states"]]
    kept = copy.deepcopy(kw)
    keep_phys = copy.deepcopy(phys)
    before = facts(lm, phys)
    g = global_state()
    try:
        res = solver.solve(phys, **kw)
        err = None
    except (TypeError, ValueError) as e:
        res, err = None, e
    if refused != (err is not None):
        raise Violation(f"solve({name}, {opts}) {'was accepted' if refused else f'raised {err!r}'}")
    if global_state() != g:
        raise Violation(f"solve({name}, {opts}) changed the global random state")
    if repr(kw) != repr(kept):
        raise Violation(f"solve changed its arguments from {kept} to {kw}")
    if facts(lm, phys) != before:
        raise Violation(f"solve({name}, {opts}) changed the model")
    if phys is not lm and not (phys == keep_phys):
        raise Violation(f"solve({name}, {opts}) changed the physical model: {phys!r} != {keep_phys!r}")
    return None if res is None else result_of(res)


_FRESH = {}


def fresh(key, mt, name, opts):
    """The result in a fresh solver with a clean global state."""
    from sawatabi.solver import SawatabiSolver

    if key not in _FRESH:
        np.random.seed(99)
        random.seed(99)
        _FRESH[key] = one(SawatabiSolver(), mt, name, opts, False)
    return _FRESH[key]


def run_seq(case, cov):
    """A sequence of solves on one solver object (or on two alternating ones) with the global state moving."""
    from sawatabi.solver import SawatabiSolver

    seq, shared, share_model = case
    solvers = [SawatabiSolver(), SawatabiSolver()]
    pairs = {}
    cov.trace()
    for k, lab in enumerate(seq):
        mt, name, opts, refused = SOLVES[lab]
        np.random.seed(17 * k + len(seq))
        random.seed(3 * k)
        pp = None
        if share_model:
            pp = pairs.setdefault((mt, name), model_of(mt, name))
        got = one(solvers[0 if shared else k % 2], mt, name, opts, refused, pp)
        cov.step()
        cov.outcome(lab)
        if not refused and opts.get("seed") is not None:
            exp = fresh(lab, mt, name, opts)
            if got != exp:
                raise Violation(f"solve {lab} gave {got} after {seq[:k]}, a fresh solver {exp}")
    cov.state(tuple(seq))


def run_seed(case, cov):
    from sawatabi.solver import SawatabiSolver

    mt, name, opts = case
    cov.step(3)
    cov.trace()
    cov.state((mt, name, repr(opts)))
    res = []
    for k in range(3):
        np.random.seed(k)
        random.seed(k)
        res.append(one(SawatabiSolver(), mt, name, opts, False))
    if not (res[0] == res[1] == res[2]):
        raise Violation(f"three solves with the same seed {opts} gave {res}")


def run_long(case, cov):
    from sawatabi.solver import SawatabiSolver

    mt, name, opts, k = case
    cov.trace()
    cov.state((mt, name, repr(opts), k))
    exp = one(SawatabiSolver(), mt, name, opts, False)
    solver = SawatabiSolver()
    for i in range(k):
        one(solver, mt, name, dict(opts, seed=100 + i), False)
        cov.step()
    for i in range(2):
        got = one(solver, mt, name, opts, False)
        cov.step()
        if got != exp:
            raise Violation(f"solve of {(mt, name, opts)} gave {got} after {k + i} other solves, a fresh solver {exp}")


# near-identical problems and options: a solver that remembers anything of the previous solve shows here
BASE = [("add", "x0", {"c": 1.0}), ("add", "x1", {"c": -0.5}), ("add", "x0.x1", {"c": -2.0}), ("add", "x1.x2", {"c": 1.5}), ("off", 1.0)]
NEAR = {
    "base": ({"x": [3]}, BASE),
    "lin": ({"x": [3]}, [("add", "x0", {"c": -1.0})] + BASE[1:]),
    "quad": ({"x": [3]}, BASE[:2] + [("add", "x0.x1", {"c": 2.0})] + BASE[3:]),
    "edge": ({"x": [3]}, BASE[:3] + [("add", "x0.x2", {"c": 1.5})] + BASE[4:]),
    "offset": ({"x": [3]}, BASE[:4] + [("off", -2.0)]),
    "fewer": ({"x": [3]}, BASE[:3] + BASE[4:]),
    "more": ({"x": [4]}, BASE + [("add", "x2.x3", {"c": 4.0})]),
    "names": ({"y": [3]}, [tuple(o.replace("x", "y") if isinstance(o, str) else o for o in op) for op in BASE]),
    "swapped": ({"y": [1], "x": [2]}, [("add", "x0", {"c": 1.0}), ("add", "x1", {"c": -0.5}), ("add", "x0.x1", {"c": -2.0}), ("add", "x1.y0", {"c": 1.5}), ("off", 1.0)]),
}
OPTS = {
    "o": {}, "reads": {"num_reads": 3}, "sweeps": {"num_sweeps": 6}, "cool": {"cooling_rate": 0.5}, "temp": {"initial_temperature": 2.0}, "seq": {"pickup_mode": "sequential"},
    "init": {"initial_states": -1}, "init2": {"initial_states": 1}, "rev": {"reverse_options": REV}, "rev2": {"reverse_options": {"reverse_period": 3, "reverse_temperature": 1.0}}, "seed": {"seed": 4},
}


def near(mt, name):
    fresh_clock()
    real = Real(mt, NEAR[name][0])
    for op in NEAR[name][1]:
        real.apply(op)
    return real.m, real.m.to_physical()


def near_opts(name, phys):
    kw = {"num_sweeps": 3, "num_reads": 1, "seed": 9, "initial_temperature": 20.0, "need_stats": True}
    kw.update(OPTS[name])
    if "initial_states" in kw:
        kw["initial_states"] = [[kw["initial_states"]] * len(phys._index_to_label)]
    return kw


def run_near(case, cov):
    """Solves of near-identical problems on one solver object: each as a fresh solver does it."""
    from sawatabi.solver import SawatabiSolver

    steps, change = case
    solver = SawatabiSolver()
    cov.trace()
    cov.state(tuple(map(tuple, steps)))
    pp = None
    for mt, name, opt in steps:
        if pp is not None and change:
            # the very same physical model object, with a changed interaction
            k, v = next(iter(pp[1]._raw_interactions[2].items()))
            pp[1].add_interaction(k, body=2, coefficient=v - 3.0)
        else:
            pp = near(mt, name)
        opts = near_opts(opt, pp[1])
        got = one(solver, mt, name, opts, False, pp)
        key = ("near", mt, name, opt, repr(pp[1]))
        if key not in _FRESH:
            _FRESH[key] = one(SawatabiSolver(), mt, name, opts, False, (pp[0], copy.deepcopy(pp[1])))
        cov.step()
        if got != _FRESH[key]:
            raise Violation(f"solve of {(mt, name, opt)} gave {got} as the last of {steps}, a fresh solver {_FRESH[key]}")


def SLICES(tier):
    q = tier == "quick"
    labs = list(SOLVES)

    def seqs():
        for n in range(1, 4 if q else 5):
            for s in itertools.product(labs, repeat=n):
                for shared, sm in ((True, False), (True, True), (False, False)):
                    if n >= 3 and (not shared or (sm and n == 4)):
                        continue
                    yield (list(s), shared, sm)

    def seeds():
        for name, mt in itertools.product(MODELS, ("ising", "qubo")):
            for seed in (0, 1, 2, 12345, 2 ** 31, 2 ** 63, ("np", "int64", 0), ("np", "int64", 7), ("np", "uint32", 5)):
                yield (mt, name, {"num_sweeps": 3, "seed": seed, "num_reads": 2, "need_stats": True})
                yield (mt, name, {"num_sweeps": 2, "seed": seed, "pickup_mode": "sequential"})
                yield (mt, name, {"num_sweeps": 3, "seed": seed, "reverse_options": REV})

    def nears():
        cfg = [(mt, n, o) for mt in ("ising", "qubo") for n in NEAR for o in OPTS]
        models = [(mt, n, "o") for mt in ("ising", "qubo") for n in NEAR]
        options = [(mt, "base", o) for mt in ("ising", "qubo") for o in OPTS]
        for a, b in itertools.product(models, repeat=2):
            yield ([a, b], False)
        for a, b in itertools.product(options, repeat=2):
            yield ([a, b], False)
        for mt, n in itertools.product(("ising", "qubo"), NEAR):
            yield ([(mt, n, "o")] * 3, True)
        for a, b in itertools.product(models, options):
            yield ([a, b, a], False)
        if not q:
            for a, b in itertools.product(cfg, repeat=2):
                yield ([a, b], False)
            for t in itertools.product(models, repeat=3):
                yield (list(t), False)

    def longs():
        """long runs, one after the other on one solver object"""
        for mt in ("ising", "qubo"):
            for o in ({"num_sweeps": 100, "seed": 9, "initial_temperature": 20.0}, {"num_sweeps": 100, "seed": 9, "initial_temperature": 20.0, "num_reads": 3, "need_stats": True},
                      {"num_sweeps": 400, "seed": 9, "pickup_mode": "sequential"}, {"num_sweeps": 100, "seed": 9, "initial_temperature": 20.0, "num_reads": 20}):
                for name in ("big", "tri"):
                    for k in (1, 2):
                        yield (mt, name, o, k)

    return [
        Slice("long", longs, run_long, "runs of up to 100 sweeps x 20 reads x 12 variables, repeated on one solver object after runs with another seed, against a fresh solver"),
        Slice("near", nears, run_near, f"all pairs (thorough: of all {2 * len(NEAR) * len(OPTS)} combinations, and triples of models) of near-identical problems and options on one solver object, and one model object changed between solves, against a fresh solver"),
        Slice("seeds", seeds, run_seed, "every model x 9 seeds (zero, large, numpy) x option sets, three times with different global states"),
        Slice("sequences", seqs, run_seq, f"all sequences of length <= {3 if q else 4} over {len(labs)} solves (seeded, unseeded, refused) on one or two solver objects, models rebuilt or shared"),
    ]
