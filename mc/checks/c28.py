"""C28: what any solver reports for a logical model is true of the logical model (end to end)."""
import copy
import itertools

from mc.checks.c15 import Service
from mc.core import Slice, Violation, histories
from mc.lm import CLOCK, Real, Ref, apply_both, fresh_clock, poly_eval

ASSUMPTIONS = ["remote services are replaced by stand-ins that solve the problem they are given exactly", "variables that were deleted or fixed get no new interactions"]
ARR = {"xx": [1], "x": [3]}
START = [("add", "x0", {"c": 1.0}), ("add", "x0.x1", {"c": -2.0, "s": 0.5}), ("add", "x2.xx0", {"c": 1.5}), ("off", 0.75)]
OPS = [
    ("add", "x1", {"c": -1.25}), ("add", "x0", {"name": "n", "c": 0.5, "s": -3.0}), ("add", "xx0.x0", {"c": 2.0}), ("add", "x2.x1", {"name": "m", "c": -0.5}), ("upd", "x0", {"c": -3.0}), ("upd", "x1.x0", {"s": 2.0}), ("upd", "x2", {"c": 0.25}),
    ("rm", "x0"), ("rm", "x0.x1"), ("off", -2.5), ("phys",), ("ising",), ("qubo",), ("del", "x2"), ("del", "x0"), ("fix", "x1", 1), ("fix", "x0", "low"),
    ("con", "h", "nhot", {"vars": ["x0", "x1", "x2"], "n": 1, "strength": 2.0}), ("con", "e", "eq", {"vars1": ["x0", "xx0"], "vars2": ["x2"], "strength": 1.5}), ("con", "z", "zoo", {"vars": ["x1", "x2", "xx0"]}),
]


def valid(h):
    names, gone = set(), set()
    for o in START + list(h):
        ts = set(o[1].split(".")) if o[0] in ("add", "upd") else {v for k in o[3] if k.startswith("vars") for v in o[3][k]} if o[0] == "con" else set()
        if ts & gone:
            return False
        if o[0] == "con":
            if o[1] in names:
                return False
            names.add(o[1])
        if o[0] in ("del", "fix"):
            if o[1] in gone:
                return False
            gone.add(o[1])
    return True


class Table:
    """assignment (of the variables that occur) -> energy, from the reference model"""

    def __init__(self, ref):
        p = {k: v for k, v in ref.energy().items() if k == () or abs(v) > 1e-12}
        self.poly = p
        self.vars = sorted({x for k in p for x in k})
        self.lo = -1 if ref.mtype == "ising" else 0
        self.energy = {}
        for a in itertools.product((self.lo, 1), repeat=len(self.vars)):
            self.energy[a] = poly_eval(p, dict(zip(self.vars, a)))
        self.scale = max([1.0] + [abs(e) for e in self.energy.values()])
        self.free = ref.modulo_constant()
        self.const = None if self.free else 0.0

    def check(self, who, ss, reads=None):
        """every sample of the set has the energy of the logical model"""
        if sorted(ss.variables) != self.vars:
            raise Violation(f"{who}: the samples are over {sorted(ss.variables)}, the model over {self.vars}")
        if ss.vartype.name != ("SPIN" if self.lo == -1 else "BINARY"):
            raise Violation(f"{who}: the samples are {ss.vartype.name}")
        seen, n = set(), 0
        for d in ss.data(["sample", "energy", "num_occurrences"]):
            a = tuple(int(d.sample[v]) for v in self.vars)
            if a not in self.energy:
                raise Violation(f"{who}: {dict(d.sample)} is not an assignment")
            if self.const is None:
                self.const = float(d.energy) - self.energy[a]
            if abs(float(d.energy) - self.energy[a] - self.const) > 1e-9 * self.scale:
                raise Violation(f"{who}: {dict(d.sample)} has energy {d.energy}, the logical model {self.energy[a] + self.const}")
            seen.add(a)
            n += int(d.num_occurrences)
        if reads is not None and n != reads:
            raise Violation(f"{who}: {n} samples for {reads} reads")
        return seen

    def best(self):
        lo = min(self.energy.values())
        return {a for a, e in self.energy.items() if e <= lo + 1e-9 * self.scale}


def exact_all(bqm):
    import dimod

    return dimod.ExactSolver().sample(bqm)


def solve_dwave(phys):
    from dwave.system import composites, samplers

    from sawatabi.solver import DWaveSolver

    orig = (samplers.DWaveSampler.__init__, composites.EmbeddingComposite.__init__, composites.EmbeddingComposite.sample)
    samplers.DWaveSampler.__init__ = lambda self, *a, **k: None
    composites.EmbeddingComposite.__init__ = lambda self, *a, **k: None
    composites.EmbeddingComposite.sample = lambda self, bqm, *a, **k: exact_all(bqm)
    try:
        return DWaveSolver(endpoint="http://e", token="t", solver="s").solve(phys)
    finally:
        samplers.DWaveSampler.__init__, composites.EmbeddingComposite.__init__, composites.EmbeddingComposite.sample = orig


def solve_optigan(phys, n, gz):
    import requests

    from sawatabi.solver import OptiganSolver

    orig = requests.post
    requests.post = Service([list(a) for a in itertools.product((0, 1), repeat=n)]).post
    try:
        return OptiganSolver(endpoint="http://e", token="t").solve(phys, gzip_request=gz)
    finally:
        requests.post = orig


def solvers(phys, table, seeds, cov):
    from sawatabi.solver import LocalSolver, SawatabiSolver

    n = len(table.vars)
    if n == 0:
        for who, s in (("exact", LocalSolver(exact=True)), ("annealing", LocalSolver(exact=False)), ("sawatabi", SawatabiSolver())):
            try:
                s.solve(phys)
            except ValueError:
                continue
            raise Violation(f"{who}: an empty model was accepted")
        cov.outcome("empty")
        return
    ss = LocalSolver(exact=True).solve(phys)
    if len(table.check("exact", ss, 2 ** n)) != 2 ** n:
        raise Violation("the exact solver did not return every assignment")
    lowest = float(min(ss.record.energy))
    got = {tuple(int(d.sample[v]) for v in table.vars) for d in ss.data(["sample", "energy"]) if d.energy <= lowest + 1e-9 * table.scale}
    if got != table.best():
        raise Violation(f"the exact solver's optima over {table.vars} are {sorted(got)}, the logical model's {sorted(table.best())}")
    first = tuple(int(ss.first.sample[v]) for v in table.vars)
    if first not in got:
        raise Violation("the first sample of the exact solver is not an optimum")
    solver = SawatabiSolver()
    for s in seeds:
        for mode in ("random", "sequential"):
            table.check("sawatabi", solver.solve(phys, num_reads=2, num_sweeps=3, initial_temperature=2.0, pickup_mode=mode, seed=s), 2)
    start = dict(zip(table.vars, first))
    cold = solver.solve(phys, num_reads=1, num_sweeps=2, initial_temperature=1e-9, initial_states=[start], seed=1)
    if table.check("sawatabi, cold", cold, 1) - got:
        raise Violation("a cold start from an optimum leaves the optima")
    table.check("annealing", LocalSolver(exact=False).solve(phys, num_reads=2, num_sweeps=5, seed=3), 2)
    if table.check("d-wave", solve_dwave(phys)) != set(table.energy):
        raise Violation("the D-Wave solver's problem has other assignments")
    if table.lo == 0:
        for gz in (True, False):
            if table.check("optigan", solve_optigan(phys, n, gz)) != set(table.energy):
                raise Violation("the Optigan answer was decoded to other assignments")
    cov.outcome((n, len(got)))


def run(case, cov):
    mt, ops, seeds, other = case[:4]
    arrays = case[4] if len(case) > 4 else ARR
    fresh_clock()
    real, ref = Real(mt, arrays), Ref(mt, arrays)
    for op in ops:
        CLOCK.now += 10.0
        if op[0] == "fix" and op[2] == "low":
            op = ("fix", op[1], -1 if ref.mtype == "ising" else 0)
        apply_both(real, ref, tuple(op))
        cov.step()
    cov.state(ref.canon())
    cov.trace()
    sibling = copy.deepcopy(real.m)
    table = Table(ref)
    solvers(real.m.to_physical(), table, seeds, cov)
    if other:  # the same problem in the other type: the same optima
        (sibling.to_qubo if ref.mtype == "ising" else sibling.to_ising)()
        ref.apply(("qubo",) if ref.mtype == "ising" else ("ising",))
        t2 = Table(ref)
        solvers(sibling.to_physical(), t2, seeds[:1], cov)
        if t2.vars == table.vars:
            up = {tuple(1 if v == 1 else t2.lo for v in a) for a in table.best()}
            if up != t2.best():
                raise Violation("the optima in the other type differ")


def SLICES(tier):
    q = tier == "quick"

    def hist(n, seeds, other):
        def gen():
            for h in itertools.product(OPS, repeat=n):
                if valid(h):
                    for mt in ("ising", "qubo"):
                        yield (mt, START + list(h), seeds, other)
        return gen

    def bare():
        for h in histories([o for o in OPS if o[0] in ("add", "off", "con")], 2 if q else 3, 0):
            if valid(h) and len({repr(o) for o in h}) == len(h):
                for mt in ("ising", "qubo"):
                    yield (mt, list(h), [0], False)

    def large():
        for n in (5, 7, 8, 9) if q else (5, 6, 7, 8, 9, 10, 11):
            dense = [("add", f"x:{i}", {"c": i / 4 - 1}) for i in range(n)] + [("add", f"x:{i}.x:{j}", {"c": (i * 31 + j * 17) % 23 / 4 - 3, "s": 1 + (i + j) % 3}) for i in range(n) for j in range(i)] + [("off", 1.25)]
            vs = [f"x:{i}" for i in range(n)]
            for mt in ("ising", "qubo"):
                for tail in ([], [("fix", f"x:{n - 1}", 1)], [("del", "x:0")], [("con", "h", "nhot", {"vars": vs, "n": 2, "strength": 3.0})], [("con", "z", "zoo", {"vars": vs, "strength": 2.0})], [("con", "e", "eq", {"vars1": vs[:n // 2], "vars2": vs[n // 2:]})]):
                    yield (mt, dense + tail, [0], n < 8, {"x": [n]})

    out = [
        Slice("large", large, run, "dense models of up to 9 (thorough 11) variables, all solvers"),
        Slice("one", hist(1, [0, 1, 2], True), run, f"a start model x each of {len(OPS)} operations, both types, all solvers, and the model converted to the other type"),
        Slice("bare", bare, run, "all models of up to 2 (thorough 3) additions, constraints and offsets"),
        Slice("two", hist(2, [0], True), run, f"all pairs of {len(OPS)} operations on the start model"),
    ]
    if not q:
        out.append(Slice("three", hist(3, [0], False), run, f"all triples of {len(OPS)} operations on the start model"))
    return out
