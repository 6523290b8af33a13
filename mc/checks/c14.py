"""C14: LocalSolver and DWaveSolver solve exactly the given problem."""
import copy
import itertools

from mc.core import Slice, Violation
from mc.lm import Real, fresh_clock, poly_diff, poly_of_bqm
from mc.sa import MODELS, Problem, check_sampleset

ASSUMPTIONS = ["the D-Wave sampler is replaced by a recording stand-in at dwave.system (no network)", "simulated annealing is the installed neal"]
TERMS = [("add", "x0", {"c": 1.0}), ("add", "x1", {"c": -2.0, "s": 0.5}), ("add", "x0.x1", {"c": 1.5}), ("add", "y1.x1", {"c": -0.75}), ("add", "y1", {"c": 3.0}), ("off", 2.5), ("con", "h", "nhot", {"vars": ["x0", "x1", "y0"], "n": 1})]
ARR = {"y": [2], "x": [2]}


def build(mt, spec):
    fresh_clock()
    if isinstance(spec, str) and spec.startswith("large"):
        # dense: n(n-1)/2 quadratic terms
        n = int(spec[5:])
        arrays = {"x": [n]}
        ops = [("add", f"x:{i}", {"c": i / 7.0 - 3.0}) for i in range(n)] + [("add", f"x:{i}.x:{j}", {"c": (i * 31 + j * 17) % 23 / 3.0 - 3.5}) for i in range(n) for j in range(i + 1, n)] + [("off", 1.25)]
    elif isinstance(spec, str):
        arrays, ops = MODELS[spec]
    else:
        arrays, ops = ARR, spec
    real = Real(mt, arrays)
    for op in ops:
        real.apply(tuple(op))
    return real, real.m.to_physical()


def snapshot(real, phys):
    return repr([real.m.select_interaction("body > 0").to_dict(orient="records"), real.m.get_offset(), phys._raw_interactions, phys.get_offset(), phys._label_to_index, phys._index_to_label, poly_of_bqm(phys.to_bqm())])


def is_empty(phys):
    return phys.to_bqm().num_variables == 0


def refused(solver, phys, kw):
    try:
        solver.solve(phys, **kw)
    except ValueError:
        return
    raise Violation("an empty model was accepted")


def check_beta(solver, phys):
    """the temperature range the solver reports is the annealer's default for exactly this problem"""
    import neal

    got, want = list(solver.default_beta_range(phys)), list(neal.default_beta_range(phys.to_bqm()))
    if len(got) != len(want) or any(abs(a - b) > 1e-9 * max(1.0, abs(b)) for a, b in zip(got, want)):
        raise Violation(f"the default temperature range is {got}, the problem's is {want}")


def run_exact(case, cov, solver=None):
    from sawatabi.solver import LocalSolver

    mt, spec, twice = case
    real, phys = build(mt, spec)
    solver = solver or LocalSolver(exact=True)
    cov.step()
    cov.trace()
    if is_empty(phys):
        cov.outcome("empty")
        refused(solver, phys, {})
        try:
            solver.default_beta_range(phys)
        except ValueError:
            return
        raise Violation("a temperature range was given for an empty model")
    prob = Problem(phys)
    before = snapshot(real, phys)
    kept = copy.deepcopy(phys)
    check_beta(solver, phys)
    check_beta(LocalSolver(), phys)
    for _ in range(2 if twice else 1):
        ss = solver.solve(phys)
        seen = check_sampleset(prob, ss, 2 ** prob.n)
        if len(seen) != 2 ** prob.n:
            raise Violation(f"{len(seen)} of {2 ** prob.n} assignments were returned")
        best = min(prob.energy(s) for s in prob.states())
        if not prob.eq(float(ss.first.energy), best):
            raise Violation(f"the first sample has energy {ss.first.energy}, the optimum is {best}")
    if snapshot(real, phys) != before or phys != kept:
        raise Violation("solving changed the model")
    cov.state((mt, tuple(sorted(prob.poly.items()))))
    cov.outcome(prob.n)


def run_sa(case, cov, solver=None):
    import neal

    from sawatabi.solver import LocalSolver

    mt, spec, kw = case
    real, phys = build(mt, spec)
    if is_empty(phys):
        refused(LocalSolver(), phys, kw)
        return
    prob = Problem(phys)
    if "initial_states" in kw:
        kw = dict(kw, initial_states=[prob.user([1] * prob.n)])
    kept_kw, kept = copy.deepcopy(kw), copy.deepcopy(phys)
    before = snapshot(real, phys)
    calls = []
    orig = neal.SimulatedAnnealingSampler.sample

    def spy(self, bqm, **k):
        calls.append((poly_of_bqm(bqm), bqm.vartype.name, dict(k)))
        return orig(self, bqm, **k)

    neal.SimulatedAnnealingSampler.sample = spy
    try:
        ss = (solver or LocalSolver(exact=False)).solve(phys, **kw)
    finally:
        neal.SimulatedAnnealingSampler.sample = orig
    cov.step()
    cov.trace()
    cov.state((mt, repr(spec), repr(kw)))
    check_total(prob, ss, kw.get("num_reads", 1))
    for p, vt, k in calls:
        d = poly_diff(p, prob.poly)
        if vt == ("SPIN" if mt == "ising" else "BINARY") and d:
            raise Violation(f"the sampler was given another problem: {d}")
        if repr(k) != repr(kept_kw):
            raise Violation(f"the sampler was given options {k}, the caller gave {kept_kw}")
    cov.outcome("seen" if calls else "unseen")
    if repr(kw) != repr(kept_kw) or snapshot(real, phys) != before or phys != kept:
        raise Violation("solving changed its arguments")


def check_total(prob, ss, reads):
    """as check_sampleset, but equal samples may be listed several times"""
    check_sampleset(prob, ss.aggregate(), reads)


def run_dwave(case, cov, solver=None, made=()):
    import dimod
    from dwave.system import composites, samplers

    from sawatabi.solver import DWaveSolver

    mt, spec, ctor, kw, answer = case
    real, phys = build(mt, spec)
    log = list(made)
    orig = (samplers.DWaveSampler.__init__, composites.EmbeddingComposite.__init__, composites.EmbeddingComposite.sample)

    def s_init(self, *a, **k):
        log.append(("sampler", a, dict(k)))

    def c_init(self, child, *a, **k):
        log.append(("composite", child, a, dict(k)))

    replies = []

    def c_sample(self, bqm, *a, **k):
        log.append(("sample", poly_of_bqm(bqm), bqm.vartype.name, a, dict(k)))
        vs = sorted(bqm.variables)
        lo = -1 if bqm.vartype is dimod.SPIN else 0
        samples = [{v: (1 if (m >> i) & 1 else lo) for i, v in enumerate(vs)} for m in answer]
        ss = dimod.SampleSet.from_samples_bqm(samples, bqm)
        ss.info["problem_id"] = "p1"
        ss.info["timing"] = {"qpu": 5}
        replies.append((ss, ss.copy()))
        return ss

    samplers.DWaveSampler.__init__, composites.EmbeddingComposite.__init__, composites.EmbeddingComposite.sample = s_init, c_init, c_sample
    try:
        kept_ctor, kept_kw = copy.deepcopy(ctor), copy.deepcopy(kw)
        before = snapshot(real, phys)
        if solver is None:
            solver = DWaveSolver(**ctor)
            made = list(log)
        cov.step()
        cov.trace()
        if is_empty(phys):
            cov.outcome("empty")
            refused(solver, phys, kw)
            if any(x[0] == "sample" for x in log):
                raise Violation("an empty model was sent to the sampler")
            return solver, made
        res = [solver.solve(phys, **kw), solver.solve(phys, **kw)]
    finally:
        samplers.DWaveSampler.__init__, composites.EmbeddingComposite.__init__, composites.EmbeddingComposite.sample = orig
    cov.state((mt, repr(spec), repr(ctor), repr(kw), repr(answer)))
    cov.outcome("sampled")
    if (ctor, kw) != (kept_ctor, kept_kw) or snapshot(real, phys) != before:
        raise Violation("solving changed its arguments")
    smp = [x for x in log if x[0] == "sampler"]
    cmp_ = [x for x in log if x[0] == "composite"]
    exp = {"solver": ctor.get("solver", "Advantage_system1.1")}
    if ctor.get("endpoint") is not None and ctor.get("token") is not None:
        exp.update(endpoint=ctor["endpoint"], token=ctor["token"])
    if not smp or smp[0][1] or {k: v for k, v in smp[0][2].items() if v is not None} != exp:
        raise Violation(f"the sampler was created with {smp}, expected {exp}")
    ep = {k: v for k, v in cmp_[0][3].items() if v is not None}
    exp = {"embedding_parameters": ctor["embedding_parameters"]} if isinstance(ctor.get("embedding_parameters"), dict) else {}
    if ep != exp and not (not ep.get("embedding_parameters") and not exp.get("embedding_parameters")):
        raise Violation(f"the embedding composite was created with {cmp_[0]}, expected {exp}")
    sent = [x for x in log if x[0] == "sample"]
    if len(sent) != 2:
        raise Violation(f"{len(sent)} problems were sent for two solves")
    prob = Problem(phys)
    for x in sent:
        d = poly_diff(x[1], prob.poly)
        if d or x[2] != ("SPIN" if mt == "ising" else "BINARY"):
            raise Violation(f"the problem sent ({x[2]}) differs: {d}")
        if x[3] or x[4] != kw:
            raise Violation(f"the sampler was given options {x[3]} {x[4]}, the caller gave {kw}")
    for r, (ss, kept) in zip(res, replies):
        if r is not ss and r != kept:
            raise Violation("the answer returned is not the sampler's answer")
        if r != kept or list(r.record.num_occurrences) != list(kept.record.num_occurrences) or r.info.get("problem_id") != "p1" or r.info.get("timing") != {"qpu": 5}:
            raise Violation(f"the sampler's answer was changed: {r} instead of {kept}")
    return solver, made


def run_reuse(case, cov):
    """one solver object solves several models one after the other"""
    from sawatabi.solver import LocalSolver

    kind, seq = case
    if kind == "exact":
        solver = LocalSolver(exact=True)
        for mt, spec in seq:
            run_exact((mt, spec, False), cov, solver)
    elif kind == "sa":
        solver = LocalSolver()
        for k, (mt, spec) in enumerate(seq):
            run_sa((mt, spec, [{"seed": 3, "num_reads": 3}, {"num_sweeps": 1, "beta_range": [0.1, 2.0]}, {"seed": 1}][k % 3]), cov, solver)
    else:
        held = (None, ())
        for k, (mt, spec) in enumerate(seq):
            held = run_dwave((mt, spec, {"solver": "S1", "embedding_parameters": {"a": 1}}, [{"num_reads": 10}, {}, {"chain_strength": 2.0}][k % 3], [[1, 0], [0], [3, 1, 1]][k % 3]), cov, *held)


def run_edited(case, cov):
    """one solver object solves one logical model again after edits of it"""
    from sawatabi.solver import LocalSolver

    mt, exact, edits = case
    fresh_clock()
    real = Real(mt, {"x": [3]})
    for op in [("add", "x:0", {"c": 1.0}), ("add", "x:1", {"c": -0.5}), ("add", "x:0.x:2", {"c": 1.5}), ("off", 0.5)]:
        real.apply(op)
    solver = LocalSolver(exact=exact)
    for e in (None, *edits):
        if e is not None:
            real.apply(tuple(e))
        cov.step()
        phys = real.m.to_physical()
        prob = Problem(phys)
        again = solver.solve(phys) if exact else solver.solve(phys, seed=2, num_reads=4)
        check_total(prob, again, 2 ** prob.n if exact else 4)
        if sorted(again.variables) != sorted(prob.labels) or again.vartype.name != ("SPIN" if mt == "ising" else "BINARY"):
            raise Violation(f"a {again.vartype} answer over {list(again.variables)} for {prob.labels}")
    cov.trace()
    cov.state((mt, exact, repr(edits)))


def SLICES(tier):
    q = tier == "quick"
    types = ("ising", "qubo")
    subs = [list(s) for n in range(0, len(TERMS) + 1) for s in itertools.combinations(TERMS, n)]
    extra = [[("add", "x0", {"c": 0.0})], [("add", "x0", {"c": 1.0}), ("add", "x0", {"name": "n", "c": -1.0})], [("add", "x0", {"c": 1.0}), ("rm", "x0")], [("off", 1.0)],
             [("add", "x0", {"c": 1e6}), ("add", "x1", {"c": 1e-6})], [("add", "x0", {"c": 4e6}), ("add", "x1", {"c": 0.3})], [("add", "x0.x1", {"c": -3e9, "s": 0.1}), ("add", "y1", {"c": 1e-7}), ("off", 0.1)], [("add", "x0.x1", {"c": 1.0}), ("fix", "x0", 1)], [("add", "x0.x1", {"c": 1.0}), ("add", "y0", {"c": 1.0}), ("del", "x0")]]
    specs = subs + extra + list(MODELS)

    def exact():
        for mt in types:
            for s in specs:
                for twice in (False, True):
                    yield (mt, s, twice)

    near = [("ising", TERMS[:3]), ("qubo", TERMS[:3]), ("ising", TERMS[:3] + [("off", 2.5)]), ("ising", TERMS[:3] + [("off", -1.0)]), ("ising", [("add", "y0", {"c": 1.0}), ("add", "y1", {"c": -2.0, "s": 0.5}), ("add", "y0.y1", {"c": 1.5})]), ("ising", [("add", "x0", {"c": -1.0}), *TERMS[1:3]]), ("ising", TERMS[:2]), ("ising", [TERMS[1], TERMS[0], TERMS[2]]), ("qubo", TERMS), ("ising", []), ("qubo", TERMS[:3] + [("off", 2.5)])]

    def reuse():
        for kind in ("exact", "sa", "dwave"):
            for seq in itertools.product(near, repeat=2 if q and kind != "exact" else 3):
                yield (kind, list(seq))

    edits = [("off", 2.0), ("add", "x:0", {"name": "n", "c": 2.0}), ("add", "x:1.x:2", {"c": -1.0}), ("rm", "x:1"), ("fix", "x:0", 1), ("del", "x:2"), ("upd", "x:0", {"c": 4.0})]

    def edited():
        for mt in types:
            for exact_ in (True, False):
                for n in (1, 2) if q else (1, 2, 3):
                    for seq in itertools.permutations(edits, n):
                        yield (mt, exact_, list(seq))

    large = ["large%d" % n for n in ((2, 5, 8, 9, 10) if q else (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12))]

    def large_sa():
        for mt in types:
            for n in (12, 33, 64, 100) if q else (12, 25, 33, 50, 64, 65, 80, 100, 120, 150):
                for o in ({"seed": 5, "num_sweeps": 3}, {"seed": 6, "num_reads": 40, "num_sweeps": 2}, {"seed": 6, "num_reads": 257, "num_sweeps": 1}):
                    yield (mt, f"large{n}", o)

    def large_dwave():
        for mt in types:
            for n in (12, 33, 64, 100) if q else (12, 25, 33, 50, 64, 65, 80, 100, 120, 150):
                yield (mt, f"large{n}", {}, {"num_reads": 1000}, [0, 1, 2 ** n - 1, 5 << (n // 2)])
                yield (mt, f"large{n}", {"embedding_parameters": {"a": 1}}, {}, list(range(300)))

    def sa():
        opts = [{"seed": 1}, {"seed": 3, "num_reads": 3}, {"seed": 7, "num_reads": 2, "num_sweeps": 5}, {"num_sweeps": 1, "beta_range": [0.1, 2.0]}, {"seed": 2, "num_reads": 4, "num_sweeps": 10, "beta_schedule_type": "linear"}, {"seed": 4, "beta_range": None, "num_reads": 2}]
        for mt in types:
            for s in specs if not q else subs[::3] + extra + list(MODELS):
                for o in opts:
                    yield (mt, s, o)

    def dwave():
        ctors = [{}, {"solver": "S1"}, {"endpoint": "http://e", "token": "t"}, {"endpoint": "http://e"}, {"token": "t", "solver": "S2"}, {"endpoint": "http://e", "token": "t", "solver": "S3", "embedding_parameters": {"random_seed": 3}}, {"embedding_parameters": {}}, {"embedding_parameters": {"a": 1, "b": [2]}}]
        kws = [{}, {"num_reads": 10}, {"chain_strength": 2.0, "num_reads": 3, "annealing_time": 20}, {"return_embedding": True}, {"num_reads": 3, "auto_scale": False, "annealing_time": 0, "label": None, "initial_state": {}}]
        answers = [[0], [1, 0], [3, 1, 1], [0, 1, 2, 3]]
        for mt in types:
            for s in subs[::8] + extra + ["tri", "rev", "hole", "con"]:
                for c, k in itertools.product(ctors, kws):
                    yield (mt, s, c, k, answers[(len(repr(c)) + len(repr(k))) % 4])
            for a in answers:
                for s in subs if not q else subs[::4]:
                    yield (mt, s, {}, {"num_reads": 5}, a)

    return [
        Slice("exact", exact, run_exact, f"all {len(subs)} sub-models of {len(TERMS)} terms, {len(extra)} special and {len(MODELS)} larger ones, both types"),
        Slice("large", [(mt, s, False) for mt in types for s in large], run_exact, "dense models of up to 10 (thorough 12) variables, exact solver"),
        Slice("large-annealing", large_sa, run_sa, "dense models of up to 100 (thorough 150) variables, up to 257 reads"),
        Slice("large-dwave", large_dwave, run_dwave, "dense models of up to 100 (thorough 150) variables, answers of up to 300 samples"),
        Slice("reuse", reuse, run_reuse, f"one solver object solving all sequences of 2 or 3 (thorough 3) of {len(near)} alike models (offset, type, labels, a coefficient or the order differ; one empty)"),
        Slice("edited", edited, run_edited, f"one solver object solving a model before and after up to 2 (thorough 3) of {len(edits)} edits"),
        Slice("dwave", dwave, run_dwave, "sub-models x constructor arguments x sampler options x answers of the sampler"),
        Slice("annealing", sa, run_sa, "sub-models x 6 option sets"),
    ]
