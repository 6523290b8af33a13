"""C18: incremental model maintenance equals rebuilding from the current elements."""
import copy
import itertools

from mc import stream as S
from mc.checks.c16 import order_of
from mc.core import Slice, Violation
from mc.lm import constraint_labels, fresh_clock, poly_diff, poly_of_bqm

ASSUMPTIONS = ["the mapping adds interactions for newcomers and deletes the variables of leavers, as the samples of the repository do", "windows are built by event time"]


def coeff(a, b):
    return -1.0 * (a[1][1] + 1) * (b[1][1] + 2) + 0.25 * (a[1][0] - b[1][0]) ** 2


def apply_map(style, model, elements, incoming, outgoing):
    """A mapping in one of several styles; also used on an empty model with everything as newcomers."""
    from sawatabi.model.constraint import NHotConstraint, ZeroOrOneHotConstraint

    if style.startswith("conv"):  # the mapping itself chooses the type of the model
        if style != "conv-" + model.get_mtype():
            (model.to_qubo if style == "conv-qubo" else model.to_ising)()
    two = style == "2d"
    if incoming:
        top = max(i[1][0] for i in incoming)
        size = (model.get_all_size() - (1 if style == "aux" and model.get_all_size() else 0)) // (2 if two else 1)
        grow = max(0, top + 1 - size)
        if style == "aux" and "a" not in model.get_variables():
            model.variables("a", shape=(1,))
        x = model.append("x", shape=(grow, 0 if "x" in model.get_variables() else 2) if two else (grow,))
    else:
        x = model.get_variables_by_name("x")
    new = {i[1][0] for i in incoming}
    v = (lambda k: x[k][0]) if two else (lambda k: x[k])
    for i in incoming:
        k = i[1][0]
        if style != "pairs":
            model.add_interaction(v(k), coefficient=0.5 + i[1][1], attributes={"n": i[0]} if k % 2 else None)
        if two:
            model.add_interaction((x[k][0], x[k][1]), coefficient=2.0)
        if style == "aux":
            model.add_interaction((v(k), model.get_variables_by_name("a")[0]), coefficient=1.5, scale=2.0)
        for j in elements:
            if j[1][0] != k and not (j[1][0] in new and j[1][0] > k):
                model.add_interaction((v(k), v(j[1][0])), coefficient=coeff(i, j) if k > j[1][0] else coeff(j, i), name=f"n{k}-{j[1][0]}" if style == "named" else "")
    for o in outgoing:
        k = o[1][0]
        if style == "rm":
            for name in list(model.select_interactions_by_variable(v(k))):
                model.remove_interaction(name=name)
        else:
            model.delete_variable(v(k))
            if two:
                model.delete_variable(x[k][1])
    if style in ("hot", "zero"):
        cons = model.get_constraints()
        mk = NHotConstraint if style == "hot" else ZeroOrOneHotConstraint
        fresh = [v(i[1][0]) for i in incoming]
        if "c" in cons:
            if fresh:
                cons["c"].add_variable(fresh)
        else:
            model.add_constraint(mk(variables=fresh, label="c", strength=3.0))
    if style == "off":
        model.offset(float(sum(e[1][1] for e in elements)))
    if style == "upd":
        for e in elements:
            model.update_interaction(v(e[1][0]), coefficient=float(len(elements)) + e[1][1])
    return model


def snap(model):
    m = copy.deepcopy(model)
    rows = m.select_interaction("body > 0").to_dict(orient="records")
    return (m.get_mtype(), repr(rows), repr(sorted((k, list(a.shape)) for k, a in m.get_variables().items())), repr(sorted(m.get_deleted_array())), m.get_offset(), repr(sorted((k, c.get_constraint_class(), c.get_strength(), repr(constraint_labels(c))) for k, c in m.get_constraints().items())), sorted(poly_of_bqm(m.to_physical().to_bqm()).items(), key=repr))


class Maintain:
    def __init__(self, style, mtype, mask, lazy=0, answer="plain"):
        self.style, self.mtype, self.mask, self.lazy, self.answer = style, mtype, mask, lazy, answer
        self.left = None
        self.ss = None
        self.bad = None
        self.k = 0
        self.polys = []

    def note(self, msg):
        self.bad = self.bad or f"window number {self.k}: {msg}"

    def filter(self, e):
        return bool(self.mask >> e[1][0] & 1)

    def check_ss(self, name, ps):
        if (ps is None) != (self.ss is None) or (ps is not None and not same_ss(ps, self.ss)):
            self.note(f"{name} got the previous sampleset {ps}, expected {self.ss}")

    def map(self, pm, ps, e, i, o):
        self.k += 1
        if self.left is None:
            if pm.get_mtype() != self.mtype or pm.get_variables() or len(pm.select_interaction("body > 0")) or pm.get_offset() or pm.get_constraints():
                self.note(f"the first model is not an empty {self.mtype} model")
        elif snap(pm) != self.left:
            self.note(f"the previous model is {snap(pm)}, the preceding window left {self.left}")
        self.check_ss("map", ps)
        return apply_map(self.style, pm, e, i, o)

    def solve(self, solver, model, ps, e, i, o):
        import dimod

        import sawatabi

        self.check_ss("solve", ps)
        if solver != "the solver":
            self.note(f"the solver is {solver!r}")
        ref = apply_map(self.style, sawatabi.model.LogicalModel(mtype=self.mtype), e, e, [])
        want = poly_of_bqm(ref.to_physical().to_bqm())
        lazy = self.lazy >> (self.k - 1) & 1
        phys = (copy.deepcopy(model) if lazy else model).to_physical()
        got = poly_of_bqm(phys.to_bqm())
        d = poly_diff(got, want)
        if d:
            self.note(f"the problem differs from the rebuilt one: {d}")
        if phys.get_mtype() != (self.style[5:] if self.style.startswith("conv") else self.mtype):
            self.note(f"the problem is of type {phys.get_mtype()}")
        self.polys.append(tuple(sorted(got.items(), key=repr)))
        lo = -1 if self.mtype == "ising" else 0
        ss = dimod.SampleSet.from_samples([{f"x[{k[1][0]}]": (1 if k[1][0] % 2 else lo) for k in e}], vartype="SPIN" if lo else "BINARY", energy=[float(self.k)])
        self.new = ss.copy()
        self.model = model
        return ss

    def unmap(self, ss, e, i, o):
        if not same_ss(ss, self.new):
            self.note(f"unmap got {ss}")
        self.ss = self.new
        self.left = snap(self.model)
        return f"ok {self.k}"


def same_ss(a, b):
    return a == b and list(a.record.energy) == list(b.record.energy)


def run(case, cov):
    alg, size, period, times, style, mtype, mask, order, commits, lazy, real = case
    fresh_clock()
    stream = [(t, (3 * i + 1) % 4) for i, t in enumerate(times)]
    wins = S.windows_of(alg, size, period, stream)
    n = len(wins)
    full = (1 << n) - 1
    masks = range(full + 1) if commits == "all" else [0, full] if commits == "ends" else [commits & full]
    lazies = range(full + 1) if lazy == "all" else [lazy]
    for cm in masks:
        for lz in lazies:
            h = Maintain(style, mtype, mask, lz)
            opts = S.options(alg, size, period)
            if real:
                out = [(w, [x]) for w, x in S.run_real(alg, opts, mtype, "the solver", stream, wins, h)]
            else:
                out = S.deliver_all(alg, opts, mtype, "the solver", stream, wins, order_of(order, n), cm, h)
            if out is None:
                cov.outcome("undrivable")
                return
            failed = [x for _, xs in out for x in xs if isinstance(x, str) and x.startswith("Failed")]
            if failed:
                raise Violation(f"a callback failed: {failed[0]}")
            if h.bad:
                raise Violation(f"bundle ends {cm:b}, not converted {lz:b}: {h.bad}")
            k, last = 0, -1
            for w, x in out:
                if w < last:
                    if len(x) != 1 or x[0].startswith("ok"):
                        raise Violation(f"outdated window {w}: {x}")
                    continue
                last = w
                k += 1
                if x != [f"ok {k}"]:
                    raise Violation(f"window {w} gave {x}")
            if k != h.k:
                raise Violation(f"{h.k} windows were mapped, {k} expected")
            cov.step(len(out))
            cov.trace()
            cov.state((alg, style, mtype, tuple(h.polys)))
            cov.outcome((alg, style))


STYLES = ("npp", "pairs", "hot", "zero", "rm", "off", "2d", "upd", "aux", "named")


def SLICES(tier):
    q = tier == "quick"
    types = ("ising", "qubo")

    def gen(algs, tlist, cfgs, styles=("npp",), types=types, masks=(0,), orders=("fwd",), commits="ends", lazy=0, real=0):
        def g():
            for t in tlist:
                for alg in algs:
                    for size, period in cfgs:
                        if alg in ("Delta", "Incremental") and size != period:
                            continue
                        for style in styles:
                            for mt in types:
                                for mask in masks if alg == "Partial" else [0]:
                                    for o in orders:
                                        yield (alg, size, period, t, style, mt, mask, o, commits, lazy, real)
        return g

    def sorted_times(grid, n):
        out = []
        for k in range(1, n + 1):
            out += list(itertools.combinations_with_replacement(grid, k))
        return out

    plain = ("Window", "Delta", "Incremental", "Partial")
    arrivals = list(itertools.product((0, 1, 2), repeat=3))
    S3 = sorted_times((0, 1, 2, 4), 3 if q else 4)
    return [
        Slice("streams", gen(plain, S3, [(2, 1), (3, 1), (2, 2), (1, 1)], masks=(5,)), run, "all streams of up to 3 (thorough 4) elements over 4 times, sizes and periods, 4 algorithms, both types"),
        Slice("styles", gen(("Window", "Partial"), [(0, 1, 2), (0, 0, 1, 3), (0, 1, 1, 2, 5)] if q else S3, [(2, 1)], styles=STYLES, masks=(1, 5)), run, f"{len(STYLES)} kinds of mapping"),
        Slice("styles2", gen(("Delta", "Incremental"), [(0, 1, 2), (0, 0, 1, 3)], [(1, 1)], styles=STYLES), run, "kinds of mapping with fixed windows"),
        Slice("convert", gen(plain, [(0, 1, 2), (0, 0, 1, 3), (0, 1, 1, 2, 5)] if q else S3, [(2, 1), (1, 1)], styles=("conv-ising", "conv-qubo"), masks=(1, 5)), run, "mappings that make the model of a type other than the initial one"),
        Slice("arrivals", gen(plain, arrivals, [(2, 1), (2, 2)] if not q else [(2, 1), (1, 1)], styles=("npp",), masks=(2,)), run, "all arrival orders of 3 elements (indices against event time)"),
        Slice("bundles", gen(plain, [(0, 1, 2), (0, 1, 3)], [(2, 1), (1, 1)], styles=("npp", "hot") if q else STYLES, types=("ising",) if q else types, masks=(1,), commits="all"), run, "every pattern of bundle boundaries"),
        Slice("lazy", gen(("Window", "Partial"), [(0, 1, 2)], [(2, 1)], styles=STYLES, types=("ising",) if q else types, masks=(1,), commits="ends", lazy="all"), run, "every choice of windows in which the model itself is not converted to a physical one"),
        Slice("orders", gen(plain, [(0, 1, 2), (0, 1, 1, 3)], [(2, 1), (1, 1)], styles=("npp", "hot"), masks=(1,), orders=("rev", "s0", "s1", "f2", "f3")), run, "out-of-order delivery"),
        Slice("long", gen(plain, [tuple(range(12)), tuple(i / 2 for i in range(14)), tuple(i // 3 for i in range(15))] if q else [tuple(range(30)), tuple(i / 2 for i in range(24)), tuple(i // 3 for i in range(33))], [(3, 1), (5, 2), (2, 2)], styles=("npp", "hot") if q else STYLES, masks=(0b101001000100,), commits=0x555), run, "streams of 12 to 15 (thorough 33) elements"),
        Slice("runner", gen(plain, [(0, 1, 2), (0, 0, 3, 1)] if q else S3[::4], [(2, 2), (2, 1)] if q else [(2, 1), (1, 1), (2, 2)], styles=("npp",) if q else ("npp", "hot", "rm"), types=types, masks=(2,), real=1, commits=0), run, "the real DirectRunner"),
    ]
