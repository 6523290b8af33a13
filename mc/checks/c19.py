"""C19: attenuation scales interactions linearly by age from the minimum scale to one."""
import itertools

from mc import stream as S
from mc.core import Slice, Violation
from mc.lm import constraint_labels, fresh_clock, poly_diff, poly_of_bqm

ASSUMPTIONS = ["every interaction's reference timestamp is a number or absent", "the model has no placeholders"]
TARGETS = ["0", "1", "0-1", "1-2", "0-2", "2"]


def tgt(x, t):
    p = [x[int(k)] for k in t.split("-")]
    return p[0] if len(p) == 1 else tuple(p)


def rows_of(model):
    rows = model.select_interaction("body > 0").to_dict(orient="records")
    out = {}
    for r in rows:
        if r["removed"]:
            continue
        d = {k: v for k, v in r.items() if k not in ("dirty", "removed", "interacts", "key_1")}
        d = {k: v for k, v in d.items() if v == v}
        out[r["name"]] = d
    return out


def rest_of(model):
    return (model.get_mtype(), model.get_offset(), sorted((k, list(a.shape)) for k, a in model.get_variables().items()), sorted(model.get_deleted_array()), repr(model.get_fixed_array()),
            [(k, c.get_constraint_class(), c.get_strength(), repr(constraint_labels(c))) for k, c in sorted(model.get_constraints().items())])


class Atten:
    """script: per window a list of operations on the model"""

    def __init__(self, script, min_scale, key, eager):
        self.script, self.min_scale, self.key, self.eager = script, min_scale, key, eager
        self.k = -1
        self.bad = None
        self.states = []

    def note(self, msg):
        self.bad = self.bad or f"window {self.k}: {msg}"

    def filter(self, e):
        return False

    def map(self, pm, ps, e, i, o):
        self.k += 1
        if not pm.get_variables():
            pm.variables("x", shape=(max([3] + [int(k) + 1 for ops in self.script for op in ops if op[0] == "add" for k in op[1].split("-")]),))
        x = pm.get_variables_by_name("x")
        for op in self.script[self.k]:
            if op[0] == "add":
                _, t, c, ts, scale = op
                pm.add_interaction(tgt(x, t), name=f"{t}@{self.k}" if self.k else "", coefficient=c, scale=scale, attributes={} if ts is None else {self.key: ts, "other": t})
            elif op[0] == "rm":
                pm.remove_interaction(tgt(x, op[1]))
            elif op[0] == "del":
                pm.delete_variable(x[int(op[1])])
            elif op[0] == "ts":
                pm.update_interaction(tgt(x, op[1]), attributes={self.key: op[2]})
            elif op[0] == "co":
                pm.update_interaction(tgt(x, op[1]), coefficient=op[2])
            elif op[0] == "off":
                pm.offset(op[1])
            elif op[0] == "con":
                from sawatabi.model.constraint import NHotConstraint

                pm.add_constraint(NHotConstraint(variables=[x[0], x[1]], label="c", strength=2.0))
        if self.eager:
            pm.to_physical()
        self.rows, self.rest = rows_of(pm), rest_of(pm)
        return pm

    def solve(self, solver, model, ps, e, i, o):
        got = rows_of(model)
        attr = f"attributes.{self.key}"
        ts = [r[attr] for r in self.rows.values() if attr in r]
        lo, hi = (min(ts), max(ts)) if ts else (0, 0)
        if set(got) != set(self.rows):
            self.note(f"the interactions are {sorted(got)}, expected {sorted(self.rows)}")
            return "s"
        want_poly = {}
        for n, r in self.rows.items():
            g = dict(got[n])
            w = dict(r)
            if lo < hi and attr in r:
                w["scale"] = self.min_scale + (1.0 - self.min_scale) * ((r[attr] - lo) / (hi - lo))
            if abs(g["scale"] - w["scale"]) > 1e-9:
                self.note(f"the scale of {n} (reference {r.get(attr)} in {lo}..{hi}) is {g['scale']}, expected {w['scale']}")
            gs, ws = g.pop("scale"), w.pop("scale")
            if g != w:
                self.note(f"the interaction {n} is {g}, expected {w}")
            key = r["key"] if isinstance(r["key"], tuple) else (r["key"],)
            key = frozenset(key)
            want_poly[key] = want_poly.get(key, 0.0) + r["coefficient"] * ws
        if rest_of(model) != self.rest:
            self.note(f"the rest of the model is {rest_of(model)}, expected {self.rest}")
        if "c" not in model.get_constraints():
            bqm = model.to_physical().to_bqm()
            p = poly_of_bqm(bqm)
            sol = {}
            for k, v in want_poly.items():
                for sgn in (1.0, -1.0):
                    sol.setdefault(sgn, {})[k] = sgn * v
            body = {k: v for k, v in p.items() if len(k) > 0}
            norm = {frozenset(k) if not isinstance(k, frozenset) else k: v for k, v in body.items()}
            ok = any(all(abs(norm.get(k, 0.0) - s.get(k, 0.0)) < 1e-9 * max(1, abs(s.get(k, 0.0))) for k in set(norm) | set(s)) for s in (sol or {1.0: {}}).values())
            if not ok:
                self.note(f"the problem is {norm}, expected the coefficients times scales {want_poly}")
        self.states.append(tuple(sorted((n, r["scale"]) for n, r in got.items())))
        self.n_solved = self.k
        return "s"

    def unmap(self, ss, e, i, o):
        return f"ok {self.k}"


def run(case, cov):
    script, min_scale, mtype, key, commits, eager, real = case
    fresh_clock()
    stream = [(t, 1) for t in range(len(script))]
    wins = S.windows_of("Attenuation", 1, 1, stream)
    h = Atten(script, min_scale, key, eager)
    opts = S.options("Attenuation", 1, 1, min_scale=min_scale, key=f"attributes.{key}")
    if real:
        out = [(w, [x]) for w, x in S.run_real("Attenuation", opts, mtype, None, stream, wins, h)]
        if [w for w, _ in out] != list(range(len(wins))):
            cov.outcome("unordered")
            return
    else:
        out = S.deliver_all("Attenuation", opts, mtype, None, stream, wins, range(len(wins)), commits, h)
    if out is None:
        cov.outcome("undrivable")
        return
    if h.bad:
        raise Violation(h.bad)
    if [x for _, x in out] != [[f"ok {k}"] for k in range(len(script))]:
        raise Violation(f"the outputs are {out}")
    cov.step(len(script))
    cov.trace()
    cov.state((mtype, min_scale, tuple(h.states)))
    cov.outcome(len(h.states[-1]))


def SLICES(tier):
    q = tier == "quick"
    T = (None, 0, 1.0, 2.5)
    COEF = [1.0, -2.0, 0.5, 3.0, -0.25, 1.5]

    def w1(n, T=T, scales=(1.0,)):
        for ts in itertools.product(T, repeat=n):
            for sc in scales:
                yield [("add", TARGETS[i], COEF[i], t, sc) for i, t in enumerate(ts)]

    def single(ns, mins, T=T, scales=(1.0,), types=("ising", "qubo"), rm=True):
        def g():
            for n in ns:
                for ops in w1(n, T, scales):
                    for removed in itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(0, n + 1 if rm else 1)):
                        sc = ops + [("rm", TARGETS[i]) for i in removed]
                        for ms in mins:
                            for mt in types:
                                yield ([sc], ms, mt, "attn_ts", 0, 0, 0)
        return g

    SECOND = [[], [("add", "2", 2.0, 9.0, 1.0)], [("add", "2", 2.0, -3.0, 1.0)], [("rm", "0")], [("rm", "1")], [("del", "0")], [("del", "1")], [("ts", "0", 8.0)], [("ts", "1", -8.0)], [("co", "0", 7.0)], [("off", 4.0)], [("con",)],
              [("rm", "0"), ("add", "2", 2.0, 5.0, 2.0)], [("del", "1"), ("add", "0-2", 1.0, 3.0, 1.0), ("add", "2", 1.0, None, 0.5)], [("add", "2", 2.0, 2.5, 1.0), ("rm", "0-1")]]

    def applicable(hist):
        """scripts whose operations are valid on the model"""
        from mc.core import Violation  # noqa: F401

        live, dead, used = set(), set(), set()
        con = False
        for k, ops in enumerate(hist):
            for op in ops:
                if op[0] == "add":
                    name = op[1] if k == 0 else f"{op[1]}@{k}"
                    if name in used or any(p in dead for p in op[1].split("-")):
                        return False
                    used.add(name)
                    live.add(name)
                elif op[0] in ("rm", "ts", "co"):
                    if op[1] not in live:
                        return False
                    if op[0] == "rm":
                        live.discard(op[1])
                elif op[0] == "del":
                    if op[1] in dead:
                        return False
                    dead.add(op[1])
                    live = {n for n in live if op[1] not in n.split("@")[0].split("-")}
                elif op[0] == "con":
                    if con or "0" in dead or "1" in dead:
                        return False
                    con = True
        return True

    def chains(depth, mins, T, eager=(0, 1), commits=(0, 7), real=0, types=("ising", "qubo")):
        def g():
            for ops in w1(3, T):
                for rest in itertools.product(SECOND, repeat=depth - 1):
                    if not applicable([ops] + list(rest)):
                        continue
                    for ms in mins:
                        for mt in types:
                            for eg in eager:
                                for cm in commits:
                                    yield ([ops] + list(rest), ms, mt, "attn_ts", cm, eg, real)
        return g

    def many():
        """many interactions: reference timestamps rising, falling, repeated, partly absent, close together or far apart"""
        for n in (8, 9, 17, 33) if q else (8, 9, 10, 11, 16, 17, 31, 32, 33, 64):
            tgts = [str(i) for i in range(n)] + [f"{i}-{i + 1}" for i in range(n - 1)]
            m = len(tgts)
            for ts in ([float(i) for i in range(m)], [m - 2.5 * i for i in range(m)], [i * 7 % 5 for i in range(m)], [None if i % 3 else i * i for i in range(m)], [1.6e9 + i / 64 for i in range(m)], [1.6e9 + i * 86400 for i in range(m)], [-(2.0 ** (i % 30)) for i in range(m)], [5] * (m - 1) + [6]):
                ops = [("add", t, 0.5 + i, s, 1.0) for i, (t, s) in enumerate(zip(tgts, ts))]
                late = [("rm", tgts[0]), ("rm", tgts[m - 1]), ("add", "1", 2.0, 3.5, 1.0)]
                for ms in (0.1, 0.5):
                    for mt in ("ising", "qubo"):
                        yield ([ops], ms, mt, "attn_ts", 0, 0, 0)
                        yield ([ops + late[:2]], ms, mt, "ref", 0, 1, 0)
                        yield ([ops, late, [("del", "2")]], ms, mt, "attn_ts", 5, 0, 0)
        for k in (8, 17) if q else (8, 17, 40):
            # long streams: every window adds an interaction and removes an old one
            script = [[("add", str(i), 1.0 + i, float(i), 1.0) for i in range(3)]] + [[("add", f"{i % 3}-{(i + 1) % 3}", 2.0, float(i + 3), 1.0)] + ([("del", "0")] if i == k - 1 else []) for i in range(k)]
            for mt in ("ising", "qubo"):
                for ms in (0.0, 0.25):
                    yield (script, ms, mt, "attn_ts", 0x155, 0, 0)

    E = (1600000000.25, 1600000001, 1700000000.0)
    out = [
        Slice("single", single((1, 2, 3) if q else (1, 2, 3, 4), (0.0, 0.1, 0.5, 1.0), rm=True), run, "all reference timestamps of up to 3 (thorough 4) interactions, every set of removed ones, 4 minimum scales"),
        Slice("values", single((2, 3), (0.25, 2.0, -1.0), T=E, scales=(1.0, 2.0, 0.5), rm=False), run, "epoch times, initial scales, unusual minimum scales"),
        Slice("chains", chains(2, (0.1,) if q else (0.0, 0.1, 0.5), (0, 1.0) if q else T, commits=(0, 3)), run, "two windows"),
        Slice("chains3", chains(3, (0.2,), (1.0, 2.0) if not q else (2.0,), eager=(0,), commits=(0, 5) if q else tuple(range(8)), types=("ising",) if q else ("ising", "qubo")), run, "three windows"),
        Slice("many", many, run, "15 to 65 (thorough 127) interactions x 8 patterns of reference timestamps, and streams of up to 17 (thorough 40) windows"),
        Slice("runner", lambda: itertools.islice(chains(2, (0.1,), (0, 1.0), eager=(0,), commits=(0,), real=1, types=("ising",))(), 0, None, 12 if q else 2), run, "the real DirectRunner"),
    ]
    return out
