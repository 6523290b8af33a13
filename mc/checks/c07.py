"""C07: merging adds the two models' energies and refuses cleanly."""
import itertools

from mc.core import Slice, Violation
from mc.lm import CLOCK, PH, Real, Ref, Refused, close, constraint_labels, fresh_clock, in_unit, poly_diff, same, unit

ASSUMPTIONS = ["models of which one has fixed or deleted a variable that is live in the other are not merged with each other",
               "a merge across model types may convert the other model permanently, as documented by the code"]
ENV = {"A": 3.0}
X2, X3, Y22 = {"x": [2]}, {"x": [3]}, {"x": [2], "y": [2, 2]}
# name -> (arrays, operations)
CAT = {
    "empty": ({}, []),
    "vars": (X3, []),
    "lin": (X2, [("add", "x0", {"c": 1.0}), ("add", "x1", {"c": -2.0, "s": 0.5})]),
    "lin2": (X3, [("add", "x0", {"c": 10.0, "t": 5.0}), ("add", "x2", {"c": 3.0, "a": {"p": 1, "q": "u"}}), ("off", 1.5)]),
    "quad": (X3, [("add", "x0.x1", {"c": 2.0, "s": -1.0}), ("add", "x1.x0", {"name": "n", "c": 0.25}), ("add", "x0", {"c": 5.0}), ("off", -4.0)]),
    "attr": (X2, [("add", "x0", {"c": 7.0, "a": {"q": "v", "r": 3}}), ("add", "x0", {"name": "n", "c": 1.0, "a": {"p": 9}})]),
    "removed": (X2, [("add", "x0", {"c": 6.0}), ("rm", "x0"), ("add", "x1", {"c": 1.0, "s": 3.0})]),
    "converted": (X2, [("add", "x0", {"c": 6.0}), ("add", "x0.x1", {"c": 8.0}), ("phys",), ("upd", "x0", {"c": 2.0})]),
    "two": (Y22, [("add", "y01", {"c": 1.0}), ("add", "y10.x1", {"c": -1.5}), ("off", 2.0)]),
    "grown": ({"y": [1, 3], "z": [1]}, [("add", "y02.z0", {"c": 2.5}), ("add", "y00", {"c": 4.0, "a": {"p": 2}})]),
    "con": (X3, [("add", "x2", {"c": 1.0}), ("con", "c1", "nhot", {"vars": ["x0", "x1", "x2"], "n": 1})]),
    "con2": (X2, [("con", "c2", "eq", {"vars1": ["x0"], "vars2": ["x1"], "strength": 3.0}), ("off", 1.0)]),
    "same": (X2, [("add", "x1.x0", {"c": 1.0}), ("con", "c1", "zoo", {"vars": ["x0", "x1"]})]),
    "dims": ({"x": [2, 2]}, [("add", "x01", {"c": 1.0})]),
    "gone": ({"w": [2]}, [("add", "w0.w1", {"c": 3.0}), ("add", "w1", {"c": 2.0}), ("del", "w0"), ("off", 0.5)]),
    "fixed": ({"v": [3]}, [("add", "v0.v1", {"c": 3.0, "s": 2.0}), ("add", "v0", {"c": 2.0}), ("con", "c3", "nhot", {"vars": ["v0", "v1", "v2"], "n": 1}), ("fix", "v0", 1)]),
    "ph": (X2, [("add", "x0", {"c": ("ph", "A")}), ("add", "x0.x1", {"c": 2.0, "s": ("*", 2.0, ("ph", "A"))})]),
    "named": (X2, [("add", "x0", {"name": "x[1]", "c": 5.0}), ("add", "x1", {"name": "x[0]", "c": 3.0, "s": 2.0})]),
}


def build(spec):
    name, mt = spec
    if name.startswith("size"):
        n = int(name[4:])
        arrays = {"x": [n], "y": [2, n]}
        ops = [("add", f"x:{i}", {"c": n + i + 1.0, "a": {"k": i}}) for i in range(n)] + [("add", f"x:{i}.x:{(i + 2) % n}", {"c": i - 2.5, "s": 0.5, "t": 1.0 + i}) for i in range(n)]
        ops += [("add", f"y:1,{i}", {"name": f"n{i}", "c": 3.0 * i - n}) for i in range(n)] + [("rm", "x:1"), ("off", 0.5 * n)]
        ops += [("con", f"c{n}-{i}", "nhot", {"vars": [f"x:{i}", f"x:{i + 1}", f"y:0,{i}"], "n": 1}) for i in range(n - 1)]
    else:
        arrays, ops = CAT[name]
    real, ref = Real(mt, arrays), Ref(mt, arrays)
    for op in ops:
        CLOCK.now += 10.0
        real.apply(op)
        ref.apply(op)
    return real, ref


def clone_row(r):
    r = dict(r)
    r["attrs"] = dict(r["attrs"])
    return r


def ref_merge(a, b):
    """Merges b into a; Refused if impossible."""
    for k, sh in a.arrays.items():
        if k in b.arrays and len(b.arrays[k]) != len(sh):
            raise Refused()
    if set(a.constraints) & set(b.constraints):
        raise Refused()
    if a.mtype != b.mtype:
        b.apply((a.mtype,))
    for k, sh in list(b.arrays.items()):
        a.arrays[k] = tuple(max(p, q) for p, q in zip(a.arrays[k], sh)) if k in a.arrays else sh
    dup = {r["name"] for r in a.rows} & {r["name"] for r in b.rows} - {None}
    rows = a.rows + [clone_row(r) for r in b.rows]
    for r in rows:
        if r["name"] in dup:
            r["name"] = None
    off, cons = b.offset, dict(b.constraints)
    a.rows = rows
    a.offset = a.offset + off
    a.true_minus_pinned = a.true_minus_pinned + b.true_minus_pinned
    a.constraints.update(cons)
    a.deleted = list(dict.fromkeys(a.deleted + b.deleted))
    a.fixed.update(b.fixed)
    a.converted = a.converted or b.converted


def row_equal(g, r):
    for f, e in (("coefficient", r["coef"]), ("scale", r["scale"])):
        if not isinstance(e, PH) and not close(g[f], e):
            return False
    if not same(g["key"], r["key"]) or bool(g["removed"]) != r["removed"]:
        return False
    if r["ts"] is not None and g["timestamp"] != r["ts"]:
        return False
    for k, v in g.items():
        if isinstance(k, str) and k.startswith("attributes."):
            e = r["attrs"].get(k[len("attributes."):], float("nan"))
            if not (same(v, e) or (v != v and e != e)):
                return False
    return all("attributes." + k in g for k in r["attrs"])


def match(real, ref):
    """Checks the table; returns [(name, reference row)]."""
    rows = real.table()
    names = [r["name"] for r in rows]
    if len(set(names)) != len(names):
        raise Violation(f"interaction names are not unique: {names}")
    if len(rows) != len(ref.rows):
        raise Violation(f"{len(rows)} interactions {names}, expected {len(ref.rows)}")
    out = []
    left = list(rows)
    for r in sorted(ref.rows, key=lambda r: r["name"] is None):
        for i, g in enumerate(left):
            if (r["name"] is None or g["name"] == r["name"]) and row_equal(g, r):
                out.append((g["name"], r))
                left.pop(i)
                break
        else:
            raise Violation(f"no interaction {r} among {left}")
    return out


def check(real, ref, what=""):
    m = real.m
    if m.get_mtype() != ref.mtype:
        raise Violation(f"{what}model type is {m.get_mtype()}, expected {ref.mtype}")
    shapes = {k: tuple(v.shape) for k, v in m.get_variables().items()}
    if shapes != {k: tuple(v) for k, v in ref.arrays.items()}:
        raise Violation(f"{what}variable arrays {shapes}, expected {ref.arrays}")
    for k, arr in m.get_variables().items():
        kinds = {v.__class__.__name__ for v in flat(arr.bit_list)}
        if kinds - {"Spin" if ref.mtype == "ising" else "Binary"}:
            raise Violation(f"{what}variables {k} of a {ref.mtype} model are {kinds}")
    cons = {k: constraint_labels(c) for k, c in m.get_constraints().items()}
    exp = {k: {x: sorted(v) for x, v in p.items() if x.startswith("vars")} for k, (kind, p) in ref.constraints.items()}
    if cons != exp:
        raise Violation(f"{what}constraints {cons}, expected {exp}")
    if not ref.converted and not any(isinstance(v, PH) for v in (ref.offset,)) and not close(real.offset(), ref.offset):
        raise Violation(f"{what}offset {m.get_offset()}, expected {ref.offset}")
    if sorted(m.get_deleted_array()) != sorted(ref.deleted) or sorted(m.get_fixed_array()) != sorted(ref.fixed):
        raise Violation(f"{what}deleted {m.get_deleted_array()} fixed {m.get_fixed_array()}, expected {ref.deleted} {list(ref.fixed)}")
    return match(real, ref)


def flat(l):
    for i in l:
        if isinstance(i, (list, tuple)) or hasattr(i, "bit_list"):
            yield from flat(i.bit_list if hasattr(i, "bit_list") else i)
        else:
            yield i


def energy(real, ref, what="energy differs: "):
    d = poly_diff(real.poly(dict(ENV)), ref.energy(ENV), modulo_constant=ref.modulo_constant())
    if d:
        raise Violation(what + d)


def attempt(ra, fa, rb, fb, cov):
    cov.step()
    CLOCK.now += 10.0
    try:
        ref_merge(fa, fb)
        refused = False
    except Refused:
        refused = True
    try:
        ra.m.merge(rb.m)
        err = None
    except Exception as e:  # noqa: BLE001
        err = e
    if refused != (err is not None):
        raise Violation(f"merge: {'accepted but must be refused' if refused else f'raised {err!r}'}")
    return refused


def run_pair(case, cov):
    sa, sb, edits = case
    fresh_clock()
    ra, fa = build(sa)
    if sb == "self":
        rb, fb = ra, fa
    else:
        rb, fb = build(sb)
    refused = attempt(ra, fa, rb, fb, cov)
    cov.trace()
    cov.outcome("refused" if refused else "merged")
    cov.state((fa.canon(), fb.canon()))
    rows = check(ra, fa)
    check(rb, fb, "the other model: ")
    if not edits:
        energy(ra, fa)
        energy(rb, fb, "energy of the other model differs: ")
        energy(ra, fa, "second conversion: energy differs: ")
        return
    if refused:
        return
    # every interaction can be updated and removed individually
    for i, (name, r) in enumerate(rows):
        if r["removed"]:
            continue
        CLOCK.now += 10.0
        if i % 2 == 0:
            ra.m.update_interaction(name=name, coefficient=unit(100.0 + i), scale=2.0)
            r.update(coef=100.0 + i, scale=2.0, ts=CLOCK.now, dirty=True)
        else:
            ra.m.remove_interaction(name=name)
            r["removed"] = True
        cov.step()
        if sb != "self":
            check(rb, fb, "the other model: ")
    energy(ra, fa, "after individual updates and removals energy differs: ")
    if sb != "self":
        energy(rb, fb, "edits of the merged model changed the other one: ")


def run_chain(case, cov):
    specs, steps = case
    fresh_clock()
    ms = [build(s) for s in specs]
    for st in steps:
        if st[0] == "merge":
            ra, fa = ms[st[1]]
            rb, fb = ms[st[2]]
            attempt(ra, fa, rb, fb, cov)
        else:
            CLOCK.now += 10.0
            for m in (ms[st[1]][0], ms[st[1]][1]):
                m.apply(tuple(st[2]))
            cov.step()
    cov.trace()
    cov.state(tuple(f.canon() for _, f in ms))
    for r, f in ms:
        check(r, f)
    for r, f in ms:
        energy(r, f)


def SLICES(tier):
    q = tier == "quick"
    names = list(CAT)
    specs = [(n, mt) for n in names for mt in ("ising", "qubo")]

    def pairs(edits):
        for a in specs:
            yield (a, "self", edits)
            for b in specs:
                yield (a, b, edits)

    def chains():
        base = ["lin", "quad", "attr", "con2", "removed"]
        steps = [("merge", 0, 1), ("merge", 1, 0), ("merge", 0, 2), ("merge", 2, 1), ("merge", 0, 0), ("phys", 0, ("phys", ENV)), ("conv", 0, ("qubo",)), ("conv", 1, ("ising",))]
        depth = 3
        for tri in itertools.product(base, repeat=3):
            for mts in (("ising", "ising", "ising"), ("qubo", "ising", "qubo")):
                sp = [list(z) for z in zip(tri, mts)]
                for h in itertools.product(steps, repeat=depth):
                    if sum(s[0] == "merge" for s in h) < 2:
                        continue
                    yield (sp, [list(s) for s in h])

    def two():
        """all histories of merges, conversions and physical conversions over two models of every type"""
        steps = [("merge", 0, 1), ("merge", 1, 0), ("merge", 0, 0), ("merge", 1, 1), ("phys", 0, ("phys", ENV)), ("phys", 1, ("phys", ENV)), ("conv", 0, ("qubo",)), ("conv", 0, ("ising",))]
        base = ["quad", "attr", "ph"] if q else ["quad", "attr", "ph", "con", "removed", "two", "lin2"]
        for a, b in itertools.product(base, repeat=2):
            for mts in itertools.product(("ising", "qubo"), repeat=2):
                for n in range(1, 4):
                    for h in itertools.product(steps, repeat=n):
                        if any(s[0] == "merge" for s in h):
                            if n == 3 and q and (a, b) != ("quad", "attr"):
                                continue
                            yield ([[a, mts[0]], [b, mts[1]]], [list(s) for s in h])

    def sizes():
        ns = (6, 8, 9, 17) if q else (6, 7, 8, 9, 10, 16, 17, 33, 40)
        for a, b in itertools.product(ns, repeat=2):
            for mts in (("ising", "ising"), ("qubo", "ising")):
                for edits in (False, True):
                    if a != b and not (edits and q and a * b > 150):
                        yield ((f"size{a}", mts[0]), (f"size{b}", mts[1]), edits)
        for n in ns[:3]:
            for k in CAT:
                yield ((f"size{n}", "qubo"), (k, "qubo"), False)
                yield ((k, "ising"), (f"size{n}", "ising"), False)
                yield ((f"size{n}", "ising"), (k, "qubo"), False)

    def long():
        """one model that merges many others, one after the other"""
        for k in (5, 9) if q else (5, 9, 17):
            for base, other in itertools.product(("lin", "quad", "attr", "two"), ("lin", "quad", "attr", "removed", "named", "grown")):
                for mts in (("ising", "ising"), ("qubo", "ising")):
                    yield ([[base, mts[0]], [other, mts[1]]], [["merge", 0, 1]] * k)

    out = [
        Slice("sizes", sizes, run_pair, "all ordered pairs of models of 6 to 17 (thorough 40) variables per row with 3n interactions and n-1 constraints, and each with every small model"),
        Slice("units-small", lambda: pairs(True), in_unit(run_pair, -45), "all ordered pairs of the models, edited with all energies multiplied by 2**-45"),
        Slice("units-large", lambda: pairs(True), in_unit(run_pair, 45), "all ordered pairs of the models, edited with all energies multiplied by 2**45"),
        Slice("many", long, run_chain, "a model merged up to 9 (thorough 17) times into another"),
        Slice("pairs", lambda: pairs(False), run_pair, f"all ordered pairs (and self-merges) of {len(specs)} models"),
        Slice("pairs-edited", lambda: pairs(True), run_pair, f"all ordered pairs of {len(specs)} models, then every interaction updated or removed by its name"),
        Slice("two-models", two, run_chain, "all histories of merges and conversions of length <= 3 on two models"),
    ]
    if not q:
        out.append(Slice("three-models", chains, run_chain, "all histories of length 3 with at least two merges over all triples of the base models"))
    return out
