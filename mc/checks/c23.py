"""C23: variable arrays have the declared shape, labels and type and grow in place."""
import itertools

from mc.core import Slice, Violation
from mc.lm import CLOCK, fresh_clock, poly_diff, poly_of_bqm

ASSUMPTIONS = ["an array is not declared again under a name whose variables were deleted or fixed", "a variable is deleted or fixed, not both"]


def indices(shape):
    return itertools.product(*[range(d) for d in shape])


def elem(array, idx):
    return array[idx] if len(idx) > 1 else array[idx[0]]


def lab(name, idx):
    return name + "".join(f"[{i}]" for i in idx)


class Model:
    """reference: shapes, deleted and fixed labels, energy terms (before conversions)"""

    def __init__(self, mtype):
        self.mtype, self.shapes, self.deleted, self.fixed = mtype, {}, set(), {}
        self.terms = 0


def check(m, ref):
    import pyqubo

    arrays = m.get_variables()
    if set(arrays) != set(ref.shapes):
        raise Violation(f"the arrays are {sorted(arrays)}, expected {sorted(ref.shapes)}")
    cls, other = (pyqubo.Spin, pyqubo.Binary) if ref.mtype == "ising" else (pyqubo.Binary, pyqubo.Spin)
    total, labels = 0, []
    for name, shape in ref.shapes.items():
        a = m.get_variables_by_name(name)
        if tuple(a.shape) != tuple(shape):
            raise Violation(f"the shape of {name} is {a.shape}, expected {shape}")
        for idx in indices(shape):
            v = elem(a, idx)
            if not isinstance(v, cls):
                raise Violation(f"{lab(name, idx)} is a {type(v).__name__} in a model of type {ref.mtype}")
            if v.label != lab(name, idx):
                raise Violation(f"the label at {idx} of {name} is {v.label}")
            labels.append(v.label)
            total += 1
        over = tuple(d for d in shape)
        try:
            elem(a, over if len(over) == 1 else over)
        except (IndexError, ValueError):
            pass
        else:
            raise Violation(f"{name} has an element beyond its shape {shape}")
    if len(set(labels)) != len(labels):
        raise Violation("labels are not unique")
    got = (m.get_all_size(), m.get_deleted_size(), m.get_fixed_size(), m.get_size())
    want = (total, len(ref.deleted), len(ref.fixed), total - len(ref.deleted) - len(ref.fixed))
    if got != want:
        raise Violation(f"the sizes (all, deleted, fixed, live) are {got}, expected {want}")
    if set(m.get_deleted_array()) != ref.deleted or set(m.get_fixed_array()) != set(ref.fixed):
        raise Violation(f"deleted {m.get_deleted_array()} and fixed {m.get_fixed_array()}, expected {ref.deleted} and {sorted(ref.fixed)}")


def energy(m):
    import copy

    return poly_of_bqm(copy.deepcopy(m).to_physical().to_bqm())


def run(case, cov):
    import pyqubo

    from sawatabi.model import LogicalModel

    mtype, ops = case
    fresh_clock()
    m, ref = LogicalModel(mtype=mtype), Model(mtype)
    handles = {}
    for op in ops:
        CLOCK.now += 10
        before = energy(m)
        grown = op[0] in ("vars", "append", "arr", "npappend")
        if op[0] == "vars":
            a = m.variables(op[1], shape=tuple(op[2]))
            ref.shapes[op[1]] = tuple(op[2])
        elif op[0] == "arr":
            a = m.variables(pyqubo.Array.create(op[1], shape=tuple(op[2]), vartype="SPIN" if ref.mtype == "ising" else "BINARY"))
            ref.shapes[op[1]] = tuple(op[2])
        elif op[0] == "badarr":
            try:
                m.variables(pyqubo.Array.create(op[1], shape=tuple(op[2]), vartype="BINARY" if ref.mtype == "ising" else "SPIN"))
            except TypeError:
                pass
            else:
                raise Violation("an array of the other type was accepted")
        elif op[0] in ("append", "npappend"):
            old = ref.shapes.get(op[1])
            if old is not None and len(old) != len(op[2]):
                try:
                    m.append(op[1], shape=tuple(op[2]))
                except ValueError:
                    pass
                else:
                    raise Violation(f"{op} was accepted for the shape {old}")
                check(m, ref)
                continue
            shape = tuple(op[2])
            if op[0] == "npappend" and old is not None:
                import numpy as np

                shape = tuple(np.int64(s) for s in shape)
            a = m.append(op[1], shape=shape)
            ref.shapes[op[1]] = tuple(op[2]) if old is None else tuple(x + y for x, y in zip(old, op[2]))
        elif op[0] == "conv":
            ref.mtype = "qubo" if ref.mtype == "ising" else "ising"
            m.to_qubo() if ref.mtype == "qubo" else m.to_ising()
            ref.fixed = {k: v for k, v in ref.fixed.items()}
            handles = {}
        elif op[0] in ("del", "fix", "add", "pair"):
            name, pick = op[1], op[2]
            idxs = [i for i in indices(ref.shapes.get(name, ()))] if name in ref.shapes else []
            free = [i for i in idxs if lab(name, i) not in ref.deleted and lab(name, i) not in ref.fixed]
            if not free:
                continue
            idx = free[pick % len(free)] if pick >= 0 else free[-1]
            v = elem(m.get_variables_by_name(name), idx)
            if op[0] == "del":
                m.delete_variable(v)
                m.delete_variable(v)  # deleting twice is deleting once
                ref.deleted.add(lab(name, idx))
            elif op[0] == "fix":
                m.fix_variable(v, 1)
                ref.fixed[lab(name, idx)] = 1
            elif op[0] == "add":
                v = handles.get(v.label, v)  # a handle from before the growth
                m.add_interaction(v, name=f"t{ref.terms}", coefficient=1.5 + ref.terms)
                want = dict(before)
                want[(v.label,)] = want.get((v.label,), 0.0) - (1.5 + ref.terms)
                ref.terms += 1
                d = poly_diff(energy(m), want)
                if d:
                    raise Violation(f"adding an interaction on {v.label} gives another problem: {d}")
            else:
                w = elem(m.get_variables_by_name(name), free[-1])
                if w.label != v.label:
                    m.add_interaction((v, w), name=f"t{ref.terms}", coefficient=-0.5)
                    ref.terms += 1
        if grown:
            b = m.get_variables_by_name(op[1])
            if tuple(a.shape) != tuple(b.shape) or any(elem(a, i).label != elem(b, i).label for i in indices(b.shape)):
                raise Violation(f"{op} returned another array than the model has")
            d = poly_diff(energy(m), before)
            if d:
                raise Violation(f"{op} changed the problem: {d}")
            for lb, h in handles.items():
                n, rest = lb.split("[", 1)
                idx = tuple(int(k) for k in ("[" + rest).strip("[]").split("]["))
                if n in ref.shapes and len(idx) == len(ref.shapes[n]) and all(i < s for i, s in zip(idx, ref.shapes[n])) and not elem(m.get_variables_by_name(n), idx) == h:
                    raise Violation(f"{op} replaced the element {lb}")
        check(m, ref)
        if grown:
            for n, s in ref.shapes.items():
                for idx in indices(s):
                    handles.setdefault(lab(n, idx), elem(m.get_variables_by_name(n), idx))
        cov.step()
    cov.trace()
    cov.state((ref.mtype, sorted(ref.shapes.items()), sorted(ref.deleted), sorted(ref.fixed), ref.terms))
    cov.outcome(tuple(sorted(len(s) for s in ref.shapes.values())))


def valid(ops):
    """declare an array (again) only while none of its variables is deleted or fixed"""
    touched = set()
    for op in ops:
        if op[0] in ("vars", "arr") and op[1] in touched:
            return False
        if op[0] in ("del", "fix", "add", "pair"):
            touched.add(op[1])
    return True


def SLICES(tier):
    q = tier == "quick"
    types = ("ising", "qubo")
    S1, S2, S3 = [(1,), (2,), (3,)], [(1, 1), (2, 1), (1, 2), (2, 3)], [(1, 1, 1), (2, 1, 2), (1, 3, 1)]
    S4 = [(1, 1, 1, 1), (2, 1, 1, 3), (1, 2, 2, 1), (2, 2, 2, 2)]
    S5 = [(1, 2, 1, 1, 2)]
    A4, A5 = [(0, 0, 0, 1), (1, 0, 1, 0), (0, 0, 0, 0)], [(0, 0, 1, 0, 1)]
    A1, A2, A3 = [(1,), (2,), (0,)], [(1, 0), (0, 1), (2, 1), (0, 0)], [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)]

    def shapes():
        for mt in types:
            for first in ("vars", "append", "arr"):
                for S, A in ((S1, A1), (S2, A2), (S3, A3), (S4, A4), (S5, A5)):
                    for s in S:
                        yield (mt, [(first, "x", s)])
                        for a in A:
                            for kind in ("append", "npappend"):
                                yield (mt, [(first, "x", s), (kind, "x", a)])
                            for b in A:
                                yield (mt, [(first, "x", s), ("add", "x", 0), ("append", "x", a), ("pair", "x", 0), ("append", "x", b), ("add", "x", 0)])
            for s, t in itertools.product(S1 + S2 + S3 + S4[:2], repeat=2):
                yield (mt, [("vars", "x", s), ("vars", "x", t)])
                yield (mt, [("vars", "x", s), ("append", "x", t)])
                yield (mt, [("vars", "x", s), ("vars", "xy", t), ("append", "x", s)])
                yield (mt, [("badarr", "x", s), ("vars", "y", t)])
            for s in range(1, 13):
                yield (mt, [("vars", "x", (s,)), ("append", "x", (s,)), ("add", "x", -1)])
            yield (mt, [("vars", "x", (11, 2)), ("append", "x", (1, 9)), ("add", "x", -1)])

    ALPHA = [("append", "x", (1,)), ("append", "y", (0, 1)), ("conv",), ("del", "x", 0), ("fix", "x", 0), ("del", "y", 1), ("fix", "y", -1), ("add", "x", 0), ("add", "y", 1), ("pair", "x", 0), ("append", "z", (2,)), ("vars", "w", (1, 2))]

    def hist(depth, mind=0):
        def g():
            for n in range(mind, depth + 1):
                for ops in itertools.product(ALPHA, repeat=n):
                    if valid(ops):
                        for mt in types if n < 4 else types[:1]:
                            yield (mt, [("vars", "x", (2,)), ("vars", "y", (1, 2))] + list(ops))
        return g

    return [
        Slice("shapes", shapes, run, "arrays of up to 5 dimensions declared in 3 ways and grown up to twice"),
        Slice("histories", hist(3 if q else 4), run, f"all histories of up to {3 if q else 4} operations over {len(ALPHA)} operations on two arrays"),
    ]
