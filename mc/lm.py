"""
Driver (Real) and reference model (Ref) for logical models.

An operation is a tuple (kind, ...) of plain data; it is applied to the real model through its public API
and to the reference model, and both must agree on whether it is refused.  Targets are short strings:
"x0" is x[0], "y01" is y[0][1], "x0.x1" is the pair in that order.
"""
import math
import time

from mc.core import Violation

TOL = 1e-9

# Everything the real model is given (coefficients, offset, strengths) is multiplied by UNIT and what it answers is
# divided by it.  It is a power of two, so that the arithmetic of a correct implementation is exactly the same.
UNIT = 1.0


def in_unit(run, exponent):
    """The same cases with all energies multiplied by 2**exponent."""

    def scaled(case, cov):
        global UNIT
        UNIT = 2.0 ** exponent
        try:
            run(case, cov)
        finally:
            UNIT = 1.0

    return scaled


def unit(v):
    return v if UNIT == 1.0 else v * UNIT


# ------------------------------------------------------------------------------------------------
# Clock
# ------------------------------------------------------------------------------------------------
class Clock:
    """The environment's clock.  It stands still unless the driver moves it."""

    real_time = staticmethod(time.time)

    def __init__(self):
        self.now = 1000.0

    def install(self):
        time.time = self
        return self

    def __call__(self):
        return self.now

    def ok(self, ts, expected):
        """ts is the frozen time, or (if the code reads another clock) the real present."""
        return ts == expected or abs(ts - self.real_time()) < 30.0


CLOCK = Clock()


def fresh_clock():
    CLOCK.now = 1000.625  # not a whole second
    CLOCK.install()


# ------------------------------------------------------------------------------------------------
# Polynomials: {sorted tuple of labels: coefficient}
# ------------------------------------------------------------------------------------------------
def padd(p, key, c):
    p[key] = p.get(key, 0.0) + c


def poly_of_bqm(bqm):
    p = {(): float(bqm.offset) / UNIT}
    for k, v in bqm.linear.items():
        padd(p, (k,), float(v) / UNIT)
    for (a, b), v in bqm.quadratic.items():
        padd(p, tuple(sorted((a, b))), float(v) / UNIT)
    return p


def poly_scale(p):
    return max([1.0] + [abs(v) for v in p.values()])


def poly_diff(p, q, modulo_constant=False, atol=TOL):
    """None if equal, otherwise a description."""
    out = []
    for k in sorted(set(p) | set(q)):
        if modulo_constant and k == ():
            continue
        a, b = p.get(k, 0.0), q.get(k, 0.0)
        if not (abs(a - b) <= atol + TOL * max(abs(a), abs(b))):
            out.append(f"{'*'.join(k) or 'constant'}: got {a!r}, expected {b!r}")
    return "; ".join(out) or None


def poly_restrict(p, label, value):
    q = {}
    for k, v in p.items():
        if label in k:
            padd(q, tuple(x for x in k if x != label), v * value)
        else:
            padd(q, k, v)
    return q


def poly_drop(p, label):
    return {k: v for k, v in p.items() if label not in k}


def poly_to_ising(p):
    """x = (s+1)/2"""
    q = {}
    for k, v in p.items():
        if len(k) == 0:
            padd(q, (), v)
        elif len(k) == 1:
            padd(q, k, v / 2)
            padd(q, (), v / 2)
        else:
            padd(q, k, v / 4)
            padd(q, (k[0],), v / 4)
            padd(q, (k[1],), v / 4)
            padd(q, (), v / 4)
    return q


def poly_to_qubo(p):
    """s = 2x-1"""
    q = {}
    for k, v in p.items():
        if len(k) == 0:
            padd(q, (), v)
        elif len(k) == 1:
            padd(q, k, 2 * v)
            padd(q, (), -v)
        else:
            padd(q, k, 4 * v)
            padd(q, (k[0],), -2 * v)
            padd(q, (k[1],), -2 * v)
            padd(q, (), v)
    return q


def poly_sum(*ps):
    q = {}
    for p in ps:
        for k, v in p.items():
            padd(q, k, v)
    return q


def poly_eval(p, assignment):
    e = 0.0
    for k, v in p.items():
        t = v
        for x in k:
            t *= assignment[x]
        e += t
    return e


def constraint_poly(kind, params):
    """The penalty in binary variables (multilinear, x^2 = x), constant included."""
    q = {}
    if kind == "boom":
        return q

    def square(lin, const, strength):  # strength * (sum lin + const)^2
        items = sorted(lin.items())
        for i, (a, ca) in enumerate(items):
            padd(q, (a,), strength * (ca * ca + 2 * const * ca))
            for b, cb in items[i + 1:]:
                padd(q, (a, b), strength * 2 * ca * cb)
        padd(q, (), strength * const * const)

    if kind == "nhot":
        square({v: 1.0 for v in params["vars"]}, -float(params["n"]), params["strength"])
    elif kind == "eq":
        lin = {}
        for v in params["vars1"]:
            lin[v] = lin.get(v, 0.0) + 1.0
        for v in params["vars2"]:
            lin[v] = lin.get(v, 0.0) - 1.0
        square({k: c for k, c in lin.items() if c}, 0.0, params["strength"])
    elif kind == "zoo":
        vs = sorted(params["vars"])
        for i, a in enumerate(vs):
            for b in vs[i + 1:]:
                padd(q, (a, b), 2.0 * params["strength"])
    else:
        raise AssertionError(kind)
    return q


# ------------------------------------------------------------------------------------------------
# Names
# ------------------------------------------------------------------------------------------------
def split_target(t):
    """'x0' -> ('x', (0,)), 'y01' -> ('y', (0, 1)), 'ab:10,2' -> ('ab', (10, 2))"""
    if ":" in t:
        name, idx = t.split(":")
        return name, tuple(int(i) for i in idx.split(","))
    name = t.rstrip("0123456789")
    return name, tuple(int(d) for d in t[len(name):])


def label(t):
    """'x0' -> 'x[0]', 'y01' -> 'y[0][1]'"""
    name, idx = split_target(t)
    return name + "".join(f"[{d}]" for d in idx)


class PH:
    """Reference value that depends on placeholders: a function of the environment."""

    def __init__(self, fn):
        self.fn = fn

    def _bin(self, o, f):
        return PH(lambda env: f(self.fn(env), resolve(o, env)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __neg__(self):
        return PH(lambda env: -self.fn(env))


class MissingPlaceholder(Exception):
    pass


def resolve(v, env):
    return v.fn(env) if isinstance(v, PH) else v


def _lookup(name):
    def fn(env):
        if env is None or name not in env:
            raise MissingPlaceholder(name)
        return env[name]

    return fn


def decode(v):
    """
    Data -> value for the real code: ("np", "float64", 0.25) is numpy.float64(0.25), ("ph", "A") a placeholder,
    ("+", a, b) and ("*", a, b) expressions of placeholders, ("coef", e) such an expression as PyQUBO compiles it;
    everything else is itself.
    """
    if isinstance(v, (list, tuple)) and v:
        if v[0] == "np":
            import numpy as np

            return getattr(np, v[1])(v[2])
        import pyqubo

        if v[0] == "ph":
            return pyqubo.Placeholder(v[1])
        if v[0] == "+":
            return decode(v[1]) + decode(v[2])
        if v[0] == "-":
            return decode(v[1]) - decode(v[2])
        if v[0] == "*":
            return decode(v[1]) * decode(v[2])
        if v[0] == "coef":
            return decode(v[1])._compile_param()
    return v


def plain(v):
    """Data -> value for the reference model."""
    if isinstance(v, (list, tuple)) and v:
        if v[0] == "np":
            return v[2]
        if v[0] == "ph":
            return PH(_lookup(v[1]))
        if v[0] == "+":
            return plain(v[1]) + plain(v[2])
        if v[0] == "-":
            return plain(v[1]) - plain(v[2])
        if v[0] == "*":
            return plain(v[1]) * plain(v[2])
        if v[0] == "coef":
            return plain(v[1])
    return v


def target_labels(t):
    return tuple(label(u) for u in t.split("."))


def key_of(t):
    ls = target_labels(t)
    return ls[0] if len(ls) == 1 else tuple(sorted(ls))


def default_name(t):
    k = key_of(t)
    return k if isinstance(k, str) else f"{k[0]}*{k[1]}"


class Refused(Exception):
    pass


NAN = float("nan")


# ------------------------------------------------------------------------------------------------
# Reference model
# ------------------------------------------------------------------------------------------------
class Ref:
    def __init__(self, mtype, arrays):
        self.mtype = mtype
        self.arrays = {k: tuple(v) for k, v in arrays.items()}
        self.rows = []  # dicts: name key coef scale attrs ts removed dirty
        self.offset = 0.0
        self.true_minus_pinned = 0.0  # see C06: the constant of type conversions
        self.converted = False
        self.deleted = []
        self.fixed = {}
        self.constraints = {}
        self.now = CLOCK.now

    # -- helpers
    def _row(self, name):
        for r in self.rows:
            if r["name"] == name:
                return r
        return None

    def _add(self, name, key, coef, scale, attrs, ts):
        self.rows.append({"name": name, "key": key, "coef": coef, "scale": scale, "attrs": dict(attrs or {}), "ts": ts, "removed": False, "dirty": True})

    # -- operations
    def apply(self, op):
        self.now = CLOCK.now
        return getattr(self, "op_" + op[0])(*op[1:])

    def op_add(self, t, kw=None):
        kw = kw or {}
        name = kw.get("name") or default_name(t)
        if self._row(name):
            raise Refused()
        self._add(name, key_of(t), plain(kw.get("c", 0.0)), plain(kw.get("s", 1.0)), kw.get("a"), kw["t"] if kw.get("t") is not None else self.now)

    def op_upd(self, t, kw=None):
        kw = kw or {}
        r = self._row(default_name(t))
        if r is None:
            k2 = {"c": kw.get("c") if kw.get("c") is not None else 0.0, "s": kw.get("s") if kw.get("s") is not None else 1.0, "a": kw.get("a"), "t": kw.get("t")}
            return self.op_add(t, k2)
        self._upd(r, kw)

    def op_updn(self, name, kw=None):
        r = self._row(name)
        if r is None:
            raise Refused()
        self._upd(r, kw or {})

    def _upd(self, r, kw):
        if r["removed"]:
            raise Refused()
        if kw.get("c") is not None:
            r["coef"] = plain(kw["c"])
        if kw.get("s") is not None:
            r["scale"] = plain(kw["s"])
        if kw.get("a") is not None:
            r["attrs"].update(kw["a"])
        r["ts"] = kw["t"] if kw.get("t") is not None else self.now
        r["dirty"] = True

    def op_rm(self, t):
        self.op_rmn(default_name(t))

    def op_rmn(self, name):
        r = self._row(name)
        if r is None:
            raise Refused()
        r["removed"] = True
        r["dirty"] = True

    def op_off(self, v):
        self.offset = plain(v)
        self.true_minus_pinned = 0.0

    def op_phys(self, placeholder=None):
        if any(kind == "boom" for kind, _ in self.constraints.values()):
            raise Refused()
        try:
            self.poly(placeholder)
        except MissingPlaceholder:
            raise Refused()
        self.rows = [r for r in self.rows if not r["removed"]]
        for r in self.rows:
            r["dirty"] = False

    def op_bad(self, *a):
        raise Refused()

    def op_select(self, *a):
        pass

    def op_del(self, t):
        lb = label(t)
        if lb not in self.deleted:
            self.deleted.append(lb)
        for kind, params in self.constraints.values():
            for k in ("vars", "vars1", "vars2"):
                if k in params:
                    params[k] = [v for v in params[k] if v != lb]
        for r in self.rows:
            if r["key"] == lb or (isinstance(r["key"], tuple) and lb in r["key"]):
                r["removed"] = True
                r["dirty"] = True

    def op_fix(self, t, value):
        value = plain(value)
        if value not in ((1, -1) if self.mtype == "ising" else (1, 0)):
            raise Refused()
        lb = label(t)
        self.fixed[lb] = value
        for r in list(self.rows):
            if r["removed"]:
                continue
            if r["key"] == lb:
                self.offset += -value * r["coef"] * r["scale"]
                r["removed"] = r["dirty"] = True
            elif isinstance(r["key"], tuple) and lb in r["key"]:
                r["removed"] = r["dirty"] = True
                if value != 0:
                    other = [k for k in r["key"] if k != lb][0]
                    self._add(None, other, value * r["coef"] * r["scale"], 1.0, None, None)

    def op_con(self, clabel, kind, params):
        p = {k: (list(dict.fromkeys(label(v) for v in vs)) if k.startswith("vars") else vs) for k, vs in params.items()}
        p.setdefault("strength", 1.0)
        self.constraints[clabel] = (kind, p)

    def op_rmcon(self, clabel):
        if clabel not in self.constraints:
            raise Refused()
        del self.constraints[clabel]

    def op_ising(self):
        if self.mtype == "ising":
            return
        self.mtype = "ising"
        self.converted = True
        self.fixed = {k: (1 if v == 1 else -1) for k, v in self.fixed.items()}
        for r in [r for r in self.rows if not r["removed"]]:
            c, s = r["coef"], r["scale"]
            if isinstance(r["key"], tuple):
                r["coef"] = c * 0.25
                for k in r["key"]:
                    self._add(None, k, c * 0.25, s, None, None)
                const = c * s * 0.25
            else:
                r["coef"] = c * 0.5
                const = c * s * 0.5
            r["ts"] = None
            r["dirty"] = True
            # energy is offset - sum(...): the true constant is -const; the repository's own tests pin +const
            self.offset += const
            self.true_minus_pinned += -2.0 * const

    def op_qubo(self):
        if self.mtype == "qubo":
            return
        self.mtype = "qubo"
        self.converted = True
        self.fixed = {k: (1 if v == 1 else 0) for k, v in self.fixed.items()}
        for r in [r for r in self.rows if not r["removed"]]:
            c, s = r["coef"], r["scale"]
            if isinstance(r["key"], tuple):
                r["coef"] = c * 4.0
                for k in r["key"]:
                    self._add(None, k, -c * 2.0, s, None, None)
                const = c * s
                self.offset += const
                self.true_minus_pinned += -2.0 * const
            else:
                r["coef"] = c * 2.0
                const = c * s
                self.offset -= const
                self.true_minus_pinned += 2.0 * const
            r["ts"] = None
            r["dirty"] = True

    # -- observations
    def poly(self, env=None):
        """Energy of the interactions and offset (without constraints)."""
        p = {(): float(resolve(self.offset, env))}
        for r in self.rows:
            if not r["removed"]:
                k = r["key"] if isinstance(r["key"], tuple) else (r["key"],)
                padd(p, k, -(resolve(r["coef"], env) * resolve(r["scale"], env)))
        return p

    def constraint_poly(self):
        q = {}
        for kind, params in self.constraints.values():
            c = constraint_poly(kind, params)
            for lb, v in self.fixed.items():
                c = poly_restrict(c, lb, 1 if v == 1 else 0)
            q = poly_sum(q, c)
        return poly_to_ising(q) if self.mtype == "ising" else q

    def energy(self, env=None):
        return poly_sum(self.poly(env), self.constraint_poly())

    def modulo_constant(self):
        return self.converted or bool(self.constraints)

    def all_size(self):
        n = 0
        for sh in self.arrays.values():
            k = 1
            for d in sh:
                k *= d
            n += k
        return n

    def canon(self):
        def show(v):
            return "placeholder" if isinstance(v, PH) else v

        rows = tuple((r["name"], r["key"], show(r["coef"]), show(r["scale"]), tuple(sorted(r["attrs"].items(), key=str)), r["removed"], r["dirty"]) for r in self.rows)
        return (self.mtype, tuple(sorted(self.arrays.items())), rows, show(self.offset), tuple(self.deleted), tuple(sorted(self.fixed.items())),
                repr(self.constraints))


# ------------------------------------------------------------------------------------------------
# Driver of the real model
# ------------------------------------------------------------------------------------------------
def make_constraint(kind, params, var, clabel):
    from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint

    st = unit(params.get("strength", 1.0))
    if kind == "nhot":
        return NHotConstraint(variables=[var(v) for v in params["vars"]] or None, n=params["n"], label=clabel, strength=st)
    if kind == "eq":
        return EqualityConstraint(variables_1=[var(v) for v in params["vars1"]] or None, variables_2=[var(v) for v in params["vars2"]] or None, label=clabel, strength=st)
    if kind == "zoo":
        return ZeroOrOneHotConstraint(variables=[var(v) for v in params["vars"]] or None, label=clabel, strength=st)
    if kind == "boom":
        return boom_class()(label=clabel)
    raise AssertionError(kind)


_BOOM = []


def boom_class():
    """A user-defined constraint whose conversion fails."""
    from sawatabi.model.constraint import AbstractConstraint

    if not _BOOM:

        class Boom(AbstractConstraint):
            def to_model(self):
                raise RuntimeError("this constraint cannot be converted")

            def remove_variable(self, variables):
                pass

            def discard_variable(self, label):
                pass

        _BOOM.append(Boom)
    return _BOOM[0]


class Real:
    def __init__(self, mtype, arrays):
        from sawatabi.model import LogicalModel

        self.m = LogicalModel(mtype=mtype)
        for name, shape in arrays.items():
            self.m.variables(name, shape=tuple(shape))

    def var(self, t):
        name, idx = split_target(t)
        a = self.m.get_variables_by_name(name)
        return a[idx] if len(idx) > 1 else a[idx[0]]

    def target(self, t):
        us = t.split(".")
        return self.var(us[0]) if len(us) == 1 else tuple(self.var(u) for u in us)

    @staticmethod
    def kw(kw):
        kw = kw or {}
        out = {}
        for a, b in (("name", "name"), ("c", "coefficient"), ("s", "scale"), ("a", "attributes"), ("t", "timestamp")):
            if a in kw:
                out[b] = dict(kw[a]) if isinstance(kw[a], dict) else unit(decode(kw[a])) if a == "c" else decode(kw[a])
        return out

    def apply(self, op):
        return getattr(self, "op_" + op[0])(*op[1:])

    def op_add(self, t, kw=None):
        self.m.add_interaction(self.target(t), **self.kw(kw))

    def op_upd(self, t, kw=None):
        self.m.update_interaction(self.target(t), **self.kw(kw))

    def op_updn(self, name, kw=None):
        self.m.update_interaction(name=name, **self.kw(kw))

    def op_rm(self, t):
        self.m.remove_interaction(self.target(t))

    def op_rmn(self, name):
        self.m.remove_interaction(name=name)

    def op_off(self, v):
        self.m.offset(unit(decode(v)))

    def op_phys(self, placeholder=None):
        return self.m.to_physical(placeholder) if placeholder is not None else self.m.to_physical()

    def op_select(self, *a):
        self.m.select_interaction("body > 0")
        repr(self.m)
        str(self.m)

    def op_del(self, t):
        self.m.delete_variable(self.var(t))

    def op_fix(self, t, value):
        self.m.fix_variable(self.var(t), decode(value))

    def op_con(self, clabel, kind, params):
        self.m.add_constraint(make_constraint(kind, params, self.var, clabel))

    def op_rmcon(self, clabel):
        self.m.remove_constraint(clabel)

    def op_ising(self):
        self.m.to_ising()

    def op_qubo(self):
        self.m.to_qubo()

    def op_bad(self, what, *args):
        getattr(self, "bad_" + what)(*args)

    # calls that must be refused
    def bad_no_target(self):
        self.m.add_interaction(None, coefficient=1.0)

    def bad_same_pair(self, t):
        self.m.add_interaction((self.var(t), self.var(t)), coefficient=1.0)

    def bad_triple(self, a, b, c):
        self.m.add_interaction((self.var(a), self.var(b), self.var(c)), coefficient=1.0)

    def bad_str_target(self):
        self.m.add_interaction("x[0]", coefficient=1.0)

    def bad_add_coef(self, t):
        self.m.add_interaction(self.target(t), name="never", attributes={"never": 1}, coefficient="1")

    def bad_add_scale(self, t):
        self.m.add_interaction(self.target(t), name="never", attributes={"never": 1}, scale="1")

    def bad_add_ts(self, t):
        self.m.add_interaction(self.target(t), name="never", attributes={"never": 1}, timestamp="1")

    def bad_add_attr(self, t):
        self.m.add_interaction(self.target(t), name="never", attributes=[1])

    def bad_upd_coef(self, t):
        self.m.update_interaction(self.target(t), coefficient="1", scale=7.0, attributes={"never": 1})

    def bad_upd_scale(self, t):
        self.m.update_interaction(self.target(t), coefficient=7.0, scale="1", attributes={"never": 1})

    def bad_upd_ts(self, t):
        self.m.update_interaction(self.target(t), coefficient=7.0, timestamp="1", attributes={"never": 1})

    def bad_upd_attr(self, t):
        self.m.update_interaction(self.target(t), coefficient=7.0, attributes=[1])

    def bad_upd_both(self, t):
        self.m.update_interaction(self.target(t), name=default_name(t), coefficient=7.0, attributes={"never": 1})

    def bad_upd_none(self):
        self.m.update_interaction(coefficient=7.0)

    def bad_upd_name(self):
        self.m.update_interaction(name="unknown", coefficient=7.0, attributes={"never": 1})

    def bad_rm_both(self, t):
        self.m.remove_interaction(self.target(t), name=default_name(t))

    def bad_rm_none(self):
        self.m.remove_interaction()

    def bad_rm_name(self):
        self.m.remove_interaction(name="unknown")

    def bad_del_none(self):
        self.m.delete_variable(None)

    def bad_del_type(self):
        self.m.delete_variable("x[0]")

    def bad_fix_value(self, t, v):
        self.m.fix_variable(self.var(t), v)

    def bad_fix_type(self):
        self.m.fix_variable("x[0]", 1)

    def bad_con_type(self):
        self.m.add_constraint("constraint")

    def bad_rmcon(self):
        self.m.remove_constraint("unknown")

    def _expr(self, *v):
        # products and single variables, in one expression
        e = 3.0 * v[0]
        for k, a in enumerate(v):
            for b in v[k + 1:]:
                e = e + 2.0 * a * b
            e = e + (k + 1.0) * a
        return e + 1.5

    def _foreign(self, name, n):
        import pyqubo

        return pyqubo.Array.create(name, shape=(n,), vartype="SPIN" if self.m.get_mtype() == "ising" else "BINARY")[n - 1]

    def bad_pyqubo_type(self):
        self.m.from_pyqubo("expression")

    def bad_pyqubo_name(self, *ts):
        """refused because some of the interactions exist"""
        self.m.from_pyqubo(self._expr(*(self.var(t) for t in ts)))

    def bad_pyqubo_unknown(self, t):
        self.m.from_pyqubo(self._expr(self.var(t), self._foreign("nowhere", 1)))

    def bad_pyqubo_range(self, t):
        self.m.from_pyqubo(self._expr(self.var(t), self._foreign("x", 78)))

    def bad_merge_self_dims(self):
        from sawatabi.model import LogicalModel

        o = LogicalModel(mtype=self.m.get_mtype())
        w = o.variables("w", shape=(2,))
        x = o.variables("x", shape=(1, 2))
        o.add_interaction(w[0], coefficient=1.0, attributes={"never": 1})
        o.add_interaction(x[0, 1], coefficient=1.0)
        o.offset(9.0)
        self.m.merge(o)

    def bad_merge_label(self):
        from sawatabi.model import LogicalModel
        from sawatabi.model.constraint import NHotConstraint

        o = LogicalModel(mtype="qubo" if self.m.get_mtype() == "ising" else "ising")
        w = o.variables("w", shape=(2,))
        o.add_interaction(w[0], coefficient=1.0, attributes={"never": 1})
        o.add_constraint(NHotConstraint(w, label="e"))
        o.offset(9.0)
        self.m.merge(o)

    def bad_get_attr(self):
        self.m.get_attribute(name="unknown", key="attributes.k")

    def bad_get_attrs(self):
        self.m.get_attributes()

    def bad_array_type(self):
        import pyqubo

        self.m.variables(pyqubo.Array.create("x", shape=(5,), vartype="BINARY" if self.m.get_mtype() == "ising" else "SPIN"))

    def bad_merge_type(self):
        self.m.merge("model")

    def bad_vars_shape(self):
        self.m.variables("z", shape=())

    def bad_vars_type(self):
        self.m.variables("z", shape=("1",))

    def bad_append_dims(self):
        self.m.append("x", shape=(1, 1))

    def bad_select(self):
        self.m.select_interaction("body > 0", fmt="unknown")

    # observations
    def poly(self, placeholder=None):
        return poly_of_bqm(self.op_phys(placeholder).to_bqm())

    def table(self):
        rows = self.m.select_interaction("body > 0").to_dict(orient="records")
        if UNIT != 1.0:
            for r in rows:
                r["coefficient"] = r["coefficient"] / UNIT if isinstance(r["coefficient"], (int, float)) else r["coefficient"]
        return rows

    def offset(self):
        v = self.m.get_offset()
        return v / UNIT if UNIT != 1.0 and isinstance(v, (int, float)) else v


def apply_both(real, ref, op):
    """Applies the operation to both; they must agree on whether it is refused."""
    try:
        ref.apply(op)
        refused = False
    except Refused:
        refused = True
    try:
        real.apply(op)
        error = None
    except Exception as e:  # noqa: BLE001
        error = e
    if refused and error is None:
        raise Violation(f"{op!r} was accepted but must be refused")
    if not refused and error is not None:
        raise Violation(f"{op!r} raised {type(error).__name__}: {error} but must succeed")
    return refused


def same(a, b):
    """Equality with NaN equal to NaN and numeric types interchangeable."""
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    try:
        r = a == b
        return bool(r)
    except Exception:
        return False


def close(a, b):
    if isinstance(b, PH):
        return True  # an expression: decided by the energies of conversions
    try:
        return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))
    except Exception:
        return a == b


def check_table(rows, ref, timestamps=True):
    """The real table rows against the reference rows, matched by name; rows with generated names by content."""
    named = [r for r in ref.rows if r["name"] is not None]
    anon = [r for r in ref.rows if r["name"] is None]
    names = [r["name"] for r in rows]
    if len(set(names)) != len(names):
        raise Violation(f"interaction names are not unique: {names}")
    if len(rows) != len(ref.rows):
        raise Violation(f"the table has {len(rows)} rows {names}, expected {len(ref.rows)}: {[r['name'] for r in ref.rows]}")
    by = {r["name"]: r for r in rows}
    attrs = set()
    for r in rows:
        attrs |= {k for k in r if isinstance(k, str) and k.startswith("attributes.")}
    for r in named:
        g = by.pop(r["name"], None)
        if g is None:
            raise Violation(f"no row named {r['name']!r} in {names}")
        check_row(g, r, attrs, timestamps)
    rest = list(by.values())
    for r in anon:
        for i, g in enumerate(rest):
            if same(g["key"], r["key"]) and close_product(g, r) and bool(g["removed"]) == r["removed"]:
                rest.pop(i)
                break
        else:
            raise Violation(f"no row for the generated interaction {r}; left: {rest}")


def close_product(g, r):
    if isinstance(r["coef"], PH) or isinstance(r["scale"], PH):
        return True
    return close(g["coefficient"] * g["scale"], r["coef"] * r["scale"])


def check_row(g, r, attrs, timestamps=True):
    def need(what, got, exp, ok):
        if not ok:
            raise Violation(f"interaction {r['name']!r}: {what} is {got!r}, expected {exp!r}")

    need("key", g["key"], r["key"], same(g["key"], r["key"]))
    body = 2 if isinstance(r["key"], tuple) else 1
    need("body", g["body"], body, g["body"] == body)
    k0, k1 = (r["key"], None) if body == 1 else r["key"]
    need("key_0", g["key_0"], k0, g["key_0"] == k0)
    if body == 2:
        need("key_1", g["key_1"], k1, g["key_1"] == k1)
        got = tuple(i.label for i in g["interacts"])
        need("interacts", got, r["key"], tuple(sorted(got)) == r["key"])
    else:
        need("interacts", g["interacts"].label, k0, g["interacts"].label == k0)
    need("coefficient", g["coefficient"], r["coef"], close(g["coefficient"], r["coef"]))
    need("scale", g["scale"], r["scale"], close(g["scale"], r["scale"]))
    need("removed", g["removed"], r["removed"], bool(g["removed"]) == r["removed"])
    need("dirty", g["dirty"], r["dirty"], bool(g["dirty"]) == r["dirty"])
    if timestamps and r["ts"] is not None:
        need("timestamp", g["timestamp"], r["ts"], CLOCK.ok(g["timestamp"], r["ts"]))
    for a in attrs | {"attributes." + k for k in r["attrs"]}:
        exp = r["attrs"].get(a[len("attributes."):], NAN)
        got = g.get(a, "(no such column)")
        need(a, got, exp, same(got, exp) or (isinstance(exp, float) and math.isnan(exp) and isinstance(got, float) and math.isnan(got)))


def run_history(case, cov, observe, step=None):
    """case = (mtype, arrays, ops); applies the history on fresh objects and calls observe(real, ref, refusals)."""
    mtype, arrays, ops = case
    fresh_clock()
    real, ref = Real(mtype, arrays), Ref(mtype, arrays)
    refusals = 0
    for op in ops:
        CLOCK.now += 10.0
        refusals += apply_both(real, ref, op)
        cov.step()
    CLOCK.now += 10.0
    cov.state(ref.canon())
    cov.trace()
    observe(real, ref)
    return real, ref


def constraint_labels(c):
    """The variables of a constraint as sorted labels, through its getters."""
    out = {}
    for attr, key in (("get_variables", "vars"), ("get_variables_1", "vars1"), ("get_variables_2", "vars2")):
        if hasattr(c, attr):
            out[key] = sorted(v.label for v in getattr(c, attr)())
    return out
