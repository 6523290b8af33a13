"""Scripted randomness and the reference annealer for SawatabiSolver."""
import itertools
import math

import numpy as np

from mc import lm
from mc.core import Violation
from mc.lm import Real, fresh_clock, poly_eval, poly_of_bqm

REAL_DEFAULT_RNG = np.random.default_rng


class Scripted:
    """
    A random generator whose answers are chosen by the explorer: bits (initial states), perms (one per sweep) and
    uniforms.  Scripts repeat when they run out, the uniforms one by one.  Everything else comes from a real generator.
    """

    def __init__(self, script, seed=None):
        self.script = script
        self._real = REAL_DEFAULT_RNG(0 if seed is None else seed)
        self.nb = self.np_ = self.nu = 0

    def _bit(self):
        b = self.script["bits"]
        v = b[self.nb % len(b)]
        self.nb += 1
        return v

    def _u(self):
        u = self.script["u"]
        v = u[self.nu % len(u)]
        self.nu += 1
        return v

    def _fill(self, f, size, dtype):
        if size is None:
            return f()
        n = int(np.prod(size))
        return np.array([f() for _ in range(n)], dtype=dtype).reshape(size)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        lo, hi = (0, low) if high is None else (low, high)
        if endpoint:
            hi += 1
        if hi - lo != 2:
            return self._real.integers(low, high, size=size, dtype=dtype, endpoint=endpoint)
        return self._fill(lambda: lo + self._bit(), size, dtype)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pool = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if len(pool) == 2 and replace and p is None:
            out = self._fill(lambda: self._bit(), size, np.int64)
            return np.array(sorted(pool))[out] if size is not None else sorted(pool)[out]
        return self._real.choice(a, size=size, replace=replace, p=p, axis=axis, shuffle=shuffle)

    def random(self, size=None, dtype=np.float64, out=None):
        return self._fill(self._u, size, np.float64)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def _perm(self, n):
        ps = self.script["perms"]
        p = ps[self.np_ % len(ps)]
        self.np_ += 1
        if len(p) != n:
            return np.arange(n)
        return np.array(p)

    def permutation(self, x, axis=0):
        if isinstance(x, (int, np.integer)):
            return self._perm(int(x))
        x = np.array(x)
        return x[self._perm(len(x))]

    def shuffle(self, x, axis=0):
        y = [x[i] for i in self._perm(len(x))]
        for i, v in enumerate(y):
            x[i] = v

    def __getattr__(self, name):
        return getattr(self._real, name)


class patched:
    """numpy.random.default_rng answers with scripted generators; .made lists them"""

    def __init__(self, script):
        self.script = script
        self.made = []

    def __enter__(self):
        def factory(seed=None):
            g = Scripted(self.script, None if seed is None else seed)
            self.made.append((seed, g))
            return g

        np.random.default_rng = factory
        return self

    def __exit__(self, *a):
        np.random.default_rng = REAL_DEFAULT_RNG


# name -> (arrays, operations); coefficients in sawatabi's convention (energy = offset - sum)
MODELS = {
    "one": ({"x": [1]}, [("add", "x0", {"c": 1.0})]),
    "oneoff": ({"x": [1]}, [("add", "x0", {"c": -2.0}), ("off", 5.0)]),
    "free": ({"x": [2]}, [("add", "x0.x1", {"c": 1.5})]),
    "pair": ({"x": [2]}, [("add", "x0", {"c": 1.0}), ("add", "x1", {"c": -0.5}), ("add", "x0.x1", {"c": 2.0}), ("off", -3.0)]),
    "hole": ({"x": [3], "y": [2]}, [("add", "x2.y1", {"c": -1.25}), ("add", "y1", {"c": 0.5}), ("off", 0.75)]),
    "tri": ({"x": [3]}, [("add", "x0", {"c": 1.0}), ("add", "x0.x1", {"c": -2.0}), ("add", "x1.x2", {"c": 1.5}), ("add", "x2.x0", {"c": -1.0}), ("off", 1.0)]),
    "rev": ({"b": [1], "a": [2]}, [("add", "a0", {"c": 1.0}), ("add", "b0", {"c": -3.0}), ("add", "a1.b0", {"c": 0.75})]),
    "wide": ({"x": [3]}, [("add", "x0", {"c": 0.1}), ("add", "x1", {"c": 12345.678}), ("add", "x2.x0", {"c": -1.0 / 3.0, "s": 1e6}), ("add", "x1.x2", {"c": 0.7}), ("off", -3.3)]),
    "tiny": ({"x": [3]}, [("add", "x0", {"c": 3e-10}), ("add", "x1", {"c": -1.7e-11}), ("add", "x2.x0", {"c": -1.3e-10}), ("add", "x1.x2", {"c": 7.1e-11}), ("off", 2.3e-10)]),
    "huge": ({"x": [2]}, [("add", "x0", {"c": 3e10}), ("add", "x1", {"c": -1.7e11}), ("add", "x0.x1", {"c": 1.3e12})]),
    "con": ({"x": [3]}, [("add", "x1", {"c": 0.5}), ("con", "h", "nhot", {"vars": ["x0", "x1", "x2"], "n": 1}), ("off", 2.0)]),
    "big": ({"x": [12]}, [("add", f"x:{i}", {"c": (-1.0) ** i * (i + 1)}) for i in range(12)] + [("add", f"x:{i}.x:{(i + 5) % 12}", {"c": 0.5 * i - 2}) for i in range(12)] + [("off", -7.0)]),
}


def physical(mt, name):
    """name@k: the model with all energies multiplied by 2**k"""
    fresh_clock()
    name, _, k = name.partition("@")
    real = Real(mt, MODELS[name][0])
    lm.UNIT = 2.0 ** int(k or 0)
    try:
        for op in MODELS[name][1]:
            real.apply(op)
    finally:
        lm.UNIT = 1.0
    return real, real.m.to_physical()


class Problem:
    """The reference view of a physical model: labels in index order and energies."""

    def __init__(self, phys):
        self.mt = phys.get_mtype()
        self.poly = poly_of_bqm(phys.to_bqm())
        self.labels = [phys._index_to_label[i] for i in range(len(phys._index_to_label))]
        self.n = len(self.labels)
        self.scale = sum(abs(v) for v in self.poly.values()) or 1.0
        self._cache = {}

    def energy(self, spins):
        spins = tuple(spins)
        if spins not in self._cache:
            vals = spins if self.mt == "ising" else [(s + 1) // 2 for s in spins]
            self._cache[spins] = poly_eval(self.poly, dict(zip(self.labels, vals)))
        return self._cache[spins]

    def eq(self, a, b):
        return abs(a - b) <= 1e-9 * self.scale

    def user(self, spins):
        """as a dict of the model's own values"""
        return dict(zip(self.labels, spins if self.mt == "ising" else [(s + 1) // 2 for s in spins]))

    def spins(self, sample):
        return tuple(int(sample[v]) if self.mt == "ising" else 2 * int(sample[v]) - 1 for v in self.labels)

    def states(self):
        return list(itertools.product((-1, 1), repeat=self.n))


def temperatures(opts, num_sweeps):
    c = opts.get("cooling_rate", 0.9)
    rev = opts.get("reverse_options")
    out = []
    if not rev:
        t = opts.get("initial_temperature", 100.0)
        for _ in range(num_sweeps):
            out.append(t)
            t *= c
        return out
    t = 1e-9
    target = rev["reverse_temperature"]
    for k in range(num_sweeps):
        out.append(t)
        if k < rev["reverse_period"]:
            t = rev["reverse_temperature"] - target * c ** (k + 1)
        else:
            t *= c
    return out


class Ambiguous(Exception):
    """a random number lies on the threshold, up to rounding"""


def simulate(prob, init, perms, us, temps, mapping):
    """The reference annealer. mapping: 'uphill' (one number per rising move) or 'try' (one per try)."""
    x = list(init)
    e = prob.energy(x)
    hist, acc = [], []
    used = 0
    for k, t in enumerate(temps):
        hist.append(e)
        a = 0
        for i in perms[k % len(perms)]:
            y = list(x)
            y[i] = -y[i]
            d = prob.energy(y) - e
            if abs(d) <= 1e-12 * prob.scale:
                d = 0.0
            u = us[used % len(us)]
            if mapping == "try" or d > 0:
                used += 1
            if d <= 0:
                ok = True
            else:
                p = 0.0 if t <= 0 else math.exp(-d / t)
                if (u == 0.0 and 0.0 < p < 1e-290) or (u > 0.0 and abs(u - p) <= 1e-9):
                    raise Ambiguous()
                ok = u < p
            if ok:
                x, e, a = y, prob.energy(y), a + 1
        acc.append(a)
    return tuple(x), e, hist, acc


def check_sampleset(prob, ss, num_reads):
    """Every sample is an assignment of the model's variables with its true energy."""
    import dimod

    vt = dimod.SPIN if prob.mt == "ising" else dimod.BINARY
    if ss.vartype is not vt:
        raise Violation(f"vartype {ss.vartype}, the model is {prob.mt}")
    if sorted(ss.variables) != sorted(prob.labels):
        raise Violation(f"variables {list(ss.variables)}, expected {prob.labels}")
    ok = {-1, 1} if prob.mt == "ising" else {0, 1}
    total = 0
    seen = set()
    for d in ss.data(fields=["sample", "energy", "num_occurrences"], sorted_by=None):
        sample = dict(d.sample)
        if not all(int(v) == v and int(v) in ok for v in sample.values()):
            raise Violation(f"sample {sample} has values that a {prob.mt} model does not allow")
        s = prob.spins(sample)
        if s in seen:
            raise Violation(f"sample {sample} is listed twice")
        seen.add(s)
        if not prob.eq(float(d.energy), prob.energy(s)):
            raise Violation(f"sample {sample} is reported with energy {d.energy}, its energy is {prob.energy(s)}")
        total += int(d.num_occurrences)
    if total != num_reads:
        raise Violation(f"occurrences add up to {total}, num_reads is {num_reads}")
    return seen


def check_history(prob, st, num_sweeps, init, finals):
    """The energy history starts at the initial state and every sweep changes it by exactly its accepted moves."""
    eh, ah, th = st["energy_history"], st["acceptance_history"], st["temperature_history"]
    if not (len(eh) == len(ah) == len(th) == num_sweeps):
        raise Violation(f"histories have lengths {len(eh)}, {len(ah)}, {len(th)}, num_sweeps is {num_sweeps}")
    states = {tuple(init)} if init is not None else set(prob.states())
    for k in range(num_sweeps):
        states = {s for s in states if prob.eq(prob.energy(s), float(eh[k]))}
        if not states:
            what = "the initial state's energy" if k == 0 else f"any state that {ah[k - 1]} accepted moves lead to"
            raise Violation(f"energy history {list(map(float, eh))} (accepted {list(ah)}): entry {k} is not {what}")
        a = int(ah[k])
        nxt = set()
        for s in states:
            for sub in itertools.combinations(range(prob.n), a):
                t = list(s)
                for i in sub:
                    t[i] = -t[i]
                nxt.add(tuple(t))
        states = nxt
    if finals is not None and not states & set(finals):
        raise Violation(f"no returned sample is reached from the initial state by the recorded history {eh}, {ah}")
