"""
A controlled runner for the streaming step of sawatabi, and a harness for the real DirectRunner.

The pipeline is created by the real X.create_pipeline(...).  The step that calls the user's callbacks is found
in it by looking for our callback among the arguments of its ParDos, and its DoFn is then driven directly: we
choose the order in which windows are delivered and where bundles end (i.e. where Beam would serialise the
state).  The parameters (element, timestamp, states, ...) are bound as Beam binds them, by the default values
of the process() signature.  If the step cannot be driven this way (another structure of the pipeline), the
same cases run on the real DirectRunner, in the order the runner chooses.
"""
import inspect
import pickle

import apache_beam as beam

from mc.core import Violation

ALGS = ("Window", "Delta", "Incremental", "Partial", "Attenuation")
US = 1e-6

# ---------------------------------------------------------------------------------------------------
# callbacks: importable, delegate to the handler of the running case
# ---------------------------------------------------------------------------------------------------
HANDLER = None
OUT = None


def cb_map(prev_model, prev_sampleset, elements, incoming, outgoing):
    return HANDLER.map(prev_model, prev_sampleset, elements, incoming, outgoing)


def cb_solve(solver, model, prev_sampleset, elements, incoming, outgoing):
    return HANDLER.solve(solver, model, prev_sampleset, elements, incoming, outgoing)


def cb_unmap(sampleset, elements, incoming, outgoing):
    return HANDLER.unmap(sampleset, elements, incoming, outgoing)


def cb_filter(element):
    return HANDLER.filter(element)


def _to_timestamped(x):
    return beam.window.TimestampedValue(x[1], x[0])


class Collector(beam.DoFn):
    def process(self, x, ts=beam.DoFn.TimestampParam):
        OUT.append((ts, x))


# ---------------------------------------------------------------------------------------------------
# options and windows
# ---------------------------------------------------------------------------------------------------
def options(alg, size, period=None, min_scale=0.1, key="attributes.attn_ts", **more):
    if alg == "Incremental":
        o = {"incremental.size": size}
    elif alg == "Delta":
        o = {"window.size": size}
    else:
        o = {"window.size": size, "window.period": period}
    if alg == "Partial":
        o["filter_fn"] = cb_filter
    if alg == "Attenuation":
        o["attenuation.key"] = key
        o["attenuation.min_scale"] = min_scale
    o.update(more)
    return o


def windows_of(alg, size, period, stream):
    """stream: list of (ts, data); arrival order = list order.  -> list of (end, [elements]) by end"""
    wins = {}
    if alg in ("Delta", "Incremental"):
        period = size
    for idx, (ts, data) in enumerate(stream):
        e = (float(ts), (idx, data))
        # exact arithmetic in microseconds
        t, s, p = round(ts * 1e6), round(size * 1e6), round(period * 1e6)
        start = t - (t % p)
        while start > t - s:
            wins.setdefault(start + s, []).append(e)
            start -= p
    return [(end, wins[end]) for end in sorted(wins)]


def stamp(end_us):
    """The timestamp of a window: its end minus one tick; the runner keeps milliseconds."""
    return (end_us - 1) // 1000 * 1000


# ---------------------------------------------------------------------------------------------------
# state cells
# ---------------------------------------------------------------------------------------------------
class Cell:
    """A state cell as Beam presents it; commit() is a bundle boundary (the state is encoded and decoded)."""

    def __init__(self, spec):
        from apache_beam.transforms import userstate as us

        self.spec = spec
        self.values = []
        self.combining = isinstance(spec, us.CombiningValueStateSpec)
        self.setlike = isinstance(spec, us.SetStateSpec)
        self.rmw = isinstance(spec, us.ReadModifyWriteStateSpec)
        if not isinstance(spec, (us.BagStateSpec, us.CombiningValueStateSpec, us.SetStateSpec, us.ReadModifyWriteStateSpec)):
            raise Undrivable(f"state {spec}")

    def read(self):
        if self.combining:
            fn = self.spec.combine_fn
            return fn.apply(list(self.values)) if hasattr(fn, "apply") else fn(list(self.values))
        if self.rmw:
            return self.values[-1] if self.values else None
        return iter(list(self.values))

    def add(self, v):
        if self.setlike and v in self.values:
            return
        self.values.append(v)

    def write(self, v):
        self.values = [v]

    def clear(self):
        self.values = []

    def commit(self):
        if self.combining:
            self.values = pickle.loads(pickle.dumps(self.values))
            return
        coder = self.spec.coder
        self.values = [coder.decode(coder.encode(v)) for v in self.values]


class Undrivable(Exception):
    pass


def _holds(obj, target, depth=2):
    if obj is target:
        return True
    if depth == 0:
        return False
    if isinstance(obj, dict):
        return any(_holds(v, target, depth - 1) for v in obj.values())
    if isinstance(obj, (list, tuple)):
        return any(_holds(v, target, depth - 1) for v in obj)
    return False


def create(alg, opts, mtype, solver, events, output=True):
    """The real pipeline over beam.Create(events) with its timestamps."""
    import sawatabi

    src = beam.Create([(e[0], e[1]) for e in events], reshuffle=False) | beam.Map(_to_timestamped)
    kw = dict(input_fn=src, map_fn=cb_map, solve_fn=cb_solve, unmap_fn=cb_unmap, solver=solver, initial_mtype=mtype)
    if output:
        kw["output_fn"] = beam.ParDo(Collector())
    return getattr(sawatabi.algorithm, alg).create_pipeline(opts, **kw)


def find_step(pipeline):
    from apache_beam.pipeline import PipelineVisitor
    from apache_beam.transforms.core import ParDo

    found = []

    class V(PipelineVisitor):
        def visit_transform(self, node):
            t = node.transform
            if isinstance(t, ParDo):
                fn = t.fn
                if _holds(list(t.args) + list(t.kwargs.values()), cb_map) or _holds(dict(getattr(fn, "__dict__", {})), cb_map):
                    found.append(t)

    pipeline.visit(V())
    return found


class Driver:
    """Drives the DoFn of the solving step of one algorithm/configuration."""

    _cache = {}

    def __init__(self, alg, opts, mtype, solver):
        from apache_beam.transforms.core import _DoFnParam

        self.opts = opts
        p = create(alg, opts, mtype, solver, [(0, 0)], output=False)
        steps = find_step(p)
        if len(steps) != 1:
            raise Undrivable("the solving step was not found")
        t = steps[0]
        self.fn = t.fn
        try:
            sig = inspect.signature(self.fn.process)
        except (TypeError, ValueError):
            raise Undrivable("no signature")
        self.plan = []
        names = list(sig.parameters)
        if not names:
            raise Undrivable("no parameters")
        pos = list(t.args)
        kwargs = dict(t.kwargs)
        # ParDo resolves what was given positionally in the order of the free parameters
        self.specs = {}
        for i, n in enumerate(names):
            prm = sig.parameters[n]
            if prm.kind in (prm.VAR_KEYWORD, prm.VAR_POSITIONAL):
                if prm.kind == prm.VAR_KEYWORD:
                    self.plan.append((None, "rest", kwargs))
                    kwargs = {}
                continue
            d = prm.default
            if i == 0:
                self.plan.append((n, "element", None))
            elif isinstance(d, beam.DoFn.StateParam):
                self.plan.append((n, "state", d.state_spec))
                self.specs[d.state_spec.name] = d.state_spec
            elif isinstance(d, _DoFnParam):
                if d is beam.DoFn.TimestampParam:
                    self.plan.append((n, "timestamp", None))
                elif d is beam.DoFn.WindowParam:
                    self.plan.append((n, "window", None))
                elif d is beam.DoFn.KeyParam:
                    self.plan.append((n, "key", None))
                elif d is beam.DoFn.ElementParam:
                    self.plan.append((n, "element", None))
                else:
                    raise Undrivable(f"parameter {n}")
            elif n in kwargs:
                self.plan.append((n, "const", kwargs.pop(n)))
            elif pos:
                self.plan.append((n, "const", pos.pop(0)))
            elif d is not prm.empty:
                self.plan.append((n, "const", d))
            else:
                raise Undrivable(f"parameter {n}")
        self.reset()

    def reset(self):
        self.cells = {n: Cell(s) for n, s in self.specs.items()}
        if hasattr(self.fn, "setup"):
            self.fn.setup()

    def commit(self):
        for c in self.cells.values():
            c.commit()

    def deliver(self, end_us, elements):
        """One window; returns its outputs."""
        from apache_beam.transforms.window import GlobalWindow, TimestampedValue
        from apache_beam.utils.timestamp import Timestamp
        from apache_beam.utils.windowed_value import WindowedValue

        value = (None, list(elements))
        ts = Timestamp(micros=stamp(end_us))
        kw = {}
        for n, kind, x in self.plan:
            if kind == "element":
                kw[n] = value
            elif kind == "state":
                kw[n] = self.cells[x.name]
            elif kind == "timestamp":
                kw[n] = ts
            elif kind == "window":
                kw[n] = GlobalWindow()
            elif kind == "key":
                kw[n] = None
            elif kind == "rest":
                kw.update(x)
            else:
                kw[n] = x
        res = self.fn.process(**kw)
        out = []
        for x in res if res is not None else ():
            while isinstance(x, (TimestampedValue, WindowedValue)):
                x = x.value
            out.append(x)
        return out


_drivers = {}
_calibrated = {}


class _Recorder:
    """handler of calibration runs"""

    def __init__(self):
        self.calls = []

    def map(self, pm, ps, e, i, o):
        self.calls.append(list(e))
        return pm

    def solve(self, *a):
        return "s"

    def unmap(self, *a):
        return "u"

    def filter(self, e):
        return False


def driver(alg, opts, mtype="ising", solver=None):
    """A driver for the configuration, or None if the solving step cannot be driven directly."""
    if _calibrated.get(alg) is False:
        return None
    key = (alg, repr(sorted((k, v) for k, v in opts.items() if k != "filter_fn")), mtype, id(solver))
    try:
        if key not in _drivers:
            _drivers[key] = Driver(alg, dict(opts), mtype, solver)
        d = _drivers[key]
        d.reset()
        if alg not in _calibrated:
            _calibrated[alg] = False
            _calibrated[alg] = calibrate(alg, mtype, solver)
            if not _calibrated[alg]:
                return None
        return d
    except Undrivable:
        _calibrated[alg] = False
        return None


def calibrate(alg, mtype, solver):
    """The element the real runner hands to the step has the form the driver uses: compare what the callbacks get."""
    global HANDLER
    kept = HANDLER
    try:
        stream = [(0, 7), (1, 8), (11, 9)]
        opts = options(alg, 10, 10)
        HANDLER = r1 = _Recorder()
        HANDLER.model = None
        real_run(alg, opts, mtype, solver, stream)
        HANDLER = r2 = _Recorder()
        d = Driver(alg, opts, mtype, solver)
        for end, els in windows_of(alg, 10, 10, stream):
            d.deliver(end, els)
        return sorted(map(repr, r1.calls)) == sorted(map(repr, r2.calls)) and bool(r1.calls)
    except Undrivable:
        return False
    except Exception:
        return False
    finally:
        HANDLER = kept


def real_run(alg, opts, mtype, solver, stream):
    """Runs the pipeline on the real DirectRunner; returns [(timestamp in microseconds, output)]."""
    global OUT
    OUT = out = []
    p = create(alg, opts, mtype, solver, stream)
    p.run().wait_until_finish()
    OUT = None
    return [(t.micros, x) for t, x in out]


def deliver_all(alg, opts, mtype, solver, stream, wins, order, commits, handler, perm=None):
    """
    Delivers the windows in the given order, with bundle boundaries after the windows flagged in `commits`.
    -> [(window, outputs)] or None if the step cannot be driven.
    """
    global HANDLER
    HANDLER = handler
    d = driver(alg, opts, mtype, solver)
    if d is None:
        return None
    log = []
    for k, w in enumerate(order):
        end, els = wins[w]
        if perm:
            els = perm(els)
        if hasattr(handler, "window"):
            handler.window(w)
        log.append((w, d.deliver(end, els)))
        if commits >> k & 1:
            d.commit()
    return log


def run_real(alg, opts, mtype, solver, stream, wins, handler):
    """-> [(window, output)] in the order of the outputs; every output must belong to one window."""
    global HANDLER
    HANDLER = handler
    ends = {}
    for i, (end, _) in enumerate(wins):
        ends[stamp(end)] = i
        if end <= 0:  # the runner rounds towards zero
            ends[end // 1000 * 1000] = i
    log = []
    for micros, x in real_run(alg, opts, mtype, solver, stream):
        micros -= micros % 1000
        if micros not in ends:
            raise Violation(f"output with timestamp {micros} us, which is not the end of a window: {x!r}")
        log.append((ends[micros], x))
    return log
