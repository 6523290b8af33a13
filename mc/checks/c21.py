"""C21: pipelines number, stamp, parse and format every message faithfully."""
import contextlib
import glob
import io
import itertools
import json
import os
import sys
import tempfile

import apache_beam as beam

from mc import stream as S
from mc.core import Slice, Violation

ASSUMPTIONS = ["the message queue is replaced by stand-ins of Beam's ReadFromPubSub and WriteToPubSub (no network)", "pipelines run on the DirectRunner", "numbers fit into 64 bits (a limit of Beam's integer coder)"]
SENT = None


def _record(x):
    SENT.append(x)


@contextlib.contextmanager
def fake_pubsub(messages=()):
    """Beam's Pub/Sub transforms, patched in place: reading gives `messages`, writing appends to SENT."""
    global SENT
    from apache_beam.io.gcp import pubsub

    R, W = pubsub.ReadFromPubSub, pubsub.WriteToPubSub
    made = []
    SENT = []

    def new_read(cls, *a, **k):
        made.append(("read", a, k))
        return FakeRead(list(messages))

    def new_write(cls, *a, **k):
        made.append(("write", a, k))
        return FakeWrite()

    R.__new__, W.__new__ = staticmethod(new_read), staticmethod(new_write)
    try:
        yield made
    finally:
        del R.__new__, W.__new__


class FakeRead(beam.PTransform):
    def __init__(self, messages):
        super().__init__()
        self.messages = messages

    def expand(self, p):
        return p | beam.Create(self.messages, reshuffle=False)


class FakeWrite(beam.PTransform):
    def expand(self, pc):
        return pc | beam.Map(_record)


def run_pipe(build):
    S.OUT = out = []
    p = beam.Pipeline(options=beam.options.pipeline_options.PipelineOptions(["--runner=DirectRunner"]))
    build(p)
    p.run().wait_until_finish()
    S.OUT = None
    return [x for _, x in out]


def same_multiset(got, want, what):
    g, w = sorted(map(typed, got)), sorted(map(typed, want))
    if g != w:
        extra = [x for x in g if g.count(x) > w.count(x)][:5]
        missing = [x for x in w if w.count(x) > g.count(x)][:5]
        raise Violation(f"{what}: unexpected {extra}, missing {missing}")


def typed(x):
    if isinstance(x, dict):
        return "{" + ",".join(f"{typed(k)}:{typed(v)}" for k, v in sorted(x.items())) + "}"
    if isinstance(x, list):
        return "[" + ",".join(map(typed, x)) + "]"
    return f"{type(x).__name__}:{x!r}"


def read(kind, source, lines):
    from sawatabi.algorithm import IO

    if source == "text":
        with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH")) as d:
            path = os.path.join(d, "in.txt")
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write("".join(x + "\n" for x in lines))
            fn = {"number": IO.read_from_text_as_number, "json": IO.read_from_text_as_json, "raw": IO.read_from_text}[kind]
            return run_pipe(lambda p: p | "in" >> fn(path=path) | beam.ParDo(S.Collector()))
    fn = {"number": IO.read_from_pubsub_as_number, "json": IO.read_from_pubsub_as_json, "raw": IO.read_from_pubsub}[kind]
    kw = {"topic": {"topic": "T1"}, "subscription": {"subscription": "S1"}}[source]
    with fake_pubsub([x.encode("utf-8") for x in lines]) as made:
        out = run_pipe(lambda p: p | "in" >> fn(project="prj", **kw) | beam.ParDo(S.Collector()))
    want = {"topic": "projects/prj/topics/T1"} if source == "topic" else {"subscription": "projects/prj/subscriptions/S1"}
    for what, a, k in made:
        k = {x: y for x, y in k.items() if y is not None}
        if a and source == "topic":
            k["topic"], a = a[0], a[1:]
        if a or k != want:
            raise Violation(f"the message queue was opened with {a} {k}, expected {want}")
    if not made:
        raise Violation("the message queue was not opened")
    return out


def is_number(s):
    return s != "" and all(c in "0123456789" for c in s)


def expected(kind, lines):
    if kind == "number":
        return [int(x) for x in lines if is_number(x)]
    if kind == "json":
        return [json.loads(x) for x in lines]
    return list(lines)


def run_read(case, cov):
    kind, source, lines = case
    lines = LINES[lines] if isinstance(lines, str) else list(lines)
    got = read(kind, source, lines)
    same_multiset(got, expected(kind, lines), f"{kind} from {source}")
    cov.step(len(lines))
    cov.trace()
    for x in lines:
        cov.state((kind, source, x))
    cov.outcome((kind, source, len(got)))


def words(alphabet, n, m=0):
    return ["".join(w) for k in range(m, n + 1) for w in itertools.product(alphabet, repeat=k)]


LINES = {
    "digits": words("07a -.", 4),
    "odd": words(["9", "+", "e", "_", ",", "٣", "²", "x", "\t", "０"], 3),
    "long": ["0" * k + "1" for k in range(1, 30)] + [str(10 ** k) for k in range(19)] + [str(2 ** 63 - 1)] + ["5"] * 7 + ["12 ", " 12", "1 2", "1.0", "-1", "+1", "0x1", "1e3", "１２", "007", "00", "NaN", "inf", "[1]", '"1"', "1,000", "1_000"],
    "jsons": ["0", "-1", "1.5", "1e3", "true", "false", "null", '""', '"a"', '"12"', "[]", "[1]", '[1,"a",null]', "{}", '{"a":1}', '{"a":{"b":[1,2,{"c":null}]}}', '{"é":"☃"}', '"\\u2603"', " 1 ", '{"x": [0.5, -0.25], "y": "z"}', "[[],[[]]]", "1", "1", '{"a":1,"b":2}', '{"b":2,"a":1}'] + [json.dumps(x) for x in itertools.product((0, "1", None), repeat=2)] + [json.dumps({"k": x, "l": [x]}) for x in (0, 1.0, "s", True, [], {})],
    "raw": words("a1 é", 3, 1) + ["x", "x", "tab\tx", "{", '"'],
}


# ---------------------------------------------------------------------------------------------------
# numbering, time stamps and formatting
# ---------------------------------------------------------------------------------------------------
def echo(text, elements):
    """`text` has a ^ where the elements go"""
    return text.replace("^", ",".join(f"{x[0]!r}/{x[1][0]}/{x[1][1]}" for x in elements))


class Echo:
    def __init__(self, text):
        self.seen = []
        self.text = text

    def map(self, pm, ps, e, i, o):
        self.seen.append(list(e))
        return pm

    def solve(self, solver, m, ps, e, i, o):
        return "s"

    def unmap(self, ss, e, i, o):
        return echo(self.text, e)

    def filter(self, e):
        return False


def opt(o, key, v):
    if v != "absent":
        o[key] = v


def run_format(case, cov):
    alg, times, reassign, stamp, prefix, suffix, text, sink = case
    from apache_beam.utils.timestamp import Timestamp

    import sawatabi
    from sawatabi.algorithm import IO

    stream = [(t, f"d{i}") for i, t in enumerate(times)]
    o = S.options(alg, 2, 2)
    opt(o, "input.reassign_timestamp", reassign)
    opt(o, "output.with_timestamp", stamp)
    opt(o, "output.prefix", prefix)
    opt(o, "output.suffix", suffix)
    eff = [(i, d) for i, (_, d) in enumerate(stream)] if reassign is True else stream
    wins = S.windows_of(alg, 2, 2, eff)
    h = S.HANDLER = Echo(text)
    src = beam.Create(stream, reshuffle=False) | beam.Map(S._to_timestamped)
    S.OUT = out = []
    tmp = None
    with fake_pubsub() as made, contextlib.ExitStack() as st:
        buf = None
        if sink == "collect":
            fn = beam.ParDo(S.Collector())
        elif sink == "stdout":
            fn = IO.write_to_stdout()
            buf = st.enter_context(contextlib.redirect_stdout(io.StringIO()))
        elif sink == "text":
            tmp = st.enter_context(tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH")))
            fn = IO.write_to_text(path=os.path.join(tmp, "out"))
        else:
            fn = IO.write_to_pubsub(project="prj", topic="T2")
        p = getattr(sawatabi.algorithm, alg).create_pipeline(o, input_fn=src, map_fn=S.cb_map, solve_fn=S.cb_solve, unmap_fn=S.cb_unmap, output_fn=fn)
        p.run().wait_until_finish()
        S.OUT = None
        if sink == "collect":
            got = [x for _, x in out]
        elif sink == "stdout":
            got = buf.getvalue()
        elif sink == "text":
            got = []
            for f in sorted(glob.glob(os.path.join(tmp, "out*"))):
                with open(f, encoding="utf-8") as fh:
                    got.append(fh.read())
            got = "".join(got)
        else:
            got = list(SENT)
            w = [(a, {k: v for k, v in kw.items() if v is not None}) for x, a, kw in made if x == "write"]
            if len(w) != 1 or (w[0][0] or (w[0][1].get("topic"),)) != ("projects/prj/topics/T2",):
                raise Violation(f"the message queue was opened with {w}")
            if any(not isinstance(x, bytes) for x in got):
                raise Violation(f"messages that are not bytes were sent: {got}")
            got = [x.decode("utf-8") for x in got]
    # windows that follow each other and arrive in order are delivered in order
    want = []
    cum = []
    for end, els in wins:
        cum = cum + els
        es = sorted(cum if alg == "Incremental" else els, key=lambda e: (e[0], e[1][0]))
        body = echo(text, es)
        ts = f"[{Timestamp(micros=S.stamp(end)).to_utc_datetime()}] " if stamp is True else ""
        pre, suf = prefix if prefix != "absent" else "", suffix if suffix != "absent" else ""
        want.append(pre + ts + body + suf)
    if isinstance(got, str):
        if sorted(got.split("\n")) != sorted("".join(w + "\n" for w in want).split("\n")):
            raise Violation(f"the output is {got!r}, expected the lines {want}")
    elif sorted(got) != sorted(want):
        raise Violation(f"the outputs are {got}, expected {want}")
    cov.step(len(stream))
    cov.trace()
    cov.state(case)
    cov.outcome((sink, len(wins)))


def run_end_to_end(case, cov):
    """A file or queue of messages through a whole pipeline: every valid message is an element exactly once."""
    source, kind, lines, reassign = case
    import sawatabi
    from sawatabi.algorithm import IO

    lines = LINES[lines] if isinstance(lines, str) else list(lines)
    vals = expected(kind, lines)
    h = S.HANDLER = Echo("t")
    S.OUT = []
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH")) as d, fake_pubsub([x.encode("utf-8") for x in lines]):
        path = os.path.join(d, "in.txt")
        with open(path, "w", encoding="utf-8") as f:
            f.write("".join(x + "\n" for x in lines))
        fn = {("text", "number"): lambda: IO.read_from_text_as_number(path=path), ("text", "json"): lambda: IO.read_from_text_as_json(path=path),
              ("queue", "number"): lambda: IO.read_from_pubsub_as_number(project="p", topic="t"), ("queue", "json"): lambda: IO.read_from_pubsub_as_json(project="p", subscription="s")}[source, kind]()
        p = sawatabi.algorithm.Incremental.create_pipeline({"incremental.size": 10 ** 6, "input.reassign_timestamp": True} if reassign else {"incremental.size": 10 ** 12}, input_fn=fn, map_fn=S.cb_map, solve_fn=S.cb_solve, unmap_fn=S.cb_unmap, output_fn=beam.ParDo(S.Collector()))
        p.run().wait_until_finish()
    S.OUT = None
    els = [e for w in h.seen[-1:] for e in w]
    if [e[1][0] for e in sorted(els, key=lambda e: e[1][0])] != list(range(len(vals))):
        raise Violation(f"the indices of {len(vals)} messages are {sorted(e[1][0] for e in els)[:20]}")
    same_multiset([e[1][1] for e in els], vals, "elements")
    if reassign and any(e[0] != float(e[1][0]) for e in els):
        raise Violation(f"event times differ from the indices: {els[:10]}")
    if source == "queue" and [e[1][1] for e in sorted(els, key=lambda e: e[1][0])] != vals:
        raise Violation("the indices are not in arrival order")
    cov.step(len(lines))
    cov.trace()
    cov.state(case)
    cov.outcome((source, kind))


TEXTS = ["text ^", "  ^\t ", "^\nline 2 ☃\n", "", "{x} %s {0} ^"]


def SLICES(tier):
    q = tier == "quick"
    sources = ("text", "topic", "subscription")
    reads = [("number", s, k) for k in ("digits", "odd", "long") for s in sources] + [("json", s, "jsons") for s in sources] + [("raw", s, "raw") for s in sources]
    small = [(k, s, list(x)) for k, items in (("number", ["3", "a", "", "05"]), ("json", ["3", '{"a":1}', "[]"])) for s in sources for n in range(0, 3) for x in itertools.product(items, repeat=n)]
    B = ("absent", False, True)
    P = ("absent", "", " <p é>\n{}%s")
    Q = ("absent", "", "|s\t ")
    # every pair of options in quick, the full product in thorough
    combos = list(itertools.product(B, B, P, Q))
    times = [(0, 1, 5), (1, 0, 2.5), (1612345678.125, 1612345679, 1612345683.75)]

    def fmt():
        for i, (r, s, p, x) in enumerate(combos):
            for j, alg in enumerate(S.ALGS):
                for t in times if not q else times[(i + j) % len(times):][:1]:
                    for text in TEXTS if not q else TEXTS[(i // 2 + j) % len(TEXTS):][:1]:
                        yield (alg, t, r, s, p, x, text, "collect")
        for k, sink in enumerate(("stdout", "text", "queue")):
            for i, (r, s, p, x) in enumerate(combos if not q else combos[::4] + [combos[-1]]):
                for text in TEXTS if not q else TEXTS[(i + k) % len(TEXTS):][:1]:
                    yield ("Delta", (0, 1, 5), r, s, p, x, text, sink)

    e2e = [(s, k, l, r) for s in ("text", "queue") for k, l in (("number", "long"), ("number", "digits"), ("json", "jsons")) for r in (False, True)]
    e2e += [("queue", "number", list(x), True) for n in range(1, 3 if q else 4) for x in itertools.product(["2", "b", "10"], repeat=n)]
    e2e += [(s, "number", [str((i * 7919) % 1000) if i % 11 else f"bad {i}" for i in range(n)], r) for s in ("text", "queue") for n in ((40, 333) if q else (17, 40, 128, 333, 1000)) for r in (False, True)]
    e2e += [("queue", "json", [json.dumps({"i": i, "v": [i] * (i % 5), "s": "é" * (i % 70)}) for i in range(200)], True)]
    alike = [("Delta", (0, 1, 5), False, s, p, x, text, sink)
             for p, x, text in itertools.product(("ab", "a", " ", "\n", "["), ("ba", "b", " ", "\n", "]"), ("", "ab", "abba", "a^b", "ab ^ ba", " ", " ^ ", "\n^\n", "[1970-01-01 00:00:01.999000] ^", "[^]", "None"))
             for s in (False, True) for sink in (("collect",) if q else ("collect", "queue"))]
    if q:
        alike = alike[::3] + [("Delta", (0, 1, 5), False, s, "ab", "ba", "ab ^ ba", k) for s in (False, True) for k in ("stdout", "text", "queue")]
    many = [(alg, tuple(range(n)), True, True, "<", ">", "^", sink) for alg in S.ALGS for n in ((12, 30) if q else (12, 30, 45)) for sink in (("collect",) if alg != "Delta" else ("collect", "text", "queue"))]
    return [
        Slice("many", many, run_format, "formats and numbering over 12 and 30 (thorough 45) messages"),
        Slice("read", reads, run_read, "all lines up to 3 or 4 characters over two alphabets, JSON documents, raw lines, from files, topics and subscriptions"),
        Slice("read-small", small, run_read, "all inputs of up to 2 messages"),
        Slice("alike", alike, run_format, "texts that already begin with the prefix, end with the suffix or look stamped (every third combination in quick)"),
        Slice("format", fmt, run_format, "combinations of the options (all of them in the thorough tier) and sinks"),
        Slice("end-to-end", e2e, run_end_to_end, "messages to elements through a whole pipeline"),
    ]
