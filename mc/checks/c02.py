"""C02: the interaction table reads back exactly what the edits wrote."""
import itertools
import math

from mc.core import Slice, Violation, histories
from mc.lm import check_row, check_table, run_history, same

ASSUMPTIONS = ["the clock is the one behind time.time(); it is frozen and moved by the harness between operations",
               "attribute keys contain no dots and attribute values are plain data"]
ARR = {"x": [3]}
CORE = [
    ("add", "x0", {"c": 1.0, "a": {"k": 1}}),
    ("upd", "x0", {"c": 2.0}),
    ("rm", "x0"),
    ("phys",),
    ("add", "x0.x1", {"s": 0.5, "a": {"k": "v", "l": 2}}),
    ("upd", "x0", {"a": {"m": 3}}),
    ("add", "x0", {"name": "n1", "t": 5}),
    ("upd", "x1.x0", {"a": {"k": 9, "z": "new"}}),
    ("upd", "x0", {"s": 0.5, "t": 77.5}),
    ("upd", "x0"),
    ("updn", "n1", {"a": {"l": 7}}),
    ("updn", "n1", {"t": 0, "c": -1.0}),
    ("rmn", "n1"),
    ("rm", "x1.x0"),
    ("upd", "x2", {"c": 1.0, "a": {"k": 5}}),
    ("upd", "x2.x1", {"t": 3, "s": 4.0}),
    ("add", "x1", {"c": 3.0}),
    ("add", "x1.x0", {"name": "n2", "c": 4.0}),
    ("updn", "n2", {"c": 6.0, "a": {}}),
    ("updn", "x[0]*x[1]", {"c": 5.5}),
    ("rmn", "x[0]"),
    ("select",),
]
SMALL = [
    ("add", "x0", {"c": 1.0, "a": {"k": 1}}),
    ("rm", "x0"),
    ("phys",),
    ("upd", "x0", {"a": {"m": 3}}),
    ("add", "x1", {"c": 2.0, "a": {"m": 4}}),
    ("upd", "x1", {"c": 3.0}),
]
PREFIXES = [
    [("add", "x0", {"c": 1.0, "a": {"k": 1}}), ("add", "x0.x1", {"c": 2.0, "a": {"l": 2}}), ("add", "x0", {"name": "n1", "c": -3.0, "t": 1}), ("add", "x1.x2", {"name": "n2", "c": 0.5})],
    [("add", "x0", {"c": 1.0}), ("add", "x0.x1", {"c": 2.0, "a": {"k": 3}}), ("add", "x1", {"name": "n1", "c": 4.0, "a": {"l": 1}}), ("rm", "x0"), ("phys",)],
    [("add", "x0", {"c": 1.0}), ("add", "x1", {"c": 2.0}), ("add", "x2", {"c": 4.0, "a": {"k": 3}}), ("rm", "x0"), ("upd", "x2", {"a": {"z": 1}}), ("rm", "x2")],
]


def observe(real, ref, full=True):
    rows = real.table()
    check_table(rows, ref)
    attrs = set()
    for r in rows:
        attrs |= {k for k in r if isinstance(k, str) and k.startswith("attributes.")}
    m = real.m
    for r in ref.rows:
        if full:
            one = m.select_interaction(f"name == {r['name']!r}")
            if len(one) != 1:
                raise Violation(f"select by name {r['name']!r} gives {len(one)} rows")
            check_row(one.to_dict(orient="records")[0], r, attrs)
        got = m.get_attributes(name=r["name"])
        want = {a: r["attrs"].get(a[len("attributes."):], float("nan")) for a in attrs}
        want.update({"attributes." + k: v for k, v in r["attrs"].items()})
        if set(got) != set(want) or not all(same(float(got[k]) if isinstance(got[k], float) else got[k], want[k]) for k in want):
            raise Violation(f"get_attributes(name={r['name']!r}) is {got}, expected {want}")
        for k, v in r["attrs"].items():
            if not same(m.get_attribute(name=r["name"], key="attributes." + k), v):
                raise Violation(f"get_attribute({r['name']!r}, {k!r}) is wrong")
    d = m.select_interaction("removed == False", fmt="dict")
    live = [r["name"] for r in ref.rows if not r["removed"]]
    if sorted(x["name"] for x in d.values()) != sorted(live):
        raise Violation(f"select of the live interactions gives {[x['name'] for x in d.values()]}, expected {live}")
    for v in ("x0", "x1", "x2") if full else ("x0",):
        lb = f"x[{v[1]}]"
        got = sorted(m.select_interactions_by_variable(real.var(v)))
        inv = [r for r in ref.rows if r["key"] == lb or (isinstance(r["key"], tuple) and lb in r["key"])]
        if not (set(r["name"] for r in inv if not r["removed"]) <= set(got) <= set(r["name"] for r in inv)) or len(set(got)) != len(got):
            raise Violation(f"interactions by variable {lb}: {got}, expected {[r['name'] for r in inv]}")
    for r in ref.rows:  # addressing by target finds the row with the default name
        t = r["key"] if isinstance(r["key"], tuple) else (r["key"],)
        if r["name"] == "*".join(t):
            tv = [real.var(u[0] + u[2]) for u in t]
            for order in itertools.permutations(tv):
                got = m.get_attributes(target=order[0] if len(order) == 1 else order)
                for k, v in r["attrs"].items():
                    if not same(got.get("attributes." + k), v):
                        raise Violation(f"get_attributes by target for {r['name']!r} is {got}")


def run(case, cov):
    real, ref = run_history(case, cov, observe)
    cov.outcome((len(ref.rows), sum(r["removed"] for r in ref.rows)))


def run_light(case, cov):
    real, ref = run_history(case, cov, lambda a, b: observe(a, b, full=False))
    cov.outcome((len(ref.rows), sum(r["removed"] for r in ref.rows)))


# every combination of optional arguments of add and update
OPT = {"c": [2.5, 0.0, -1], "s": [0.5, 0.0], "a": [{}, {"k": 1}, {"k": 0, "new": "n"}, {"new": False}], "t": [0, 5, -3.5]}


def option_cases():
    keys = list(OPT)
    for n in range(len(keys) + 1):
        for ks in itertools.combinations(keys, n):
            for vals in itertools.product(*[OPT[k] for k in ks]):
                kw = dict(zip(ks, vals))
                for t in ("x0", "x1.x0"):
                    pre = [("add", "x2", {"c": 1.0, "a": {"k": 3}})]
                    yield ("ising", ARR, pre + [("add", t, kw)])
                    yield ("ising", ARR, pre + [("add", t, dict(kw, name="nn"))])
                    yield ("ising", ARR, pre + [("add", t, {"c": 9.0, "s": 8.0, "a": {"k": 7}, "t": 6}), ("upd", t, kw)])
                    yield ("ising", ARR, pre + [("add", t, {"c": 9.0, "s": 8.0, "t": 6, "name": "nn"}), ("updn", "nn", kw)])
                    yield ("ising", ARR, pre + [("upd", t, kw)])


NAMES = ["n", "a b", "x[1]", "x[0]*x[1]", "x[0]*x[2]", "日本", "with 'quote", "(1)", "x", "0"]


def name_cases():
    for a, b in itertools.product(NAMES, NAMES):
        base = [("add", "x0", {"name": a, "c": 1.0}), ("add", "x0.x1", {"name": b, "c": 2.0})]
        for t in ([], [("rmn", a)], [("updn", b, {"c": 3.0})], [("rmn", b), ("phys",), ("add", "x2", {"name": b})], [("add", "x1", {"c": 5.0}), ("rm", "x1")]):
            yield ("qubo", ARR, base + t)


def run_sizes(case, cov):
    def look(real, ref):
        check_table(real.table(), ref)
        live = [r for r in ref.rows if not r["removed"]]
        for r in live[:2] + live[-2:]:
            got = real.m.select_interaction(f"name == '{r['name']}'").to_dict(orient="records")
            if len(got) != 1:
                raise Violation(f"select by name {r['name']!r} gives {len(got)} rows")
            for k, v in r["attrs"].items():
                if not same(real.m.get_attribute(name=r["name"], key="attributes." + k), v):
                    raise Violation(f"get_attribute({r['name']!r}, {k!r}) is wrong")

    real, ref = run_history(case, cov, look)
    cov.outcome((len(ref.rows), sum(r["removed"] for r in ref.rows)))


def size_cases(ns):
    from mc.checks.c01 import size_cases as plain

    for mt, arrays, ops in plain(ns):
        out = []
        for i, op in enumerate(ops):
            kw = dict(op[-1]) if isinstance(op[-1], dict) else None
            if kw is not None and i % 3 == 0:
                kw["a"] = {"k": i, f"k{i % 5}": str(i)}
            if kw is not None and i % 4 == 1:
                kw["t"] = i * 2.5
            out.append(op if kw is None else op[:-1] + (kw,))
        yield (mt, arrays, out)


def SLICES(tier):
    q = tier == "quick"

    def core():
        for h in histories(CORE, 3 if q else 4):
            yield ("ising" if len(h) % 2 else "qubo", ARR, list(h))

    def prefixed():
        for h in histories(CORE, 2 if q else 3, 1):
            for i, pre in enumerate(PREFIXES):
                yield ("ising" if i % 2 else "qubo", ARR, pre + list(h))

    def small():
        for h in histories(SMALL, 4 if q else 6, 4):
            yield ("ising", ARR, list(h))

    ns = (8, 9, 16, 17, 33) if q else (7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100)
    return [
        Slice("sizes", lambda: size_cases(ns), run_sizes, f"models of {ns} variables with 2n interactions, or n on one key, with attributes and timestamps on some, x 14 edit patterns, both types"),
        Slice("options", option_cases, run, "all combinations of the optional arguments of add and update with 2-4 values each, by target and by name"),
        Slice("names", name_cases, run, f"all pairs of {len(NAMES)} interaction names, including ones that look like default names"),
        Slice("prefixed", prefixed, run, f"{len(PREFIXES)} non-initial states x all histories of length 1..{2 if q else 3} over {len(CORE)} operations"),
        Slice("core", core, run_light, f"all histories of length <= {3 if q else 4} over {len(CORE)} operations"),
        Slice("deep", small, run_light, f"all histories of length 4..{4 if q else 6} over {len(SMALL)} operations"),
    ]
