"""C26: looking at a model returns exactly what is there and changes nothing."""
import itertools
import math

from mc.core import Slice, Violation, histories
from mc.lm import CLOCK, Real, Ref, apply_both, check_row, fresh_clock, poly_diff, poly_of_bqm, same

ASSUMPTIONS = ["queries are pandas query strings over the columns of the interaction table"]
ARR = {"x": [3], "ab": [2, 2]}
START = [
    ("add", "x0", {"c": 1.0, "a": {"k": 1}, "t": 5}), ("add", "x0.x1", {"c": -2.0, "s": 0.5, "a": {"l": "v"}, "t": 7}), ("add", "x0", {"name": "n1", "c": 0.0, "t": 7.5}),
    ("add", "x2", {"c": 3.0, "a": {"k": 4}, "t": 5}), ("add", "ab:0,1.x2", {"c": 1.5, "t": 9}), ("add", "ab:1,0", {"c": -1.0, "a": {"k": 0, "l": ""}, "t": 1}), ("rm", "x2"),
]
OPS = [
    ("add", "x1", {"c": 2.0, "a": {"k": 2}, "t": 6}), ("add", "x1.x0", {"name": "x[1]", "c": 0.5, "t": 3}), ("upd", "x0", {"c": -4.0, "s": 2.0}), ("upd", "x0.x1", {"a": {"k": 1}}), ("rm", "x0"), ("rm", "x0.x1"),
    ("rmn", "n1"), ("phys",), ("del", "x0"), ("fix", "x2", 1), ("off", 3.5), ("con", "h", "nhot", {"vars": ["x0", "x1"], "n": 1}), ("add", "ab:1,1.ab:0,0", {"c": 7.0, "t": 2}), ("del", "ab:1,0"),
]


def nan(v):
    return isinstance(v, float) and math.isnan(v)


def num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) and not nan(v)


# query, predicate over a reference row; "k" and "l" may be absent
QUERIES = [
    ("body == 1", lambda r: not isinstance(r["key"], tuple)),
    ("body == 2", lambda r: isinstance(r["key"], tuple)),
    ("removed == False", lambda r: not r["removed"]),
    ("removed", lambda r: r["removed"]),
    ("dirty == True", lambda r: r["dirty"]),
    ("not dirty and not removed", lambda r: not r["dirty"] and not r["removed"]),
    ("name == 'x[0]'", lambda r: r["name"] == "x[0]"),
    ("name in ['n1', 'x[0]*x[1]', 'nothing']", lambda r: r["name"] in ("n1", "x[0]*x[1]")),
    ("coefficient > 0", lambda r: r["coef"] > 0),
    ("coefficient * scale < 0", lambda r: r["coef"] * r["scale"] < 0),
    ("scale != 1", lambda r: r["scale"] != 1),
    ("timestamp >= 5 and timestamp < 8", lambda r: 5 <= r["ts"] < 8),
    ("timestamp == timestamp.max()", "max"),
    ("key_0 == 'x[0]'", lambda r: (r["key"] if isinstance(r["key"], str) else r["key"][0]) == "x[0]"),
    ("key_1 == 'x[1]'", lambda r: isinstance(r["key"], tuple) and r["key"][1] == "x[1]"),
    ("(key_0 == 'x[2]' or key_1 == 'x[2]') and removed == False", lambda r: not r["removed"] and "x[2]" in (r["key"] if isinstance(r["key"], tuple) else (r["key"],))),
    ("index >= 0", lambda r: True),
    ("coefficient > 1000", lambda r: False),
    ("`attributes.k` == 1", lambda r: same(r["attrs"].get("k"), 1)),
    ("`attributes.k` > 0", lambda r: num(r["attrs"].get("k")) and r["attrs"]["k"] > 0),
    ("`attributes.k` != `attributes.k`", lambda r: "k" not in r["attrs"]),
    ("`attributes.l` == 'v'", lambda r: r["attrs"].get("l") == "v"),
]
BAD_QUERIES = ["nonsense == 1", "coefficient >", "body = 1"]


def labels(arrays):
    for n, sh in arrays.items():
        for idx in itertools.product(*[range(d) for d in sh]):
            yield n, idx, n + "".join(f"[{i}]" for i in idx)


def model_snapshot(m):
    rows = m.select_interaction("index >= 0")
    return repr([list(rows.columns), rows.to_dict(orient="records"), m.get_offset(), m.get_mtype(), m.get_size(), m.get_all_size(), m.get_deleted_array(), m.get_fixed_array(), sorted(m.get_constraints()), {k: v.shape for k, v in m.get_variables().items()}])


def check_rows(what, got, want, attrs, names):
    g = {r["name"]: r for r in got}
    if len(g) != len(got) or {n for n in g if n in names} != {r["name"] for r in want if r["name"] is not None}:
        raise Violation(f"{what} gives {[r['name'] for r in got]}, expected {[r['name'] for r in want]}")
    anon = [r for r in want if r["name"] is None]
    if len(got) != len(want):
        raise Violation(f"{what} gives {len(got)} rows, expected {len(want)}")
    for r in want:
        if r["name"] is not None:
            check_row(g[r["name"]], r, attrs)
    left = sorted(repr(g[n]["key"]) for n in g if n not in names)
    if left != sorted(repr(r["key"]) for r in anon):
        raise Violation(f"{what} gives rows on {left}, expected {[r['key'] for r in anon]}")


def run(case, cov):
    mt, ops, order = case
    fresh_clock()
    real, ref = Real(mt, ARR), Ref(mt, ARR)
    for op in ops:
        CLOCK.now += 10.0
        apply_both(real, ref, tuple(op))
        cov.step()
        for r in ref.rows:
            if r["ts"] is None:  # rows made by fixing are stamped with the present
                r["ts"] = CLOCK.now
    cov.state(ref.canon())
    cov.trace()
    m = real.m
    names = {r["name"] for r in ref.rows if r["name"] is not None}
    rows_now = list(ref.rows)
    attrs = set()
    for r in m.select_interaction("index >= 0").to_dict(orient="records"):
        attrs |= {k for k in r if k.startswith("attributes.")}
    before = model_snapshot(m)
    has = {k for k in ("k", "l") if "attributes." + k in attrs}

    def queries():
        for text, pred in QUERIES:
            if "attributes." in text and text.split("attributes.")[1][0] not in has:
                continue
            if pred == "max":
                top = max((r["ts"] for r in rows_now), default=None)
                want = [r for r in rows_now if r["ts"] == top]
            else:
                want = [r for r in rows_now if pred(r)]
            df = m.select_interaction(text)
            recs = df.to_dict(orient="records")
            check_rows(f"select_interaction({text!r})", recs, want, attrs, names)
            d = m.select_interaction(text, fmt="dict")
            if not isinstance(d, dict) or [x["name"] for x in d.values()] != [x["name"] for x in recs] or repr(list(d.values())) != repr(recs):
                raise Violation(f"select_interaction({text!r}, fmt='dict') gives {d}, the table {recs}")
            # what is returned belongs to the caller
            if len(df):
                df.loc[:, "coefficient"] = 99.0
                df.loc[:, "removed"] = True
            for x in d.values():
                x["scale"] = 99.0
            cov.outcome(("query", len(want)))
        for text in BAD_QUERIES:
            try:
                m.select_interaction(text)
            except Exception:  # noqa: BLE001
                continue
            raise Violation(f"the query {text!r} was accepted")

    def by_variable():
        for n, idx, lb in labels(ARR):
            got = m.select_interactions_by_variable(real.var(f"{n}:{','.join(map(str, idx))}"))
            inv = [r for r in rows_now if lb in (r["key"] if isinstance(r["key"], tuple) else (r["key"],))]
            got = list(got)
            if len(got) != len(inv) or not {r["name"] for r in inv if r["name"]} <= set(got) or len(set(got)) != len(got):
                raise Violation(f"interactions on {lb}: {got}, expected {[r['name'] for r in inv]}")
            cov.outcome(("variable", len(inv)))
        for bad in ("x[0]", None, 0, (real.var("x0"), real.var("x1"))):
            try:
                m.select_interactions_by_variable(bad)
            except TypeError:
                continue
            raise Violation(f"select_interactions_by_variable({bad!r}) was accepted")

    def attributes():
        for r in rows_now:
            if r["name"] is None:
                continue
            a = m.get_attributes(name=r["name"])
            want = {k: r["attrs"].get(k[len("attributes."):], float("nan")) for k in attrs}
            if set(a) != set(want) or any(not (same(a[k], want[k]) or (nan(a[k]) and nan(want[k]))) for k in want):
                raise Violation(f"attributes of {r['name']!r}: {a}, expected {want}")
            for k in want:
                v = m.get_attribute(name=r["name"], key=k)
                if not (same(v, want[k]) or (nan(v) and nan(want[k]))):
                    raise Violation(f"attribute {k} of {r['name']!r}: {v!r}, expected {want[k]!r}")
            a["attributes.k"] = "changed by the caller"
            a["attributes.zzz"] = 1
        for kw in ({"name": "nothing"}, {}, {"name": "n1", "target": real.var("x0")}):
            try:
                m.get_attributes(**kw)
            except (KeyError, ValueError):
                continue
            raise Violation(f"get_attributes({kw}) was accepted")
        try:
            m.get_attribute(name=rows_now[0]["name"], key="attributes.unknown")
        except KeyError:
            pass
        else:
            raise Violation("an unknown attribute was returned")

    def sizes():
        n = ref.all_size()
        got = (m.get_all_size(), m.get_deleted_size(), m.get_fixed_size(), sorted(m.get_deleted_array()), sorted(m.get_fixed_array()), m.get_mtype())
        want = (n, len(ref.deleted), len(ref.fixed), sorted(ref.deleted), sorted(ref.fixed), mt)
        if got != want:
            raise Violation(f"sizes, deleted, fixed and type are {got}, expected {want}")
        m.get_deleted_array().append("no")
        m.get_fixed_array().append("no")
        if sorted(m.get_constraints()) != sorted(ref.constraints) or any(m.get_constraints_by_label(c).get_label() != c for c in ref.constraints):
            raise Violation(f"constraints {list(m.get_constraints())}, expected {list(ref.constraints)}")
        if {k: tuple(v.shape) for k, v in m.get_variables().items()} != ref.arrays or any(m.get_variables_by_name(k) is not v and m.get_variables_by_name(k) != v for k, v in m.get_variables().items()):
            raise Violation("the variables are wrong")
        e = m.empty()
        if e.get_mtype() != mt or e.get_all_size() or len(e.select_interaction("index >= 0")):
            raise Violation("an empty sibling is not empty")

    def texts():
        r, s = repr(m), str(m)
        if repr(m) != r or str(m) != s:
            raise Violation("printing twice gives different texts")
        for name in ARR:
            if name not in s or name not in r:
                raise Violation(f"the text does not mention the variables {name!r}")
        if mt not in s or mt not in r:
            raise Violation("the text does not mention the model type")
        if not (m == m) or m != m:
            raise Violation("a model does not equal itself")
        for c in m.get_constraints().values():
            repr(c), str(c)

    looks = [queries, by_variable, attributes, sizes, texts]
    for k in order:
        looks[k]()
        if model_snapshot(m) != before:
            raise Violation(f"{looks[k].__name__}: looking changed the model from {before} to {model_snapshot(m)}")
    for k in order:  # what is returned the second time is the same
        looks[k]()
    if model_snapshot(m) != before:
        raise Violation("looking changed the model")
    env = ref.energy()
    d = poly_diff(poly_of_bqm(m.to_physical().to_bqm()), env, modulo_constant=ref.modulo_constant())
    if d:
        raise Violation("after looking at the model it converts to another problem: " + d)


def SLICES(tier):
    q = tier == "quick"

    def hist():
        for n in range(1, 3 if q else 4):
            for i, h in enumerate(itertools.product(OPS, repeat=n)):
                names = [(o[0], o[1]) for o in h if o[0] == "add"]
                if len(set(names)) < len(names):
                    continue
                gone = [j for j, o in enumerate(h) if o[0] in ("del", "fix")]
                if gone and any(o[0] in ("add", "con") for o in h[min(gone):]):
                    continue
                for mt in ("ising", "qubo") if n < 2 or not q else ("ising", "qubo")[i % 2:][:1]:
                    yield (mt, START + list(h), [0, 1, 2, 3, 4])

    def many():
        keys = ("x0", "x1", "x2", "x0.x1", "x1.x2", "ab:0,0", "ab:1,1.x0", "ab:0,1.ab:1,0")
        for n in (30, 100) if q else (15, 30, 64, 100, 200):
            rows = [("add", keys[i % 8], {"name": f"r{i}", "c": i / 4 - 3, "s": 1.0 + (i % 3) / 2, "t": i % 13, "a": {"k": i - 5} if i % 2 else {"l": "v" if i % 4 else "w"}}) for i in range(n)]
            for mt in ("ising", "qubo"):
                for tail in ([], [("rmn", "r3"), ("rmn", "r10")], [("phys",), ("rmn", "r7"), ("phys",)], [("del", "x1")], [("fix", "x2", 1)]):
                    yield (mt, START + rows + tail, [0, 1, 2, 3, 4])

    orders = [(mt, START + list(h), list(o)) for o in itertools.permutations(range(5)) for h in ([], [OPS[0]], [("rm", "x0"), ("phys",)]) for mt in (("ising",) if q else ("ising", "qubo"))]
    fresh = [(mt, [("add", "x0", {"c": 1.0, "t": 4, "a": {"k": 1}})] + list(h), [0, 1, 2, 3, 4]) for mt in ("ising", "qubo") for h in histories([o for o in START[1:] if o[0] == "add"], 2 if q else 3) if len({repr(o) for o in h}) == len(h)]
    return [
        Slice("orders", orders, run, "all orders of the five groups of observations on 3 models"),
        Slice("many", many, run, "tables of 30 and 100 (thorough up to 200) interactions"),
        Slice("fresh", fresh, run, "small models"),
        Slice("histories", hist, run, f"a rich start x all histories of length <= {2 if q else 3} over {len(OPS)} operations, then {len(QUERIES)} queries, all variables, all attributes, sizes and texts"),
    ]
