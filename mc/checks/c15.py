"""C15: OptiganSolver sends the problem faithfully and decodes the answer faithfully."""
import copy
import gzip
import itertools
import json
import os

from mc.core import Slice, Violation
from mc.lm import padd, poly_diff
from mc.checks.c14 import MODELS, TERMS, build, is_empty, snapshot
from mc.sa import Problem

ASSUMPTIONS = ["the service is replaced by a fake at requests.post that decodes the request and answers with chosen assignments and the energies of the polynomial it received"]


class Reply:
    def __init__(self, status, body):
        self.status_code = status
        self.body = body
        self.text = json.dumps(body)
        self.content = self.text.encode()
        self.ok = status < 400
        self.headers = {}

    def json(self, **kw):
        return copy.deepcopy(self.body)

    def raise_for_status(self):
        import requests

        if not self.ok:
            raise requests.HTTPError(f"status {self.status_code}")


class Service:
    """Decodes what is sent and answers."""

    def __init__(self, spins, status=200):
        self.spins, self.status, self.calls = spins, status, []

    def post(self, url, data=None, json=None, headers=None, **kw):  # noqa: A002
        headers = dict(headers or {})
        raw = data
        if json is not None:
            payload, coded = json, "json"
        else:
            if isinstance(raw, str):
                raw = raw.encode()
            if headers.get("Content-Encoding") == "gzip":
                payload, coded = globals()["json"].loads(gzip.decompress(raw).decode()), "gzip"
            else:
                payload, coded = globals()["json"].loads(raw.decode()), "json"
        payload = globals()["json"].loads(globals()["json"].dumps(payload))
        self.calls.append((url, headers, payload, coded))
        if self.status != 200:
            return Reply(self.status, {"error": "no", "spins": [], "energies": []})
        energies = []
        for s in self.spins:
            energies.append(sum(c * s[i] * (s[j] if i != j else 1) for i, j, c in payload["polynomial"]))
        return Reply(200, {"execution_parameters": {"num_unit_steps": payload.get("num_unit_steps")}, "execution_time": {"queue_time": 1.5}, "energies": energies, "spins": [list(s) for s in self.spins]})


def cred_setup(cred):
    """-> constructor arguments, expected endpoint and token"""
    scratch = os.environ["VERIF_SCRATCH"] + f"/optigan-{os.getpid()}"
    os.makedirs(scratch, exist_ok=True)
    os.environ["HOME"] = scratch
    home, conf = os.path.join(scratch, ".optigan.yml"), os.path.join(scratch, "conf.yml")
    for f, tag in ((home, "home"), (conf, "conf")):
        with open(f, "w") as fh:
            fh.write(f"api:\n  endpoint: http://{tag}.example/solve\n  token: {tag}-token\n")
    arg = {"endpoint": "http://arg.example/x", "token": "arg-token"}
    return {
        "args": (dict(arg), "arg"), "args-conf": (dict(arg, config=conf), "arg"), "conf": ({"config": conf}, "conf"), "home": ({}, "home"),
        "endpoint-conf": ({"endpoint": arg["endpoint"], "config": conf}, "conf"), "token-home": ({"token": "arg-token"}, "home"),
    }[cred]


def rewrite(gen):
    """a new endpoint and token in both configuration files"""
    scratch = os.environ["VERIF_SCRATCH"] + f"/optigan-{os.getpid()}"
    for name, tag in ((".optigan.yml", "home"), ("conf.yml", "conf")):
        with open(os.path.join(scratch, name), "w") as fh:
            fh.write(f"api:\n  endpoint: http://{tag}{gen}.example/solve\n  token: {tag}{gen}-token\n")


def run_reuse(case, cov):
    """one solver object, several solves; the configuration may be renewed between them"""
    from sawatabi.solver import OptiganSolver

    cred, renew, seq = case
    ctor, who = cred_setup(cred)
    solver = OptiganSolver(**ctor)
    for k, (spec, opts, pick, status) in enumerate(seq):
        if renew and k:
            rewrite(k)
        run((spec, opts, cred, pick, status), cov, (solver, who if who == "arg" or not renew or not k else f"{who}{k}"))


def run(case, cov, held=None):
    import requests

    from sawatabi.solver import OptiganSolver

    spec, opts, cred, pick, status = case
    real, phys = build("qubo", spec)
    if held is None:
        ctor, who = cred_setup(cred)
        solver = OptiganSolver(**ctor)
    else:
        solver, who = held
    cov.step()
    cov.trace()
    orig = requests.post
    if is_empty(phys):
        svc = Service([[0]])
        requests.post = svc.post
        try:
            solver.solve(phys, **opts)
            raise Violation("an empty model was accepted")
        except ValueError:
            pass
        finally:
            requests.post = orig
        if svc.calls:
            raise Violation("an empty model was sent")
        cov.outcome("empty")
        return
    prob = Problem(phys)
    spins = [[(m >> i) & 1 for i in range(prob.n)] for m in (x % (2 ** prob.n) for x in pick)]
    svc = Service(spins, status)
    before, kept = snapshot(real, phys), copy.deepcopy(phys)
    requests.post = svc.post
    try:
        ss = solver.solve(phys, **opts)
        err = None
    except Exception as e:  # noqa: BLE001
        ss, err = None, e
    finally:
        requests.post = orig
    if snapshot(real, phys) != before or phys != kept:
        raise Violation("solving changed the model")
    if len(svc.calls) != 1:
        raise Violation(f"{len(svc.calls)} requests were sent for one solve ({err!r})")
    url, headers, payload, coded = svc.calls[0]
    h = {k.lower(): v for k, v in headers.items()}
    if url != ("http://arg.example/x" if who == "arg" else f"http://{who}.example/solve"):
        raise Violation(f"the request went to {url}, credentials {cred}")
    if h.get("authorization") != f"Bearer {who}-token":
        raise Violation(f"authorization {h.get('authorization')}, expected Bearer {who}-token")
    q = {(): prob.poly[()]}
    for i, j, c in payload["polynomial"]:
        a, b = prob.labels[i], prob.labels[j]
        padd(q, (a,) if i == j else tuple(sorted((a, b))), float(c))
    d = poly_diff(q, prob.poly)
    if d:
        raise Violation(f"the polynomial sent differs from the model: {d}")
    if payload.get("num_unit_steps") != opts.get("num_unit_steps", 10) or payload.get("timeout") != opts.get("timeout", 10000):
        raise Violation(f"options sent {payload.get('num_unit_steps')}, {payload.get('timeout')}, given {opts}")
    want_dup = bool(opts.get("duplicate", False))
    got_dup = bool((payload.get("outputs") or {}).get("duplicate", False))
    if want_dup != got_dup or (want_dup and payload["outputs"].get("num_outputs") != 0):
        raise Violation(f"outputs {payload.get('outputs')}, duplicate={want_dup}")
    if coded != ("gzip" if opts.get("gzip_request", True) else "json"):
        raise Violation(f"the request was {coded}, gzip_request={opts.get('gzip_request', True)}")
    if (coded == "gzip") != (h.get("content-encoding") == "gzip"):
        raise Violation(f"content encoding header {h.get('content-encoding')} for a {coded} request")
    if (h.get("accept-encoding") == "gzip") != bool(opts.get("gzip_response", True)):
        raise Violation(f"accept encoding {h.get('accept-encoding')}, gzip_response={opts.get('gzip_response', True)}")
    cov.outcome((coded, status))
    if status != 200:
        if not isinstance(err, ValueError):
            raise Violation(f"status {status} gave {ss} {err!r}")
        return
    if err is not None:
        raise Violation(f"solve raised {err!r}")
    got = {}
    if ss.vartype.name != "BINARY" or sorted(ss.variables) != sorted(prob.labels):
        raise Violation(f"sample set {ss.vartype} over {list(ss.variables)}, expected {prob.labels}")
    for r in ss.data(fields=["sample", "energy", "num_occurrences"], sorted_by=None):
        key = tuple(int(r.sample[v]) for v in prob.labels)
        if key in got:
            raise Violation(f"sample {key} is listed twice")
        got[key] = (float(r.energy), int(r.num_occurrences))
    exp = {}
    for s in spins:
        exp[tuple(s)] = exp.get(tuple(s), 0) + 1
    if {k: n for k, (_, n) in got.items()} != exp:
        raise Violation(f"samples (in index order) and multiplicities {got}, the service returned {exp}")
    for k, (e, _) in got.items():
        true = prob.energy([2 * b - 1 for b in k])
        if not prob.eq(e, true):
            raise Violation(f"sample {k} has energy {e}, its energy is {true}")
    cov.state((repr(spec), tuple(sorted(exp.items())), coded))


def run_refuse(case, cov):
    import requests

    from sawatabi.solver import OptiganSolver

    mt, spec = case
    real, phys = build(mt, spec)
    ctor, _ = cred_setup("args")
    svc = Service([[0]])
    orig = requests.post
    requests.post = svc.post
    cov.step()
    cov.trace()
    cov.state((mt, repr(spec)))
    try:
        OptiganSolver(**ctor).solve(phys)
    except ValueError:
        if svc.calls:
            raise Violation("a refused model was sent") from None
        return
    finally:
        requests.post = orig
    raise Violation(f"a {mt} model {spec} was accepted")


def SLICES(tier):
    q = tier == "quick"
    subs = [list(s) for n in range(0, len(TERMS) + 1) for s in itertools.combinations(TERMS, n)]
    specs = subs + list(MODELS)
    DEF = {}

    def problems():
        for s in specs:
            for pick in ([0, 1, 2, 3, 5, 7], [6, 1, 6, 4]):
                yield (s, DEF, "args", pick, 200)

    def options():
        for s in ("pair", "tri", "rev", "hole"):
            for gq, gr, dup, nus, to, cred in itertools.product((True, False), (True, False), (True, False), (None, 0, 1, 25), (None, 0, 500), ("args", "args-conf", "conf", "home", "endpoint-conf", "token-home")):
                o = {"gzip_request": gq, "gzip_response": gr, "duplicate": dup}
                if nus is not None:
                    o["num_unit_steps"] = nus
                if to is not None:
                    o["timeout"] = to
                yield (s, o, cred, [1, 2, 1], 200)

    def answers():
        for s in ("one", "oneoff", "pair", "hole", "rev", "tri"):
            n = {"one": 1, "oneoff": 1, "pair": 2, "hole": 2, "rev": 3, "tri": 3}[s]
            for k in range(1, 4 if q else 5):
                for pick in itertools.product(range(2 ** n), repeat=k):
                    yield (s, {"duplicate": True}, "args", list(pick), 200)

    def large():
        for n in (5, 8, 9, 16, 17, 32, 40, 70, 100) if q else (5, 8, 9, 10, 16, 17, 31, 32, 33, 40, 63, 64, 65, 70, 100, 129):
            full = 2 ** n - 1
            picks = [0, full, 1, 2 ** (n - 1), full // 3, full // 7, 0, 5]
            for gq in (True, False):
                yield (f"large{n}", {"gzip_request": gq, "duplicate": True}, "args", picks, 200)
            yield (f"large{n}", {}, "args", [(full // 3 + 1000003 * k) & full for k in range(33)], 200)

    steps = [("tri", {}, [1, 2, 1], 200), ("tri", {"gzip_request": False, "gzip_response": False}, [5], 200), ("rev", {"duplicate": True, "num_unit_steps": 3, "timeout": 7}, [6, 6, 0], 200), ("pair", {}, [1], 500), ([], {}, [0], 200), (TERMS[:3], {}, [1, 3], 200), (TERMS[:3] + [("off", 2.5)], {}, [1, 3], 200)]

    def reuse():
        for cred in ("args", "args-conf", "conf", "home", "endpoint-conf", "token-home"):
            for renew in (False, True):
                for seq in itertools.product(steps, repeat=2 if q and cred not in ("conf", "home") else 3):
                    yield (cred, renew, list(seq))

    status = [(s, o, "args", [1], st) for s in ("pair", "tri") for o in ({}, {"gzip_request": False}, {"duplicate": True}) for st in (302, 400, 401, 403, 404, 429, 500, 502, 503)]
    refuse = [("ising", s) for s in subs[1:40] + list(MODELS)] + [("qubo", []), ("qubo", [("off", 1.0)]), ("qubo", [("add", "x0", {"c": 0.0})]), ("ising", []), ("qubo", [("add", "x0", {"c": 1.0}), ("rm", "x0")])]
    return [
        Slice("refuse", refuse, run_refuse, "Ising and empty models"),
        Slice("status", status, run, "9 non-success status codes"),
        Slice("reuse", reuse, run_reuse, f"one solver object: all sequences of 2 or 3 of {len(steps)} solves (other models, options, failures) x 6 sources of credentials, the configuration files kept or renewed between solves"),
        Slice("options", options, run, "all combinations of compression, duplicate, steps, timeout and 6 sources of credentials"),
        Slice("problems", problems, run, f"all {len(subs)} sub-models of {len(TERMS)} terms and {len(MODELS)} larger ones"),
        Slice("large", large, run, "dense models of up to 100 (thorough 129) variables, up to 33 answers, both encodings"),
        Slice("answers", answers, run, f"all sequences of up to {3 if q else 4} returned assignments of 1 to 3 variables"),
    ]
