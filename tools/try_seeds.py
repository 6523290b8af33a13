"""
usage: try_seeds.py [--thorough] [--all-checks] [--live] [id...]
Applies each planted bug to a scratch copy of /repo (--live: to /repo itself), runs the check of its property on it and
undoes it.  Results go to tools/seed_results.json.
"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
tier = "thorough" if "--thorough" in sys.argv else "quick"
ids = args or sorted(os.listdir(V + "/seeded"))
R = "/repo" if "--live" in sys.argv else f"/tmp/try_seeds.{os.getpid()}"


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True, env={**os.environ, "VERIF_REPO": R})


if R != "/repo":
    sh(f"cp -a /repo {R}")
assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "the repository is not clean"
path = V + "/tools/seed_results.json"
res = json.load(open(path)) if os.path.exists(path) else {}
try:
    for i in ids:
        d = f"{V}/seeded/{i}"
        prop = json.load(open(d + "/meta.json"))["property"]
        props = [prop] if "--all-checks" not in sys.argv else [f"C{k:02d}" for k in range(1, 60) if os.path.exists(f"{V}/mc/checks/c{k:02d}.py")]
        hits = []
        try:
            r = sh(f"git -C {R} apply {d}/patch.diff")
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stderr, flush=True)
                continue
            for p in props:
                t = time.time()
                r = sh(f"{V}/check {p} --tier {tier}")
                caught = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
                hits += [p] if caught else []
                print(f"{i:16s} {p} {'caught' if caught else 'MISSED rc=%d' % r.returncode} {time.time() - t:.0f}s", (r.stdout.strip().splitlines() or [""])[-1][:100] if not caught else "", flush=True)
        finally:
            sh(f"git -C {R} checkout -- .")
        if tier == "quick":
            old = set(res.get(i, "").replace("caught by ", "").split(", ")) - {"", "missed"} if "--all-checks" not in sys.argv else set()
            now = sorted((old - set(props)) | set(hits))
            res[i] = "caught by " + ", ".join(now) if now else "missed"
finally:
    if R != "/repo":
        shutil.rmtree(R, ignore_errors=True)
    json.dump(res, open(path, "w"), indent=1, sort_keys=True)
