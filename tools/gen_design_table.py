"""Prints the table of slices (what is enumerated, within which bounds) for DESIGN.md."""
import importlib, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc import core
core.load_repo()
for i in range(1, 60):
    if not os.path.exists(f"{V}/mc/checks/c{i:02d}.py"):
        continue
    m = importlib.import_module(f"mc.checks.c{i:02d}")
    q = {s.name: s.bounds for s in m.SLICES("quick")}
    print(f"\n**C{i:02d}**\n")
    for s in m.SLICES("thorough"):
        b = q.get(s.name)
        print(f"- `{s.name}`: " + (s.bounds if b == s.bounds else f"{s.bounds} (thorough only)" if b is None else f"{b} — thorough: {s.bounds}"))
    print("- assumed: " + "; ".join(m.ASSUMPTIONS))
