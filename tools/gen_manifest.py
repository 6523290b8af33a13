"""Writes MANIFEST.json from the list of check modules."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "hist": "explicit enumeration of all operation histories up to a depth, executed on the real code and compared step by step with a reference model",
    "input": "exhaustive enumeration of a bounded input/configuration space executed on the real code against a brute-force oracle",
    "rng": "stateless model checking of the real annealer: every random choice it draws is enumerated through a controlled random source",
    "env": "exhaustive enumeration of inputs, environment answers and faults on the real code with a scripted environment",
    "sched": "stateless model checking of the real streaming step: all small streams, delivery orders, bundle boundaries and faults under a controlled runner, plus conformance runs on the real Beam runner",
}
KIND = dict(C01="hist", C02="hist", C03="hist", C04="hist", C05="hist", C06="hist", C07="hist", C08="hist", C09="hist", C10="hist", C11="input", C12="rng", C13="rng", C14="env", C15="env",
            C16="sched", C17="sched", C18="sched", C19="sched", C20="input", C21="env", C22="hist", C23="hist", C24="rng", C25="sched", C26="hist", C27="input", C28="hist", C29="sched")
NOTE = {
    "hist": "exhaustive within the stated alphabet and depth; the reference model is validated by replaying every enumerated history on the implementation",
    "input": "exhaustive within the stated input bounds",
    "rng": "exhaustive over the drawn random values (representatives around every acceptance threshold) within the stated model sizes and sweep counts",
    "env": "exhaustive over the stated inputs and scripted answers; the remote side is a stand-in",
    "sched": "exhaustive over streams, delivery orders and bundle boundaries within the stated bounds; Beam's state API is replaced by an equivalent controlled one and validated by runs on the real DirectRunner",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", i.lower() + ".py")):
        k = KIND[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": "model checking: " + TECH[k], "level": "model_checking", "level_note": NOTE[k]})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
