"""Regenerates the 'fixed' list of known_findings.json from the fix: commits of /repo."""
import json, subprocess, re
WHAT = {
"56e4ac0": ("C02", "update_interaction without a timestamp stamped the time of the import instead of the time of the update"),
"4a6f13c": ("C02", "an attribute key first given by update_interaction was not registered and broke later operations"),
"010e6dc": ("C02", "update_interaction on a missing interaction adds it but dropped the given attributes"),
"8a896c0": ("C04", "delete_variable with constraints failed on, or touched, constraints that do not have the variable"),
"2d5f4ae": ("C05", "fixing a variable revived interactions that had been removed"),
"75e5728": ("C05", "a fixed variable kept appearing, unfixed, through the constraints"),
"5000bc7": ("C11", "from_pyqubo on an Ising model stored QUBO coefficients as Ising ones"),
"7a49893": ("C09", "a placeholder coefficient was refused on update, so that type conversions of models with placeholders failed"),
"c4def70": ("C06", "a type conversion ignored the scale of the interactions"),
"0f98039": ("C06", "generated interaction names collided with existing ones on conversion and merge"),
"79f211f": ("C07", "a refused merge had already changed the model"),
"b2bc146": ("C10", "some variables of the physical model had no index"),
"406f091": ("C23", "append with another number of dimensions silently truncated the shape"),
"33d13fc": ("C03", "a failing to_physical left the model half converted"),
"c6da80d": ("C08", "an equality constraint on overlapping sets did not cancel the common variables"),
"3cfc1a4": ("C08", "a constraint shared the set object of its caller"),
"117c49b": ("C13", "seed=0 was treated as no seed"),
"3e0ada1": ("C13", "solve rewrote the caller's initial states"),
"84b2562": ("C12", "empty reverse_options crashed instead of meaning forward annealing"),
"becd005": ("C15", "Optigan energies lacked the offset of the model"),
"815f177": ("C21", "options set to False were treated as switched on"),
"3bfa51b": ("C16", "an outdated window was judged and reported by its own timestamp instead of the one processed before"),
"dc68566": ("C16", "the partial algorithm delivered an element twice when windows overlap"),
"34a082b": ("C16", "outgoing missed elements that left the window (ties, gaps)"),
"c04b839": ("C17", "an exception in the attenuation step aborted the whole pipeline"),
"f4095f6": ("C20", "enumerate_all missed partitions with zeros or an empty side"),
"a87c7ce": ("C17", "a mapping that changed the previous model in place and then failed left its changes in the model of the next window"),
"3df6349": ("C22", "a model restored by pickle did not equal the original (missing values are NaN)"),
"51bd058": ("C08", "after a model type conversion the variables of a constraint kept the old type, so that adding a variable again broke the conversion to a physical model and removing one was refused"),
"888349e": ("C03", "from_pyqubo refused for an existing name had already added some of the interactions"),
"c315e10": ("C12", "the energy history of SawatabiSolver lacked the offset"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:") :
        k = [w for w in WHAT if h.startswith(w) or w.startswith(h)]
        if k:
            p, w = WHAT[k[0]]
        else:
            continue
        out.append(f"fixed: property={p} {h} {w}")
print(len(out), "of", len(WHAT))
f = "/verif/known_findings.json"
d = json.load(open(f)); d["fixed"] = out
json.dump(d, open(f, "w"), indent=1)
