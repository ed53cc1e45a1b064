"""writes MANIFEST.json from the properties, the contracts and the scenarios present"""
import glob, json, re, sys
sys.path.insert(0, "/verif/vcg")
import check
V = "/verif"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
specs = check.all_specs()
scen = {}
for p in sorted(glob.glob(V + "/drivers/*.cpp")):
    for n, ps in re.findall(r'^SCENARIO\((\w+),\s*"([^"]*)"\)', open(p).read(), re.M):
        for x in ps.split():
            scen.setdefault(x, []).append(n)
na = json.load(open(V + "/tools/not_applicable.json"))
checks, out = [], []
for p in props:
    i = p["id"]
    if i in na:
        out.append({"property": i, "reason": na[i]})
        continue
    hs = [s["path"].split("/")[-1] + ":" + h for s in specs for h in dict.fromkeys(s["props"].get(i, []))]
    assert hs, "no contract for " + i
    note = "every obligation of the contracts %s is generated from the current source and discharged by z3 without a bound" % ", ".join(hs)
    if scen.get(i):
        note += "; whole-engine scenarios %s are bounded stand-ins run beside them and never counted as proved" % ", ".join(scen[i])
    note += "; the index and log libraries are assumed contracts (stand-ins)"
    checks.append({"property": i, "quick_cmd": "python3-vt vcg/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt vcg/check.py " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": "contract-based deductive verification (own VC generator over LLVM IR of the real code, z3), bounded native scenarios beside it",
                   "level": "proof", "level_note": note, "theorems": hs})
m = {"version": 1, "setup_cmd": "python3-vt vcg/check.py --setup", "checks": checks, "not_applicable": out,
     "notes": "No hooks in /repo: the contracts are harness functions over the extracted LLVM IR of the working tree. known_findings.txt lists recorded and repaired defects."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(out), "not applicable")
