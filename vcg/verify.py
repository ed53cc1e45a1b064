"""Verifies the contracts of one spec file: verify.py <bc file>... -> JSON on stdout"""
import json
import sys
import time
import z3
sys.setrecursionlimit(20000)
import llvm
import sym


def harnesses(prog):
    out = []
    for m in prog.mods:
        for n, f in m.funcs.items():
            if n.startswith("vf_harness_") and not f.decl:
                out.append(n)
    return out


def inputs_of(eng, model, maxidx=6):
    d = {}
    for n, v in eng.inputs.items():
        d[n] = model.eval(v, model_completion=True).as_long()
    for (n, k), f in eng.infns.items():
        if k == 1:
            idxs = set(range(maxidx))
            it = model[f]
            if it is not None:
                for j in range(it.num_entries()):
                    idxs.add(it.entry(j).arg_value(0).as_long())
            for i in idxs:
                d["%s[%d]" % (n, i)] = model.eval(f(z3.BitVecVal(i, 64)), model_completion=True).as_long()
        else:
            it = model[f]
            if it is not None:
                for j in range(it.num_entries()):
                    e = it.entry(j)
                    d["%s[%d,%d]" % (n, e.arg_value(0).as_long(), e.arg_value(1).as_long())] = e.value().as_long()
    return d


def run(prog, name, opts):
    sym.Fam.n = 0
    t = time.time()
    eng = sym.Engine(prog, opts)
    res = {"harness": name[len("vf_harness_"):], "mode": "proof" if opts.get("bound") is None else "bounded %d" % opts["bound"]}
    try:
        st = sym.State((), {})
        eng.call_fn(prog.func(name), [], st)
        res["error"] = None
    except sym.Undecided as e:
        res["error"] = "%s [in %s]" % (e, " < ".join(reversed(eng.callstack[-4:])))
    except z3.Z3Exception as e:
        if opts.get("trace", 0) > 0:
            import traceback
            traceback.print_exc()
        res["error"] = "z3: %s [in %s]" % (str(e)[:200], " < ".join(reversed(eng.callstack[-4:])))
    except RecursionError:
        res["error"] = "recursion"
    obls = []
    for o in eng.obls:
        r = {"name": o["name"], "fn": o["fn"], "res": o["res"], "t": round(o["t"], 3), "how": o.get("how", "")}
        if o["res"] == "failed":
            try:
                m = eng.get_model(o)
                if m is not None:
                    r["inputs"] = inputs_of(eng, m)
            except z3.Z3Exception:
                pass
        obls.append(r)
    res["obligations"] = obls
    known = set().union(*[set(m.funcs) | set(m.aliases) for m in prog.mods])
    gone = sorted(k for k in opts.get("overrides", {}) if k not in known)
    res["gone"] = gone
    if gone and res["error"] is None and any(o["res"] != "proved" for o in obls):
        # a contract stands in for a function the code no longer has: what fails says nothing about the code
        res["error"] = "functions named in the contract are gone: " + ", ".join(gone)
    res["reach"] = getattr(eng, "reach", [])
    res["visited"] = sorted(eng.visited)
    res["assumed"] = sorted(eng.assumed)
    res["externals"] = sorted(eng.externals)
    res["stats"] = eng.stats
    res["solver_calls"] = eng.nsolver
    res["solver_s"] = round(eng.tsolver, 3)
    res["bounded_used"] = eng.bounded_used
    res["wall_s"] = round(time.time() - t, 3)
    return res


def main():
    spec = json.load(open(sys.argv[1]))
    prog = llvm.Program(spec["modules"])
    if spec.get("list"):
        print(json.dumps({"harnesses": harnesses(prog), "functions": sorted(prog.defs)}))
        return
    out = []
    for h in spec["harnesses"]:
        out.append(run(prog, h, dict(spec.get("opts", {}), overrides=spec.get("overrides", {}))))
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
