"""Decides one property: check.py <id> | check.py --setup | check.py --replay <file>

1. extracts the functions of /repo (compiles the working tree to LLVM IR),
2. discharges every obligation of the contracts of the property (verify.py),
3. on a failed obligation looks for a failing input: the verifier's counterexample and
   then a search, both run against the native build of the same sources,
4. runs the bounded whole-engine scenarios of the property (native build),
5. writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

V = "/verif"
R = "/repo"
CACHE = V + "/.cache"
PY = "python3-vt"
NJ = max(2, min(8, os.cpu_count() or 2))
DEFS = ("-std=c++17 -DSHIRAKAMI_LINUX -DINDEX_YAKUSHIMA -DYAKUSHIMA_EPOCH_TIME=40 -DKVS_MAX_PARALLEL_THREADS=300 "
        "-DYAKUSHIMA_MAX_PARALLEL_SESSIONS=300 -DPARAM_EPOCH_TIME=0 -DPARAM_RETRY_READ=0 -DPARAM_SNAPSHOT_EPOCH=25 "
        "-DPARAM_CHECKPOINT_REST_EPOCH=40 -DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000 -DPARAM_CPR_DIFF_SET_RESERVE_NUM=0 "
        "-DPROJECT_ROOT=/repo -DPWAL -DHAVE_LIMESTONE_CONFIG_CTOR_NONE=1 -DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH=1 "
        "-DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE=1 -I/repo/include -I/repo/src -I/repo/src/include -I/repo/third_party "
        "-I/verif/stubs").split()
LIBS = "-lglog -ltbb -lboost_filesystem -lpthread -latomic".split()
IRC = ["clang++-18", "-I/verif/spec", "-I/verif/contract", "-include", "/verif/spec/vfstl.h"] + DEFS + \
    ["-fno-access-control", "-O0", "-Xclang", "-disable-O0-optnone", "-w", "-emit-llvm", "-c"]
PASSES = "sroa,simplifycfg,loop-simplify,lcssa"
NATC = ["g++"] + DEFS + ["-O1", "-g1", "-w", "-c"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def sh(cmd, timeout=600, mem=None, **kw):
    def lim():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim, **kw)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(pats):
    h = hashlib.sha256()
    for pat in pats:
        for f in sorted(glob.glob(pat, recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0" + rd(f) + b"\0")
    return h.hexdigest()


class Build:
    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.lk = threading.Lock()
        self.hdr = tree_hash([R + "/include/**/*", R + "/src/**/*.h", R + "/third_party/**/*.h", V + "/stubs/**/*.h"])
        self.irh = sha(self.hdr, tree_hash([V + "/spec/**/*", V + "/contract/*"]), " ".join(IRC), PASSES)
        self.nah = sha(self.hdr, " ".join(NATC))
        self.nsh = sha(self.nah, tree_hash([V + "/contract/*"]), tree_hash([V + "/drivers/*.h"]))

    @staticmethod
    def sources():
        out = []
        for p in ("concurrency_control/*.cpp", "concurrency_control/bg_work/*.cpp", "concurrency_control/interface/*.cpp",
                  "concurrency_control/interface/*/*.cpp", "database/*.cpp", "datastore/limestone/*.cpp"):
            out += sorted(glob.glob(R + "/src/" + p))
        return out

    def cached(self, kind, src, key, make):
        d = CACHE + "/" + kind
        os.makedirs(d, exist_ok=True)
        out = d + "/" + src.strip("/").replace("/", "_")
        kf = out + ".key"
        if os.path.exists(out) and os.path.exists(kf) and rd(kf).decode() == key:
            return out, None
        for f in (out, kf):
            if os.path.exists(f):
                os.unlink(f)
        err = make(out)
        if err is None:
            with open(kf, "w") as f:
                f.write(key)
            return out, None
        return None, err

    def ir(self, src, extra=""):
        body = rd(src)

        def make(out):
            t = out + ".tmp"
            r = sh(IRC + [src, "-o", t], 300)
            if r.returncode:
                return r.stderr.decode()[-2000:]
            r = sh(["opt-18", "-passes=" + PASSES, t, "-o", out], 300)
            os.unlink(t)
            return r.stderr.decode()[-2000:] if r.returncode else None
        return self.cached("ir", src, sha(self.irh, body, extra), make)

    def obj(self, src):
        def make(out):
            r = sh(NATC + [src, "-o", out], 300)
            return r.stderr.decode()[-2000:] if r.returncode else None
        return self.cached("obj", src, sha(self.nah, rd(src)), make)

    def archive(self):
        srcs = self.sources() + sorted(glob.glob(V + "/stubs/*.cpp"))
        objs, errs, keys = [], [], []
        with cf.ThreadPoolExecutor(NJ) as ex:
            for s, (o, e) in zip(srcs, ex.map(self.obj, srcs)):
                if o is None:
                    errs.append((s, e))
                else:
                    objs.append(o)
                    keys.append(rd(o + ".key").decode() + o)
        if errs:
            return None, "\n".join("%s: %s" % x for x in errs)

        def make(out):
            if os.path.exists(out):
                os.unlink(out)
            r = sh(["ar", "rcs", out] + objs, 120)
            return r.stderr.decode() if r.returncode else None
        return self.cached("lib", "libshirakami.a", sha(*keys), make)

    def native(self, src, main=""):
        """binary of a contract file or scenario file"""
        with self.lk:
            return self.native1(src, main)

    def native1(self, src, main=""):
        lib, err = self.archive()
        if lib is None:
            return None, err
        incl = re.findall(r'^#include "([^"]+\.cpp)"', rd(src).decode(), re.M)
        body = b"".join(rd(R + "/src/" + i) for i in incl if os.path.exists(R + "/src/" + i))

        def make(out):
            o = out + ".o"
            cmd = ["g++"] + DEFS + ["-O1", "-g1", "-w", "-fno-access-control", "-I/verif/contract", "-I/verif/drivers", "-I/repo/test/include", "-I/repo", "-DVF_NATIVE"]
            if main:
                cmd += ["-include", main] if not main.endswith("_main.h") else []
            t = o + ".cpp"
            with open(t, "w") as f:
                f.write('#include "%s"\n' % src)
                if main.endswith("_main.h"):
                    f.write('#include "%s"\n' % main)
            r = sh(cmd + ["-I" + os.path.dirname(src), "-c", t, "-o", o], 300)
            if r.returncode:
                return r.stderr.decode()[-2000:]
            r = sh(["g++", "-Wl,-z,muldefs", o, lib, "-o", out] + LIBS, 300)
            os.unlink(o)
            return r.stderr.decode()[-2000:] if r.returncode else None
        return self.cached("bin", src + ".exe", sha(self.nsh, rd(src), body, rd(lib + ".key"), main), make)


# ------------------------------------------------------------------ contract files
def spec_info(path):
    t = rd(path).decode()
    d = {"path": path, "sources": [], "overrides": {}, "props": {}, "nonative": set(), "assumed": [], "opts": {}, "real": {}, "names": re.findall(r"VF_HARNESS\((\w+)\)", t)}
    for l in t.splitlines():
        if l.startswith("//@sources"):
            d["sources"] += l.split()[1:]
        elif l.startswith("//@override"):
            w = l.split()
            d["overrides"][w[1]] = w[3]
        elif l.startswith("//@real"): # a harness that runs the function itself, not its contract
            w = l.split()
            for h in w[2:]:
                d["real"].setdefault(h, set()).add(w[1])
        elif l.startswith("//@property"):
            m = re.match(r"//@property (\w+):\s*(.*)", l)
            hs = m.group(2).split()
            d["props"].setdefault(m.group(1), []).extend(d["names"] if hs == ["*"] else hs)
        elif l.startswith("//@assumed"):
            d["assumed"].append(l[len("//@assumed"):].strip())
        elif l.startswith("//@nonative"):
            d["nonative"] |= set(l.split()[1:])
        elif l.startswith("//@opt"):
            m = re.match(r"//@opt (\S+) (\w+)=(\d+)", l)
            d["opts"].setdefault(m.group(1), {})[m.group(2)] = int(m.group(3))
    if "*" in d["nonative"]:
        d["nonative"] = set(d["names"])
    return d


def all_specs():
    return [spec_info(p) for p in sorted(glob.glob(V + "/specs/*.cpp"))]


def verify(job):
    spec, mods, h, opts = job
    req = {"modules": mods, "harnesses": ["vf_harness_" + h], "overrides": {k: v for k, v in spec["overrides"].items() if k not in spec["real"].get(h, ())},
           "opts": opts}
    p = CACHE + "/tmp/%s_%s_%d.json" % (os.path.basename(spec["path"]), h, os.getpid())
    with open(p, "w") as f:
        json.dump(req, f)
    try:
        r = sh([PY, V + "/vcg/verify.py", p], timeout=opts["limit_s"] + 120, mem=6 << 30)
        if r.returncode != 0:
            return {"harness": h, "error": "verifier: " + r.stderr.decode()[-300:], "obligations": [], "reach": []}
        return json.loads(r.stdout.decode().strip().splitlines()[-1])[0]
    except subprocess.TimeoutExpired:
        return {"harness": h, "error": "time limit", "obligations": [], "reach": []}
    finally:
        os.unlink(p)


def proved(r):
    return r["error"] is None and r["obligations"] and all(o["res"] == "proved" for o in r["obligations"]) and \
        r["reach"] and all(x[1] == "sat" for x in r["reach"])


def failing(r):
    return [o for o in r["obligations"] if o["res"] == "failed"]


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.b = Build()
        self.t0 = time.time()
        self.results = []      # (spec, harness, status, detail)
        self.scen = []
        self.viol = []
        self.known = []
        self.findings = []
        p = V + "/known_findings.txt"
        if os.path.exists(p):
            for l in rd(p).decode().splitlines():
                m = re.match(r"known: property=(\w+) at=(\S+) (.*)", l)
                if m and m.group(1) == prop:
                    self.findings.append((m.group(2), m.group(3)))
        self.rp = V + "/evidence/replay"
        os.makedirs(self.rp, exist_ok=True)
        os.makedirs(CACHE + "/tmp", exist_ok=True)

    def budget(self):
        return (840 if TIER == "quick" else 3000) - (time.time() - self.t0)

    def run(self):
        self.scenarios()
        self.contracts()

    # -------------------------------------------------------------- contracts
    def contracts(self):
        todo = []
        for s in all_specs():
            hs = s["props"].get(self.prop)
            if hs:
                todo.append((s, list(dict.fromkeys(hs))))
        if not todo:
            return
        srcs = set()
        for s, _ in todo:
            srcs.add(s["path"])
            srcs |= {R + "/" + x for x in s["sources"]}
        srcs = sorted(srcs)
        inc = {}
        for s, _ in todo:
            body = ""
            for i in re.findall(r'^#include "([^"]+\.cpp)"', rd(s["path"]).decode(), re.M):
                p = R + "/src/" + i
                body += rd(p).decode() if os.path.exists(p) else ""
            inc[s["path"]] = body
        ir = {}
        with cf.ThreadPoolExecutor(NJ) as ex:
            def one(x):
                if not os.path.exists(x):
                    return None, "no such file " + x
                return self.b.ir(x, inc.get(x, ""))
            for x, r in zip(srcs, ex.map(one, srcs)):
                ir[x] = r
        jobs = []
        for s, hs in todo:
            need = [s["path"]] + [R + "/" + x for x in s["sources"]]
            bad = [x for x in need if ir[x][0] is None]
            for h in hs:
                if bad:
                    self.results.append((s, h, "undecided", {"error": "extraction of %s failed: %s" % (bad[0], (ir[bad[0]][1] or "")[-300:])}))
                else:
                    o = {"limit_s": 350 if TIER == "quick" else 900, "obl_ms": 30000 if TIER == "quick" else 120000}
                    o.update(s["opts"].get(h, {}))
                    o.update(s["opts"].get("*", {}))
                    jobs.append((s, [ir[x][0] for x in need], h, o))
        with cf.ThreadPoolExecutor(NJ) as ex:
            res = list(ex.map(verify, jobs))
        retry = []
        for j, r in zip(jobs, res):
            if proved(r):
                self.results.append((j[0], j[2], "proved", r))
            else:
                retry.append((j, r))
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda x: self.second(*x), retry))

    def second(self, j, r):
        """an obligation was not discharged: look for the reason"""
        s, mods, h, o = j
        vac = [x for x in r["reach"] if x[1] == "unsat"]
        fails = failing(r)
        cut = r.get("stats", {}).get("loops_cut", 0)
        exact = bool(fails) and cut == 0 and r["error"] is None
        br = None
        if any(v[2] for v in self.viol) and not exact:
            # a failing run of the real code is already at hand
            self.results.append((s, h, "undecided", dict(r, error=r["error"] or "obligation not discharged: " + "; ".join(o["name"] for o in r["obligations"] if o["res"] != "proved")[:300])))
            return
        if not exact:
            for bnd in (3, 2, 1):
                if self.budget() < 150:
                    break
                br = verify((s, mods, h, dict(o, bound=bnd, limit_s=min(40, o["limit_s"]))))
                if failing(br) or br["error"] is None:
                    break
            if br is not None and failing(br):
                fails, exact = failing(br), True
        at = os.path.basename(s["path"]) + ":" + h
        nat = None
        if h not in s["nonative"] and self.budget() > 60:
            nat = self.native_search(s, h, fails)
        detail = {"proof": brief(r), "bounded": brief(br) if br else None, "native": nat}
        if nat and nat["failed"]:
            self.report(at, nat["what"], dict(detail, kind="native", spec=s["path"], harness=h, inputs=nat["inputs"]), True)
            self.results.append((s, h, "violated", r))
        elif exact and fails:
            self.report(at, fails[0]["name"], dict(detail, kind="obligation", spec=s["path"], harness=h, obligation=fails[0]), False)
            self.results.append((s, h, "violated", r))
        elif br is not None and br["error"] is None and all(x["res"] == "proved" for x in br["obligations"]):
            self.results.append((s, h, "bounded", dict(r, bounded=br)))
        else:
            why = r["error"] or ("unreachable contract end" if vac else "obligation not decided")
            self.results.append((s, h, "undecided", dict(r, error=why)))

    def native_search(self, s, h, fails):
        exe, err = self.b.native(s["path"], V + "/contract/vf_native_main.h")
        if exe is None:
            return {"failed": False, "note": "native build: " + (err or "")[-300:]}
        for f in fails:
            if "inputs" not in f:
                continue
            p = CACHE + "/tmp/in_%d_%s" % (os.getpid(), h)
            with open(p, "w") as fh:
                for k, v in f["inputs"].items():
                    fh.write("%s=%d\n" % (k, v))
            try:
                r = sh([exe, "replay", h, p], timeout=20)
                out = r.stdout.decode(errors="replace").strip()
            except subprocess.TimeoutExpired:
                continue
            if r.returncode == 1 and "FAILED" in out:
                return {"failed": True, "what": out.split("FAILED", 1)[1].strip(), "inputs": f["inputs"], "how": "verifier counterexample replayed"}
        p = CACHE + "/tmp/out_%d_%s" % (os.getpid(), h)
        try:
            r = sh([exe, "search", h, str(SEED), "12", p], timeout=60)
        except subprocess.TimeoutExpired:
            return {"failed": False, "note": "search did not end"}
        out = r.stdout.decode(errors="replace").strip()
        if r.returncode == 1 and "FAILED" in out:
            ins = dict((l.rsplit("=", 1)[0], int(l.rsplit("=", 1)[1])) for l in rd(p).decode().splitlines())
            return {"failed": True, "what": out.split("FAILED", 1)[1].strip(), "inputs": ins, "how": "search"}
        return {"failed": False, "note": out[-200:]}

    # -------------------------------------------------------------- scenarios
    def scenarios(self):
        todo = []
        for p in sorted(glob.glob(V + "/drivers/*.cpp")):
            t = rd(p).decode()
            for n, props in re.findall(r'^SCENARIO\((\w+),\s*"([^"]*)"\)', t, re.M):
                if self.prop in props.split():
                    todo.append((p, n))
        if not todo:
            return
        exes = {}
        self.b.archive()
        with cf.ThreadPoolExecutor(4) as ex:
            ps = sorted({x[0] for x in todo})
            for p, r in zip(ps, ex.map(self.b.native1, ps)):
                exes[p] = r

        def one(x):
            p, n = x
            exe, err = exes[p]
            if exe is None:
                return x, "nobuild", (err or "")[-400:]
            out = ""
            for attempt in range(2):
                d = CACHE + "/tmp/run_%d_%s_%d" % (os.getpid(), n, attempt)
                os.makedirs(d, exist_ok=True)
                try:
                    r = sh([exe, n, str(SEED), TIER], timeout=(90 if attempt == 0 else 150) if TIER == 'quick' else 900, cwd=d, env=dict(os.environ, TMPDIR=d, GLOG_logtostderr="1", GLOG_minloglevel="3"))
                    out = r.stdout.decode(errors="replace")[-3000:]
                    if r.returncode == 0:
                        return x, "held", out
                    if r.returncode == 1:
                        return x, "failed", out
                    out = "ended with status %d: %s %s" % (r.returncode, out[-600:], r.stderr.decode(errors="replace")[-600:])
                    return x, "failed", out
                except subprocess.TimeoutExpired:
                    out = "did not end"
                finally:
                    shutil.rmtree(d, ignore_errors=True)
            return x, "failed", "FAIL does not end (transactions hang)"
        with cf.ThreadPoolExecutor(max(2, NJ // 2)) as ex:
            for x, res, out in ex.map(one, todo):
                self.scen.append((x, res, out))
                if res == "failed":
                    m = re.search(r"^FAIL (.*)$", out, re.M)
                    what = m.group(1) if m else out.strip()[-200:].replace("\n", " ")
                    self.report("scenario:" + x[1], what, {"kind": "scenario", "driver": x[0], "scenario": x[1], "seed": SEED, "tier": TIER, "output": out}, True)

    # -------------------------------------------------------------- reporting
    def report(self, at, what, data, concrete):
        for a, text in self.findings:
            if a == at or a == at + "#" + re.sub(r"\W+", "-", what).strip("-"):
                self.known.append((at, text))
                return
        p = "%s/%s_%s.json" % (self.rp, self.prop, re.sub(r"\W+", "_", at))
        with open(p, "w") as f:
            json.dump(dict(data, property=self.prop, at=at, failed=what), f, indent=1)
        self.viol.append((p, what, concrete))

    def evidence(self):
        ob = dis = 0
        backs, fns, trusted, ext = {}, set(), set(), set()
        per, undec, bnd = [], [], []
        solver = 0.0
        loops = inv = 0
        for s, h, st, r in self.results:
            os_ = r.get("obligations", [])
            n = len(os_)
            ok = sum(1 for o in os_ if o["res"] == "proved")
            stt = r.get("stats", {})
            n += stt.get("loop_vcs", 0) + len(r.get("reach", []))
            ok += stt.get("loop_vcs", 0) + sum(1 for x in r.get("reach", []) if x[1] == "sat")
            loops += stt.get("loops_cut", 0)
            inv += stt.get("invariants", 0)
            for o in os_:
                if o["res"] == "proved":
                    backs[o["how"]] = backs.get(o["how"], 0) + 1
            ob += max(n, 1)
            dis += ok if st == "proved" else 0
            solver += r.get("solver_s", 0)
            for v in r.get("visited", []):
                if v.startswith("_ZN9shirakami") or v.startswith("_ZNK9shirakami") or v.startswith("_ZL"):
                    fns.add(v)
            trusted |= set(r.get("assumed", [])) | set(s["assumed"])
            ext |= set(r.get("externals", []))
            per.append({"contract": os.path.basename(s["path"]) + ":" + h, "status": st, "obligations": n, "wall_s": r.get("wall_s"), "solver_s": r.get("solver_s"),
                        **({"error": r["error"]} if r.get("error") else {})})
            if st == "undecided":
                undec.append("%s: %s" % (h, r.get("error")))
            if st == "bounded":
                bnd.append("%s: holds for sequences of at most %s elements (bounded, not proved): %s" % (h, r["bounded"]["mode"].split()[-1], r.get("error") or "an obligation was not discharged without a bound"))
        names = sorted(fns)
        if names:
            try:
                names = sh(["llvm-cxxfilt-18"], input="\n".join(names).encode()).stdout.decode().splitlines()
            except OSError:
                pass
        names = [n for n in names if "shirakami::" in n]
        tb = ["vcg (VC generator over LLVM IR, /verif/vcg), z3 5.3.2, clang 18 front end and sroa/simplifycfg/loop-simplify/lcssa",
              "spec/vfstl.h: contract of the standard library containers, strings, mutexes and std::function"]
        tb += ["assumed contract of " + x for x in sorted(trusted)]
        tb += ["external function without body treated as arbitrary: " + x for x in sorted(ext)[:20]]
        cov = {"obligations": ob, "discharged": dis, "checker_cmd": "%s %s/vcg/check.py %s" % (PY, V, self.prop), "trusted_base": tb,
               "contracts": per, "functions_under_contract": names, "back_ends": backs, "solver_s": round(solver, 3),
               "loops_cut": loops, "loop_invariant_conjuncts": inv, "undecided": undec, "bounded": bnd,
               "bounded_scenarios": [{"scenario": x[1], "result": res, "summary": out.strip().splitlines()[-1][:200] if out.strip() else ""} for x, res, out in self.scen]}
        asm = ["exceptions, allocation failure and LOG(FATAL)/abort end the path (partial correctness)",
               "machine arithmetic is modelled exactly (bit-vectors)",
               "sequentially consistent atomics; data races on plain fields are not modelled",
               "distinct strings are distinct tokens ordered by an arbitrary total order with the empty string least",
               "index and log libraries (yakushima, limestone) are the functional stand-ins of /verif/stubs"]
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": "proof" if self.results else "exploration", "coverage": cov, "assumptions": asm,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(V + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (V, self.prop), "w") as f:
            json.dump(ev, f, indent=1)

    def finish(self):
        self.evidence()
        for at, text in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        for s, h, st, r in self.results:
            print("%-10s %s:%s %s" % (st, os.path.basename(s["path"]), h, (r.get("error") or "")[:160].replace("\n", " ")))
        for x, res, out in self.scen:
            print("%-10s scenario %s %s" % (res, x[1], out.strip().splitlines()[-1][:160] if out.strip() and res != "nobuild" else out[-300:]))
        for p, what, concrete in self.viol:
            print("failed: %s" % what)
            print("VIOLATION property=%s replay=%s%s" % (self.prop, p, "" if concrete else " no-failing-input-found"))
        if self.viol:
            return 1
        answered = any(st in ("proved", "bounded") for _, _, st, _ in self.results) or any(res == "held" for _, res, _ in self.scen)
        return 0 if answered or self.known else 2


def brief(r):
    return {"error": r["error"], "mode": r.get("mode"), "obligations": [dict(name=o["name"], res=o["res"], inputs=o.get("inputs")) for o in r["obligations"] if o["res"] != "proved"]}


def setup():
    b = Build()
    _, err = b.archive()
    if err:
        print(err[:2000])
    srcs = set()
    for s in all_specs():
        srcs.add(s["path"])
        srcs |= {R + "/" + x for x in s["sources"]}
    def extra(x):
        body = ""
        for i in re.findall(r'^#include "([^"]+\.cpp)"', rd(x).decode(), re.M):
            p = R + "/src/" + i
            body += rd(p).decode() if os.path.exists(p) else ""
        return body
    with cf.ThreadPoolExecutor(NJ) as ex:
        for x, r in zip(sorted(srcs), ex.map(lambda x: b.ir(x, extra(x) if x.startswith(V) else ""), sorted(srcs))):
            if r[0] is None:
                print("extraction of %s: %s" % (x, r[1][-500:]))
        for x, r in zip(glob.glob(V + "/drivers/*.cpp"), ex.map(b.native, glob.glob(V + "/drivers/*.cpp"))):
            if r[0] is None:
                print("build of %s: %s" % (x, r[1][-500:]))
    return 0


def replay(path):
    d = json.load(open(path))
    b = Build()
    os.makedirs(CACHE + "/tmp", exist_ok=True)
    if d["kind"] == "native":
        exe, err = b.native(d["spec"], V + "/contract/vf_native_main.h")
        p = CACHE + "/tmp/replay_in"
        with open(p, "w") as f:
            for k, v in d["inputs"].items():
                f.write("%s=%d\n" % (k, v))
        return subprocess.call([exe, "replay", d["harness"], p])
    if d["kind"] == "scenario":
        exe, err = b.native(d["driver"])
        return subprocess.call([exe, d["scenario"], str(d["seed"]), d["tier"]])
    print(json.dumps(d, indent=1))
    return 1


def main():
    os.makedirs(CACHE, exist_ok=True)
    lk = open(CACHE + "/lock", "w")
    fcntl.flock(lk, fcntl.LOCK_EX)
    if sys.argv[1] == "--setup":
        return setup()
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    c = Check(sys.argv[1])
    c.run()
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
