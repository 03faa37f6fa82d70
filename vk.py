#!/usr/bin/env python3
"""vk.py setup | check ID [--tier quick|thorough] [--keep] | list
Encodes the harnesses of a property from /repo's current sources, lets the solver decide the assertions,
replays counterexamples (and sample witnesses) against the natively compiled code, writes evidence/<ID>.json."""
import sys, os, json, subprocess, time, hashlib, shutil, threading, queue, fcntl, signal
V = os.path.dirname(os.path.abspath(__file__)); R = "/repo"; B = V + "/build"
sys.path.insert(0, V + "/harness")
DEFS = ["-DNRG_BLAS_VENDOR=\"OpenBLAS\"", "-DNRG_ENABLE_APP_OPENMP=0", "-DNRG_HAVE_MKL=0", "-DNRG_HAVE_MKL_RT=0", "-DNRG_HAVE_OPENBLAS=1", "-DNRG_MKL_REQUIRES_OPENMP=0", "-DNRG_MKL_THREADING_LAYER=\"AUTO\"", "-DNRG_ENABLE_CUDA=0", "-DNRG_SYM_ALL", "-DNRG_SYM_BASIC", "-DNRG_SYM_MORE"]
INC = ["-I" + V + "/engine/native", "-I" + V + "/harness", "-I" + V + "/engine/mock3", "-I/repo/tools/common", "-I/repo/c++", "-I/repo/c++/symmetry", "-I/repo/c++/symmetry/coefnew", "-I/repo/tools", "-isystem", "/usr/include/eigen3"]
NATIVE = ["g++", "-std=gnu++20", "-DNDEBUG", "-DSYM_NATIVE", "-w"]
MPI = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
CORELIBS = ["-lboost_mpi", "-lboost_serialization", "-lmpi_cxx", "-lmpi", "-lopenblas", "-llapack", "-lgmp", "-lpthread"]
JOBS = int(os.environ.get("VK_JOBS", "8"))

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def setup():
    os.makedirs(B, exist_ok=True)
    with open(B + "/lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = sh(["make", "-j8", "-C", V + "/engine", "B=" + B])
        if r.returncode: print(r.stdout); return False
        for f in os.listdir(V + "/engine/rt"):
            if not f.endswith(".cc"): continue
            src = V + "/engine/rt/" + f; out = B + "/" + f[:-3] + ".bc"
            h = hashlib.sha256(open(src, "rb").read())
            for d, _, fs in sorted(os.walk(V + "/engine/mock")):
                for x in sorted(fs): h.update(open(os.path.join(d, x), "rb").read())
            h.update(open(V + "/engine/cc.sh", "rb").read()); h = h.hexdigest()
            if os.path.exists(out) and os.path.exists(out + ".h") and open(out + ".h").read() == h: continue
            r = sh(["bash", V + "/engine/cc.sh", src, out])
            if r.returncode: print(r.stdout); return False
            open(out + ".h", "w").write(h)
    return True

class Job:
    pass

def run_limited(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd, env=env, start_new_session=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout); return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.communicate(); return -99, "timeout"

class Check:
    def __init__(s, pid, tier):
        import specs
        s.pid, s.tier = pid, tier; s.spec = specs.PROPS[pid]; s.t0 = time.time()
        s.run = "%s/run/%s-%s-%d" % (B, pid, tier, os.getpid()); shutil.rmtree(s.run, ignore_errors=True); os.makedirs(s.run)
        s.rep = "%s/replay/%s" % (B, pid); shutil.rmtree(s.rep, ignore_errors=True); os.makedirs(s.rep)
        s.knowns = []
        try: s.knowns = [k for k in json.load(open(V + "/known_findings.json")).get("findings", []) if k["property"] == pid]
        except OSError: pass
        s.native_cache = {}; s.lock = threading.Lock(); s.nlocks = {}

    def incs(s, h, native=False):
        core = [] if not h.get("core") else ["-I" + V + "/engine/mock3n", "-DFMT_HEADER_ONLY"] + MPI if native else ["-I" + V + "/engine/mock3s"]
        return INC[:2] + core + h.get("inc", []) + INC[2:] + DEFS + h.get("defs", [])

    def compile_ir(s, h):
        out = s.run + "/" + h["name"] + ".bc"
        r = sh(["bash", V + "/engine/cc.sh", V + "/harness/" + h["src"], out] + s.incs(h) + h.get("irflags", []))
        if r.returncode: return None, r.stdout[-3000:]
        fs = [out]
        for i, x in enumerate(h.get("extra", [])):
            o = "%s/%s.x%d.bc" % (s.run, h["name"], i); r = sh(["bash", V + "/engine/cc.sh", x if x[0] == "/" else V + "/harness/" + x, o] + s.incs(h) + h.get("irflags", []))
            if r.returncode: return None, r.stdout[-3000:]
            fs.append(o)
        return fs, ""

    def native(s, h, san):
        k = (h["name"], san)
        with s.lock: lk = s.nlocks.setdefault(k, threading.Lock())
        with lk:
            if k in s.native_cache: return s.native_cache[k]
            out = "%s/%s.%s" % (s.run, h["name"], "san" if san else "nat")
            fl = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=leak"] if san else ["-O0" if h.get("core") else "-O1"]
            srcs = [V + "/harness/" + h["src"], V + "/engine/native/native.cc"] + [x if x[0] == "/" else V + "/harness/" + x for x in h.get("extra", [])] + [V + "/" + x for x in h.get("nsrc", [])]
            objs = []; ps = []
            for n, x in enumerate(srcs):
                o = "%s.%d.o" % (out, n); objs.append(o)
                ps.append(subprocess.Popen(NATIVE + fl + s.incs(h, True) + ["-c", x, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
            err = "".join(p.communicate()[0][-1500:] for p in ps if True)
            if any(p.returncode for p in ps): s.native_cache[k] = (None, err); return s.native_cache[k]
            for n, o in enumerate(objs):
                if n != 1: sh(["objcopy", "--redefine-sym", "main=sym_tool_main", o])
            r = sh(["g++"] + [x for x in fl if "sanitize" in x] + objs + ["-o", out] + h.get("libs", []) + (CORELIBS if h.get("core") else []))
            s.native_cache[k] = (out if r.returncode == 0 else None, r.stdout[-2000:]); return s.native_cache[k]

    def replay(s, h, inst, inputs, tag, san=False):
        exe, err = s.native(h, san)
        if not exe: return {"rc": -1, "err": "native build failed: " + err, "lines": []}
        d = "%s/replay-%s" % (s.run, tag); shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/cwd")
        with open(d + "/in.txt", "w") as f:
            for n, v in inputs: f.write("%s %s\n" % (n, v))
        env = dict(os.environ); env["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096"; env["UBSAN_OPTIONS"] = "print_stacktrace=1"; env["OPENBLAS_NUM_THREADS"] = "1"; env["NRG_WORKDIR"] = d + "/cwd"
        rc, out = run_limited([exe, d + "/in.txt", d + "/res.txt"] + ["%s=%s" % kv for kv in inst.get("p", {}).items()], 60, cwd=d + "/cwd", env=env)
        try: lines = open(d + "/res.txt", errors="replace").read().splitlines()
        except OSError: lines = []
        se = ""
        for f in ("<stderr>",):
            try: se += open(d + "/cwd/" + f, errors="replace").read()[-3000:]
            except OSError: pass
        return {"rc": rc, "out": out[-3000:], "stderr": se, "lines": lines, "dir": d}

    def reproduces(s, h, inst, ce, tag):
        """replay one counterexample natively; returns a description or None"""
        label = ce["label"]; ub = label == "no-undefined-behaviour"
        r = s.replay(h, inst, ce["inputs"], tag, san=ub)
        ce["replay"] = {"rc": r["rc"], "lines": [l for l in r["lines"] if not l.startswith("OK ")][:10], "out": r.get("out", "")[-400:], "err": r.get("err", "")}
        if any(l.startswith("ASSUME") for l in r["lines"]): return None
        fails = [l for l in r["lines"] if l.startswith("FAIL ")]
        if label == "termination": return "does not terminate (60 s limit)" if r["rc"] == -99 else None
        if ub:
            t = r.get("out", "") + r.get("stderr", "")
            if r["rc"] == 77 or r["rc"] < 0 and r["rc"] != -99 and r["rc"] != -1 or "runtime error:" in t or "AddressSanitizer" in t or any(l.startswith(("CRASH", "SAN")) for l in r["lines"]):
                import re
                m = re.search(r"(ERROR: AddressSanitizer.*|.*runtime error:.*)", t); return m.group(1)[:300] if m else "crash"
            return fails[0] if fails else None
        for l in fails:
            if l[5:].split(" (")[0] == label or l[5:] == label: return l
        if label == "no-unexpected-termination" and not any(l.startswith("END") for l in r["lines"]) and r["rc"] not in (-1, 3): return "terminates abnormally (rc %d) %s" % (r["rc"], " ".join(l for l in r["lines"] if l.startswith("THROW")))
        if fails: return "%s (solver label %s)" % (fails[0], label)
        return None

    def known(s, h, ce):
        return next((k for k in s.knowns if k["harness"] == h["name"] and k["label"] == ce["label"] and k.get("where", "") in (ce["where"] + " " + ce["kind"])), None)

    def execute(s):
        insts = []
        for h in s.spec["harnesses"]:
            h.setdefault("name", h["src"].rsplit(".", 1)[0])
            for n, i in enumerate(h.get("inst", [{}])):
                if i.get("tier") == "thorough" and s.tier == "quick": continue
                j = dict(i); j["h"] = h; j["tag"] = "%s.%d" % (h["name"], n); insts.append(j)
        hs = {i["h"]["name"]: i["h"] for i in insts}
        s.errors = []; s.results = []; comp = {}
        def pool(items, f, n=JOBS):
            q = list(items); lk = threading.Lock()
            def w():
                while True:
                    with lk:
                        if not q: return
                        x = q.pop(0)
                    try: f(x)
                    except Exception as e:
                        import traceback; s.errors.append("internal: " + traceback.format_exc()[-800:])
            ts = [threading.Thread(target=w) for _ in range(min(n, max(1, len(q))))]
            for t in ts: t.start()
            for t in ts: t.join()
        def c(h):
            fs, err = s.compile_ir(h); comp[h["name"]] = fs
            if not fs: s.errors.append("harness %s does not compile: %s" % (h["name"], err))
        pool(hs.values(), c)
        budget = s.spec.get("budget", 240 if s.tier == "quick" else 600)
        def go(i):
            h = i["h"]; fs = comp.get(h["name"])
            if not fs: return
            left = budget - (time.time() - s.t0)
            t = min(i.get("time", h.get("insttime", 120) if s.tier == "quick" else 500), max(10, left))
            out = "%s/%s.json" % (s.run, i["tag"])
            cmd = [B + "/symx"] + fs + [B + "/" + x + ".bc" for x in ["rt"] + h.get("rt", [])] + ["-o", out, "--time", str(int(t))] + h.get("opts", []) + i.get("opts", [])
            for kv in i.get("p", {}).items(): cmd += ["-p", "%s=%s" % kv]
            rc, o = run_limited(cmd, t + 70)
            res = {"inst": i, "tag": i["tag"], "p": i.get("p", {})}
            try: res.update(json.load(open(out)))
            except Exception:
                s.errors.append("%s: engine rc %s: %s" % (i["tag"], rc, o[-500:]))
                res.update({"ces": [], "witnesses": [], "pending": [], "checks": {}, "incomplete": ["no result"], "functions": [], "lines": {}, "params": {}, "inputs": [], "unmodelled": {}, "stubs": []}); res.update({k: 0 for k in ("paths", "forks", "instructions", "queries", "unsat", "sat", "unknown", "solver_s")})
            if rc not in (0,): s.errors.append("%s: engine rc %s" % (i["tag"], rc))
            # an exploration that could not be finished is never counted as discharged; a few assignments of the real inputs are still tried for a violation
            if not res["ces"] and (res["incomplete"] or res["unknown"]) and "--pin" not in cmd:
                for k, inp in enumerate(res.get("pending", [])): # inputs (from the solver) of the paths cut short
                    if time.time() - s.t0 > 560: break
                    r = s.replay(h, i, inp, "%s-c%d" % (i["tag"], k)); res["pinned"] = res.get("pinned", 0) + 1
                    fl = [l for l in r["lines"] if l.startswith("FAIL ")]; cut = {"kind": "path cut short by the time limit", "where": "", "inputs": inp}
                    if fl: res["ces"].append({"label": fl[0][5:].split(" (")[0], **cut})
                    elif r["rc"] == -99: res["ces"].append({"label": "termination", **cut}); break
                for k in range(0 if res["ces"] else 3):
                    left = s.spec.get("budget", 240 if s.tier == "quick" else 600) + 120 - (time.time() - s.t0)
                    if left < 15: break
                    pt = int(min(40, left)); pc = list(cmd); pc[pc.index("--time") + 1] = str(pt)
                    run_limited(pc[:pc.index("-o") + 1] + [out + ".pin"] + pc[pc.index("-o") + 2:] + ["--pin", str(k)], pt + 60)
                    try: r2 = json.load(open(out + ".pin"))
                    except Exception: continue
                    res["pinned"] = res.get("pinned", 0) + 1
                    if r2["ces"]: res["ces"] = r2["ces"]; break
            # replay
            res["confirmed"] = []; res["unconfirmed"] = []
            for k, ce in enumerate(res["ces"]):
                if any(x["label"] == ce["label"] for x in res["confirmed"]): continue
                if h.get("core") and not s.known(h, ce):
                    with s.lock:
                        s.nreplay = getattr(s, "nreplay", 0)
                        if s.nreplay >= 6: ce["desc"] = None; res["skipped"] = res.get("skipped", 0) + 1; continue # enough confirmed violations already
                d = s.reproduces(h, i, ce, "%s-%d" % (i["tag"], k))
                ce["desc"] = d
                if d and not s.known(h, ce): s.nreplay = getattr(s, "nreplay", 0) + 1
                (res["confirmed"] if d else res["unconfirmed"]).append(ce)
            res["wit_ok"] = 0; res["wit_bad"] = []
            for k, w in enumerate(res["witnesses"][:h.get("nwit", 4)]):
                r = s.replay(h, i, w, "%s-w%d" % (i["tag"], k))
                bad = [l for l in r["lines"] if not l.startswith("OK ") and l != "END passed"]
                if r["rc"] == 0 and not bad: res["wit_ok"] += 1
                elif any(l.startswith("ASSUME") for l in bad): pass
                else: res["wit_bad"].append({"inputs": w, "lines": bad[:5], "rc": r["rc"], "err": r.get("err", "")[-300:], "out": r.get("out", "")[-300:]})
            s.results.append(res)
        pool(insts, go)
        return s.report(insts)

    def report(s, insts):
        nviol = 0; lines = []; seen = set(); kn = set()
        for r in sorted(s.results, key=lambda r: r["tag"]):
            h = r["inst"]["h"]
            for ce in r["confirmed"]:
                key = (h["name"], ce["label"] if ce["label"] != "no-undefined-behaviour" else ce["where"].split("(")[0])
                kf = s.known(h, ce)
                if kf: kn.add(kf["what"]); continue
                if key in seen: continue
                seen.add(key); nviol += 1
                d = "%s/%s-%d" % (s.rep, s.pid, nviol); os.makedirs(d, exist_ok=True)
                with open(d + "/in.txt", "w") as f:
                    for n, v in ce["inputs"]: f.write("%s %s\n" % (n, v))
                san = ce["label"] == "no-undefined-behaviour"; exe, _ = s.native(h, san); shutil.copy(exe, d + "/prog")
                open(d + "/info.json", "w").write(json.dumps({"property": s.pid, "harness": h["src"], "label": ce["label"], "kind": ce["kind"], "where": ce["where"], "native": ce["desc"], "params": r["p"], "inputs": ce["inputs"]}, indent=1))
                open(d + "/run.sh", "w").write("#!/bin/bash\n# replays the counterexample against the natively compiled code (built by the check from /repo)\nD=$(cd $(dirname $0) && pwd); T=$(mktemp -d); cd $T; ASAN_OPTIONS=exitcode=77:detect_leaks=0 $D/prog $D/in.txt $T/res.txt %s; grep -v '^OK' $T/res.txt\n" % " ".join("%s=%s" % kv for kv in r["p"].items())); os.chmod(d + "/run.sh", 0o755)
                lines.append("VIOLATION property=%s replay=%s/run.sh  [%s: %s] %s" % (s.pid, d, h["name"], ce["label"], ce["desc"]))
        for k in sorted(kn): print("KNOWN-FINDING: property=%s %s" % (s.pid, k))
        for l in lines: print(l)
        tot = lambda k: sum(r[k] for r in s.results)
        ck = lambda k: sum(c[k] for r in s.results for c in r["checks"].values())
        fns = sorted({f for r in s.results for f in r["functions"] if "/usr/" not in f})
        wit_ok = sum(r["wit_ok"] for r in s.results); wit_bad = [w for r in s.results for w in r["wit_bad"]]
        inc = sorted({"%s: %s" % (r["tag"], x) for r in s.results for x in r["incomplete"]})
        vac = [r["tag"] for r in s.results if not any(c["witnessed"] or c["concrete"] or c["reached"] for c in r["checks"].values())]
        unconf = [{"harness": r["tag"], "label": c["label"], "kind": c["kind"], "where": c["where"], "inputs": c["inputs"], "replay": c.get("replay")} for r in s.results for c in r["unconfirmed"]]
        samples = [{"harness": r["tag"], "params": r["p"], "inputs": dict(w)} for r in s.results for w in r["witnesses"][:1]][:6]
        labels = {}
        for r in s.results:
            for l, c in r["checks"].items():
                m = labels.setdefault(r["inst"]["h"]["name"] + ": " + l, {"reached": 0, "witnessed": 0, "discharged": 0, "concrete": 0, "violated": 0, "unknown": 0})
                for k in m: m[k] += c[k]
        cov = {"states": tot("paths") + tot("forks"), "transitions": tot("instructions"), "traces_validated_against_impl": wit_ok, "samples": samples,
               "explanation": "bounded symbolic execution of the LLVM IR of the real functions; states = symbolic paths + forks, transitions = IR instructions executed symbolically, traces_validated = solver witnesses replayed natively with every assertion holding",
               "functions_encoded": fns, "repo_lines": {f: max(r["lines"].get(f, 0) for r in s.results) for f in sorted({f for r in s.results for f in r["lines"]})},
               "bounds": {r["tag"]: {"params": {**r["p"], **r["params"]}, "inputs": ["%s:%s[%s,%s]" % tuple(x) for x in r["inputs"]][:60]} for r in s.results},
               "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 2), "paths": tot("paths"),
               "assertions_reached": ck("reached"), "assertions_discharged": ck("discharged"), "assertions_concrete": ck("concrete"), "assertions_violated": ck("violated"), "assertions_unknown": ck("unknown"), "assertions": labels,
               "incomplete": inc, "pinned_fallback_runs": sum(r.get("pinned", 0) for r in s.results), "vacuous": vac, "unconfirmed_counterexamples": unconf[:20], "witness_mismatches": wit_bad[:10], "errors": s.errors,
               "unmodelled_calls": sorted({u for r in s.results for u in r["unmodelled"]}), "exhaustive_within_bounds": not inc and not s.errors and not unconf and ck("unknown") == 0}
        ass = sorted({x for r in s.results for x in r["stubs"]}) + s.spec.get("assume", []) + ["symbolic floating-point values are real numbers (no rounding, no NaN/Inf created from finite operations except by division by zero); concrete values are IEEE doubles", "libstdc++ streams, containers' out-of-line parts and libc are the models in /verif/engine/mock and /verif/engine/rt", "LLVM IR is clang -O1 output of the current sources; the program's users run gcc builds"]
        ev = {"property": s.pid, "tier": s.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov, "assumptions": ass, "wall_s": round(time.time() - s.t0, 2), "violations": nviol}
        os.makedirs(V + "/evidence", exist_ok=True); json.dump(ev, open("%s/evidence/%s.json" % (V, s.pid), "w"), indent=1)
        print("%s %s: %d/%d instances, %d paths, assertions %d (solver-discharged %d, concrete %d, unknown %d), queries %d, solver %.1fs, witnesses replayed %d, wall %.1fs" % (s.pid, s.tier, len(s.results), len(insts), tot("paths"), ck("reached"), ck("discharged"), ck("concrete"), ck("unknown"), tot("queries"), tot("solver_s"), wit_ok, ev["wall_s"]))
        for x in inc[:8]: print("  incomplete:", x[:300])
        for x in s.errors[:8]: print("  error:", x[:1500])
        for x in vac: print("  vacuous:", x)
        for x in unconf[:5]: print("  not reproduced natively (not reported):", x["harness"], x["label"], x["kind"][:300], x["inputs"], x["replay"])
        for x in wit_bad[:5]: print("  witness mismatch:", x)
        if os.environ.get("VK_KEEP") is None: shutil.rmtree(s.run, ignore_errors=True)
        if nviol: return 1
        if not s.results: return 2
        return 0

def main():
    a = sys.argv[1:]
    if a[0] == "setup": sys.exit(0 if setup() else 1)
    if a[0] == "list":
        import specs
        print("\n".join(sorted(specs.PROPS))); return
    if a[0] == "check":
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        if not setup(): print("engine build failed"); sys.exit(2)
        sys.exit(Check(a[1], tier).execute())
main()
