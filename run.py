#!/usr/bin/env python3
"""Driver of the solver-based checks.

  run.py check C01            decide one property (VERIF_TIER, VERIF_SEED from the environment)
  run.py setup                build the engine (it is rebuilt on demand by every check anyway)
  run.py replay FILE          re-run a recorded counterexample against the real code (native build)
  run.py build C01            only build the two binaries of a check
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SV_REPO", "/repo")
BUILD = os.path.join(HERE, "build") if REPO == "/repo" else "/tmp/sv-build-" + hashlib.sha256(REPO.encode()).hexdigest()[:8]
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

INC = ["-I" + HERE + "/engine", "-I" + HERE + "/harness", "-I" + HERE + "/engine/shim", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I/usr/include/eigen3"]
DEFS = ["-DEIGEN_DONT_VECTORIZE"]
SYM = ["-std=c++17", "-O1", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize", "-fno-slp-vectorize", "-g0", "-w", "-DSV_SYM", "-I" + HERE + "/engine/shim-sym"]
NAT = ["-std=c++17", "-O1", "-g0", "-w"]


class BuildError(Exception):
    pass


QUICK_SCALE = 0.2  # the quick tier gives each harness a fifth of its nominal time; SV_BUDGET overrides it, the thorough tier is not scaled


def quick_budget(b):
    return min(b, max(1.5, QUICK_SCALE * b))


def sh(cmd, env=None, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    return r.stdout.decode(errors="replace")


def digest(*files):
    h = hashlib.sha256()
    for f in files:
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def tool(n):
    return shutil.which(n + "-18") or shutil.which(n) or n


def atomic(cmd_of, out):
    tmp = out + ".%d.tmp" % os.getpid()
    sh(cmd_of(tmp))
    os.replace(tmp, out)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    e = HERE + "/engine/"
    so = BUILD + "/svpass-" + digest(e + "pass.cpp") + ".so"
    rt = BUILD + "/rt-" + digest(e + "rt.cc") + ".o"
    nat = BUILD + "/native-" + digest(e + "native.cc", e + "sv.h") + ".o"
    flags = sh([tool("llvm-config"), "--cxxflags"]).split()
    with cf.ThreadPoolExecutor(4) as ex:
        fs = []
        if not os.path.exists(so):
            fs.append(ex.submit(atomic, lambda o: [tool("clang++")] + flags + ["-std=c++17", "-O0", "-fPIC", "-shared", "-o", o, e + "pass.cpp"], so))
        if not os.path.exists(rt):
            fs.append(ex.submit(atomic, lambda o: ["g++", "-std=c++17", "-O2", "-c", e + "rt.cc", "-o", o], rt))
        if not os.path.exists(nat):
            fs.append(ex.submit(atomic, lambda o: ["g++", "-std=c++17", "-O2", "-I" + e, "-c", e + "native.cc", "-o", o], nat))
        for f in fs:
            f.result()
    return so, rt, nat


def build_check(pid, log):
    """Builds the symbolic and the native binary of a check from /repo's current sources."""
    c = CHECKS[pid]
    d = os.path.join(BUILD, pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t0 = time.time()
    tus = [HERE + "/harness/" + f for f in c["files"]] + [REPO + "/src/" + f for f in c.get("src", [])]
    with cf.ThreadPoolExecutor(16) as ex:
        eng = ex.submit(build_engine)

        def bc(f):
            b = d + "/" + os.path.basename(f)
            sh([tool("clang++")] + SYM + (["-include", HERE + "/engine/shim-sym/sv_strings.hh"] if c.get("strings") else []) + DEFS + INC + ["-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", f, "-o", b + ".bc"])
            so = eng.result()[0]
            sh([tool("opt"), "-load-pass-plugin", so, "-passes=sv-models,default<O1>", b + ".bc", "-o", b + ".o1.bc"], env=dict(os.environ, SV_PASS_NAMES=b + ".names", **({"SV_REALHASH": "1"} if c.get("realhash") else {})))
            sh([tool("opt"), "-load-pass-plugin", so, "-passes=sv-instr", b + ".o1.bc", "-o", b + ".in.bc"], env=dict(os.environ, SV_PASS_REPORT=b + ".rep"))
            sh([tool("clang++"), "-O1", "-c", b + ".in.bc", "-o", b + ".sym.o"])
            return b + ".sym.o"

        def na(f):
            b = d + "/" + os.path.basename(f)
            sh(["g++"] + NAT + DEFS + INC + ["-c", f, "-o", b + ".nat.o"])
            return b + ".nat.o"
        s = [ex.submit(bc, f) for f in tus]
        n = [ex.submit(na, f) for f in tus]
        so, rt, nat = eng.result()
        sobj = [x.result() for x in s]
        nobj = [x.result() for x in n]
    sh([tool("clang++")] + sobj + [rt, "-lz3", "-o", d + "/sym"])
    sh(["g++"] + nobj + [nat, "-o", d + "/native"])
    funs, ext = set(), set()
    for f in tus:
        b = d + "/" + os.path.basename(f)
        for l in open(b + ".names", errors="replace"):
            if l.startswith("F "):
                funs.add(l[2:].strip())
        for l in open(b + ".rep", errors="replace"):
            if l.startswith("X "):
                ext.add(l[2:].strip())
    log("built in %.1fs" % (time.time() - t0))
    return d, funs, ext


def parse(out):
    r = {"stats": {}, "reach": {}, "rej": {}, "why": {}, "samples": [], "viol": [], "end": False}
    for l in out.split("\n"):
        f = l.split("\t")
        if f[0] == "REACH":
            r["reach"][f[1]] = int(f[2])
        elif f[0] == "REJ":
            r["rej"][f[1]] = int(f[2])
        elif f[0] == "WHY":
            r["why"][f[1]] = int(f[2])
        elif f[0] == "SAMPLE":
            r["samples"].append((f[1], f[2]))
        elif f[0] == "VIOL":
            r["viol"].append((f[1], f[2], f[3]))
        elif f[0] == "END":
            r["end"] = True
        elif len(f) == 2 and f[0] != "RESULT":
            r["stats"][f[0]] = float(f[1])
    return r


def replay_models(d, h, models, timeout=30):
    if not models:
        return []
    r = subprocess.run([d + "/native", h, str(timeout), "8"], input="\n".join(models) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    res = []
    for l in r.stdout.split("\n"):
        if l:
            f = l.split("\t")
            res.append((f[0], f[1], "\t".join(f[2:])))
    return res


def known():
    p = HERE + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def short(f):
    """Qualified name of a demangled function, without template arguments, parameters and return type."""
    f = f.replace("operator<<", "operator lshift").replace("operator>>", "operator rshift").replace("operator()", "operator call").replace("operator->", "operator arrow").replace("operator<", "operator lt").replace("operator>", "operator gt")
    for a, b in ("<>", "()", "{}"):
        out, n = [], 0
        for ch in f:
            n += ch == a
            if not n:
                out.append(ch)
            n -= ch == b
        f = "".join(out)
    i = f.find("learnta::")
    return f[i:].strip() if i >= 0 and " std::" not in f[i:] else ""


def check(pid, tier, seed):
    t0 = time.time()
    c = CHECKS[pid]
    log = lambda *a: print("[%s %.0fs]" % (pid, time.time() - t0), *a, flush=True)
    d, funs, ext = build_check(pid, log)
    only = os.environ.get("SV_ONLY")
    KF = [k for k in known()["findings"] if k["property"] == pid]
    total = {"paths": 0, "branches": 0, "queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "solver_s": 0.0, "asserts": 0, "concretised": 0, "stale": 0, "mismatch": 0}
    per, viols, kfs, unrep, validated, digest_bad, samples, vac = [], [], set(), [], 0, [], [], []
    exhaustive = True
    env = dict(os.environ, VERIF_SEED=str(seed))
    hs = c["harnesses"]
    for h in hs:
        name = h["name"]
        if only and name not in only.split(","):
            continue
        if tier == "quick" and h.get("thorough_only"):
            continue
        budget = quick_budget(h.get("budget", 30)) if tier == "quick" else h.get("thorough", max(10 * h.get("budget", 30), 300))
        if os.environ.get("SV_BUDGET"):
            budget = float(os.environ["SV_BUDGET"])
        p = subprocess.run([d + "/sym", name, str(budget), "8", str(h.get("path_timeout", 20)), "100000000", h.get("init", "")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(env, **({"SV_LOGIC": h["logic"]} if "logic" in h and "SV_LOGIC" not in env else {})), timeout=budget * 3 + 300)
        r = parse(p.stdout)
        if not r["end"]:
            raise BuildError("engine failed on %s: %s" % (name, p.stderr[-2000:]))
        st = r["stats"]
        for k in total:
            total[k] += st.get(k, 0)
        ex = bool(st["exhausted"])
        exhaustive &= ex
        # replay of counterexamples
        reps = replay_models(d, name, [v[2] for v in r["viol"]])
        confirmed = {}
        for v, rr in zip(r["viol"], reps):
            if rr[1] in ("VIOLATION", "CRASH", "TIMEOUT"):
                msg = rr[2] if rr[1] == "VIOLATION" else rr[1] + ": " + rr[2]
                confirmed.setdefault(msg, (v, rr))
            else:
                unrep.append({"harness": name, "label": v[1], "model": v[2], "native": rr[1]})
        for msg, (v, rr) in confirmed.items():
            k = next((k for k in KF if k["harness"] == name and re.search(k["label"], msg)), None)
            if k:
                kfs.add(k["what"])
                continue
            viols.append({"property": pid, "harness": name, "label": msg, "model": v[2], "engine": v[1]})
        # validation of the engine: sampled complete paths must behave the same natively
        sm = replay_models(d, name, [s[1] for s in r["samples"]])
        for s, rr in zip(r["samples"], sm):
            if rr[0] == s[0] and rr[1] == "OK":
                validated += 1
            else:
                digest_bad.append({"harness": name, "model": s[1], "native": rr[1] + " " + rr[2]})
        samples += [name + ": " + s[1] for s in r["samples"][:2]]
        for need in h.get("reach", []):
            if not any(k[2:] == need or k[2:].startswith(need) for k in r["reach"]):
                vac.append(name + ": " + need)
        if not any(k.startswith("A:") for k in r["reach"]):
            vac.append(name + ": no assertion reached")
        per.append({"harness": name, "what": h.get("what", ""), "bounds": h.get("bounds", ""), "exhausted": ex, "paths": int(st["paths"]), "completed": int(st["ok"]), "infeasible_or_assumed_away": int(st["pruned"]), "rejected": r["rej"],
                    "queries": int(st["queries"]), "unsat": int(st["unsat"]), "unknown": int(st["unknown"]), "solver_s": round(st["solver_s"], 2), "wall_s": round(st["wall_s"], 2), "pending_paths": int(st["pending"]), "reached": r["reach"], "inconclusive": r["why"],
                    "lost": int(st["lost"]), "timeouts": int(st["timeouts"])})
        log("%s: %s paths=%d ok=%d pruned=%d queries=%d unsat=%d solver=%.1fs wall=%.1fs%s%s%s" % (name, "exhausted" if ex else "BUDGET", st["paths"], st["ok"], st["pruned"], st["queries"], st["unsat"], st["solver_s"], st["wall_s"],
            " rejected=%s" % r["rej"] if r["rej"] else "", " WHY=%s" % r["why"] if r["why"] else "", " viol=%d" % len(r["viol"]) if r["viol"] else ""))
        if os.environ.get("SV_VERBOSE"):
            for k, v in sorted(r["reach"].items()):
                print("   ", k, v)
    for x in unrep[:5]:
        log("NOT REPRODUCED natively (not reported):", x)
    for x in digest_bad[:5]:
        log("TRACE MISMATCH:", x)
    for x in vac:
        log("VACUOUS:", x)
    for k in sorted(kfs):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    rdir = BUILD + "/replay"
    os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(viols):
        f = "%s/%s-%d.json" % (rdir, pid, i)
        json.dump(v, open(f, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, f))
        print("  harness %s: %s\n  input %s" % (v["harness"], v["label"], v["model"]))
    fl = sorted({y for y in map(short, funs) if y.startswith("learnta::")})[:2000]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(viols),
          "coverage": {"states": int(total["paths"]), "transitions": int(total["branches"]), "traces_validated_against_impl": validated, "samples": samples[:24] or ["none"], "exhaustive": exhaustive,
                       "explanation": "states = symbolic paths explored (each stands for all input values satisfying its path condition), transitions = symbolic branch decisions on them",
                       "queries": int(total["queries"]), "queries_unsat": int(total["unsat"]), "queries_sat": int(total["sat"]), "queries_unknown": int(total["unknown"]), "solver_s": round(total["solver_s"], 2),
                       "assertion_instances": int(total["asserts"]), "harnesses": per, "functions_encoded": fl, "externals_run_concretely": sorted(ext)[:80],
                       "counterexamples_not_reproduced": unrep[:20], "trace_mismatches": digest_bad[:20], "vacuous": vac, "engine_self_check_mismatches": int(total["mismatch"]), "known_findings_seen": sorted(kfs)},
          "assumptions": c.get("assumptions", []) + COMMON}
    edir = HERE + "/evidence" if REPO == "/repo" else BUILD + "/evidence"
    os.makedirs(edir, exist_ok=True)
    json.dump(ev, open(edir + "/%s.json" % pid, "w"), indent=1)
    log("done: %s, %d paths, %d queries, %.1fs solver, %d traces validated" % ("violations" if viols else "holds", total["paths"], total["queries"], total["solver_s"], validated))
    return 1 if viols else 0


COMMON = ["Bounds are those listed per harness; nothing is claimed outside them.",
          "Symbolic reals range over a finite binary grid; arithmetic on them is exact there (no rounding inside the stated ranges).",
          "Hash functions are modelled as constants and logging is compiled out; both are observationally irrelevant to the properties.",
          "malloc never fails; the sign of zero is not modelled.",
          "Where a harness reports exhausted=false, its budget ran out and only the listed paths are covered."]


def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        if cmd == "setup":
            build_engine()
            return 0
        if cmd == "check":
            return check(sys.argv[2], tier, seed)
        if cmd == "build":
            build_check(sys.argv[2], print)
            return 0
        if cmd == "replay":
            v = json.load(open(sys.argv[2]))
            d, _, _ = build_check(v["property"], print)
            r = replay_models(d, v["harness"], [v["model"]])
            print(r)
            return 1 if r and r[0][1] != "OK" else 0
    except BuildError as e:
        print("ERROR:", e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
