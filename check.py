#!/usr/bin/env python3
"""Solver-based check of one property of /repo.

  check.py C01 [quick|thorough]     decide property C01
  check.py --replay FILE            re-run a recorded counterexample natively
  check.py --setup                  build the engine (also done on demand)

Every run compiles the sources the harness names from /repo's working tree to
LLVM bitcode, links them with the harness and the runtime models, and lets
build/symx execute all paths symbolically (Z3 decides every branch and every
assertion).  Counterexamples are replayed in a native AddressSanitizer build of
the same sources before they are reported; models of sampled passing paths are
replayed natively too and must give the same observations.
"""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, sys, time, glob, fcntl

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VP_REPO", "/repo")
B = os.environ.get("VP_BUILD", os.path.join(V, "build"))
CLANG = "clang++"
CSTD = ["-std=gnu++2b", "-w", "--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/12",
        "-isystem", f"{B}/stl", "-D__cpp_concepts=202002L",
        "-include", f"{V}/shim/prelude.h", "-DNDEBUG", "-DSTD",
        "-DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize",
        f"-I{R}/include", f"-I{V}/shim", f"-I{V}/rt", f"-I{V}/harness"]
BC = ["-O1", "-fno-pic", "-emit-llvm", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize",
      "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DVP_SYMBOLIC"]
NAT = ["-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
       "-fsanitize=address", "-fno-omit-frame-pointer"]
RTFLAGS = ["-std=gnu++2b", "-w", "-O1", "-fno-pic", "-emit-llvm", "-gline-tables-only", "-fno-builtin", "-fno-vectorize",
           "-fno-slp-vectorize", "--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/12",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", f"-I{V}/rt"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fhash(p, memo={}):
    try:
        st = os.stat(p)
        k = (p, st.st_mtime_ns, st.st_size)
        if k not in memo:
            memo[k] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        return memo[k]
    except OSError:
        return None


def headers(memo=[]):
    if not memo:
        for d in (f"{R}/include", f"{R}/web/server/include", f"{V}/shim", f"{V}/rt", f"{V}/harness/common"):
            for p, _, fs in os.walk(d):
                memo += [os.path.join(p, f) for f in fs]
        memo.sort()
    return memo


def compile_one(src, flags, suffix):
    """Compile src with flags, reusing a cached object only if every file it
    was made from (headers included) has unchanged contents."""
    # (a new header may shadow another: the set of headers is part of the key)
    key = hashlib.sha256(json.dumps([src, flags, suffix, headers()]).encode()).hexdigest()[:24]
    out = f"{B}/cache/{key}{suffix}"
    meta = out + ".json"
    try:
        m = json.load(open(meta))
        if os.path.exists(out) and all(fhash(p) == h for p, h in m.items()):
            return out
    except (OSError, ValueError):
        pass
    dep, tmp = f"{out}.{os.getpid()}.d", f"{out}.{os.getpid()}.tmp"
    r = sh([CLANG, *flags, "-MD", "-MF", dep, "-c", src, "-o", tmp])
    if r.returncode:
        raise CheckError(f"compiling {src} failed:\n" + "\n".join(r.stdout.splitlines()[:40]))
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(dep)
    os.replace(tmp, out)
    json.dump({p: fhash(p) for p in deps if not p.startswith("/usr")}, open(meta, "w"))
    return out


def setup():
    for d in ("cache", "stl/bits", "replay", "out"):
        os.makedirs(f"{B}/{d}", exist_ok=True)
    with open(f"{B}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        o = f"{B}/stl/bits/stl_vector.h"
        if not os.path.exists(o):
            r = sh([sys.executable, f"{V}/engine/mkstl.py", "/usr/include/c++/12/bits/stl_vector.h", o])
            if r.returncode:
                raise CheckError("mkstl failed: " + r.stdout)
        r = sh(["make", "-s", "-j4", "-C", f"{V}/engine", f"BUILD={B}"])
        if r.returncode:
            raise CheckError("engine build failed:\n" + r.stdout[-3000:])


def directives(path):
    d = {"sources": [], "reach": [], "opt": [], "bounds": [], "assume": [], "stub": [], "entry": []}
    for line in open(path):
        m = re.match(r"//\s*@(\w+)\s+(.*)", line)
        if m:
            k, v = m.groups()
            if k in ("bounds", "assume", "stub"):
                d[k].append(v.strip())
            else:
                d.setdefault(k, []).extend(v.split())
    return d


def harness_of(pid):
    c = sorted(glob.glob(f"{V}/harness/{pid}_*.cc"))
    if not c:
        raise CheckError(f"no harness for {pid}")
    return c


def all_sources():
    return sorted(p for p in glob.glob(f"{R}/src/**/*.cc", recursive=True)
                  if not p.endswith("parse_station_coords.cc"))


def undefined(bc):
    r = sh(["llvm-nm-18", "-u", "--format=just-symbols", bc])
    return {x.strip() for x in r.stdout.splitlines() if x.strip()}


def build(h, d, tier, kind, pool):
    hflags = ["-DTHOROUGH"] if tier == "thorough" else []
    fl = CSTD + [f"-I{R}/{i}" for i in d.get("include", [])] + (BC if kind == "bc" else NAT)
    suf = ".bc" if kind == "bc" else ".o"
    srcs = [os.path.join(R, s) for s in d["sources"] if os.path.exists(os.path.join(R, s))]
    futs = [pool.submit(compile_one, h, fl + hflags, suf)]
    futs += [pool.submit(compile_one, s, fl, suf) for s in srcs]
    if kind == "bc":
        futs.append(pool.submit(compile_one, f"{V}/rt/runtime.cc", RTFLAGS, ".bc"))
        for m in d.get("model", []):
            futs.append(pool.submit(compile_one, f"{V}/rt/{m}", RTFLAGS, ".bc"))
    else:
        futs.append(pool.submit(compile_one, f"{V}/rt/replay.cc", ["-std=gnu++2b", "-O1", "-gline-tables-only", "-fsanitize=address"], ".o"))
    objs = [f.result() for f in futs]
    name = os.path.splitext(os.path.basename(h))[0] + "-" + tier
    if kind == "bc":
        out = f"{B}/out/{name}.bc"
        r = sh(["llvm-link-18", *objs, "-o", out])
        if r.returncode:
            raise CheckError("llvm-link: " + r.stdout[:2000])
        und = {u for u in undefined(out) if "4soro" in u and not u.startswith("_ZT")}
        if und:  # code moved to another file: link all the sources
            rest = [s for s in all_sources() if s not in srcs]
            extra = []
            for f in [pool.submit(compile_one, s, fl, suf) for s in rest]:
                extra.append(f.result())
            rest_bc = f"{B}/out/{name}.rest.bc"
            sh(["llvm-link-18", *extra, "-o", rest_bc])
            r = sh(["llvm-link-18", out, "--only-needed", rest_bc, "-o", out + ".2"])
            if r.returncode:
                raise CheckError("llvm-link: " + r.stdout[:2000])
            os.replace(out + ".2", out)
            d["linked_all"] = True
        return out
    if d.get("linked_all"):
        rest = [s for s in all_sources() if s not in srcs]
        objs += [f.result() for f in [pool.submit(compile_one, s, fl, suf) for s in rest]]
    out = f"{B}/out/{name}.native"
    r = sh([CLANG, "-fsanitize=address", "-rdynamic", *objs, "-o", out, *d.get("libs", []), "-ldl", "-lpthread",
            "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,muldefs"])
    if r.returncode:
        raise CheckError("native link: " + r.stdout[:3000])
    return out


def native(prog, entry, inputs, tag):
    f = f"{B}/out/in.{os.getpid()}.{tag}"
    open(f, "w").write(" ".join(map(str, inputs)) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:exitcode=99:detect_stack_use_after_return=0")
    try:
        r = subprocess.run([prog, entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", env=env, timeout=90)
        rc, o, e = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        rc, o, e = -14, "", "timeout"
    os.unlink(f)
    obs = [int(x[2:]) for x in o.splitlines() if x.startswith("O ")]
    last = [x for x in o.splitlines() if not x.startswith("O ")]
    m = re.search(r"ERROR: AddressSanitizer: [^\n]*", e)
    return rc, obs, (m.group(0) if m else last[-1] if last else e.strip()[-200:] or f"exit status {rc}")


def run_check(pid, tier):
    t0 = time.time()
    setup()
    os.makedirs(f"{V}/evidence", exist_ok=True)
    known = []
    kf = f"{V}/KNOWN_FINDINGS.json"
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid]
    tot = {k: 0 for k in ("paths", "forks", "steps", "assertions", "assertion_queries", "queries", "sat", "unsat",
                          "unknown", "cache_hits", "fp_queries", "solver_seconds")}
    functions, labels, bounds, assume, stubs = set(), {}, [], [], []
    samples, validated, problems, violations, kfound = [], 0, [], [], {}
    incomplete = []
    pool = cf.ThreadPoolExecutor(8)
    hs = harness_of(pid)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for h in hs:
        d = directives(h)
        bounds += d["bounds"]; assume += d["assume"]; stubs += d["stub"]
        bc = build(h, d, tier, "bc", pool)
        natf = pool.submit(build, h, d, tier, "native", cf.ThreadPoolExecutor(3))
        out = f"{B}/out/{os.path.basename(h)}-{tier}.json"
        if os.path.exists(out):
            os.unlink(out)
        budget = float((d.get("budget") or ["600"])[0]) if tier == "quick" else float(os.environ.get("VP_THOROUGH_S", "3000"))
        cmd = [f"{B}/symx", bc, "--out", out, "--workers", os.environ.get("VP_WORKERS", "8"),
               "--timeout", str(budget), "--samples", "6" if tier == "quick" else "25", "--src-prefix", R + "/", *d["opt"]]
        p = sh(cmd)
        try:
            j = json.load(open(out))
        except (OSError, ValueError):
            raise CheckError(f"symx failed on {os.path.basename(h)} (exit {p.returncode}):\n" + p.stdout[-3000:])
        nat = natf.result()
        for k in tot:
            tot[k] += j.get(k, 0)
        functions |= set(j["functions"])
        for k, v in j["labels"].items():
            labels[k] = labels.get(k, 0) + v
        if not j["complete"] and not j["violations"]:
            incomplete.append(f"{os.path.basename(h)}: " + "; ".join(j["inconclusive"] or ["budget exhausted"]))
        seen = set()
        for n, v in enumerate(j["violations"]):
            rc, obs, msg = native(nat, v["entry"], v["inputs"], f"v{n}")
            rep = f"{B}/replay/{pid}-{v['entry']}-{n}.json"
            json.dump({"property": pid, "harness": h, "tier": tier, "entry": v["entry"], "kind": v["kind"],
                       "msg": v["msg"], "loc": v["loc"], "inputs": v["inputs"], "names": v["names"],
                       "native": msg, "native_rc": rc}, open(rep, "w"), indent=1)
            if rc == 0 or rc == 77:
                problems.append(f"counterexample did not reproduce natively (engine or model error): {v['entry']} "
                                f"{v['kind']} {v['msg']} at {v['loc']} inputs={v['inputs']} native={msg}")
                continue
            k = next((k for k in known if k["entry"] == v["entry"] and k["match"] == v["msg"]), None)
            if k:
                kfound[k["id"]] = k
                continue
            violations.append((v, rep, msg))
        missing = [l for l in d["reach"] if l not in j["labels"]]
        if missing and not j["violations"]:
            problems.append(f"{os.path.basename(h)}: labels never reached (vacuous): {missing}")
        nsamp = 0
        for n, s in enumerate(j["samples"]):
            rc, obs, msg = native(nat, s["entry"], s["inputs"], f"s{n}")
            if rc != 0 or obs != s["obs"]:
                if rc != 0 and rc != 77 and rc != -14:
                    rep = f"{B}/replay/{pid}-{s['entry']}-sample{n}.json"
                    json.dump({"property": pid, "harness": h, "tier": tier, "entry": s["entry"], "kind": "native",
                               "msg": msg, "loc": "", "inputs": s["inputs"], "names": []}, open(rep, "w"), indent=1)
                problems.append(f"native run of sampled path differs from the model: {s['entry']} inputs={s['inputs']} "
                                f"model={s['obs']} native={obs} rc={rc} {msg}")
            else:
                validated += 1
                nsamp += 1
                if len(samples) < 12:
                    samples.append({"entry": s["entry"], "inputs": s["inputs"], "observed": s["obs"][:16]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": int(tot["paths"]), "transitions": int(tot["forks"]),
                       "traces_validated_against_impl": validated, "samples": samples,
                       "exhaustive": not incomplete and not violations,
                       "functions_encoded": sorted(functions), "bounds": bounds, "stubs": stubs,
                       "labels_reached": labels, "ir_instructions_executed": int(tot["steps"]),
                       "assertions_checked": int(tot["assertions"]),
                       "assertion_queries": int(tot["assertion_queries"]),
                       "solver_queries": int(tot["queries"]), "solver_sat": int(tot["sat"]),
                       "solver_unsat": int(tot["unsat"]), "solver_unknown": int(tot["unknown"]),
                       "solver_cache_hits": int(tot["cache_hits"]), "fp_queries": int(tot["fp_queries"]),
                       "solver_seconds": round(tot["solver_seconds"], 3),
                       "meaning": "states = completed symbolic paths, transitions = symbolic branch splits"},
          "assumptions": assume, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if problems or incomplete:
        ev["problems"] = problems + incomplete
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for k in known:
        if k["id"] in kfound:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            print(f"note: listed finding {k['id']} was not observed in this run")
    for v, rep, msg in violations:
        named = ", ".join(f"{n}={x}" for n, x in zip(v["names"], v["inputs"]))
        print(f"VIOLATION property={pid} replay={rep}")
        print(f"  {v['entry']}: {v['kind']}: {v['msg']} at {v['loc']}; native: {msg}; inputs: {named[:600]}")
    for p in problems + incomplete:
        print("PROBLEM:", p)
    print(f"{pid} {tier}: paths={tot['paths']} assertions={tot['assertions']} queries={tot['queries']} "
          f"solver_s={tot['solver_seconds']:.1f} functions={len(functions)} validated={validated} wall={time.time()-t0:.1f}s")
    if violations:
        return 1
    if problems or incomplete:
        return 3
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        setup()
        compile_one(f"{V}/rt/runtime.cc", RTFLAGS, ".bc")
        return 0
    if a[:1] == ["--replay"]:
        setup()
        j = json.load(open(a[1]))
        d = directives(j["harness"])
        d["linked_all"] = True
        nat = build(j["harness"], d, j["tier"], "native", cf.ThreadPoolExecutor(8))
        rc, obs, msg = native(nat, j["entry"], j["inputs"], "r")
        print(f"native exit {rc}: {msg}; observations {obs}")
        return 1 if rc else 0
    return run_check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR:", e)
        sys.exit(3)
