#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code in /repo.

  check.py ID [--thorough] [--case NAME] [-v]     run the check of property ID
  check.py --replay FILE                          replay a recorded violation natively
"""
import sys, os, json, time, subprocess, shutil, tempfile, glob, re, concurrent.futures, hashlib, signal
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("PSI_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
from props import PROPS

CLANGF = "-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-pic -g1 -w -emit-llvm -c -I%s/engine/inc" % V
BASEF = "-include %s/harness/stub/logging.hpp -include iostream -include algorithm -DBOOST_TIMER_ENABLE_DEPRECATED" % V
DEFINC = ["", "common", "utf8", "utf8case"]
NJOBS = max(1, min(8, os.cpu_count() or 8))


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)


def ensure_engine():
    need = ["psisym", "psirt.bc", "psirtc.bc"]
    srcs = glob.glob(V + "/engine/*")
    h = hashlib.sha256()
    for f in sorted(srcs):
        if os.path.isfile(f):
            h.update(open(f, "rb").read())
    h = h.hexdigest()
    stamp = B + "/engine.stamp"
    if all(os.path.exists(os.path.join(B, n)) for n in need) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    r = sh("sh %s/engine/build.sh %s" % (V, B))
    if r.returncode:
        print(r.stdout)
        raise RuntimeError("engine build failed")
    open(stamp, "w").write(h)


class Inconclusive(Exception):
    pass


def expand(case, thorough):
    c = dict(case)
    if thorough and "thorough" in c:
        c.update(c["thorough"])
    return c


def incflags(c):
    inc = DEFINC + c.get("inc", [])
    return " ".join("-I" + os.path.join(R, i) for i in inc) + " -I%s/harness -I%s/harness/fallback" % (V, V)


def defflags(c):
    return " ".join("-D%s=%s" % kv for kv in c.get("defs", {}).items())


def cflags(c):
    return " ".join([BASEF, incflags(c), "-std=" + c.get("std", "gnu++14"), "-fno-access-control", c.get("flags", "")])


def sources(c):
    r = []
    for s in c.get("src", []):
        p = os.path.join(R, s)
        g = sorted(glob.glob(p)) if "*" in p else [p] if os.path.exists(p) else []
        r += g
    return r


def lang(f, c):
    if f.endswith(".c"):
        return "clang-18", "gcc", " ".join([incflags(c), c.get("flags", "")])
    return "clang++-18", "g++", cflags(c)


class Units:
    """compiles each translation unit once per run, in both compilers"""
    def __init__(self, d):
        self.d = d
        self.ex = concurrent.futures.ThreadPoolExecutor(NJOBS)
        self.jobs = {}

    def get(self, f, c, native, harness):
        cl, gc, fl = lang(f, c)
        if harness or c.get("defs_all"):
            fl += " " + defflags(c)
        key = (f, fl, native)
        if key not in self.jobs:
            o = os.path.join(self.d, "u%d.%s" % (len(self.jobs), "o" if native else "bc"))
            if native:
                cmd = "%s -O0 -g1 -w -fsanitize=address -fno-omit-frame-pointer %s -c %s -o %s" % (gc, fl, f, o)
            else:
                cmd = "%s %s %s %s -o %s" % (cl, CLANGF, fl, f, o)
            self.jobs[key] = self.ex.submit(self._run, cmd, o)
        return self.jobs[key]

    def _run(self, cmd, o):
        r = sh(cmd)
        return (r.returncode == 0, o, cmd, r.stdout[-3000:])


ALLOWED_UNDEF = None


def link_bc(units, c, d, name):
    hf = os.path.join(V, "harness", c["harness"])
    fs = [units.get(hf, c, False, True)] + [units.get(s, c, False, False) for s in sources(c)]
    objs = []
    for f in fs:
        ok, o, cmd, out = f.result()
        if not ok:
            raise Inconclusive("does not compile: %s\n%s" % (cmd, out))
        objs.append(o)
    tried = set(sources(c))
    extra = []
    while True:
        out = os.path.join(d, name + ".l.bc")
        r = sh("llvm-link-18 --suppress-warnings %s %s/psirt.bc %s/psirtc.bc -o %s" % (" ".join(objs), B, B, out))
        if r.returncode:
            raise Inconclusive("llvm-link: " + r.stdout[-2000:])
        fin = os.path.join(d, name + ".bc")
        r = sh("opt-18 --passes=internalize,globaldce --internalize-public-api-list=psi_main,psirt_throw_bad_alloc %s -o %s" % (out, fin))
        if r.returncode:
            raise Inconclusive("opt: " + r.stdout[-2000:])
        und = undefined(fin)
        if not und:
            return fin, extra
        # a definition may have moved to a file that is not on our list: look for it next to the listed ones
        cand = []
        for s in sources(c):
            for g in sorted(glob.glob(os.path.dirname(s) + "/*.cpp")):
                if g not in tried and not os.path.basename(g).startswith("test"):
                    cand.append(g)
                    tried.add(g)
        idents = set()
        for u in und:
            dm = sh("c++filt '%s'" % u).stdout.strip()
            m = re.match(r"(?:vtable for |typeinfo for |VTT for )?([^(]*)", dm)
            idents.add(m.group(1).split("::")[-1].split("<")[0].split(" ")[-1])
        got = []
        for g in cand:
            try:
                t = open(g, errors="replace").read()
            except OSError:
                continue
            if any(i and i in t for i in idents):
                got.append(g)
        added = False
        for g, fu in [(g, units.get(g, c, False, False)) for g in got]:
            ok, o, cmd, msg = fu.result()
            if ok:
                defs = set(x.split()[-1] for x in sh("llvm-nm-18 --defined-only %s" % o).stdout.splitlines() if x.split())
                if defs & und:
                    objs.append(o)
                    extra.append(g)
                    added = True
        if not added:
            return fin, extra


BUILTINS = None


def undefined(bc):
    global BUILTINS
    if BUILTINS is None:
        t = open(V + "/engine/psisym.cpp").read()
        a = t.index("builtinTab = {")
        BUILTINS = set(re.findall(r'\{"([^"]+)", B_', t[a:t.index("};", a)]))
    und = set()
    for l in sh("llvm-nm-18 -u %s" % bc).stdout.splitlines():
        n = l.split()[-1]
        if n in BUILTINS or n == "_ZSt21ios_base_library_initv" or n.startswith("llvm.") or n.startswith("_ZTVN10__cxxabiv1") or n.startswith("psi_") or n.startswith("__gxx_personality") or n.startswith("_ZTIN10__cxxabiv1"):
            continue
        und.add(n)
    return und


def build_native(units, c, d, name, extra):
    hf = os.path.join(V, "harness", c["harness"])
    fs = [units.get(hf, c, True, True)] + [units.get(s, c, True, False) for s in sources(c) + extra]
    fs.append(units.get(V + "/engine/psinative.cpp", {}, True, False))
    objs = []
    for f in fs:
        ok, o, cmd, out = f.result()
        if not ok:
            raise Inconclusive("native compile failed: %s\n%s" % (cmd, out))
        objs.append(o)
    exe = os.path.join(d, name + ".exe")
    # functions of the listed files that the harness does not reach may refer to code that is not linked
    r = sh("g++ -fsanitize=address -Wl,--unresolved-symbols=ignore-all -no-pie %s %s -o %s" % (" ".join(objs), c.get("libs", ""), exe))
    if r.returncode:
        raise Inconclusive("native link failed: " + r.stdout[-2000:])
    return exe


def native_run(exe, vals, d, timeout=20):
    f = tempfile.NamedTemporaryFile("w", dir=d, suffix=".vals", delete=False)
    f.write("\n".join(map(str, vals)) + "\n")
    f.close()
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=4000", LC_ALL="C")
    try:
        p = subprocess.run(["bash", "-c", "ulimit -c 0; exec \"$0\" \"$1\"", exe, f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=d)
        rc, out = p.returncode, p.stdout.decode("latin1")
    except subprocess.TimeoutExpired as e:
        rc, out = "timeout", (e.stdout or b"").decode("latin1")
    os.unlink(f.name)
    obs = [l.split()[1:] for l in out.splitlines() if l.startswith("OBS ")]
    chk = [l[len("PSI-CHECK-FAILED: "):] for l in out.splitlines() if l.startswith("PSI-CHECK-FAILED: ")]
    if rc == 0:
        st = "ok"
    elif rc == 66 and chk:
        st = "check: " + chk[0]
    elif rc == 67:
        st = "uncaught exception: " + " ".join(l for l in out.splitlines() if l.startswith("PSI-UNCAUGHT"))
    elif rc == 77:
        st = "assume"
    elif rc == 78 or rc == 79:
        st = "badreplay"
    elif rc == "timeout":
        st = "hang: no result within %d s" % timeout
    elif rc == 99:
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", out)
        st = "AddressSanitizer: " + (m.group(1) if m else "?")
    else:
        a = [l for l in out.splitlines() if "Assertion" in l or "terminate" in l]
        st = "crash: exit status %s %s" % (rc, a[0][-200:] if a else "")
    return st, obs, out


def merge(files):
    tot = {}
    for f in files:
        try:
            j = json.load(open(f))
        except Exception as e:
            tot["broken"] = tot.get("broken", 0) + 1
            continue
        for k, v in j.items():
            if isinstance(v, (int, float)):
                tot[k] = max(tot.get(k, 0), v) if k.endswith("max_s") else tot.get(k, 0) + v
            elif isinstance(v, dict):
                t = tot.setdefault(k, {})
                for a, b in v.items():
                    t[a] = t.get(a, 0) + b
            elif k == "cov":
                t = tot.setdefault(k, {})
                for fn, fi, n in v:
                    t[fi + "#" + fn] = t.get(fi + "#" + fn, 0) + n
            else:
                tot.setdefault(k, []).extend(v)
    return tot


def run_case(c, units, d, deadline, verbose):
    """returns a result dict"""
    t0 = time.time()
    res = {"case": c["name"], "bounds": c.get("bounds", ""), "violations": [], "unconfirmed": [], "known": [], "notes": []}
    hf = os.path.join(V, "harness", c["harness"])
    # start native compilation early
    for s in [hf]:
        units.get(s, c, True, True)
    for s in sources(c):
        units.get(s, c, True, False)
    bc, extra = link_bc(units, c, d, c["name"])
    if extra:
        res["notes"].append("also linked: " + ", ".join(extra))
    und = undefined(bc)
    budget = float(os.environ["PSI_TIME"]) if os.environ.get("PSI_TIME") else min(c.get("time", 60), max(5, deadline - time.time()))
    out = os.path.join(d, c["name"] + ".out")
    cmd = [B + "/psisym", "--entry", "psi_main", "--time", str(budget), "--jobs", str(NJOBS), "--out", out, "--steps", str(c.get("steps", 20000000)), "--samples", "48"]
    for h in c.get("hash0", []):
        cmd += ["--hash0", h]
    if c.get("forksel"):
        cmd.append("--fork-select")
    cmd.append(bc)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        po, _ = p.communicate(timeout=budget + 60)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc, po = -1, "executor timeout"
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    if os.environ.get("PSI_SLOWQ"):
        open("/tmp/slowq.txt", "w").write(po)
    if os.environ.get("PSISYM_FORKPROF"):
        print(po[-6000:])
    files = glob.glob(out + ".*")
    m = merge(files)
    if rc != 0 and not files:
        raise Inconclusive("executor failed (%s): %s" % (rc, po[-1500:]))
    if rc != 0:
        res["notes"].append("executor exit %s %s" % (rc, po[-500:]))
    res["stats"] = m
    res["undefined"] = sorted(und)
    exe = build_native(units, c, d, c["name"], extra)
    # counterexamples: replay each against the real code
    groups = {}
    for e in m.get("errors", []):
        groups.setdefault((e["kind"], e["msg"], e["loc"] if e["kind"] not in ("check", "step-limit") else ""), []).append(e)
    treplay = time.time()
    for key, es in groups.items():
        if len(res["violations"]) >= 8 or (res["violations"] and time.time() - treplay > 60):
            break
        es.sort(key=lambda e: (len(e["vals"]), e["vals"]))
        done = False
        last = None
        tl = 12 if key[0] in ("step-limit", "stack-overflow") else 20
        for e in es[:2 if tl == 12 else 4]:
            st, obs, o = native_run(exe, e["vals"], d, tl)
            last = (st, e)
            if st not in ("ok", "assume", "badreplay"):
                kf = known(c, e)
                rec = {"kind": e["kind"], "msg": e["msg"], "loc": e["loc"], "native": st, "names": e["names"], "vals": e["vals"], "stack": e["stack"], "notes": e["notes"], "output": o[-3000:]}
                (res["known"] if kf else res["violations"]).append(dict(rec, known=kf) if kf else rec)
                done = True
                break
        if not done:
            res["unconfirmed"].append({"kind": key[0], "msg": key[1], "loc": key[2], "native": last[0], "vals": last[1]["vals"][:60], "names": last[1]["names"][:60], "stack": last[1]["stack"]})
    # conformance of the executor: sampled paths are run natively and their observations compared
    ss = m.get("samples", [])
    step = max(1, len(ss) // c.get("replays", 24))
    ss = ss[::step]
    ok = 0
    mism = []

    def one(s):
        st, obs, o = native_run(exe, s["vals"], d)
        want = [[a, str(b)] for a, b in s["obs"]]
        got = [[a, b] for a, b in obs]
        return st, want == got, want, got, o
    with concurrent.futures.ThreadPoolExecutor(NJOBS) as ex:
        for s, (st, same, want, got, o) in zip(ss, ex.map(one, ss)):
            if st == "ok" and same:
                ok += 1
            else:
                mism.append((st, s["vals"][:80], [w for w, g in zip(want, got) if w != g][:3], [g for w, g in zip(want, got) if w != g][:3], o))
    for st, vals, w, g, o in mism:
        if st.startswith("check:") or st.startswith("Addr") or st.startswith("crash") or st.startswith("hang") or st.startswith("uncaught"):
            # the real code fails on a path on which the executor saw no failure: still a failing input
            kf = known(c, {"msg": st})
            if kf:
                continue
            res["violations"].append({"kind": "native", "msg": st, "loc": "", "native": st, "names": [], "vals": vals, "stack": [], "notes": ["found while replaying an explored path natively"], "output": o[-3000:]})
            break
    res["replayed"] = len(ss)
    res["validated"] = ok
    res["mismatch"] = [{"native": a, "vals": b, "executor": w, "real": g} for a, b, w, g, o in mism[:3]]
    res["missing_marks"] = [x for x in c.get("marks", []) if m.get("reach", {}).get(x, 0) == 0]
    res["wall_s"] = time.time() - t0
    if verbose:
        print("  case %s: %.1fs paths=%d insts=%d asserts=%d queries=%d solver=%.1fs unexplored=%d incomplete=%d errpaths=%d assume_killed=%d replay %d/%d reach=%s" % (c["name"], res["wall_s"], m.get("paths", 0), m.get("insts", 0), m.get("asserts", 0), m.get("queries", 0), m.get("solver_s", 0), m.get("unexplored", 0), m.get("incomplete", 0), m.get("err_paths", 0), m.get("assume_killed", 0), ok, len(ss), m.get("reach", {})))
        for k, v in sorted(m.get("why", {}).items(), key=lambda x: -x[1])[:6]:
            print("    incomplete x%d: %s" % (v, k))
        for u in res["unconfirmed"]:
            print("    UNCONFIRMED", json.dumps(u)[:1500])
        for u in res["mismatch"]:
            print("    MISMATCH", json.dumps(u)[:1500])
        if res["missing_marks"]:
            print("    MARKS NOT REACHED", res["missing_marks"])
        if und:
            print("    undefined:", sorted(und)[:8])
    return res


def load_known():
    f = V + "/known_findings.json"
    return json.load(open(f)) if os.path.exists(f) else {"findings": [], "fixed": []}


KNOWN = load_known()


def known(c, e):
    m = re.search(r"\[(KF-[A-Z0-9-]+)\]", e.get("msg", ""))
    if not m:
        return None
    for k in KNOWN["findings"]:
        if k["id"] == m.group(1) and k["property"] == c["property"]:
            return k
    return None


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    thorough = "--thorough" in a
    verbose = "-v" in a
    only = a[a.index("--case") + 1] if "--case" in a else None
    P = PROPS[pid]
    t0 = time.time()
    limit = (3300 if thorough else 420)
    ensure_engine()
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    d = tempfile.mkdtemp(prefix="psiv-%s-" % pid)
    rc = 0
    results, fails = [], []
    try:
        units = Units(d)
        cases = [expand(dict(c, property=pid), thorough) for c in P["cases"] if not (c.get("thorough_only") and not thorough)]
        if only:
            cases = [c for c in cases if c["name"] == only]
        for c in cases:  # queue all compilations
            hf = os.path.join(V, "harness", c["harness"])
            units.get(hf, c, False, True)
            for s in sources(c):
                units.get(s, c, False, False)
        for c in cases:
            try:
                results.append(run_case(c, units, d, t0 + limit, verbose))
            except Inconclusive as e:
                fails.append({"case": c["name"], "why": str(e)[-1500:]})
                if verbose:
                    print("  case %s INCONCLUSIVE: %s" % (c["name"], e))
        units.ex.shutdown()
        seen = set()
        n = 0
        for r in results:
            for k in r["known"]:
                if k["known"]["id"] not in seen:
                    seen.add(k["known"]["id"])
                    print("KNOWN-FINDING: property=%s %s" % (pid, k["known"]["what"]))
            for v in r["violations"]:
                n += 1
                rp = V + "/evidence/replay/%s-%s-%d.json" % (pid, r["case"], n)
                json.dump(dict(v, property=pid, case=r["case"], thorough=thorough), open(rp, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print("  case %s: %s: %s [%s] -> real code: %s" % (r["case"], v["kind"], v["msg"], v["loc"], v["native"]))
                print("  input:", " ".join("%s=%s" % x for x in zip(v["names"], v["vals"]))[:1200])
                for x in v["stack"][:6]:
                    print("    at", x)
                rc = 1
        evidence(pid, P, thorough, results, fails, time.time() - t0, n)
        for f in fails:
            print("INCONCLUSIVE case %s: %s" % (f["case"], f["why"][:600]))
        if rc == 0:
            print("%s: held on everything explored (%d cases, %.1f s)" % (pid, len(results), time.time() - t0))
    finally:
        if "--keep" in a:
            print("kept", d)
        else:
            shutil.rmtree(d, ignore_errors=True)
    return rc


def evidence(pid, P, thorough, results, fails, wall, nviol):
    tot = lambda k: int(sum(r["stats"].get(k, 0) for r in results))
    funcs = {}
    for r in results:
        for k, n in r["stats"].get("cov", {}).items():
            f, fn = k.split("#", 1)
            if f.startswith(R + "/"):
                funcs[f[len(R) + 1:] + ": " + fn] = funcs.get(f[len(R) + 1:] + ": " + fn, 0) + n
    samples = []
    for r in results:
        for s in r["stats"].get("samples", [])[:3]:
            samples.append({"case": r["case"], "input": dict(list(zip(s["names"], s["vals"]))[:40]) if len(set(s["names"])) == len(s["names"]) else list(zip(s["names"], s["vals"]))[:40], "observed": s["obs"][:8]})
    cases = []
    for r in results:
        m = r["stats"]
        cases.append({"case": r["case"], "bounds": r["bounds"], "paths": m.get("paths", 0), "instructions": m.get("insts", 0), "assertions": m.get("asserts", 0), "assertion_queries": m.get("assert_queries", 0), "assertions_settled_on_concrete_values": m.get("assert_trivial", 0),
                      "symbolic_branches": m.get("sym_branches", 0), "solver_queries": m.get("queries", 0), "decided_by_domain_tables": m.get("domain_hits", 0), "solver_s": round(m.get("solver_s", 0), 3),
                      "sat": m.get("sat", 0), "unsat": m.get("unsat", 0), "unknown": m.get("unknown", 0), "states_not_explored_in_time": m.get("unexplored", 0), "paths_given_up": m.get("incomplete", 0), "given_up_why": m.get("why", {}),
                      "complete_within_bounds": m.get("unexplored", 0) == 0 and m.get("incomplete", 0) == 0 and not m.get("broken"), "assertion_counts": m.get("checks", {}), "vacuity_marks": m.get("reach", {}), "vacuity_marks_missing": r["missing_marks"],
                      "explored_paths_replayed_natively": r["replayed"], "of_which_agree": r["validated"], "disagreements": r["mismatch"], "counterexamples_not_reproduced": r["unconfirmed"], "wall_s": round(r["wall_s"], 2), "notes": r["notes"]})
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": tot("paths") + tot("err_paths") + tot("assume_killed"), "transitions": tot("insts"), "traces_validated_against_impl": sum(r["validated"] for r in results), "samples": samples[:12],
                       "exhaustive": bool(results) and not fails and all(c["complete_within_bounds"] for c in cases),
                       "queries_discharged": tot("queries"), "solver_s": round(sum(r["stats"].get("solver_s", 0) for r in results), 3), "assertions_evaluated": tot("asserts"),
                       "functions_encoded": sorted(funcs), "cases": cases, "inconclusive": fails,
                       "explanation": "states are the complete symbolic paths explored (each covers all inputs satisfying its path condition), transitions the LLVM instructions executed on them; every branch, assertion and symbolic address was decided by Z3 or by exact single-byte domain tables."},
          "assumptions": ["memory model, libstdc++ runtime and libc models of engine/ (DESIGN.md)", "bounds listed per case; nothing is claimed outside them"] + P.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)


def replay(f):
    j = json.load(open(f))
    P = PROPS[j["property"]]
    c = [expand(dict(c, property=j["property"]), j.get("thorough")) for c in P["cases"] if c["name"] == j["case"]][0]
    d = tempfile.mkdtemp(prefix="psiv-replay-")
    ensure_engine()
    u = Units(d)
    bc, extra = link_bc(u, c, d, c["name"])
    exe = build_native(u, c, d, c["name"], extra)
    st, obs, out = native_run(exe, j["vals"], d)
    print(out)
    print("result:", st)
    shutil.rmtree(d, ignore_errors=True)
    return 0 if st == "ok" else 1


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
