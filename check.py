#!/usr/bin/env python3
"""Decides one property: python3 check.py C01 [--tier quick|thorough]
   python3 check.py --replay FILE.cex   re-runs one counterexample on the native build of /repo
Every run re-encodes /repo's working tree (LLVM bitcode), explores it symbolically (engine/), and replays every
counterexample on a native build of the same tree before it is reported."""
import argparse, glob, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vpbuild as B
import plan

ENV = dict(os.environ, TZ="UTC", LC_ALL="C")

class Native:
    def __init__(self, out):
        self.out, self.lock, self.exe = out, threading.Lock(), {}
    def get(self, job, san):
        key = (job["harness"], tuple(job["defs"]), san)
        with self.lock:
            if key not in self.exe:
                self.exe[key] = B.build_native(os.path.join(HERE, "harness", job["harness"]), self.out, job["defs"], job["extra"], san)
            return self.exe[key]

def replay(native, job, f, uninit, hang):
    """Runs one counterexample on the real code. Returns (reproduced, description)."""
    env = dict(ENV, **job["env"], ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="exitcode=99:halt_on_error=1")
    def run(cmd, t):
        if os.environ.get('V'): print(' '.join(cmd))
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=t, errors="replace", text=True)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    rc, out = run([native.get(job, True), f], 60)
    stmt = [l[5:] for l in out.splitlines() if l.startswith("STMT ")][-2:]
    tail = " ".join([l for l in out.splitlines() if "REPLAY" in l or "ERROR: AddressSanitizer" in l or "runtime error" in l][-3:])[-300:]
    if stmt:
        tail += " [last: %s]" % " | ".join(x[:160] for x in stmt)
    if rc == "timeout":
        return hang, "native run does not terminate within 60 s"
    if rc in (77, 78, 79, 99) or (isinstance(rc, int) and rc < 0):
        return True, "native run ends with status %s: %s" % (rc, tail)
    if uninit:
        rc2, out2 = run(["valgrind", "-q", "--error-exitcode=99", native.get(job, False), f], 200)
        if rc2 in (77, 78, 79, 99) or (isinstance(rc2, int) and rc2 < 0):
            e = [l for l in out2.splitlines() if l.startswith("==")]
            return True, "valgrind run ends with status %s: %s" % (rc2, e[0] if e else "")
    return False, "native run ends with status %s: %s" % (rc, tail)

def sig(v):
    """What identifies a violation within a job."""
    if v["kind"] == "assert":
        return "assert:" + v["msg"]
    return v["kind"] + ":" + v["where"].split("@")[0].split(" ")[0].split(":")[0]

def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def norm(j):
    d = dict(name=None, harness=None, args=[], defs=[], extra=[], covers=[], opts=[], time=120, env={}, tiers=("quick", "thorough"), bounds="", wit=3, steps=30000000)
    d.update(j)
    d["extra"] = [os.path.join(HERE, "lib", x) for x in d["extra"]]
    return d

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--job", help="only jobs whose name matches this regular expression (development)")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    if a.replay:
        name = re.match(r"(.*)\.(cex|wit)\d+$", os.path.basename(a.replay)).group(1)
        job = next(norm(j) for js in plan.PLAN.values() for j in js["jobs"] if j["name"] == name)
        out = os.path.join(HERE, "build", "replay-%d" % os.getpid())
        try:
            r = replay(Native(out), job, a.replay, True, True)
        finally:
            shutil.rmtree(out, ignore_errors=True)
        print("reproduced:" if r[0] else "not reproduced:", r[1])
        return 1 if r[0] else 0
    P = plan.PLAN[a.property]
    jobs = [norm(j) for j in P["jobs"]]
    jobs = [j for j in jobs if tier in j["tiers"] and (not a.job or re.search(a.job, j["name"]))]
    budget = P.get("budget", 560) if tier == "quick" else 3 * 3600
    out = os.path.join(HERE, "build", "run-%s-%d" % (a.property, os.getpid()))
    rep = os.path.join(HERE, "build", "replay", a.property)
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep)
    try:
        return check(a, P, jobs, tier, budget, out, rep, t0)
    finally:
        if not a.keep:
            shutil.rmtree(out, ignore_errors=True)

def check(a, P, jobs, tier, budget, out, rep, t0):
    B.build_engine()
    lib = B.build_lib_bc(os.path.join(out, "lib"))
    keys = sorted({(j["harness"], tuple(j["defs"]), tuple(j["extra"])) for j in jobs})
    with ThreadPoolExecutor(4) as ex:
        bcs = dict(zip(keys, ex.map(lambda k: B.build_harness_bc(lib, os.path.join(HERE, "harness", k[0]), os.path.join(out, "lib"), k[1], k[2]), keys)))
    build_s = time.time() - t0
    native, known = Native(os.path.join(out, "nat")), load_known()
    stop, results, lock = threading.Event(), [], threading.Lock()
    confirmed, findings, unrepro, notes = [], [], [], []
    wit = dict(replayed=0, agreed=0, disagreed=[])
    def run_job(j):
        left = budget - (time.time() - t0)
        if stop.is_set() or left < 10:
            with lock:
                notes.append("job %s not run (%s)" % (j["name"], "violation already reported" if stop.is_set() else "time budget"))
            return
        js = os.path.join(out, j["name"] + ".json")
        tm = min(j["time"] * (20 if tier == "thorough" else 1), left)
        cmd = [B.SYMX, bcs[(j["harness"], tuple(j["defs"]), tuple(j["extra"]))], "--entry", "vp_main", "--name", j["name"], "--out", js, "--replay-dir", rep,
               "--max-time", str(tm), "--max-steps", str(j["steps"]), "--wit", str(j["wit"] if tier == "quick" else 8), "--max-viol", "6"] + j["opts"]
        for x in j["args"]:
            cmd += ["--arg", str(x)]
        if os.environ.get('V'): print(' '.join(cmd))
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(ENV, **j["env"]), timeout=tm + 60)
            r = json.load(open(js))
        except subprocess.TimeoutExpired:
            with lock:
                notes.append("job %s: engine stopped at its time limit" % j["name"]); results.append((j, None))
            return
        except (OSError, ValueError):
            with lock:
                notes.append("job %s: engine gave no result (status %s): %s" % (j["name"], p.returncode, p.stdout[-300:])); results.append((j, None))
            return
        for v in r["violations"]:
            k = next((k for k in known if k["status"] == "known" and k["property"] == a.property and k["job"] == j["name"] and k["sig"] in (sig(v), v["kind"] + ":*")), None)
            ok, how = replay(native, j, v["file"], v["uninit"], v["kind"] == "hang")
            with lock:
                if not ok:
                    unrepro.append("%s: %s (%s) in %s: %s" % (j["name"], v["kind"], v["msg"], v["where"], how))
                elif k:
                    findings.append(k["what"])
                else:
                    confirmed.append((j["name"], v, how)); a.job or stop.set()
        with lock:
            results.append((j, r))
        for w in r.get("witnesses", []):
            ok, how = replay(native, j, w, False, False)
            with lock:
                wit["replayed"] += 1
                if ok:
                    wit["disagreed"].append("%s: %s" % (w, how))
                else:
                    wit["agreed"] += how.startswith("native run ends with status 0")
                    if not how.startswith("native run ends with status 0"):
                        wit["disagreed"].append("%s: %s" % (w, how))
            if not ok and not a.keep:
                os.remove(w)
    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(run_job, sorted(jobs, key=lambda j: -j["time"])))
    # report
    for f in dict.fromkeys(findings):
        print("KNOWN-FINDING: property=%s %s" % (a.property, f))
    for n, v, how in confirmed:
        print("counterexample of job %s: %s: %s at %s; %s" % (n, v["kind"], v["msg"], v["where"], how))
        print("VIOLATION property=%s replay=%s" % (a.property, v["file"]))
    for u in unrepro:
        print("note: counterexample does not reproduce natively, not reported: " + u)
    for n in notes:
        print("note: " + n)
    for d in wit["disagreed"]:
        print("note: witness of a passing path behaves differently natively: " + d)
    ok = [(j, r) for j, r in results if r]
    vac = []
    for j, r in ok:
        for c in j["covers"]:
            if not r["covers"].get(c) and not r["violations"]:
                vac.append("%s: '%s' never reached" % (j["name"], c))
    tot = lambda k: sum(r[k] for _, r in ok)
    inc = {}
    for j, r in ok:
        for k, n in r["incomplete"].items():
            inc["%s: %s" % (j["name"], k)] = n
    funcs = sorted({f for _, r in ok for f in r["functions"]})
    files = sorted({f for _, r in ok for f in r["files"] if f.startswith(B.REPO) or f.startswith(out)})
    ev = dict(property=a.property, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", wall_s=round(time.time() - t0, 1), violations=len(confirmed),
        coverage=dict(
            states=tot("paths"), transitions=tot("steps"), traces_validated_against_impl=wit["agreed"], samples=[s for _, r in ok for s in r["samples"][:2]][:12] or ["no sample"],
            rule="states are symbolic paths (each stands for every input that satisfies its path condition), transitions are LLVM instructions executed symbolically",
            exhaustive=not inc and len(ok) == len(jobs),
            jobs=[dict(name=j["name"], harness=j["harness"], args=j["args"], bounds=j["bounds"], paths=r["paths"], completed=r["completed"], steps=r["steps"], queries=r["queries"], sat=r["sat"], unsat=r["unsat"], unknown=r["unknown"],
                       asserts=r["asserts"], asserts_symbolic=r["asserts_symbolic"], asserts_proved=r["asserts_proved"], solver_s=r["solver_s"], wall_s=r["wall_s"], incomplete=r["incomplete"], covers=r["covers"]) for j, r in ok],
            solver_queries=tot("queries"), solver_unsat=tot("unsat"), solver_sat=tot("sat"), solver_unknown=tot("unknown"), solver_s=round(tot("solver_s"), 2),
            assertions_checked=tot("asserts"), assertions_decided_by_solver=tot("asserts_symbolic"), assertions_proved=tot("asserts_proved"),
            incomplete=inc, functions_encoded=funcs, files_encoded=files, bounds=P.get("bounds", ""), outside=P.get("outside", ""), witnesses_replayed=wit["replayed"], witness_disagreements=wit["disagreed"],
            unreproduced=unrepro, notes=notes + vac, known_findings=sorted(set(findings)), encode_s=round(build_s, 1)),
        assumptions=plan.ASSUMPTIONS + P.get("assumptions", []))
    if not a.job:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", a.property + ".json"), "w"), indent=1)
    print("%s %s: %d jobs, %d paths, %d instructions, %d solver queries (%.1f s), %d/%d assertions proved, %d witnesses replayed natively, %s, %.0f s" % (
        a.property, tier, len(ok), tot("paths"), tot("steps"), tot("queries"), tot("solver_s"), tot("asserts_proved"), tot("asserts"), wit["agreed"],
        "complete within its bounds" if not inc and len(ok) == len(jobs) else "INCOMPLETE: %s" % "; ".join(list(inc)[:6]), time.time() - t0))
    if a.job:
        for j, r in ok:
            if not (os.environ.get('V') or r['wall_s'] > 30 or r['incomplete']): continue
            print("  %-28s paths %-7d completed %-7d steps %-10d queries %-7d solver %6.1fs wall %6.1fs asserts %d/%d covers %s %s" % (j["name"], r["paths"], r["completed"], r["steps"], r["queries"], r["solver_s"], r["wall_s"], r["asserts_proved"], r["asserts"], r["covers"], r["incomplete"] or ""))
    if confirmed:
        return 1
    if vac:
        print("error: vacuous: " + "; ".join(vac)); return 2
    if not ok:
        print("error: no job gave a result"); return 2
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print("error: build failed\n%s" % e); sys.exit(2)
