#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code.

usage: check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep]

Each harness in harness/PROPERTY*.cpp is compiled together with /repo's current sources to LLVM IR
and executed by engine/vx with symbolic inputs; every assertion, memory access and trap is decided by
the SMT solver for all values within the harness's bounds.  A counterexample is replayed against a
sanitizer build of the same sources and reported only if it reproduces there.
exit: 0 held, 1 violation, 2 no answer (incomplete exploration or internal failure)
"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
ENGINE = f"{V}/engine/build/vx"
CLANG = "clang++-18"
TUS = ["rpp/impl/unify.cpp", "rpp/pos/unify.cpp"]
FLAGS = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-gline-tables-only",
         "-fno-exceptions", "-fno-rtti", "-pthread",
         "-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,unreachable,return", "-fsanitize-trap=all",
         "-DRPP_RELWITHDEBINFO_BUILD", "-w", f"-I{REPO}", f"-I{V}/harness"]


def log(*a):
    print(*a, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def ensure_engine():
    srcs = glob.glob(f"{V}/engine/*.cpp") + glob.glob(f"{V}/engine/*.h") + [f"{V}/engine/build.sh"]
    if os.path.exists(ENGINE) and all(os.path.getmtime(ENGINE) >= os.path.getmtime(s) for s in srcs):
        return
    r = run(["bash", f"{V}/engine/build.sh"])
    if r.returncode:
        log(r.stdout[-4000:])
        fail("engine does not build")


def fail(msg):
    log(f"ERROR: {msg}")
    sys.exit(2)


class Prop:
    def __init__(self, pid, tier, only, keep):
        self.id, self.tier, self.only, self.keep = pid, tier, only, keep
        self.files = sorted(glob.glob(f"{V}/harness/{pid}.cpp") + glob.glob(f"{V}/harness/{pid}_*.cpp"))
        if not self.files:
            fail(f"no harness for {pid}")
        self.tmp = tempfile.mkdtemp(prefix=f"vx-{pid}-")
        self.units = []

    def parse(self, f):
        u = dict(file=f, src=open(f).read(), opts={}, bounds=[], outside=[], assume=[], cflags=[], tus=TUS)
        for l in u["src"].splitlines():
            m = re.match(r"//\s*(vx|bounds|outside|assume|cflags|tus):\s*(.*)", l)
            if not m:
                continue
            k, t = m.groups()
            if k == "vx":
                p = t.split()
                u["opts"].setdefault(p[0], {}).update(dict(x.split("=", 1) for x in p[1:]))
            elif k == "cflags":
                u["cflags"] += t.split()
            elif k == "tus":
                u["tus"] = t.split()
            else:
                u[k].append(t)
        u["harnesses"] = re.findall(r"^\s*HARNESS\((\w+)\)", u["src"], re.M)
        hs = []
        for h in u["harnesses"]:
            o = dict(u["opts"].get("*", {}))
            o.update(u["opts"].get(h, {}))
            if o.get("tier", self.tier) != self.tier:
                continue
            if self.only and h not in self.only.split(","):
                continue
            hs.append((h, o))
        u["run"] = hs
        return u

    def defs(self, u):
        return u["cflags"] + (["-DVX_THOROUGH=1"] if self.tier == "thorough" else ["-DVX_THOROUGH=0"])

    def build(self):
        jobs = []
        with cf.ThreadPoolExecutor(8) as ex:
            done = {}
            for f in self.files:
                u = self.parse(f)
                if not u["run"]:
                    continue
                self.units.append(u)
                n = os.path.basename(f)[:-4]
                u["bc"] = []
                key = " ".join(self.defs(u))
                for s in [f] + [f"{REPO}/{t}" for t in u["tus"]]:
                    k = (s, key)
                    if k not in done:
                        o = f"{self.tmp}/{n}.{len(done)}.bc"
                        done[k] = o
                        jobs.append(ex.submit(run, [CLANG] + FLAGS + self.defs(u) + [s, "-o", o]))
                    u["bc"].append(done[k])
                u["prep"] = f"{self.tmp}/{n}.prep.bc"
            for j in jobs:
                r = j.result()
                if r.returncode:
                    log(r.stdout[-6000:])
                    fail("compilation of the harness against /repo failed")
            for r in ex.map(lambda u: run([ENGINE, "prep"] + u["bc"] + ["-o", u["prep"]]), self.units):
                if r.returncode:
                    log(r.stdout[-4000:])
                    fail("preparing the IR failed")

    def run_harness(self, u, h, o):
        d = f"{self.tmp}/out.{h}"
        os.makedirs(d)
        th = self.tier == "thorough"
        g = lambda k, dflt: o.get(f"{k}_t", o.get(k, dflt)) if th else o.get(k, dflt)
        n = sum(len(x["run"]) for x in self.units)
        jobs = g("jobs", str(max(1, (8 + n - 1) // n)))
        t = g("time", "800" if th else "600")
        cmd = [ENGINE, "run", u["prep"], "--harness", "vxh_" + h, "--out", d, "--time", t, "--jobs", jobs,
               "--symmem", g("symmem", "32"), "--preempt", g("preempt", "2"), "--spurious", g("spurious", "0"), "--instrs", g("instrs", "3000000"),
               "--query-ms", g("query", "300000"), "--maxviol", "3"]
        t0 = time.time()
        r = run(cmd)
        res = dict(harness=h, wall=time.time() - t0, rc=r.returncode, log=r.stdout[-2000:], functions={}, reached={},
                   incomplete=[], sample=[], violations=[], opts=" ".join(cmd[6:]), parts=0)
        parts = glob.glob(f"{d}/part.*.json")
        for p in parts:
            j = json.load(open(p))
            res["parts"] += 1
            for k, v in j.items():
                if isinstance(v, (int, float)):
                    res[k] = max(res.get(k, 0), v) if k.startswith("max") else res.get(k, 0) + v
                elif k in ("functions", "reached"):
                    for a, b in v.items():
                        res[k][a] = res[k].get(a, 0) + b
                elif k in ("incomplete", "sample"):
                    res[k] += [x for x in v if x not in res[k]]
                else:
                    res[k] += v
        if r.returncode or not parts or glob.glob(f"{d}/crash.*"):
            res["incomplete"].append(f"executor ended abnormally (status {r.returncode}) {r.stdout[-500:]}")
        if not res["violations"] and not res["incomplete"]:
            for l in set(re.findall(r'vx_reach\("([^"]*)"\)', self.body(u, h))):
                if l not in res["reached"]:
                    res["incomplete"].append(f"vacuous: program point '{l}' was never reached")
        return res

    def body(self, u, h):
        # text of one harness: up to its closing brace
        i = re.search(rf"^\s*HARNESS\({h}\)", u["src"], re.M).start()
        m = re.compile(r"^(\s*HARNESS\(|})", re.M).search(u["src"], i + 8)
        return u["src"][i:m.start() if m else len(u["src"])]

    def shared_labels(self, u):
        # labels in helper functions: some harness of the file must reach each
        s = u["src"]
        for h, _ in u["run"]:
            s = s.replace(self.body(u, h), "")
        return set(re.findall(r'vx_reach\("([^"]*)"\)', s))

    def replay_bin(self, u, san, threads):
        k = (u["file"], san, threads)
        if not hasattr(self, "bins"):
            self.bins = {}
        if k in self.bins:
            return self.bins[k]
        n = f"{self.tmp}/replay.{os.path.basename(u['file'])[:-4]}.{san}.{int(threads)}"
        r = run([ENGINE, "instrument"] + ([u["prep"]] if threads else u["bc"]) + ["-o", n + ".bc", "--san", san] + (["--threads"] if threads else []))
        if r.returncode:
            fail("instrumenting for replay failed: " + r.stdout[-2000:])
        fs = {"asan": ["-fsanitize=address"], "tsan": ["-fsanitize=thread"]}[san]
        rs = []
        for c, x in ((f"{V}/native/vxn.cpp", "vxn"), (f"{V}/native/vxr.cpp", "vxr")):
            rs.append(run([CLANG, "-std=c++20", "-O1", "-c", c, "-o", f"{n}.{x}.o"]))
        rs.append(run([CLANG, "-O1", "-g", "-rdynamic"] + fs + ["-Wno-override-module", n + ".bc", f"{n}.vxn.o", f"{n}.vxr.o", "-o", n, "-lpthread", "-lm"]))
        for r in rs:
            if r.returncode:
                fail("building the replay program failed: " + r.stdout[-3000:])
        self.bins[k] = n
        return n

    def replay(self, u, h, v, idx):
        d = f"{V}/work/replay/{self.id}"
        os.makedirs(d, exist_ok=True)
        path = f"{d}/{h}-{idx}.txt"
        with open(path, "w") as f:
            f.write(f"harness vxh_{h}\nkind {v['kind']}\n")
            for n, x in v["inputs"]:
                f.write(f"input {n} {x}\n")
            if v["threaded"]:
                f.write("sched " + " ".join(map(str, v["sched"])) + "\n")
            f.write(f"# {v['kind']}: {v['msg']} at {v['loc']}\n")
            for l in v["stack"].splitlines():
                f.write(f"#   {l}\n")
        cwd = tempfile.mkdtemp(prefix="vxr-", dir=self.tmp)
        outs = []
        sans = ["tsan", "asan"] if v["kind"] == "race" else ["asan"]
        for san in sans:
            b = self.replay_bin(u, san, v["threaded"])
            for fill in ("190", "0", "255"):
                env = dict(os.environ, ASAN_OPTIONS=f"exitcode=12:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte={fill}:detect_stack_use_after_return=0",
                           TSAN_OPTIONS="exitcode=12:halt_on_error=1:report_bugs=1", LC_ALL="C")
                try:
                    r = run([b, path], env=env, cwd=cwd, timeout=60)
                    rc, out = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, out = 10, "VX-REPLAY: does not terminate (killed)"
                outs.append(f"[{san} fill={fill}] exit {rc}: " + summary(out))
                if rc in (10, 12) or (rc < 0):
                    with open(path, "a") as f:
                        f.write(f"# reproduced natively: {outs[-1]}\n")
                    return True, path, outs[-1]
                if v["kind"] not in ("uninit", "assert", "memory", "trap") or san == "tsan":
                    break
        with open(path, "a") as f:
            f.write("# NOT reproduced natively: " + " | ".join(outs) + "\n")
        return False, path, " | ".join(outs)


def summary(out):
    for l in out.splitlines():
        if "VX-REPLAY" in l or "ERROR: AddressSanitizer" in l or "WARNING: ThreadSanitizer" in l:
            return l.strip()[:300]
    return out.strip()[-300:]


def known():
    p = f"{V}/known-findings.jsonl"
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip() and not l.startswith("#")]


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    t0 = time.time()
    ensure_engine()
    P = Prop(pid, tier, only, "--keep" in a)
    try:
        rc = check(P, t0)
    finally:
        if not P.keep:
            shutil.rmtree(P.tmp, ignore_errors=True)
    sys.exit(rc)


def check(P, t0):
    pid, tier = P.id, P.tier
    P.build()
    tb = time.time() - t0
    results = []
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [(u, h, ex.submit(P.run_harness, u, h, o)) for u in P.units for h, o in u["run"]]
        for u, h, f in fs:
            results.append((u, f.result()))
    if not P.only:
        for u in P.units:
            rs = [r for v, r in results if v is u]
            if rs and not any(r["violations"] or r["incomplete"] for r in rs):
                for l in P.shared_labels(u) - set().union(*[r["reached"] for r in rs]):
                    rs[0]["incomplete"].append(f"vacuous: program point '{l}' was never reached")
    rc = 0
    nviol, unrepro, inc, nknown = [], [], [], []
    kf = [k for k in known() if k["property"] == pid and k.get("status") == "known"]
    for u, r in results:
        rk = r["harness"]
        seen = set()
        for i, v in enumerate(r["violations"]):
            if (v["kind"], v["msg"], v["loc"]) in seen:
                continue
            seen.add((v["kind"], v["msg"], v["loc"]))
            k = next((k for k in kf if k["harness"] == rk and k["kind"] == v["kind"] and k["msg"] in v["msg"]), None)
            ok, path, out = P.replay(u, rk, v, i)
            if k and ok:
                if k["what"] not in nknown:
                    nknown.append(k["what"])
                    log(f"KNOWN-FINDING: property={pid} {k['what']}")
                continue
            if ok:
                nviol.append((rk, v, path, out))
                log(f"VIOLATION property={pid} replay={path}")
                log(f"  harness {rk}: {v['kind']}: {v['msg']} at {v['loc']}")
                log(f"  inputs: " + ", ".join(f"{n}={x}" for n, x in v["inputs"][:40]))
                log(f"  {out}")
            else:
                unrepro.append(f"{rk}: {v['kind']}: {v['msg']} at {v['loc']} ({out})")
        for x in r["incomplete"]:
            if not (r["violations"] and "vacuous" in x):
                inc.append(f"{rk}: {x}")
        log(f"  {rk}: paths={int(r.get('paths', 0))} queries={int(r.get('queries', 0))} solver={r.get('solverTime', 0):.1f}s "
            f"instrs={int(r.get('instrs', 0))} wall={r['wall']:.1f}s viol={len(r['violations'])}" + (f" INCOMPLETE {r['incomplete'][:2]}" if r["incomplete"] else ""))
    for x in unrepro:
        log(f"UNCONFIRMED: {x}")
    for x in inc:
        log(f"INCOMPLETE: {x}")
    if nviol:
        rc = 1
    elif unrepro or inc:
        rc = 2
    S = lambda k: sum(r.get(k, 0) for _, r in results)
    fns = {}
    for _, r in results:
        for f, n in r["functions"].items():
            f = re.sub(r"^(\w+/)*\.\./", "", f)
            fns[f] = fns.get(f, 0) + n
    level, note = "other", ""
    try:
        M = json.load(open(f"{V}/MANIFEST.json"))
        level = next(c["level"] for c in M["checks"] if c["property"] == pid)
    except Exception:
        pass
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level,
              coverage=dict(
                  explanation="symbolic execution of the compiled functions listed under functions_encoded; every assertion, memory access, trap and branch decided by z3 for all inputs within the stated bounds",
                  states=int(S("paths")), transitions=int(S("instrs")), traces_validated_against_impl=len(nviol) + len(nknown),
                  samples=[dict(harness=r["harness"], path=s) for _, r in results for s in r["sample"][:2]][:60] or [dict(harness=r["harness"], path="all paths end in a required stop") for _, r in results][:5],
                  functions_encoded=sorted(fns), functions_encoded_count=len(fns),
                  bounds=[b for u in P.units for b in u["bounds"]], outside_bounds=[b for u in P.units for b in u["outside"]],
                  queries=int(S("queries")), queries_sat=int(S("sat")), queries_unsat=int(S("unsat")), queries_unknown=int(S("unknown")),
                  answered_by_cache_or_model_reuse=int(S("cacheHits") + S("modelHits")), solver_seconds=round(S("solverTime"), 3),
                  longest_query_seconds=round(max([r.get("maxQuery", 0) for _, r in results] + [0]), 3),
                  assertions_evaluated=int(S("asserts")), memory_accesses_checked=int(S("memChecks")), required_stops_confirmed=int(S("diePaths")),
                  inconclusive=inc, unconfirmed=unrepro, build_seconds=round(tb, 2),
                  harnesses=[dict(name=r["harness"], paths=int(r.get("paths", 0)), queries=int(r.get("queries", 0)), solver_s=round(r.get("solverTime", 0), 3),
                                  wall_s=round(r["wall"], 2), reached=r["reached"], options=r["opts"]) for _, r in results]),
              assumptions=sorted(set(x for u in P.units for x in u["assume"])) + ["clang 18 front end and its O1 scalar pipeline preserve the semantics of the source",
                           "engine/ interprets LLVM IR faithfully; z3 5.3 is sound"],
              wall_s=round(time.time() - t0, 2), violations=len(nviol))
    if not P.only:
        os.makedirs(f"{V}/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    log(f"{pid} [{tier}] {'HELD' if rc == 0 else 'VIOLATED' if rc == 1 else 'NO ANSWER'} paths={int(S('paths'))} queries={int(S('queries'))} solver={S('solverTime'):.1f}s build={tb:.1f}s wall={time.time()-t0:.1f}s")
    return rc


main()
