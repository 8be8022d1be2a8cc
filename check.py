#!/usr/bin/env python3
"""Runs the solver-based checks.

  check.py C01 [--thorough]     decide one property (rebuilds everything from /repo's working tree)
  check.py all [--thorough]     decide all of them with one build (development)
  check.py setup                build the engine and the native replayer
  check.py learn [C01 ..]       rewrite covers.json: the situations each harness must reach
Exit: 0 held, 1 violation, 2 no answer."""
import fcntl, json, os, random, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
EV = os.path.join(V, "evidence")
T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1"))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
HOOKS = "--cfg verif_hooks"
ENGINE = os.path.join(B, "engine")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from jobs import PROPS, LEVEL_NOTE  # noqa: E402

class NoAnswer(Exception): pass
def say(*a): print(*a, flush=True)
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=k.pop("env", ENV), **k)

def build_engine():
    os.makedirs(B, exist_ok=True)
    src = sorted(os.path.join(V, "engine", f) for f in os.listdir(os.path.join(V, "engine")))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    stamp = ENGINE + ".sum"
    if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == h: return
    r = run(["rustc", "-O", "--edition", "2021", "-A", "warnings", os.path.join(V, "engine", "main.rs"), "-o", ENGINE])
    if r.returncode: raise NoAnswer("engine does not build:\n" + r.stdout[-3000:])
    open(stamp, "w").write(h)

def build_ir():
    """LLVM IR of /repo's current code, with the hooks; without them if they no longer fit the code."""
    for flags in (HOOKS, ""):
        r = run(["bash", os.path.join(V, "build_ir.sh"), os.path.join(B, "ir")], env=dict(ENV, VK_FLAGS=flags))
        if r.returncode == 0: return bool(flags)
    raise NoAnswer("no IR from /repo's current tree:\n" + r.stdout[-3000:])

def build_native(release, hooks):
    cmd = ["cargo", "build", "-q", "--bin", "replay", "--target-dir", os.path.join(B, "native")] + (["--release"] if release else [])
    r = run(cmd, cwd=os.path.join(V, "harness"), env=dict(ENV, RUSTFLAGS="-A warnings " + (HOOKS if hooks else "")))
    if r.returncode: raise NoAnswer("replayer does not build:\n" + r.stdout[-3000:])
    return os.path.join(B, "native", "release" if release else "debug", "replay")

def key(j): return " ".join([j["h"]] + ["%s=%s" % kv for kv in sorted(j["p"].items())])

def run_engine(j, n, ll, limit):
    out = os.path.join(B, "out", "%s.json" % n)
    if os.path.exists(out): os.remove(out)
    cmd = [ENGINE, ll, j["h"], out, "time=%d" % limit, "viol=%d" % j.get("viol", 4)] + ["%s=%d" % kv for kv in sorted(j["p"].items())]
    try:
        r = run(cmd, timeout=limit + 60)
    except subprocess.TimeoutExpired:
        return dict(error="engine exceeded %d s" % (limit + 60))
    if not os.path.exists(out): return dict(error="engine failed: " + r.stdout[-500:])
    d = json.load(open(out))
    d["rc"] = r.returncode
    return d

def replay_file(path, j, draws):
    with open(path, "w") as f:
        f.write("harness %s\n" % j["h"])
        for k, v in sorted(j["p"].items()): f.write("param %s %d\n" % (k, v))
        for l, h in draws: f.write("draw %s %s\n" % (l.replace(" ", "_"), h))

def replay(binary, path, limit=60):
    try: r = run([binary, path], timeout=limit)
    except subprocess.TimeoutExpired: return "hang", ""
    c = r.returncode
    st = {0: "held", 10: "assertion failed", 11: "assumption", 12: "mismatch"}.get(c, "panic" if c in (101, 134, -6) else "crash %d" % c)
    return st, r.stdout

BAD = ("assertion failed", "panic", "hang")
def bad(s): return s in BAD or s.startswith("crash")

def confirm(pid, j, d, hooks):
    """Replays counterexamples on the compiled code (both profiles). Returns (path, description) or None."""
    os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
    rnd = random.Random(SEED)
    bins = [("dev", build_native(False, hooks)), ("release", build_native(True, hooks))]
    for i, v in enumerate(d["violations"]):
        path = os.path.join(EV, "replay", "%s-%s-%d.txt" % (pid, hashlib.sha1(key(j).encode()).hexdigest()[:8], i))
        for attempt in range(8):
            draws = v["draws"]
            if attempt:
                # the models of cryptographic primitives leave outputs open: keep the scenario, vary the key material
                draws = [(l, bytes(rnd.randrange(256) for _ in range(len(h) // 2)).hex()) if len(h) >= 32 and l.startswith("key") else (l, h) for l, h in draws]
                if draws == [tuple(x) for x in v["draws"]] and not v["sched"]: break
            replay_file(path, j, draws)
            times = 40 if v["sched"] else 1
            for prof, b in bins:
                for _ in range(times):
                    s, out = replay(b, path, 60)
                    if bad(s):
                        with open(path, "a") as f:
                            f.write("# %s: %s\n# native replay (%s): %s %s\n" % (v["kind"], v["what"], prof, s, out.strip()[-300:].replace("\n", " | ")))
                            for x in v["stack"]: f.write("#   at %s\n" % x)
                        return path, "%s (%s)" % (v["what"], s), v
        os.remove(path)
    return None

def known():
    f = os.path.join(V, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding:"):
                w = dict(x.split("=", 1) for x in l[8:].split("|")[0].split() if "=" in x)
                w["text"] = l.split("|", 1)[1].strip() if "|" in l else ""
                out.append(w)
    return out

def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n") if r.returncode == 0 else list(names)

def check(pid, thorough, ll, hooks, pool, covers, learn=False, deadline=None):
    t0 = time.time()
    P = PROPS[pid]
    jobs = [j for j in P["jobs"] if thorough or not j.get("thorough")]
    if thorough: jobs = [dict(j, p=dict(j["p"], **j.get("deep", {}))) for j in jobs]
    skipped = [key(j) for j in jobs if j.get("hook") and not hooks]
    jobs = [j for j in jobs if hooks or not j.get("hook")]
    limit = lambda: max(5, int(min(5400 if thorough else 420, deadline - time.time())))
    jobs = sorted(jobs, key=lambda j: -j.get("cost", 1))
    fut = [(j, pool.submit(lambda j=j, n=n: run_engine(j, "%s_%d" % (pid, n), ll, min(limit(), (1200 if thorough else 120) if j.get("optional") else 10**6)))) for n, j in enumerate(jobs)]
    tot = dict(paths=0, pruned=0, forks=0, steps=0, asserts=0, assert_queries=0, queries=0, full_queries=0, cached=0, bytewise=0, sat=0, unsat=0, solver_s=0.0)
    used, stubs, rows, problems, reduced, found, slow, ver = {}, set(), [], [], [], [], 0.0, ""
    samples, validated, mismatched, tried = [], 0, [], 0
    rp = None
    for j, f in fut:
        d = f.result()
        k = key(j)
        if "error" in d:
            (reduced if j.get("optional") else problems).append("%s: %s" % (k, d["error"])); continue
        for x in tot: tot[x] += d[x]
        slow = max(slow, d["slowest_s"]); ver = d["solver"]
        for n, c in d["functions"]: used[n] = used.get(n, 0) + c
        stubs |= set(d["stubs"])
        rows.append({"harness": k, "paths": d["paths"], "checked_assertions": d["asserts"], "queries": d["queries"], "wall_s": round(d["wall_s"], 2), "covers": d["covers"]})
        if d["inconclusive"]: (reduced if j.get("optional") else problems).append("%s: not decided: %s" % (k, d["inconclusive"][0][:600]))
        if learn: covers[k] = sorted(d["covers"])
        elif not d["violations"] and not d["inconclusive"]:
            miss = set(covers.get(k, ["?"])) - set(d["covers"])
            if miss: (reduced if j.get("optional") else problems).append("%s: never reached: %s" % (k, ", ".join(sorted(miss))))
        if d["violations"]: found.append((j, d))
        # the encoding is validated by replaying a witness of every cover on the compiled code
        for i, w in enumerate(d["witnesses"][:6]):
            if w["sched"]: continue
            rp = rp or build_native(False, hooks)
            tried += 1
            p = os.path.join(B, "out", "w_%s.txt" % pid)
            replay_file(p, j, w["draws"])
            s, out = replay(rp, p)
            got = sorted(set(l[6:] for l in out.split("\n") if l.startswith("COVER ")))
            if s == "held" and got == sorted(w["covers"]): validated += 1
            else: mismatched.append("%s: %s %s, expected covers %s" % (k, s, got, w["covers"]))
            if len(samples) < 6: samples.append({"harness": k, "covers": w["covers"], "input": [["%s" % a, b[:64]] for a, b in w["draws"][:8]]})
    nviol = 0
    kf = known()
    for j, d in found:
        fresh = []
        for v in d["violations"]:
            m = [w for w in kf if w.get("property") == pid and w.get("harness") == j["h"] and w.get("match", "\0").replace("_", " ") in v["what"]]
            if m: say("KNOWN-FINDING: property=%s %s" % (pid, m[0]["text"]))
            else: fresh.append(v)
        if not fresh: continue
        d["violations"] = fresh
        if nviol and time.time() > deadline: continue
        c = None if nviol >= 3 else confirm(pid, j, d, hooks)
        if c:
            nviol += 1
            say("VIOLATION property=%s replay=%s" % (pid, c[0]))
            say("  %s: %s" % (key(j), c[1]))
        elif not nviol:
            v = fresh[0]
            (reduced if j.get("optional") else problems).append("%s: counterexample not reproduced by the compiled code: %s %s" % (key(j), v["kind"], v["what"]))
            if os.environ.get("VK_SHOW"): say(json.dumps(v)[:4000])
    ours = sorted(n for n in used if "9stratumv2" in n or "noiseexplorer" in n)
    names = sorted(set(x.split("[")[0] if False else x for x in demangle(ours)))
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": SEED, "level": "model_checking",
        "coverage": {
            "explanation": "Symbolic execution of the LLVM IR rustc generates for /repo's current tree (unoptimised, overflow checks on), exhaustive over all paths of each harness within its bounds; feasibility and assertions decided by Z3 over bit-vectors and uninterpreted functions. states = completed symbolic paths, transitions = IR instructions executed; an assertion that the expression rewriter already reduces to true needs no query.",
            "states": tot["paths"], "transitions": tot["steps"],
            "traces_validated_against_impl": validated, "witnesses_replayed": tried, "witness_disagreements": mismatched[:10],
            "assertions_decided": tot["asserts"], "assertions_needing_a_query": tot["assert_queries"],
            "solver_queries": tot["queries"], "queries_with_full_path_condition": tot["full_queries"], "queries_from_cache": tot["cached"],
            "single_byte_feasibility_by_tabulation": tot["bytewise"],
            "sat": tot["sat"], "unsat": tot["unsat"], "solver_s": round(tot["solver_s"], 2), "slowest_query_s": round(slow, 3), "solver": ver,
            "branch_forks": tot["forks"], "infeasible_paths_pruned": tot["pruned"],
            "functions_encoded": len(used), "repository_functions_encoded": names,
            "modelled_calls": sorted(demangle(sorted(stubs))),
            "harnesses": rows, "bounds": P["bounds"], "outside_bounds": P["outside"],
            "reduced_coverage": reduced + ["hook unavailable: " + s for s in skipped], "hooks": hooks, "samples": samples,
        },
        "assumptions": P["assumptions"] + LEVEL_NOTE["assumptions"],
        "wall_s": round(time.time() - (t0 if learn or pid != sys.argv[1] else T0), 2), "violations": nviol,
    }
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    for m in mismatched[:5]: say("note: %s witness not confirmed: %s" % (pid, m[:300]))
    if nviol: return 1
    if problems:
        for p in problems[:8]: say("NO-ANSWER property=%s %s" % (pid, p))
        return 2
    for r in reduced: say("note: %s reduced coverage: %s" % (pid, r[:300]))
    say("HELD property=%s: %d paths, %d assertions, %d queries, %.1f s solver, %d/%d witnesses confirmed, %.0f s" % (pid, tot["paths"], tot["asserts"], tot["queries"], tot["solver_s"], validated, tried, time.time() - t0))
    return 0

def main():
    a = sys.argv[1:]
    thorough = "--thorough" in a or (os.environ.get("VERIF_TIER") == "thorough")
    a = [x for x in a if not x.startswith("--")]
    os.makedirs(os.path.join(B, "out"), exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        build_engine()
        hooks = build_ir()
        ll = os.path.join(B, "ir", "all.ll")
        if a[0] == "setup":
            build_native(False, hooks); build_native(True, hooks)
            return 0
        cf = os.path.join(V, "covers.json")
        covers = json.load(open(cf)) if os.path.exists(cf) else {}
        deadline = time.time() + (6 * 3600 if thorough else 600)
        with ThreadPoolExecutor(8) as pool:
            if a[0] in ("all", "learn"):
                rc = 0
                ids = a[1:] or sorted(PROPS)
                for p in ids: rc = max(rc, check(p, thorough, ll, hooks, pool, covers, a[0] == "learn", time.time() + (6 * 3600 if thorough else 600)))
                if a[0] == "learn": json.dump(covers, open(cf, "w"), indent=0, sort_keys=True)
                return rc
            return check(a[0], thorough, ll, hooks, pool, covers, False, deadline)
    except NoAnswer as e:
        say("NO-ANSWER %s" % e)
        return 2

sys.exit(main())
