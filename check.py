#!/usr/bin/env python3
"""usage: check.py PROPERTY quick|thorough

Compiles the harness module of a property together with /repo's current source to LLVM IR, executes its entries
symbolically (symx: every branch, panic and assertion is decided by Z3), replays what was found against the natively
compiled code and writes evidence/PROPERTY.json.  Exit 0: held on everything explored; 1: VIOLATION; 3: no answer."""
import sys, os, re, json, time, subprocess, resource, threading, queue, itertools
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import P
T0 = time.time()
WORK = os.environ.get("VERIF_WORK") or os.path.join(HERE, ".work")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None); ENV.pop("CARGO_TARGET_DIR", None)

class NoAnswer(Exception): pass
def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)
def sh(cmd, env=None, cwd=None, what="", timeout=600):
    r = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode: raise NoAnswer("%s failed:\n%s" % (what, r.stdout.decode(errors="replace")[-3000:]))
    return r.stdout.decode(errors="replace")

def build_symx():
    t = os.path.join(WORK, "symx")
    sh(["cargo", "build", "--release", "--offline", "-q", "--target-dir", t], cwd=os.path.join(HERE, "symx"), env=dict(ENV, RUSTFLAGS="-Awarnings"), what="building the engine")
    return os.path.join(t, "release", "symx")
def build_ir(feature, extra):
    t = os.path.join(WORK, "ir")
    out = os.path.join(WORK, "-".join([feature] + extra) + ".ll")
    sh(["bash", os.path.join(HERE, "hx", "ir.sh"), ",".join([feature] + extra), out, t], what="compiling the harness to LLVM IR")
    return out
def build_replay(feature, extra, release=False):
    t = os.path.join(WORK, "replay")
    cmd = ["cargo", "build", "--offline", "-q", "--target-dir", t, "--features", ",".join("hx/" + f for f in [feature] + extra)] + (["--release"] if release else [])
    sh(cmd, cwd=os.path.join(HERE, "replay"), env=dict(ENV, RUSTFLAGS="-Awarnings"), what="building the native replay")
    src = os.path.join(t, "release" if release else "debug", "replay")
    dst = os.path.join(WORK, "replay-%s%s" % ("-".join([feature] + extra), "-rel" if release else ""))
    sh(["cp", src, dst])
    return dst

class Replay:
    """a native process that runs entries on recorded inputs"""
    def __init__(self, exe): self.exe = exe; self.p = None
    def start(self):
        def lim(): resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=lim)
    def run(self, entry, inputs):
        if self.p is None: self.start()
        try:
            self.p.stdin.write(" ".join([entry] + inputs) + "\n"); self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError: line = ""
        if not line.endswith("\n"):
            self.p.kill(); self.p.wait(); self.p = None
            return "crash", ""
        o, _, obs = line.rstrip("\n").partition("\t")
        if o == "hang": self.p.kill(); self.p.wait(); self.p = None
        return o, obs
    def close(self):
        if self.p: self.p.kill(); self.p.wait(); self.p = None

def kind(o):
    if o.startswith("panic"): return "panic " + o.split("/")[-1].split(" ")[-1]
    return o
def agrees(engine, native):
    """does the native outcome reproduce the engine's?"""
    if engine in ("ok", "stop"): return native == engine
    if engine.startswith("check"): return native == engine
    if engine.startswith("panic"): return native.startswith("panic") and kind(engine) == kind(native)
    if engine == "limit": return native in ("hang", "crash")
    if engine == "depth": return native in ("hang", "crash")
    if engine.startswith("alloc") : return native == "crash" or native.startswith("panic")
    return False
def bad(native): return native.startswith(("check", "panic")) or native in ("hang", "crash")

def run_engine(symx, ll, jobs, budget, settled=lambda entry, r: False):
    """jobs: (entry, prefix, opts); runs them on all cores; each gets a deadline that fits the budget; once a result settles the question the rest is given up"""
    q = queue.Queue(); res = [None] * len(jobs)
    lock = threading.Lock(); running = set(); stop = threading.Event()
    for i, j in enumerate(jobs): q.put((i, j))
    end = T0 + budget
    def work():
        while True:
            try: i, (entry, prefix, opts) = q.get_nowait()
            except queue.Empty: return
            out = os.path.join(WORK, "out-%d-%d.json" % (os.getpid(), i))
            left = max(5, int(end - time.time()))
            cmd = [symx, ll, "h_" + entry, "--out", out, "--deadline-s", str(min(left, opts.get("deadline", 10**6)))]
            for k in ("max-steps", "max-paths", "max-conc", "timeout-ms", "max-depth"):
                if k in opts: cmd += ["--" + k, str(opts[k])]
            if prefix: cmd += ["--prefix", ",".join(map(str, prefix))]
            if os.environ.get("SYMX_DUMP"): 
                d = os.path.join(os.environ["SYMX_DUMP"], "%s-%d" % (entry, i)); os.makedirs(d, exist_ok=True); cmd += ["--dump", d]
            try:
                with lock:
                    if stop.is_set(): return
                    pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE); running.add(pr)
                try: _, err = pr.communicate(timeout=left + 60)
                finally:
                    with lock: running.discard(pr)
                    if pr.poll() is None: pr.kill(); pr.wait()
                res[i] = json.load(open(out)) if pr.returncode == 0 else {"problems": ["engine failed on %s: %s" % (entry, "given up" if stop.is_set() else err.decode(errors="replace")[-600:])]}
                if not stop.is_set() and settled(entry, res[i]):
                    with lock:
                        stop.set()
                        for x in running: x.kill()
            except subprocess.TimeoutExpired: res[i] = {"problems": ["engine ran out of time on %s" % entry]}
            except Exception as e: res[i] = {"problems": ["%s: %r" % (entry, e)]}
            try: os.unlink(out)
            except OSError: pass
    ts = [threading.Thread(target=work) for _ in range(min(len(jobs), os.cpu_count() or 4))]
    for t in ts: t.start()
    for t in ts: t.join()
    return res

def source_lines(feature):
    src = open(os.path.join(HERE, "hx", "src", feature + ".rs")).read().split("\n")
    return src, [i + 1 for i, l in enumerate(src) if "cover!()" in l and not l.strip().startswith("//")]

def known():
    out = []
    try: lines = open(os.path.join(HERE, "known-findings.txt")).read().split("\n")
    except OSError: return out
    for l in lines:
        m = re.match(r"known: property=(\S+) entry=(\S+) outcome=(\S+) (.*)", l)
        if m: out.append(m.groups())
    return out

def is_known(kn, entry, native): return next((k for k in kn if k[1] == entry and k[2] in (native.replace(" ", "_").split(":")[0], native.split(" ")[0])), None)

def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    cfg = P[prop]; feature = cfg["feature"]
    extra = cfg.get("features", []) + (["deep"] if tier == "thorough" else [])
    budget = float(os.environ.get("VERIF_BUDGET") or (cfg.get("budget", 600) if tier == "quick" else 5400))
    os.makedirs(WORK, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    got = {}; errs = []
    def bg(k, f):
        def r():
            try: got[k] = f()
            except NoAnswer as e: errs.append(e)
            except Exception as e: errs.append(NoAnswer("%s: %r" % (k, e)))
        t = threading.Thread(target=r); t.start(); return t
    ts = [bg("symx", build_symx), bg("ir", lambda: build_ir(feature, extra)), bg("replay", lambda: build_replay(feature, extra))]
    for t in ts: t.join()
    if errs: raise errs[0]
    log("built the engine, the encoding (%.1f MB of LLVM IR) and the native replay" % (os.path.getsize(got["ir"]) / 1e6))
    jobs = []
    for e in cfg["entries"]:
        if tier == "quick" and e.get("thorough_only"): continue
        o = dict(cfg.get("opts", {})); o.update(e.get("opts", {}))
        if tier == "thorough": o.update(cfg.get("topts", {})); o.update(e.get("topts", {}))
        sh_ = e.get("tshards", e.get("shards")) if tier == "thorough" else e.get("shards")
        for pre in (itertools.product(*[range(n) for n in sh_]) if sh_ else [()]): jobs.append((e["name"], list(pre), o))
    # long jobs first
    kn = [k for k in known() if k[0] == prop]
    rlock = threading.Lock()
    def reproduces(entry, r):
        """is a violation among the results that is none of the known findings and happens natively? (quick only)"""
        if tier != "quick" or not r.get("violations"): return False
        with rlock:
            rp = Replay(got["replay"])
            try:
                for v in r["violations"][:3]:
                    native, _ = rp.run(entry, v["inputs"])
                    if bad(native) and not is_known(kn, entry, native): return True
            finally: rp.close()
        return False
    res = run_engine(got["symx"], got["ir"], jobs, budget, reproduces)
    res = [r or {"problems": ["given up"]} for r in res]
    log("explored %d entry shards" % len(jobs))
    src, covers = source_lines(feature)
    tot = {k: 0 for k in ("paths", "forks", "infeasible", "steps", "sym_branches", "checks", "check_queries", "sat", "unsat", "unknown", "cached", "fp_queries", "solver_s")}
    problems, viols, recs, covered, fns, ids = [], [], [], set(), set(), {}
    maxq = 0.0; z3v = None
    for (entry, pre, _), r in zip(jobs, res):
        problems += ["%s%s: %s" % (entry, pre or "", p) for p in r["problems"]]
        if "paths" not in r: continue
        for k in tot: tot[k] += r[k]
        z3v = r["z3"]; maxq = max(maxq, r["max_query_s"])
        covered |= {int(k) for k in r["covers"]}; fns |= set(r["repo_functions"])
        for k, v in r["check_ids"].items(): ids[int(k)] = ids.get(int(k), 0) + v
        viols += [(entry, v) for v in r["violations"]]
        recs += [(entry, v) for v in r["paths_rec"]]
    rp = Replay(got["replay"])
    seen, real, shown_known = set(), [], set()
    nrep = 0
    for entry, v in viols:
        key = (entry, v["outcome"])
        if sum(1 for k in seen if k[:2] == key) >= 3 or nrep >= 60: continue
        nrep += 1
        seen.add(key + (len(seen),))
        native, _ = rp.run(entry, v["inputs"])
        if not (agrees(v["outcome"], native) or bad(native)):
            problems.append("%s: the engine's counterexample (%s) does not reproduce natively (%s) on %s" % (entry, v["outcome"], native, " ".join(v["inputs"])[:400]))
            continue
        k = is_known(kn, entry, native)
        if k:
            if k not in shown_known: print("KNOWN-FINDING: property=%s %s" % (prop, k[3])); shown_known.add(k)
            continue
        real.append((entry, v, native))
    # every recorded path is run natively: the encoding must predict outcome and observations
    validated = 0; t_val = time.time(); step = 1
    if not real:
        lim = 60 if tier == "quick" else 600
        for entry, v in recs:
            if time.time() - t_val > lim: break
            if v["outcome"] not in ("ok", "stop"): continue
            native, obs = rp.run(entry, v["inputs"])
            exp = " ".join("%d=%s" % (a, b) for a, b in v["obs"])
            if native != v["outcome"] or obs != exp:
                problems.append("%s: the engine predicted %s [%s], the native code did %s [%s] on %s" % (entry, v["outcome"], exp[:200], native, obs[:200], " ".join(v["inputs"])[:400]))
                if len(problems) > 20: break
            else: validated += 1
    rp.close()
    missing = [c for c in covers if c not in covered] if not real else []
    only = [e for e in cfg["entries"] if e.get("thorough_only")]
    if missing and not (tier == "quick" and only):
        problems += ["vacuous: line %d of the harness was never reached: %s" % (c, src[c - 1].strip()[:120]) for c in missing]
    samples = []
    for e in dict.fromkeys(x[0] for x in recs):
        c = [v for n, v in recs if n == e and v["outcome"] == "ok"]
        for v in c[:2]: samples.append({"entry": e, "inputs": v["inputs"][:40], "outcome": v["outcome"]})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": tot["paths"] + tot["forks"], "transitions": tot["steps"], "traces_validated_against_impl": validated, "samples": samples[:24] or ["none"],
                       "paths": tot["paths"], "infeasible_branches": tot["infeasible"], "symbolic_branches": tot["sym_branches"],
                       "assertions_decided": tot["checks"], "assertion_sites": {("%s.rs:%d" % (feature, k)): n for k, n in sorted(ids.items())},
                       "queries": {"sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "answered_from_cache": tot["cached"], "with_floating_point": tot["fp_queries"]},
                       "solver": "Z3 " + str(z3v), "solver_s": round(tot["solver_s"], 3), "max_query_s": round(maxq, 3),
                       "entries": [{"entry": e, "choice_prefix": p, "paths": r.get("paths"), "wall_s": r.get("wall_s")} for (e, p, _), r in zip(jobs, res)][:400],
                       "functions_encoded": sorted(fns), "reachability_witnesses": "%d of %d reached" % (len([c for c in covers if c in covered]), len(covers)),
                       "bounds": cfg.get("bounds", ""), "problems": problems[:20]},
          "assumptions": cfg.get("assumptions", []) + COMMON, "wall_s": round(time.time() - T0, 2), "violations": len(real)}
    json.dump(ev, open(os.path.join(HERE, cfg.get("evidence", "evidence/%s.json" % prop)), "w"), indent=1)
    log("%d paths, %d assertions decided, %d queries (%.1fs solver), %d paths validated natively" % (tot["paths"], tot["checks"], tot["sat"] + tot["unsat"] + tot["unknown"], tot["solver_s"], validated))
    if real:
        d = os.path.join(HERE, "evidence", "replays"); os.makedirs(d, exist_ok=True)
        rel = None
        try: rel = Replay(build_replay(feature, extra, True)) if tier == "thorough" else None
        except NoAnswer: pass
        for i, (entry, v, native) in enumerate(real[:10]):
            path = os.path.join(d, "%s-%d.txt" % (prop, i))
            where = ""
            m = re.match(r"check (\d+)", native)
            if m: where = SHARED.get(int(m.group(1))) or src[int(m.group(1)) - 1].strip()
            with open(path, "w") as f:
                f.write("# %s: entry %s ended with `%s` %s\n# replay: cargo run --features hx/%s (in /verif/replay) < this line\n%s\n" % (prop, entry, native, where, feature, " ".join([entry] + v["inputs"])))
                if rel: f.write("# release profile: %s\n" % (rel.run(entry, v["inputs"])[0]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  entry %s: %s  %s" % (entry, native, where[:160]), flush=True)
        if rel: rel.close()
        return 1
    if problems:
        for p in problems[:12]: print("NO ANSWER:", p)
        return 3
    return 0

SHARED = {9001: "result differs from the program's meaning", 9002: "what was said differs from the program's meaning", 9003: "yields differ from the program's meaning", 9004: "variables differ from the program's meaning", 9011: "the turns of the project differ from its meaning", 9012: "what was said differs from the project's meaning", 9013: "the replies differ from the project's meaning", 9014: "variables differ from the project's meaning"}
COMMON = [
 "bounded: the entries' program shapes, collection sizes and step limits are the ones listed under bounds; nothing is claimed outside them",
 "the encoding is the LLVM IR that rustc emits for /repo's current source (opt-level 1, overflow checks and debug assertions on, panic=abort); rustc, LLVM, the engine symx and Z3 are trusted, and every explored path that is recorded is re-run natively and compared",
 "memory is a flat 64-bit address space with one object per allocation; allocation never fails below 1 GiB; single thread",
 "NaN payloads are canonical; floor/ceil/round/trunc/fabs/sqrt of libm are taken to be the correctly rounded IEEE operations when their argument is symbolic",
]
if __name__ == "__main__":
    try: code = main()
    except NoAnswer as e: print("NO ANSWER:", e); code = 3
    sys.exit(code)
