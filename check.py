#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--seed N]
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build/harness error, inconclusive)."""
import argparse, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "driver"))
import build as B
from props import PROPS

SAN_ENV = {
    "ASAN_OPTIONS": "detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:detect_leaks=1:hard_rss_limit_mb=8000:allocator_may_return_null=0:max_allocation_size_mb=4096:handle_abort=1:exitcode=99:abort_on_error=0:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:symbolize=1",
    "LC_ALL": "C.UTF-8",
}

def signature(err, rc):
    """A short, stable description of how a harness process died."""
    m = re.search(r"VHHANG", err)
    if m and rc == 97: return "hang"
    m = re.search(r"([\w./-]+):\d+: [^\n]*Assertion [`'](.{0,120}?)' failed", err)
    if m: return "assert:" + os.path.basename(m.group(1)) + ":" + re.sub(r"\s+", " ", m.group(2))[:90]
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w -]+?)(?: /| \(|$| in |\s\S+:\d)", err, re.M)
    if m:
        fn = ""
        for fm in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.{1,200})", err):
            if "gapp" in fm.group(1):
                fn = re.sub(r"<.*|\(.*", "", fm.group(1)); break
        return m.group(1) + ":" + m.group(2).strip() + ("@" + fn if fn else "")
    m = re.search(r"runtime error: (.{0,80})", err)
    if m: return "ubsan:" + re.sub(r"[-0-9.]+", "N", m.group(1))
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
    if m: return "tsan:" + m.group(1).strip()
    m = re.search(r"terminate called[^\n]*", err)
    if m: return m.group(0)[:80]
    m = re.search(r"==\d+== (Invalid \w+ of size \d+|Conditional jump[^\n]*|Use of uninit[^\n]*)", err)
    if m: return "memcheck:" + m.group(1)
    return f"exit:{rc}"

def excerpt(err):
    m = re.search(r"==\d+==ERROR|runtime error|Assertion|WARNING: ThreadSanitizer|terminate called|==\d+== ", err)
    return err[max(0, m.start() - 200):][:2500] if m else err[-2500:]

class Runner:
    def __init__(self, prop, tier, seed, tmp, deadline):
        self.prop, self.tier, self.seed, self.tmp, self.deadline = prop, tier, seed, tmp, deadline
        self.results, self.violations, self.errors, self.notes = [], [], [], []
        self.lock = threading.Lock()
        self.n = 0; self.stop = False; self.hangs = []; self.procs = set()

    def halt(self):
        """A hang is decided: end the other processes instead of waiting for their limits."""
        self.stop = True
        with self.lock: ps = list(self.procs)
        for p in ps:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass

    def one(self, run, binpath, shard, nshards, only=None, resume=None, case_limit=None):
        with self.lock:
            self.n += 1; k = self.n
        out = os.path.join(self.tmp, f"o{k}.json"); mk = os.path.join(self.tmp, f"m{k}"); errf = os.path.join(self.tmp, f"e{k}")
        cmd = list(run.get("wrap", [])) + [binpath, "--prop", run.get("area", self.prop), "--tier", self.tier, "--seed", str(self.seed), "--out", out, "--marker", mk,
               "--shard", str(shard), "--nshards", str(nshards), "--case-limit", str(case_limit or run.get("case_limit", 60))]
        if run.get("divide"): cmd += ["--divide", str(run["divide"])]
        if run.get("compare"): cmd += ["--sigs", os.path.join(self.tmp, "sigs-" + run["name"] + "-" + run["config"] + f"-{shard}")]
        if self.tier == "thorough": cmd += ["--budget", str(run.get("budget", 600))]
        if only: cmd += ["--only", only]
        if resume: cmd += ["--resume", resume]
        env = dict(os.environ); env.update(SAN_ENV); env.update(run.get("env", {}))
        lim = max(20, min(run.get("timeout", 400) if self.tier == "quick" else 3600, self.deadline - time.time()))
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=env, cwd=self.tmp, start_new_session=True)
            with self.lock: self.procs.add(p)
            try: rc = p.wait(timeout=lim)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "timeout"
            with self.lock: self.procs.discard(p)
        err = open(errf, errors="replace").read()
        data = None
        if os.path.exists(out):
            try: data = json.load(open(out))
            except Exception: data = None
        marker = None
        if os.path.exists(mk):
            t = open(mk).read().split()
            if len(t) == 2: marker = t[0] + "@" + t[1]
        for f in (out, mk):
            if os.path.exists(f): os.unlink(f)
        return rc, err, data, marker

    def add(self, run, kind, key, index, msg, stderr=""):
        with self.lock:
            self.violations.append({"run": run["name"], "config": run["config"], "area": run.get("area"), "kind": kind, "key": key, "index": index, "msg": msg[:3000], "stderr": stderr[-6000:] if stderr else ""})

    def shard(self, run, binpath, shard, nshards, only=None):
        resume = None
        for attempt in range(4):
            if self.stop: return
            rc, err, data, marker = self.one(run, binpath, shard, nshards, only=only, resume=resume)
            if data:
                with self.lock: self.results.append(data)
                for f in data["failures"]:
                    if run.get("crashes_only"):   # a workload borrowed from another property, whose own check judges the results
                        with self.lock: self.notes.append(f"{run['name']}: {f['kind']}:{f['key']} left to the check of {run.get('area')}")
                        continue
                    self.add(run, f["kind"], f["key"], f["index"], f["msg"])
            if rc == 0 and data and data["done"]: return
            if self.stop and rc != 0: return
            if rc == 3 or rc == "timeout" or rc == -9:
                with self.lock: self.errors.append(f"{run['name']} shard {shard}: ended {rc} at {marker}: {err[-1500:]}")
                return
            if data and data["done"]:
                # finished all cases, died afterwards: leak report or a report at exit
                if "LeakSanitizer has encountered a fatal error" in err:
                    with self.lock: self.notes.append("LeakSanitizer could not run here (ptrace denied)"); 
                    return
                self.add(run, "exit", "crash:" + signature(err, rc), -1, excerpt(err), err)
                return
            if marker is None:
                with self.lock: self.errors.append(f"{run['name']} shard {shard}: died {rc} before the first case: {excerpt(err)}")
                return
            kind, idx = marker.rsplit("@", 1)
            sig = signature(err, rc)
            if sig == "hang":
                # a hang may depend on the schedule: rerun the case alone a few times
                for _ in range(run.get("hang_reruns", 1)):
                    rc2, err2, data2, m2 = self.one(run, binpath, 0, 1, only=marker, case_limit=(1 if run.get("hang_reruns") else 2) * run.get("case_limit", 60))
                    if rc2 != 0 or self.stop: break
                with self.lock: self.hangs.append(marker)
                if signature(err2, rc2) == "hang" or len(self.hangs) >= 2:
                    self.add(run, kind, "crash:hang", int(idx), "the case did not finish within its limit" + (", twice" if signature(err2, rc2) == "hang" else f"; so did {self.hangs[0]}"), err)
                    self.halt()
                    return
                elif rc2 != 0 and not self.stop:
                    self.add(run, kind, "crash:" + signature(err2, rc2), int(idx), excerpt(err2), err2)
                else:
                    with self.lock: self.notes.append(f"case {marker} exceeded its time limit once, finished when rerun alone")
            else:
                self.add(run, kind, "crash:" + sig, int(idx), excerpt(err), err)
            if only: return
            resume = marker
        with self.lock: self.notes.append(f"{run['name']} shard {shard}: abandoned after {attempt + 1} crashes")

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1)); ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    P = PROPS[a.prop]
    rep = json.load(open(a.replay)) if a.replay else None
    if rep: a.seed, a.tier = rep["seed"], rep["tier"]
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vcheck-" + a.prop + "-")
    try:
        return run_check(a, P, rep, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run_check(a, P, rep, tmp, t0):
    runs = [r for r in P["runs"] if (a.tier == "thorough" or not r.get("thorough_only"))]
    bins = {}
    try:
        groups = {}
        for r in runs:
            groups.setdefault((r["config"], r.get("lib", True), tuple(r.get("extra", ())), tuple(r.get("hflags", ()))), {})[r["bin"]] = r["srcs"]
        for (cfg, lib, extra, hf), tg in groups.items():
            got = B.build(tg, cfg, lib=lib, extra=extra, hflags=hf)
            for b, p in got.items(): bins[(cfg, lib, extra, hf, b)] = p
    except B.BuildError as e:
        print("ERROR: build failed\n" + str(e)); return 2
    tb = time.time() - t0
    if a.build_only: return 0
    R = Runner(a.prop, a.tier, a.seed, tmp, t0 + (800 if a.tier == "quick" else 6 * 3600))
    jobs = []
    for r in runs:
        bp = bins[(r["config"], r.get("lib", True), tuple(r.get("extra", ())), tuple(r.get("hflags", ())), r["bin"])]
        if rep:
            if rep["key"] == "differs-between-builds" and r.get("compare"): jobs.append((r, bp, 0, 1, f"{rep['kind']}@{rep['index']}")); continue
            if rep["run"] == r["name"] and rep.get("config", r["config"]) == r["config"] and rep.get("area", r.get("area")) == r.get("area"): jobs.append((r, bp, 0, 1, None if rep["index"] < 0 else f"{rep['kind']}@{rep['index']}"))
            continue
        n = r.get("shards", 8)
        for s in range(n): jobs.append((r, bp, s, n, None))
    # runs marked exclusive go alone (they use all cores themselves)
    def drain(js, width):
        q = list(js); lk = threading.Lock()
        def w():
            while True:
                with lk:
                    if not q: return
                    j = q.pop(0)
                try: R.shard(j[0], j[1], j[2], j[3], only=j[4])
                except Exception as e:
                    with R.lock: R.errors.append(f"driver: {e!r}")
        ts = [threading.Thread(target=w) for _ in range(width)]
        [t.start() for t in ts]; [t.join() for t in ts]
    drain([j for j in jobs if not j[0].get("exclusive")], 8)
    drain([j for j in jobs if j[0].get("exclusive")], 1)

    # runs of one compare group are the same cases in different builds: every case must have the same signature in all of them
    groups = {}
    for r in runs:
        if r.get("compare") and not R.stop: groups.setdefault(r["compare"], []).append(r)
    compared = 0
    for g in groups.values():
        maps = []
        for r in g:
            m = {}
            for f in os.listdir(tmp):
                if f.startswith("sigs-" + r["name"] + "-" + r["config"] + "-"):
                    for l in open(os.path.join(tmp, f)):
                        k, i, h = l.split(); m[(k, int(i))] = h
            maps.append(m)
        failed = {(v["kind"], v["index"]) for v in R.violations}
        for r, m in list(zip(g, maps))[1:]:
            for key in sorted(maps[0].keys() & m.keys()):
                compared += 1
                if maps[0][key] != m[key] and key not in failed:
                    R.add(r, key[0], "differs-between-builds", key[1], f"the same case with the same seed gives another result in the build '{r['config']}' than in the build '{g[0]['config']}'")
    if compared:
        R.results.append({"evaluations": 0, "nontrivial": 0, "done": True, "failures": [], "stats": {"cases_compared_between_builds": compared}, "kind_evaluations": {}, "kind_nontrivial": {}, "failure_counts": {}, "maxima": {}, "samples": {}, "truncated": []})

    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == a.prop and k.get("status") == "known"]
    fresh, seen_known = [], {}
    for v in R.violations:
        k = next((k for k in known if k["kind"] == v["kind"] and k["key"] == v["key"] and re.search(k.get("match", ""), v["msg"])), None)
        if k: seen_known.setdefault(k["what"], 0); seen_known[k["what"]] += 1
        else: fresh.append(v)

    evals = sum(d["evaluations"] for d in R.results); nontriv = sum(d["nontrivial"] for d in R.results)
    stats, kinds, knt, samples, maxima, trunc, fcounts = {}, {}, {}, {}, {}, [], {}
    for d in R.results:
        for src, dst in (("stats", stats), ("kind_evaluations", kinds), ("kind_nontrivial", knt), ("failure_counts", fcounts)):
            for k, v in d[src].items(): dst[k] = dst.get(k, 0) + v
        for k, v in d["maxima"].items(): maxima[k] = max(v, maxima.get(k, v))
        for k, v in d["samples"].items(): samples.setdefault(k, []).extend(v)
        trunc += d["truncated"]
    if not rep and not fresh:
        if not R.results: R.errors.append("no harness produced a result")
        for k, mn in P.get("require", {}).items():
            if stats.get(k, 0) < mn: R.errors.append(f"inconclusive: observed {k}={stats.get(k, 0)}, need at least {mn}")
    for k in known:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}" + ("" if k["what"] in seen_known else " (not reproduced by this run)"))

    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv, "rule": P["rule"],
                       "samples": [f"{k}: {s}" for k in sorted(samples) for s in samples[k][:2]][:40] or ["none"],
                       "cases_by_kind": kinds, "nontrivial_by_kind": knt, "observed": stats, "maxima": maxima,
                       "configurations": sorted({f"{r['name']}: {r['config']}" + (f" ({r['area']})" if r.get("area", a.prop) != a.prop else "") for r in runs}), "truncated_by_budget": trunc},
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    ev["coverage"]["build_s"] = round(tb, 2)
    ev["coverage"]["notes"] = sorted(set(R.notes)); ev["coverage"]["known_findings_seen"] = seen_known
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    if not rep: json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)

    if fresh:
        # one VIOLATION line per distinct kind:key, a replay file for each
        seen = set()
        for v in fresh:
            kk = (v["kind"], v["key"])
            if kk in seen: continue
            seen.add(kk)
            if len(seen) > 10: break
            path = os.path.join(rdir, f"{a.prop}-{len(seen)}.json")
            if not rep: json.dump({"property": a.prop, "seed": a.seed, "tier": a.tier, **v, "how": f"python3 check.py {a.prop} --replay {path}"}, open(path, "w"), indent=1)
            else: path = a.replay
            print(f"VIOLATION property={a.prop} replay={path}")
            print(f"  {v['kind']}:{v['key']} case {v['index']}: {v['msg'][:600]}")
        for e in R.errors: print("ERROR:", e[:1500])
        return 1
    if R.errors:
        for e in R.errors: print("ERROR:", e[:3000])
        return 2
    print(f"OK property={a.prop} tier={a.tier} seed={a.seed} evaluations={evals} distinct_nontrivial={nontriv} build={tb:.1f}s wall={time.time()-t0:.1f}s")
    return 0

if __name__ == "__main__":
    sys.exit(main())
