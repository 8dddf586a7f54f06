"""Shared driver code: building workloads, running them, collecting verdicts and evidence."""
import os, json, subprocess, time, random, hashlib, signal, threading
import crate

VERIF = crate.VERIF
REPLAYS = os.path.join(VERIF, "replays")
NCPU = os.cpu_count() or 4


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(f"{pid}/{seed}")
        self.viols = []       # dicts: program, class, msg, detail
        self.counters = {}
        self.distinct = 0
        self.evaluations = 0
        self.rule = ""
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.level = "exploration"
        self.known = [k for k in load_known() if k.get("property") == pid and k.get("status", "open") == "open"]
        self.known_hit = []
        self.log("start tier=%s seed=%d" % (tier, seed))

    def log(self, *a):
        print(f"[{self.pid}]", *a, flush=True)

    def add(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 14:
            self.samples.append(s if isinstance(s, str) else json.dumps(s)[:1500])

    def violation(self, program, cls, msg, detail=None):
        self.viols.append(dict(program=program, **{"class": cls}, msg=msg, detail=detail))

    # ------------------------------------------------------------------ build
    def build(self, name, bins, opt=0, toolchain="stable", extra="", args=(), extra_env=None, outdir=None):
        """Returns (crate dir, {bin: exe path}). A workload that no longer compiles although the
        library itself builds is a violation: well-typed user programs are rejected."""
        d = crate.write_crate(f"{self.pid}_{name}", bins, opt, extra)
        t = time.time()
        ok, log = crate.build(d, toolchain, args=args, extra_env=extra_env)
        self.log(f"build {name}: {len(bins)} binaries ok={ok} {time.time() - t:.1f}s")
        exes = {}
        if not ok:
            if "could not compile `mpst" in log or "could not compile `vmon" in log or "could not compile `" + f"{self.pid}_{name}" not in log:
                print(log[-4000:])
                raise Inconclusive("the library or the monitor does not build")
            failed = [b for b in bins if f'(bin "{b}")' in log and "could not compile" in log]
            errs = [l for l in log.splitlines() if l.startswith("error")]
            self.violation(",".join(failed), "compile", "a well-typed workload does not compile against the library: " + "; ".join(errs[:4]),
                           dict(log=log[max(0, log.find("\nerror")):][:9000], crate=d))
        for b in bins:
            p = os.path.join(outdir or os.path.join(crate.TARGET, "debug"), b)
            if os.path.exists(p) and not (not ok and f'(bin "{b}")' in log):
                exes[b] = p
        return d, exes

    # ------------------------------------------------------------------ run
    def patience(self, quick=12, thorough=65):
        """arguments for executions in which one participant pauses for so many seconds"""
        return ["--pause-ms", str(1000 * (quick if self.quick else thorough))]

    def deep(self):
        """arguments for executions in which the recursion uses so many MiB of the 64 MiB of stack of a participant"""
        return ["--deep", "40"]

    def run_all(self, jobs, parallel=NCPU, extra_env=None):
        """jobs: list of (label, argv, timeout). Runs them in parallel; returns {label: (rc, out)}"""
        res = {}
        lock = threading.Lock()
        it = iter(jobs)

        def work():
            while True:
                with lock:
                    try:
                        label, argv, to = next(it)
                    except StopIteration:
                        return
                try:
                    p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, cwd=crate.BUILD,
                                       env=dict(os.environ, RUST_BACKTRACE="0", **(extra_env or {})))
                    r = (p.returncode, p.stdout.decode("utf8", "replace"))
                except subprocess.TimeoutExpired as e:
                    r = (None, (e.stdout or b"").decode("utf8", "replace"))
                with lock:
                    res[label] = r
        ts = [threading.Thread(target=work) for _ in range(parallel)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return res

    def run_vmon(self, exes, args, secs, workers=2, parallel=NCPU, timeout=None, extra_env=None, inspect=None):
        """Runs vmon workload binaries and merges their reports."""
        jobs = []
        outs = {}
        for i, (b, exe) in enumerate(sorted(exes.items())):
            o = os.path.join(crate.BUILD, f"{self.pid}_{b}.json")
            if os.path.exists(o):
                os.remove(o)
            outs[b] = o
            jobs.append((b, [exe, "--seed", str(self.seed * 1009 + i), "--secs", str(secs), "--workers", str(workers),
                             "--out", o, "--property", self.pid] + list(args), timeout or (secs + 150)))
        t = time.time()
        res = self.run_all(jobs, parallel, extra_env)
        self.log(f"ran {len(jobs)} workloads in {time.time() - t:.1f}s")
        for b, (rc, out) in res.items():
            if inspect and inspect(b, rc, out):
                continue
            self.absorb(b, rc, out, outs[b])

    def absorb(self, b, rc, out, path):
        rep = None
        try:
            rep = json.load(open(path))
        except Exception:
            pass
        if rc is None:
            if rep and rep.get("violations"):
                pass
            else:
                raise Inconclusive(f"workload {b} exceeded its time limit")
        elif rc < 0 and rc != -signal.SIGKILL:
            self.violation(b, "crash", f"workload {b} was killed by signal {-rc}", dict(output=out[-3000:]))
        elif rc == -signal.SIGKILL:
            raise Inconclusive(f"workload {b} was killed")
        elif rep is None:
            print(out[-2000:])
            raise Inconclusive(f"workload {b} ended with {rc} and no report")
        if rep:
            self.merge(rep)

    def merge(self, rep):
        for k, v in rep.get("counters", {}).items():
            if k != "violations":
                self.add(k, v)
        self.distinct += rep.get("interleavings", 0)
        self.add("distinct_branch_paths", rep.get("paths", 0))
        self.add("distinct_fault_sites", rep.get("fault_sites", 0))
        for s in rep.get("samples", [])[:2]:
            self.sample(s)
        for v in rep.get("violations", []):
            self.violation(v["program"], v["class"], v["msg"], v.get("detail"))

    # ------------------------------------------------------------------ verdict
    def is_known(self, v):
        for k in self.known:
            if k.get("class") == v["class"] and k.get("program", v["program"]) == v["program"] and k.get("match", "") in v["msg"]:
                return k
        return None

    def write_evidence(self, wall, note=None):
        cases = {k: v for k, v in self.counters.items() if k.startswith("case:")}
        if len(cases) > 40:
            for k in cases:
                del self.counters[k]
            self.counters["distinct_cases_run"] = len(cases)
            self.counters["min_runs_per_case"] = min(cases.values())
        cov = dict(evaluations=int(self.evaluations), distinct_nontrivial=int(self.distinct), rule=self.rule,
                   samples=self.samples or ["(none)"], counters=self.counters)
        cov.update(self.extra)
        if note:
            cov["note"] = note
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.viols))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def finish(self, wall):
        new = []
        seen = set()
        for v in self.viols:
            k = self.is_known(v)
            if k:
                if k["id"] not in seen:
                    seen.add(k["id"])
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
            else:
                new.append(v)
        # a listed finding that is part of the explored set is always announced
        self.extra["known_findings_seen"] = sorted(seen)
        if not self.evaluations:
            self.evaluations = self.counters.get("executions", 0)
        self.viols = new
        self.write_evidence(wall)
        if not new and not self.evaluations:
            print(f"INCONCLUSIVE property={self.pid} nothing was observed")
            return 2
        if new:
            os.makedirs(REPLAYS, exist_ok=True)
            printed = set()
            for v in new:
                key = (v["program"], v["class"])
                if key in printed or len(printed) >= 8:
                    continue
                printed.add(key)
                h = hashlib.sha1(json.dumps(key).encode()).hexdigest()[:8]
                path = os.path.join(REPLAYS, f"{self.pid}-{v['class']}-{h}.json")
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed,
                                   rerun=f"cd /verif && VERIF_SEED={self.seed} VERIF_TIER={self.tier} ./check.py {self.pid}", **v), f, indent=1)
                print(f"  {v['class']} in {v['program']}: {v['msg'][:400]}")
                print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            return 1
        self.log(f"held: {self.evaluations} executions, {self.distinct} distinct, {wall:.1f}s")
        return 0


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def prelude():
    return "#![allow(warnings)]\n#![recursion_limit = \"2048\"]\n"


def pack(mods, nbins, prefix="w"):
    """mods: list of (name, source, weight, [program paths]) -> {bin: source}"""
    bins = [[0, [], []] for _ in range(max(1, min(nbins, len(mods))))]
    for name, src, w, progs in sorted(mods, key=lambda m: -m[2]):
        b = min(bins, key=lambda x: x[0])
        b[0] += w
        b[1].append(src)
        b[2] += progs
    out = {}
    for i, (w, srcs, progs) in enumerate(bins):
        out[f"{prefix}{i}"] = prelude() + "\n".join(srcs) + "\nfn main() { vmon::main_loop(vec![" + ", ".join("&" + p for p in progs) + "]) }\n"
    return out
