"""R01: resources of finished sessions, and the executions under ThreadSanitizer, AddressSanitizer and Miri."""
import os, re, signal, subprocess, time, json
import crate
from protogen import *
from handgen import *
from harness import pack, prelude, Inconclusive, NCPU
from mpst import add, cover, letters, mixed, MODES
from binary import progs, workload
from hand import mods_M08
from timed_mp import mods_for
from interleaved import add_pair, add_solo
import timed

ALLOC = "#[global_allocator] static COUNTING: vmon::alloc::Counting = vmon::alloc::Counting;\n"
TGT = "x86_64-unknown-linux-gnu"


def programs(ctx, tag, small):
    """sessions of every kind of interface"""
    rng = ctx.rng
    mods = []
    for mode in MODES:
        add(mods, Baking(mode, letters=letters(rng)), rand_enum(rng, f"{tag}_{mode}_r2", 2, 3))
        add(mods, Baking(mode, letters=letters(rng)), cover(rng, f"{tag}_{mode}_c3", 3))
        if not small:
            add(mods, Baking(mode, letters=letters(rng)), lr_tree(rng, f"{tag}_{mode}_lr3", 3, rng.sample(range(3), 2), allp=True))
            add(mods, Baking(mode, letters=letters(rng)), linear(rng, f"{tag}_{mode}_l4", 4, 3))
            add(mods, Baking(mode, letters=letters(rng)), rand_enum(rng, f"{tag}_{mode}_r4", 4, 2))
    for B, t in ((BuiltinFn(), "bf"), (BuiltinMethod(), "bm"), (Simple(letters(rng), True), "ss"), (Simple(letters(rng), False), "si")):
        add(mods, B, rand_enum(rng, f"{tag}_{t}_e", 3, 3))
        if not small:
            add(mods, B, lr_tree(rng, f"{tag}_{t}_lr", 3, rng.sample(range(3), 2)))
    for canc in (False, True):
        add(mods, Multi(letters(rng), canc, rng.choice(["plain", "cancel", "check"] if canc else ["plain", "check"]), choosefn=rng.random() < .5), rand_enum(rng, f"{tag}_mm{int(canc)}", 3, 3))
    c = mods_M08(ctx, True, f"{tag}_sg")
    mods += rng.sample(c, 2 if small else 5)
    mods += progs(ctx, f"{tag}_b", 2, 3, 2, 2) if small else progs(ctx, f"{tag}_b", 4, 5, 3, 3)
    t = mods_for(ctx, "loose", (2, 3), f"{tag}_t")
    mods += rng.sample(t, min(len(t), 2 if small else 5))
    for timed_, j in ((False, 0), (True, 1)):
        add_pair(rng, mods, f"{tag}_il{j}", 2, 2 + j, rng.randrange(2), rng.randrange(2), timed_)
    add_solo(rng, mods, f"{tag}_solo", rng.choice(["lib", "own", "method", "multi"]), 3)
    return mods


def balance(ctx):
    mods = programs(ctx, "r01", ctx.quick)
    bins = {b: t + ALLOC for b, t in pack(mods, 6, "r").items()}
    for w in ("binary_special", "binary_select", "transport"):
        bins["r" + w] = workload(w) + ALLOC
    src = prelude() + open(os.path.join(crate.VERIF, "workloads", "attempt.rs")).read()
    # timed operations with every kind of window and end
    cfg = timed.configs(ctx.rng, 1)
    one = [c for c in cfg if not c.startswith("'z'")]
    cfg = one[::2] if ctx.quick else one
    for b, t in timed.sources(ctx, ["lapse"], cfg, 2).items():
        bins["rtimed" + b] = t.replace("fn main()", ALLOC + "fn main()")
    ctx.extra["programs"] = len(mods)
    ctx.extra["timed_configurations"] = len(cfg)
    d, exes = ctx.build("balance", bins)
    hand = {b: exes.pop(b) for b in list(exes) if not re.match(r"r\d", b)}
    n = 40 if ctx.quick else 600
    ctx.run_vmon(exes, ["--faults", "--balance", str(n)], 1, 1, timeout=400)
    if hand:
        ctx.run_vmon(hand, ["--balance", str(n)], 1, 1, timeout=600)


def sanitized(ctx, which, secs):
    """the same kind of workloads, instrumented"""
    mods = programs(ctx, which[0] + "r01", True)
    bins = pack(mods, 6, which + "_")
    for w in ("binary_special", "binary_select", "transport"):
        bins[which + w] = workload(w)
    tdir = os.path.join(crate.BUILD, "target-" + which)
    args = ["--target", TGT] + (["-Zbuild-std"] if which == "tsan" else [])
    t = time.time()
    d, exes = ctx.build(which, bins, toolchain="nightly", args=args, outdir=os.path.join(tdir, TGT, "debug"),
                        extra_env=dict(CARGO_TARGET_DIR=tdir, RUSTFLAGS="-Zsanitizer=" + {"tsan": "thread", "asan": "address"}[which] + " -Cforce-frame-pointers=yes"))
    opts = dict(TSAN_OPTIONS="halt_on_error=1 exitcode=66 report_thread_leaks=0 history_size=4",
                ASAN_OPTIONS="detect_leaks=0 abort_on_error=0 exitcode=77 detect_stack_use_after_return=1")

    def inspect(b, rc, out):
        ctx.add(which + "_processes")
        for m in re.finditer(r"(WARNING: ThreadSanitizer: [^\n]*|ERROR: AddressSanitizer: [^\n]*)(.*?)(?=\n==================|\nSUMMARY|\Z)", out, re.S):
            ctx.violation(b, which, m.group(1).split(" (pid")[0], dict(report=m.group(0)[:6000]))
            return True
        return False
    before = ctx.counters.get("executions", 0)
    ctx.run_vmon({b: e for b, e in exes.items() if "_" in b and b[len(which) + 1:].isdigit()}, ["--faults"], secs, 2, extra_env=opts, inspect=inspect)
    ctx.run_vmon({b: e for b, e in exes.items() if not b[len(which) + 1:].isdigit()}, [], secs, 4, extra_env=opts, inspect=inspect)
    ctx.extra[which + "_executions"] = ctx.counters.get("executions", 0) - before


def miri(ctx, seeds):
    """small sessions in the interpreter, several schedules each; leaks and running threads at exit are errors there"""
    rng = ctx.rng
    groups = []

    def g(*ms):
        groups.append(list(ms))

    def one(B, P):
        l = []
        add(l, B, P)
        return l[0]
    for mode in MODES:
        g(one(Baking(mode, letters=letters(rng)), Proto(f"mi_{mode}", 3, [(rand_msgs(rng, 3, 3), ("choice", rng.randrange(3), [1, 2], 0, "enum")), (rand_msgs(rng, 3, 2), ("end",)), ([], ("end",))])))
    g(*progs(ctx, "mi_b", 1, 1, 1, 0))
    g(one(rng.choice([BuiltinFn(), BuiltinMethod(), Simple(letters(rng), True)]), Proto("mi_h", 3, [(rand_msgs(rng, 3, 4), ("end",))])),
      one(Multi(letters(rng), True, "cancel"), Proto("mi_mm", 3, [(rand_msgs(rng, 3, 3), ("choice", 2, [1, 2], 0, "enum")), (rand_msgs(rng, 3, 2), ("end",)), ([], ("end",))])))
    l = []
    add_pair(rng, l, "mi_il", 2, 2, 0, 1, False)
    g(*l)
    bins = {}
    for i, ms in enumerate(groups):
        bins.update({f"miri{i}": list(pack(ms, 1, "x").values())[0]})
    d = crate.write_crate("R01_miri", bins)
    tdir = os.path.join(crate.BUILD, "target-miri")
    env = dict(crate.env("nightly"), CARGO_TARGET_DIR=tdir, RUST_BACKTRACE="0")
    flags = "-Zmiri-disable-isolation -Zmiri-preemption-rate=0.03"
    t = time.time()
    first = True
    seen = 0
    jobs = []
    # the first one compiles the dependencies
    p = subprocess.run(["cargo", "miri", "run", "--offline", "--bin", "miri0", "--", "--max-sessions", "0", "--no-watch", "--secs", "0"], cwd=d, env=dict(env, MIRIFLAGS=flags),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    ctx.log(f"miri build {time.time() - t:.1f}s")
    if p.returncode:
        print(p.stdout[-3000:])
        raise Inconclusive("the interpreter does not run the workload")
    t = time.time()
    for i in range(len(groups)):
        n = len(groups[i])
        o = os.path.join(crate.BUILD, f"R01_miri{i}.json")
        cmd = ["cargo", "miri", "run", "--offline", "--bin", f"miri{i}", "--", "--faults", "--max-sessions", str(2 * n + 1), "--no-watch", "--workers", "1", "--secs", "30",
               "--seed", str(ctx.seed), "--out", o]
        jobs.append((f"miri{i}", cmd))
    from concurrent.futures import ThreadPoolExecutor

    def job(j):
        try:
            q = subprocess.run(j[1], cwd=d, env=dict(env, MIRIFLAGS=flags + f" -Zmiri-many-seeds=0..{seeds}"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
            return j[0], q.returncode, q.stdout
        except subprocess.TimeoutExpired as e:
            return j[0], None, (e.stdout or b"").decode("utf8", "replace")
    with ThreadPoolExecutor(4) as ex:
        for b, rc, out in ex.map(job, jobs):
            m = re.search(r"error: (Undefined Behavior|memory leaked|the evaluated program|deadlock|[^\n]*leak|the main thread terminated)[^\n]*", out)
            if m:
                ctx.violation(b, "miri", m.group(0), dict(report=out[max(0, m.start() - 500):m.start() + 5000]))
            elif rc is None:
                raise Inconclusive("the interpreter exceeded its time limit")
            elif rc:
                print(out[-3000:])
                raise Inconclusive("the interpreter failed")
            else:
                seen += seeds
                ctx.add("miri_interpretations", seeds)
    ctx.log(f"miri ran {time.time() - t:.1f}s")


def check_R01(ctx):
    ctx.level = "fault_enumeration"
    ctx.rule = ("Sessions of every interface (generated, built-in, hand-built, signalled, two-party, timed, interleaved, over sockets, selections among many), most of them with a participant that "
                "stops at a random operation. In one process per group: live heap blocks and bytes, threads and open files are measured after a warm-up and after each of four "
                "rounds of executions - nothing may grow in every round - and every tracked payload must have been dropped once. The same kinds of programs run under "
                "ThreadSanitizer (with an instrumented standard library), AddressSanitizer (thorough) and, reduced, in Miri with several schedules. "
                "Distinct: distinct interleavings of events.")
    balance(ctx)
    sanitized(ctx, "tsan", 5 if ctx.quick else 60)
    miri(ctx, 4 if ctx.quick else 24)
    if not ctx.quick:
        sanitized(ctx, "asan", 60)
