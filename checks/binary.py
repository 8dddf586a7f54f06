"""B01-B04: two-party sessions."""
from protogen import *
from harness import pack, prelude
from mpst import add, std_rule
import os


def timed_binary(*a):
    from timed_mp import binary
    binary(*a)


W = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "workloads")


def workload(name):
    return prelude() + open(os.path.join(W, name + ".rs")).read()


def backends(rng):
    return Binary(canceled_send=rng.random() < .5, forked=rng.randrange(2), detached=rng.random() < .3)


def progs(ctx, tag, n_lin, n_enum, n_lr, n_mix):
    rng = ctx.rng
    mods = []
    for i in range(n_lin):
        add(mods, backends(rng), Proto(f"{tag}_lin{i}", 2, [(rand_msgs(rng, 2, rng.randint(1, 14)), ("end",))]))
    for i in range(n_enum):
        add(mods, backends(rng), cover_binary(rng, f"{tag}_enum{i}", rng.randint(1, 5), "enum"))
    for i in range(n_lr):
        add(mods, backends(rng), cover_binary(rng, f"{tag}_lr{i}", rng.randint(1, 5), "lr"))
    timed_binary(ctx, mods, "loose", max(1, n_enum // 12), f"{tag}_t")
    for i in range(n_mix):
        add(mods, backends(rng), cover_binary(rng, f"{tag}_mix{i}", rng.randint(2, 5), None))
    return mods


def scale(ctx, *q):
    return [x if ctx.quick else 4 * x for x in q]


def deep(ctx, exe, cases):
    """one endpoint runs ahead by many selections and sends; each case in a process of its own"""
    if not exe:
        return
    jobs = [(f"deep-{m}-{n}", [exe, m, str(n)], 120) for m, n in cases]
    for name, (rc, out) in ctx.run_all(jobs).items():
        if rc == 0:
            ctx.add("runs_far_ahead")
            ctx.sample(name + ": " + out.strip().splitlines()[-1])
        elif rc is None:
            ctx.violation(name, "hang", "an endpoint that ran far ahead, or its peer, did not end", dict(output=out[-1500:]))
        elif rc == 7:
            ctx.violation(name, "deep", "values lost, leaked or wrongly reported: " + out.strip()[-200:], dict(output=out[-1500:]))
        elif "overflowed its stack" in out:
            ctx.violation(name, "overflow", "the process is aborted (stack overflow) when an endpoint ends that its peer ran far ahead of", dict(output=out[-1500:]))
        else:
            ctx.violation(name, "crash", f"the process ended with {rc}", dict(output=out[-1500:]))


def check_B01(ctx):
    mods = progs(ctx, "b01", *scale(ctx, 16, 12, 4, 8))
    bins = pack(mods, 6, "b")
    bins["binspecial"] = workload("binary_special")
    bins["bindeep"] = workload("deep")
    d, exes = ctx.build("bin", bins)
    deep(ctx, exes.pop("bindeep", None), [("consume", 1000), ("consume", 400000)])
    ctx.extra["programs"] = len(mods)
    ctx.rule = std_rule("Random two-party protocols (linear, recursive, left/right), delegation of sessions, many sessions at once.")
    sp = exes.pop("binspecial", None)
    ctx.run_vmon(exes, ["--gates"] + ctx.patience(32), 25 if ctx.quick else 120, workers=3)
    if sp:
        ctx.run_vmon({"binspecial": sp}, [], 6 if ctx.quick else 60, workers=6)


def check_B02(ctx):
    ctx.level = "fault_enumeration"
    mods = progs(ctx, "b02", *scale(ctx, 14, 14, 6, 6))
    bins = pack(mods, 7, "b")
    bins["bindeep"] = workload("deep")
    d, exes = ctx.build("bin", bins)
    ctx.extra["programs"] = len(mods)
    deep(ctx, exes.pop("bindeep", None), [("drop", 1000), ("drop", 10000), ("panic", 10000), ("drop", 400000)])
    ctx.rule = std_rule("One or both endpoints stop in front of a random operation (cancel, drop, early return with and without error, panic).")
    ctx.run_vmon(exes, ["--faults"] + ctx.patience(), 12 if ctx.quick else 150, workers=3)


def check_B03(ctx):
    mods = progs(ctx, "b03", *scale(ctx, 0, 22, 10, 12))
    bins = pack(mods, 7, "b")
    d, exes = ctx.build("bin", bins)
    ctx.extra["programs"] = len(mods)
    ctx.rule = std_rule("Random nested and recursive selections by either endpoint: left/right and enumerations of 1-8 variants.")
    ctx.run_vmon(exes, ["--max-choices", "40"] + ctx.patience() + ctx.deep(), 12 if ctx.quick else 100, workers=3)
    ctx.run_vmon(exes, ["--max-choices", "12", "--faults"], 5 if ctx.quick else 60, workers=3)


def check_B04(ctx):
    ctx.level = "fault_enumeration"
    bins = {"binselect": workload("binary_select")}
    d, exes = ctx.build("bin", bins)
    ctx.rule = ("Each evaluation is one randomised case: 0-12 receiving sessions with two-step continuations, senders with random delays, dead peers and "
                "held-back senders, emptied with select/select_mut; judged by exact accounting of sent, received, failed. "
                "distinct_nontrivial counts distinct (size, dead set, order of selection) triples with at least two sessions.")
    ctx.run_vmon(exes, [], 12 if ctx.quick else 120, workers=8)
