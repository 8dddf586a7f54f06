"""T04: timed multiparty sessions (generate_atmp!)."""
from protogen import *
from mpst import add, std_rule, letters, cover
from harness import pack


def mods_for(ctx, style, sizes, tag):
    rng = ctx.rng
    mods = []
    for n in sizes:
        add(mods, Atmp(rng, style, rng.random() < .5, letters(rng)), cover(rng, f"{tag}_cov{n}", n) if n <= 4 or not ctx.quick else linear(rng, f"{tag}_lin{n}", n, 3))
        add(mods, Atmp(rng, style, rng.random() < .5, letters(rng)), rand_enum(rng, f"{tag}_rnd{n}", n, 3))
        if 2 < n <= 4:
            add(mods, Atmp(rng, style, True, letters(rng)), lr_tree(rng, f"{tag}_lr{n}", n, rng.sample(range(n), min(n, 2)), allp=(n == 3)))
        if not ctx.quick:
            for j in range(2):
                add(mods, Atmp(rng, style, rng.random() < .5, letters(rng)), rand_enum(rng, f"{tag}_rnd{n}_{j}", n, 4))
    return mods


def binary(ctx, mods, style, k, tag):
    """two-party timed sessions"""
    rng = ctx.rng
    for i in range(k):
        B = lambda: BinaryTimed(rng, style, forked=rng.randrange(2))
        add(mods, B(), Proto(f"{tag}_lin{i}", 2, [(rand_msgs(rng, 2, rng.randint(3, 10)), ("end",))]))
        add(mods, B(), cover_binary(rng, f"{tag}_enum{i}", rng.randint(1, 4), "enum"))
        add(mods, B(), cover_binary(rng, f"{tag}_lr{i}", rng.randint(1, 4), "lr"))


def check_T04(ctx):
    ctx.level = "fault_enumeration"
    rng = ctx.rng
    mods = mods_for(ctx, "loose", (2, 3, 4, 5) if ctx.quick else (2, 3, 4, 5, 6), "t04l")
    for j in range(6 if ctx.quick else 20):
        n = rng.randint(2, 5)
        add(mods, Atmp(rng, "loose", True, letters(rng)), lr_tree(rng, f"t04l_lrs{j}", n, [rng.randrange(n) for _ in range(2)], allp=False))
    binary(ctx, mods, "loose", 2 if ctx.quick else 6, "t04b")
    tight = mods_for(ctx, "tight", (2, 3) if ctx.quick else (2, 3, 4), "t04t")
    binary(ctx, tight, "tight", 1 if ctx.quick else 3, "t04bt")
    ctx.rule = std_rule("Timed protocols whose constraints are met by construction (clocks wound to known offsets, resets tracked), executions in which one or two "
                        "participants perform an operation outside its window, stop or panic, and protocols whose windows close within 2-60 ms while participants stall.")
    ctx.extra["programs"] = len(mods) + len(tight)
    bins = pack(mods, 7, "w")
    bins.update(pack(tight, 1, "tight"))
    d, exes = ctx.build("mpst", bins)
    t = {b: exes.pop(b) for b in list(exes) if b.startswith("tight")}
    ctx.run_vmon(exes, ["--faults", "--gates"] + ctx.deep(), 14 if ctx.quick else 150)
    if t:
        ctx.run_vmon(t, ["--faults"], 10 if ctx.quick else 100, workers=24)
