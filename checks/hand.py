"""M07, M08: hand-built multiparty interfaces."""
from protogen import *
from handgen import *
from harness import pack
from mpst import add, cover, letters, std_rule


def mods_M07(ctx):
    rng = ctx.rng
    mods = []
    q = ctx.quick
    for i in range(2 if q else 8):
        for B, tag in ((BuiltinFn(), "bf"), (BuiltinMethod(), "bm"), (Simple(letters(rng), i % 2 == 0), "si")):
            add(mods, B, Proto(f"m07_{tag}_lin{i}", 3, [(all_pairs(rng, 3) + all_pairs(rng, 3) + rand_msgs(rng, 3, 4), ("end",))]))
            add(mods, B, rand_enum(rng, f"m07_{tag}_enum{i}", 3, 3) if i else cover_enum(rng, f"m07_{tag}_enum{i}", 3))
            chs = rng.sample(range(3), 3)
            add(mods, B, lr_tree(rng, f"m07_{tag}_lr{i}", 3, chs))
    for i, n in enumerate([3, 4, 5, 6] if q else [3, 4, 5, 6, 7, 8, 3, 4, 5]):
        for canc in (False, True):
            close = rng.choice(["plain", "cancel", "check"]) if canc else rng.choice(["plain", "check"])
            close = ["plain", "cancel", "check"][(i + canc) % 3]
            B = Multi(letters(rng), canc, close, choosefn=[False, True, "macro"][(2 * i + canc + ctx.seed) % 3], single=rng.random() < .3)
            P = cover(rng, f"m07_mm{int(canc)}_{n}_{i}", n) if n < 5 else rand_enum(rng, f"m07_mm{int(canc)}_{n}_{i}", n, 3)
            add(mods, B, P)
            if n <= 5:
                B = Multi(letters(rng), canc, close)
                add(mods, B, lr_tree(rng, f"m07_mmlr{int(canc)}_{n}_{i}", n, [n - 1] * (2 if n < 5 else 1), allp=n < 5))
            else:
                add(mods, B, linear(rng, f"m07_mmlin{int(canc)}_{n}_{i}", n, 3))
    return mods


def check_M07(ctx):
    ctx.level = "fault_enumeration"
    mods = mods_M07(ctx)
    ctx.extra["programs"] = len(mods)
    ctx.extra["interfaces"] = ["built-in functions", "built-in methods", "recursion macros", "macros_simple", "macros_simple short", "macros_multiple", "macros_multiple cancel"]
    ctx.rule = std_rule("Three built-in/own-role interfaces and the macros_multiple families (3-6 roles), with and without faults.")
    bins = pack(mods, 8, "h")
    d, exes = ctx.build("hand", bins)
    if exes:
        ctx.run_vmon(exes, ["--gates", "--faults"] + ctx.patience() + ctx.deep(), 14 if ctx.quick else 150, 2)


def central(P):
    """inserts the relaying role in front: all roles move up by one"""
    nodes = []
    for ms, t in P.nodes:
        ms = [(a + 1, b + 1, ty) for a, b, ty in ms]
        if t[0] == "choice":
            t = (t[0], t[1] + 1, t[2], t[3], t[4])
        nodes.append((ms, t))
    return Proto(P.name, P.n + 1, nodes)


def mods_M08(ctx, signal, tag):
    rng = ctx.rng
    mods = []
    for i, n in enumerate([2, 3, 4, 5] if ctx.quick else [2, 3, 4, 5, 6, 2, 3, 4, 5]):
        for c in ("plain", "check"):
            single = rng.random() < .3
            add(mods, Check(letters(rng), c, single=single, signal=signal), central(linear(rng, f"{tag}_lin{n}_{c}_{i}", n, 4 if n < 5 else 2)))
            if n >= 2:
                P = rand_enum(rng, f"{tag}_enum{n}_{c}_{i}", n, 3)
                add(mods, Check(letters(rng), c, choosefn=(i % 2 == 0) == (c == "plain"), signal=signal), central(P))
    for i, n in enumerate([2, 3, 4, 5]) if signal else []:
        add(mods, Unrelayed(letters(rng), single=i % 2 == 0), central(linear(rng, f"{tag}_unrel{n}_{i}", n, 4 if n < 5 else 2)))
    return mods


def check_M08(ctx):
    ctx.level = "fault_enumeration"
    mods = mods_M08(ctx, True, "m08") + mods_M08(ctx, False, "m08d")
    ctx.extra["programs"] = len(mods)
    ctx.rule = std_rule("Checked-cancellation macros, central role plus 2-5 participants; a participant sends a cancel signal, or dies without one, in front of a random operation.")
    bins = pack(mods, 8, "h")
    d, exes = ctx.build("central", bins)
    if exes:
        ctx.run_vmon(exes, ["--faults"] + ctx.patience(6, 30) + ["--pause-runs", "1"], 16 if ctx.quick else 150, 2)
