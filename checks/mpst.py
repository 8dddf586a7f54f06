"""M01-M06: sessions built with generate! in its four untimed modes."""
import random
from protogen import *
from harness import pack
from kinds import more_kinds

MODES = ["basic", "recursive", "cancel", "rec_and_cancel"]


def weight(P):
    return sum((len(m) + 2) * P.n for m, _ in P.nodes)


def add(mods, B, P):
    mods.append((P.name, B.module(P), weight(P), [f"{P.name}::PROG"]))


LONG = ["Server", "Client", "Clients", "Ab", "Abc", "AbCd", "Scl", "Node2", "Node12", "Auth_1", "Log", "Logger", "To", "Ally", "Z9"]


def letters(rng):
    """role names are assigned at random, single letters, words, and words that contain one another: names must not matter"""
    l = list("ABCDEFGHIJKLMNOPQRSTUV")
    rng.shuffle(l)
    if rng.random() < .5:
        w = LONG[:]
        rng.shuffle(w)
        for i in rng.sample(range(len(w)), rng.randint(1, 6)):
            l[i % 8] = w[i]
    return l


def cover(rng, name, n):
    """node 0 uses every unordered pair in one direction, the body after a selection the other;
    every role selects; recursion through every selection"""
    P = cover_enum(rng, name, n)
    first = [(a, b, t) for a, b, t in all_pairs(rng, n) if (a < b)]
    first = [(a, b, t) if rng.random() < 0.5 else (b, a, t) for a, b, t in first]
    second = [(b, a, rtype(rng)) for a, b, t in first]
    rng.shuffle(second)
    P.nodes[0] = (first, P.nodes[0][1])
    P.nodes[n + 1] = (second, P.nodes[n + 1][1])
    return P


def ring(rng, name, n, choice):
    """many roles: a ring in random order, some more messages, and a selection that goes around"""
    r = [(i, (i + 1) % n, rtype(rng)) if rng.random() < .5 else ((i + 1) % n, i, rtype(rng)) for i in range(n)]
    rng.shuffle(r)
    if not choice:
        return Proto(name, n, [(r + rand_msgs(rng, n, 4), ("end",))])
    return Proto(name, n, [(rand_msgs(rng, n, 3), ("choice", rng.randrange(n), [1, 0], 0, "enum")), (r, ("end",))])


def rings(ctx, mods, tag, choice):
    rng = ctx.rng
    for n in ([rng.choice([9, 10, 11])] if ctx.quick else [8, 9, 10, 11, 12, 16, 20]):
        add(mods, Baking(rng.choice(MODES), letters=letters(rng)), ring(rng, f"{tag}_ring{n}", n, choice))


def std_rule(what):
    return (what + " Each evaluation is one execution of one generated multi-role program (random protocol structure, payloads, "
            "branch script, delays, gates and faults from VERIF_SEED) whose complete history is judged by the oracle; "
            "distinct_nontrivial counts the distinct global interleavings (order of all call/return/branch/fault/exit events "
            "of all participants) among them.")


def run(ctx, mods, args, secs, nbins=8, workers=2, pause=12):
    bins = pack(mods, nbins, "w")
    ctx.extra["programs"] = len(mods)
    d, exes = ctx.build("mpst", bins)
    if exes:
        ctx.run_vmon(exes, args + ctx.patience(pause) + ctx.deep(), secs, workers)
        if "--faults" not in args:
            # the same property while participants fail
            ctx.run_vmon(exes, args + ["--faults"], 4 if ctx.quick else 40, workers)


def check_M01(ctx):
    rng = ctx.rng
    mods = []
    sizes = [2, 3, 4, 5, 6] if ctx.quick else [2, 3, 4, 5, 6, 7, 8]
    for mode in MODES:
        for n in sizes:
            add(mods, Baking(mode, letters=letters(rng)), linear(rng, f"m01_{mode}_lin{n}", n, 2))
            if not ctx.quick:
                for k in range(3 if n < 6 else 1):
                    add(mods, Baking(mode, letters=letters(rng)), linear(rng, f"m01_{mode}_lin{n}_{k}", n, rng.randint(2, 10)))
        for j in range(1 if ctx.quick else 4):
            n = rng.randint(3, 4)
            add(mods, Baking(mode, letters=letters(rng)), rand_enum(rng, f"m01_{mode}_rnd{j}", n, 2))
    if ctx.quick:
        add(mods, Baking(rng.choice(MODES), letters=letters(rng)), linear(rng, "m01_big7", 7, 2))
    rings(ctx, mods, "m01", False)
    more_kinds(ctx, mods, "m01", choice=False)
    ctx.rule = std_rule("Protocols without and with selections over 2-7 roles, every ordered pair of roles (rings up to 11, thorough: 20 roles), four generated interfaces.")
    run(ctx, mods, [], 12 if ctx.quick else 120)


def check_M02(ctx):
    rng = ctx.rng
    mods = []
    for mode in MODES:
        for n in ([3, 4, 5, 6] if ctx.quick else [2, 3, 4, 5, 6, 7, 8]):
            lm = mode in ("recursive", "rec_and_cancel") and rng.random() < 0.5
            add(mods, Baking(mode, lm, letters=letters(rng)), cover(rng, f"m02_{mode}_cov{n}", n))
            if mode in ("recursive", "rec_and_cancel") and (n <= 3 or not ctx.quick):
                add(mods, Baking(mode, not lm, letters=letters(rng)), rand_enum(rng, f"m02_{mode}_rnd{n}", n, 3))
            if n >= 3:
                ch = rng.sample(range(n), min(n, 3))
                if ctx.quick and n == 5:
                    ch = ch[:2]
                add(mods, Baking(mode, letters=letters(rng)), lr_tree(rng, f"m02_{mode}_lr{n}", n, ch, allp=False))
    rings(ctx, mods, "m02", True)
    more_kinds(ctx, mods, "m02")
    ctx.rule = std_rule("Every role selects, by left/right and by enumeration variant, in recursive protocols (some down to 40 MiB of the participants' stacks) over 3-6 roles (thorough: 2-8).")
    run(ctx, mods, ["--max-choices", "14"], 12 if ctx.quick else 150)


def mixed(ctx, tag, modes=MODES, quick_sizes=(2, 3, 4, 5)):
    rng = ctx.rng
    mods = []
    for mode in modes:
        for n in (quick_sizes if ctx.quick else (2, 3, 4, 5, 6)):
            r = rng.random()
            if r < 0.4 or n == 2:
                P = rand_enum(rng, f"{tag}_{mode}_rnd{n}", n, 3)
                B = Baking(mode, mode in ("recursive", "rec_and_cancel") and rng.random() < .5, letters=letters(rng))
            else:
                P = cover(rng, f"{tag}_{mode}_cov{n}", n) if n < 5 else linear(rng, f"{tag}_{mode}_lin{n}", n, 4)
                B = Baking(mode, letters=letters(rng))
            add(mods, B, P)
            if n in (3, 4):
                add(mods, Baking(mode, letters=letters(rng)), lr_tree(rng, f"{tag}_{mode}_lr{n}", n, rng.sample(range(n), 2), allp=(n == 3)))
    return mods


def check_M03(ctx):
    ctx.rule = std_rule("Deadlock = all threads in untimed futex waits; receivers are held back until the matching send completed (executions_receivers_late).")
    ctx.assumptions = ["unbounded progress is decided as: every execution of the workload terminates, and no state in which all threads are blocked is reached"]
    mods = mixed(ctx, "m03")
    more_kinds(ctx, mods, "m03", binary=True)
    run(ctx, mods, ["--gates"], 30 if ctx.quick else 150, pause=32)


def check_M04(ctx):
    mods = mixed(ctx, "m04")
    rings(ctx, mods, "m04", True)
    more_kinds(ctx, mods, "m04")
    ctx.level = "fault_enumeration"
    ctx.rule = std_rule("One or two participants stop (cancel, drop, early return, panic) in front of a randomly chosen operation; distinct_fault_sites counts (program, participant, operation number, way).")
    # central roles relay by polling: they get processes of their own
    from hand import mods_M08
    central = ctx.rng.sample(mods_M08(ctx, True, "m04s") + mods_M08(ctx, False, "m04d"), 4 if ctx.quick else 20)
    ctx.extra["programs"] = len(mods) + len(central)
    bins = pack(mods, 7, "w")
    bins.update(pack(central, 1, "central"))
    d, exes = ctx.build("mpst", bins)
    c = {b: exes.pop(b) for b in list(exes) if b.startswith("central")}
    if exes:
        ctx.run_vmon(exes, ["--faults"] + ctx.patience(), 14 if ctx.quick else 200, 2)
    if c:
        ctx.run_vmon(c, ["--faults"], 5 if ctx.quick else 60, 4)


def check_M05(ctx):
    rng = ctx.rng
    mods = []
    for mode in MODES:
        for n in ([2, 3, 4, 5, 6] if ctx.quick else [2, 3, 4, 5, 6, 7, 8, 9]):
            P = Proto(f"m05_{mode}_{n}", n, [(rand_msgs(rng, n, rng.randint(0, 3)), ("end",))])
            add(mods, Baking(mode, letters=letters(rng)), P)
            P = Proto(f"m05_{mode}_c{n}", n, [(rand_msgs(rng, n, rng.randint(0, 2)), ("choice", rng.randrange(n), [1, 2], 0, "enum")),
                                             (rand_msgs(rng, n, 2), ("end",)), ([], ("end",))])
            add(mods, Baking(mode, letters=letters(rng)), P)
    rings(ctx, mods, "m05", False)
    more_kinds(ctx, mods, "m05", binary=True, choice=False)
    ctx.level = "fault_enumeration"
    ctx.rule = std_rule("Short protocols, so that most delays and stops fall around the close of 2-6 roles.")
    run(ctx, mods, ["--faults", "--late-close"], 12 if ctx.quick else 100)


def check_M06(ctx):
    ctx.rule = std_rule("8 sessions of different protocols run concurrently per process while some of them fail; payload identities are globally unique.")
    ctx.level = "fault_enumeration"
    mods = mixed(ctx, "m06", quick_sizes=(2, 3, 4))
    rings(ctx, mods, "m06", True)
    more_kinds(ctx, mods, "m06", binary=True)
    run(ctx, mods, ["--faults"], 14 if ctx.quick else 150, nbins=6, workers=12)
