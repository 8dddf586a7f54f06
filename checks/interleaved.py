"""I01: interleaved sessions."""
from protogen import *
from interleave import *
from mpst import std_rule, letters, cover
from harness import pack
from binary import workload


def small(rng, name, n, nn=2):
    r = rng.random()
    if r < .45:
        return rand_enum(rng, name, n, nn)
    if r < .65 and n >= 3:
        return lr_tree(rng, name, n, [rng.randrange(n) for _ in range(rng.randint(1, 2))], allp=(n == 3))
    if r < .75:
        return linear(rng, name, n, 3)
    return Proto(name, n, [(rand_msgs(rng, n, rng.randint(2, 8)), ("choice", rng.randrange(n), [1, 0, 1], 0, "enum")), (rand_msgs(rng, n, rng.randint(0, 4)), ("end",))])


def add_pair(rng, mods, name, n1, n2, i1, i2, timed):
    P = (small(rng, name + "x", n1), small(rng, name + "y", n2))
    for p in P:
        # at least one message of every role
        p.nodes[0] = (p.nodes[0][0] + [(a, (a + 1) % p.n, rtype(rng)) for a in range(p.n)], p.nodes[0][1])
    X = Interleaved(rng, name, P, (i1, i2), timed, letters(rng))
    src = X.module()
    mods.append((name, src, len(src) // 60, [f"{name}::PROG"]))
    return X.states


def add_solo(rng, mods, name, kind, n):
    if kind == "multi":
        B = SoloMulti(letters(rng), rng.random() < .5, "plain", choosefn=False, single=rng.random() < .3)
    elif kind == "method":
        B = SoloMethod()
    else:
        B = SoloSimple(letters(rng), kind == "lib")
    P = cover_enum(rng, name, n) if n <= 4 else linear(rng, name, n, 4)
    if kind == "multi" and n <= 4:
        P = rand_enum(rng, name, n, 3) if rng.random() < .5 else P
    src = solo(rng, B, P, "fork_solo", "close_solo", kind == "method", name)
    mods.append((name, src, len(src) // 60, [f"{name}::PROG"]))


def check_I01(ctx):
    ctx.level = "fault_enumeration"
    rng = ctx.rng
    mods, states = [], 0
    sizes = [(2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (4, 3)] if ctx.quick else [(a, b) for a in range(2, 6) for b in range(2, 6)] * 2
    for timed in (False, True):
        for j, (a, b) in enumerate(sizes):
            # positions of the shared participant rotate with the seed, so that all are met
            i1, i2 = rng.randrange(a), rng.randrange(b)
            states += add_pair(rng, mods, f"i01{'t' if timed else 'u'}_{a}{b}_{j}", a, b, i1, i2, timed)
    for a, b in [(2, 2), (3, 2), (2, 3)]:
        for i1 in range(a):
            for i2 in range(b):
                if a + b == 4 or rng.random() < (.5 if ctx.quick else 1):
                    states += add_pair(rng, mods, f"i01p_{a}{b}_{i1}{i2}", a, b, i1, i2, rng.random() < .4)
    for kind, n in [("lib", 3), ("own", 3), ("method", 3), ("multi", 3), ("multi", 4), ("multi", 5)] + ([] if ctx.quick else [("multi", 6), ("multi", 4), ("method", 3), ("multi", 3)]):
        add_solo(rng, mods, f"i01s_{kind}{n}_{len(mods)}", kind, n)
    ctx.extra["programs"] = len(mods)
    ctx.extra["states_of_shared_participants"] = states
    ctx.rule = std_rule("One participant drives two sessions in a random interleaving of both local protocols (timed and untimed); solo forks drive a whole session from one thread; one thread closes several endpoints, of one session or of different ones, at once.")
    bins = pack(mods, 8, "i")
    bins["interclose"] = workload("interclose")
    d, exes = ctx.build("inter", bins)
    close = exes.pop("interclose", None)
    if exes:
        ctx.run_vmon(exes, ["--faults", "--gates"] + ctx.patience() + ctx.deep(), 14 if ctx.quick else 150)
    if close:
        ctx.run_vmon({"interclose": close}, [], 4 if ctx.quick else 60, 4)
