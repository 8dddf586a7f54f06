"""A sample of every kind of interface that builds a session, so that each property of sessions is observed on all of them."""
from protogen import *
from handgen import *


def more_kinds(ctx, mods, tag, binary=False, choice=True):
    from mpst import add, letters
    from timed_mp import mods_for
    from interleaved import add_pair, add_solo
    from binary import progs
    rng, q = ctx.rng, ctx.quick
    n0 = len(mods)
    for j in range(1 if q else 4):
        for B, t in ((BuiltinFn(), "bf"), (BuiltinMethod(), "bm"), (Simple(letters(rng), rng.random() < .5), "si")):
            add(mods, B, cover_enum(rng, f"{tag}_{t}_e{j}", 3) if rng.random() < .6 else rand_enum(rng, f"{tag}_{t}_e{j}", 3, 3))
            add(mods, B, lr_tree(rng, f"{tag}_{t}_lr{j}", 3, rng.sample(range(3), 2)) if choice or j else linear(rng, f"{tag}_{t}_l{j}", 3, 4))
        for canc in (False, True):
            n = rng.choice([3, 4] if q else [3, 4, 5])
            close = rng.choice(["plain", "cancel", "check"] if canc else ["plain", "check"])
            mk = lambda: Multi(letters(rng), canc, close, choosefn=rng.choice([False, True, "macro"]), single=rng.random() < .3)
            add(mods, mk(), rand_enum(rng, f"{tag}_mm{int(canc)}_e{j}", n, 3))
            add(mods, mk(), linear(rng, f"{tag}_mm{int(canc)}_l{j}", rng.choice([3, 4, 5]), 3))
        t = mods_for(ctx, "loose", (2, 3), f"{tag}_t{j}")
        mods += rng.sample(t, 3)
        for timed in (False, True):
            add_pair(rng, mods, f"{tag}_il{j}{int(timed)}", rng.choice([2, 3]), rng.choice([2, 3]), rng.randrange(2), rng.randrange(2), timed)
        add_solo(rng, mods, f"{tag}_solo{j}", rng.choice(["lib", "own", "method", "multi"]), 3)
    if binary:
        mods += progs(ctx, f"{tag}_b", 2, 2, 1, 1)
    ctx.extra["programs_of_other_interfaces"] = len(mods) - n0
