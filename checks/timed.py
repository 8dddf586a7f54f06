"""T01-T03: timed operations at the two-party level."""
import os
from harness import prelude
W = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "workloads")


def configs(rng, per):
    out = []
    b = lambda x: "true" if x else "false"
    for S in (-1, 0, 1, 2, 3):
        for E in (-1, 0, 1, 2, 3, 4):
            for IS in (0, 1):
                for IE in (0, 1):
                    ill = S > E >= 0
                    for k in range(1 if ill else per):
                        C = rng.choice("aaaabbz")
                        R = rng.choice("  aabbz")
                        s = -rng.randint(1, 9) if S == -1 and rng.random() < .3 else S
                        e = -rng.randint(1, 9) if E == -1 and rng.random() < .5 else E
                        out.append((C, s, IS, e, IE, R))
    for S, E in ((9, 10), (10, 10), (59, 61), (3600, 3600), (86400, 90000), (10 ** 7, 10 ** 7 + 1), (2 ** 33, 2 ** 33 + 2), (2 ** 32 - 1, -1), (300, -1)):
        out += [(rng.choice("ab"), S, i >> 1, E, i & 1, rng.choice(" ab")) for i in range(4)]
    for E in (7, 60, 100000, 10 ** 9):
        out += [(rng.choice("ab"), rng.choice((-1, 0, 2, 5)), rng.randint(0, 1), E, rng.randint(0, 1), rng.choice(" ab")) for _ in range(3)]
    out += [(" ", -2, 0, -1, 0, " ")] * 2 + [("a", -1, 0, -1, 0, "a"), ("a", -1, 0, -1, 0, "b"), ("z", -1, 0, -1, 0, "a"), ("a", -1, 0, -1, 0, " ")]
    rng.shuffle(out)
    return [("'%s', %d, %s, %d, %s, '%s'" % (C, S, b(IS), E, b(IE), R)) for C, S, IS, E, IE, R in out]


def sources(ctx, kinds, cfg, nb):
    src = open(os.path.join(W, "timed.rs")).read()
    bins = {}
    for i in range(nb):
        cases = []
        for j, c in enumerate(cfg[i::nb]):
            for k in kinds:
                nm = f'"{k} <{c}>"'
                if k in ("Send", "SendNr", "Left", "Right"):
                    call = f"send_case::<{c}>(rng, st, {nm}, Op::{k})"
                elif k == "closed":
                    call = f"closed_case::<{c}>(rng, st, {nm})"
                elif k == "lapse":
                    call = f"lapse_case::<{c}>(rng, st, {nm})"
                elif k == "wait":
                    call = f"wait_case::<{c}>(rng, st, {nm})"
                else:
                    call = f"recv_case::<{c}>(rng, st, {nm}, {'true' if k == 'offer' else 'false'})"
                cases.append(f"Case {{ name: {nm}, f: |rng, st| {call} }}")
        bins[f"t{i}"] = prelude() + src + "\nfn main() { case_loop(vec![\n" + ",\n".join(cases) + "\n], 1); }\n"
    return bins


def build(ctx, kinds, per, nb=8):
    cfg = configs(ctx.rng, per)
    ctx.extra["configurations"] = len(cfg)
    return ctx.build("timed", sources(ctx, kinds, cfg, nb))[1]


OPS = ["Send", "SendNr", "Left", "Right", "recv", "offer"]
RULE = ("Each evaluation performs one timed operation of a randomly positioned set of clocks; configurations cover all combinations of lower/upper bound in "
        "{none,0..4} and inclusion flags, with declared/missing clocks and resets. distinct_nontrivial counts distinct (configuration, operation, outcome, "
        "quarter-second clock position, peer state). Operations whose window boundary falls inside the call are counted as undecided and not judged.")


def sessions(ctx, styles, classes):
    """the same property on whole timed sessions: two-party, generated multiparty and interleaved ones"""
    from timed_mp import mods_for, binary
    from interleaved import add_pair
    from harness import pack
    rng, q = ctx.rng, ctx.quick
    bins, tag = {}, ctx.pid.lower()
    for style in styles:
        mods = mods_for(ctx, style, (2, 3) if q else (2, 3, 4), f"{tag}{style}")
        binary(ctx, mods, style, 1 if q else 3, f"{tag}{style}b")
        if style == "loose":
            add_pair(rng, mods, f"{tag}_il", 2, 3, rng.randrange(2), rng.randrange(3), True)
        bins.update(pack(mods, 3 if len(styles) > 1 or style == "loose" else 2, style))
        ctx.add("timed_session_programs", len(mods))
    n = len(ctx.viols)
    exes = ctx.build("sessions", bins)[1]
    for style in styles:
        e = {b: x for b, x in exes.items() if b.startswith(style)}
        if e:
            ctx.run_vmon(e, ["--faults"] + (["--gates"] if style == "loose" else []), (7 if q else 80), workers=3 if style == "loose" else 10)
    if classes:
        ctx.viols = ctx.viols[:n] + [v for v in ctx.viols[n:] if v["class"] in classes + ("compile", "crash", "deadlock")]


SESSIONS = " Whole timed sessions (two-party, multiparty, interleaved) with operations inside and outside their windows are judged by the session oracle and the clock monitor as well."


def check_T01(ctx):
    ctx.rule = RULE + SESSIONS
    ctx.run_vmon(build(ctx, OPS, 2 if ctx.quick else 6), [], 10 if ctx.quick else 120, workers=1)
    ctx.viols = [v for v in ctx.viols if v["class"] != "clock"]     # T03's business
    sessions(ctx, ["loose"], ("nofault-err", "lost", "order", "payload", "send-fail", "send-unfailed", "join", "branch", "close"))


def check_T02(ctx):
    ctx.rule = ("Each evaluation blocks a timed receive or offer (3-143 ms, sometimes seconds) before the end of its window (or with no upper end) while a peer sends before, around or after "
                "the end, dies before or after it, or stays silent; every outcome is judged from call/return time stamps." + SESSIONS)
    ctx.run_vmon(build(ctx, ["wait", "closed"], 2 if ctx.quick else 6), [], 10 if ctx.quick else 200, workers=12, parallel=8)
    sessions(ctx, ["tight", "loose"], ())


def check_T03(ctx):
    ctx.rule = RULE + SESSIONS + " Judged here: the set of clocks is unchanged, and exactly the declared clock moved, to an instant inside the call, exactly when the operation succeeded."
    ctx.run_vmon(build(ctx, OPS, 2 if ctx.quick else 6), [], 10 if ctx.quick else 120, workers=1)
    ctx.viols = [v for v in ctx.viols if v["class"] in ("clock", "compile")]     # the rest is T01's business
    sessions(ctx, ["loose"], ("clock",))
