#!/usr/bin/env python3
"""Runs one check:  check.py <PROPERTY> [--tier quick|thorough] [--seed N]

Builds the workloads from the current /repo, runs the real code under the monitors, writes
evidence/<PROPERTY>.json, prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything observed. 1: violated. 2: the check itself could not decide."""
import sys, os, argparse, json, time, importlib, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "gen"), os.path.join(V, "checks")]
import harness

MODS = {}
for line in open(os.path.join(V, "checks", "INDEX")):
    w = line.split()
    if len(w) == 2:
        MODS[w[0]] = w[1]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    ctx = harness.Ctx(pid, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed)
    mod = importlib.import_module(MODS[pid])
    try:
        getattr(mod, "check_" + pid)(ctx)
    except harness.Inconclusive as e:
        print(f"INCONCLUSIVE property={pid} {e}", flush=True)
        if any(not ctx.is_known(v) for v in ctx.viols):
            sys.exit(ctx.finish(time.time() - t0))      # what was seen before counts
        ctx.write_evidence(time.time() - t0, note=f"inconclusive: {e}")
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    rc = ctx.finish(time.time() - t0)
    sys.exit(rc)


main()
