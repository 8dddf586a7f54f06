"""X01: TCP and UDP sessions against a raw peer."""
import os
from harness import prelude
W = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "workloads")


def check_X01(ctx):
    ctx.level = "fault_enumeration"
    ctx.rule = ("Each evaluation is one session over a loopback TCP connection or UDP socket: both local endpoints and a raw peer that echoes, injects, fragments or dies, "
                "with a random label script, random use of the socket per message and one side stopping at a random operation; every result is checked against the "
                "script, the raw peer's record of bytes against the blocks sent, and the release of the connection by the raw peer's end of file. "
                "distinct_nontrivial counts distinct (labels, socket use, peer mode, stop) combinations.")
    d, exes = ctx.build("transport", {"transport": prelude() + open(os.path.join(W, "transport.rs")).read()})
    if exes:
        exes = {f"transport{i}": exes["transport"] for i in range(2)}
        ctx.run_vmon(exes, [], 12 if ctx.quick else 200, workers=8)
