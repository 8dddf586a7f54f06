"""S01: programs that deviate from their session types. Every program here is the monitored form of a generated protocol
with one deviation planted in one participant. None of them may come into being; one that does is run under the monitors
and what it does is recorded with the violation. The unchanged program must be accepted."""
import json, os, re, subprocess, time
import crate
from protogen import *
from handgen import *
from harness import prelude, Inconclusive
from mpst import letters, MODES

# a deviation must be refused because of its types, ownership or missing operations - anything else is a fault of this generator
REFUSALS = {"E0308", "E0277", "E0599", "E0382", "E0271", "E0282", "E0283", "E0061", "E0505", "E0507", "E0631", "E0284", "E0053"}
NOBODY = (77, 78)


def base(rng, name, n):
    """all ordered pairs once, each with its own payload type"""
    ps = [(p, q) for p in range(n) for q in range(n) if p != q]
    rng.shuffle(ps)
    ts = rng.sample(TYPES, len(TYPES))
    return Proto(name, n, [([(p, q, ts[i % len(ts)]) for i, (p, q) in enumerate(ps)] + [(b, a, rtype(rng)) for a, b in rng.sample(ps, min(2, len(ps)))], ("end",))])


def branching(rng, name, n, style, p):
    q = (p + rng.randint(1, n - 1)) % n
    a, b = rng.sample(TYPES, 2)
    # the ordered pairs first, so that every operation exists
    first = base(rng, name, n).nodes[0][0]
    return Proto(name, n, [(first, ("choice", p, [1, 2], 0, style)), ([(p, q, a)], ("end",)), ([(q, p, b)], ("end",))]), q


def mine(line, r):
    return re.match(rf"(type|enum|unsafe impl std::marker::Send for) [STE]\d+_{r}\b", line)


class Mod:
    """the pieces of one program; role r may take its types and/or functions from another protocol"""
    def __init__(self, B, P, name):
        self.B, self.P, self.name = B, P, name
        if hasattr(B, "plan"):
            B.plan(P)

    def text(self, r=None, types=None, body=None, stack=None, edit=None, perm=None, head=None):
        B, P = self.B, self.P
        ty = B.types(P)
        for src, pat in ((types, "[STE]"), (stack, "S")):
            if src is not None:
                alt = {l.split("=")[0].split("{")[0]: l for l in B.types(src) if mine(l, r) and re.match(rf"\w+ {pat}", l)}
                ty = [alt.get(l.split("=")[0].split("{")[0], l) for l in ty]
        out = [f"pub mod {self.name} {{"] + B.header(P) + ty
        for i in range(len(P.nodes)):
            for x in range(P.n):
                f = B.fn(body if body is not None and x == r else P, i, x)
                if edit and x == r:
                    f = edit(i, f)
                out += f
        if perm:
            keep = B.role_closure
            B.role_closure = lambda P, x: keep(P, perm[x])
        out += B.runfn(P)
        if perm:
            del B.role_closure
        out += B.statics(P) + ["}"]
        return "\n".join(out)


def vary(P, idx, m):
    ms = list(P.nodes[0][0])
    if m is None:
        ms[idx] = (*NOBODY, ms[idx][2])
    elif idx == len(ms):
        ms.append(m)
    else:
        ms[idx] = m
    return Proto(P.name, P.n, [(ms, P.nodes[0][1])] + P.nodes[1:])


def swapped(P, i, j):
    ms = list(P.nodes[0][0])
    ms[i], ms[j] = ms[j], ms[i]
    return Proto(P.name, P.n, [(ms, P.nodes[0][1])] + P.nodes[1:])


def deviations(rng, B, P, named):
    """(kind, description, keyword arguments of Mod.text)"""
    ms = P.nodes[0][0]
    out = []

    def take(r=None):
        r = rng.randrange(P.n) if r is None else r
        return r, rng.choice([i for i, m in enumerate(ms) if r in m[:2]])

    def other(t):
        return rng.choice([x for x in TYPES if x != t])
    timed = hasattr(B, "plan")
    # the participant follows a protocol of its own, types and all: not dual to its peers
    for what in ("payload", "direction", "missing", "extra"):
        r, i = take()
        a, b, t = ms[i]
        q = a + b - r
        m = {"payload": (a, b, other(t)), "direction": (b, a, t), "missing": None, "extra": rng.choice([(r, q, t), (q, r, t)])}[what]
        j = len(ms) if what == "extra" else i
        if timed and what == "extra":
            B.cons[0, j] = (" ", -1, 0, -1, 0, " ")
        v = vary(P, j, m)
        out.append((f"dual-{what}", f"role {r} and its endpoint type have {what} at message {i} {ms[i]}", dict(r=r, types=v, body=v)))
        r, i = take()
        a, b, t = ms[i]
        q = a + b - r
        m = {"payload": (a, b, other(t)), "direction": (b, a, t), "missing": None, "extra": rng.choice([(r, q, t), (q, r, t)])}[what]
        j = len(ms) if what == "extra" else i
        if timed and what == "extra":
            B.cons[0, j] = (" ", -1, 0, -1, 0, " ")
        out.append((f"body-{what}", f"role {r} deviates from its type: {what} at message {i} {ms[i]}", dict(r=r, body=vary(P, j, m))))
    # order
    for _ in range(2):
        r = rng.randrange(P.n)
        idx = [i for i, m in enumerate(ms) if r in m[:2]]
        # neighbours in the role's view, of different direction or payload
        c = [(i, j) for i, j in zip(idx, idx[1:]) if (ms[i][0] == r) != (ms[j][0] == r) or ms[i][2] != ms[j][2]]
        if c:
            i, j = rng.choice(c)
            out.append(("body-order", f"role {r} performs messages {i} and {j} in the other order", dict(r=r, body=swapped(P, i, j))))
        c = [(i, j) for i, j in zip(idx, idx[1:]) if sum(ms[i][:2]) != sum(ms[j][:2]) and ((ms[i][0] == r) != (ms[j][0] == r) or ms[i][2] != ms[j][2])]
        if c and named:
            i, j = rng.choice(c)
            if timed:
                continue
            out.append(("stack-order", f"the stack of role {r} has messages {i} and {j} in the other order", dict(r=r, stack=swapped(P, i, j))))
    if named:
        r = rng.randrange(P.n)
        last = max(i for i, m in enumerate(ms) if r in m[:2])
        out.append(("stack-short", f"the stack of role {r} lacks its last message", dict(r=r, stack=vary(P, last, None))))
        r, i = take()
        out.append(("stack-long", f"the stack of role {r} has one entry too many", dict(r=r, stack=vary(P, len(ms), ms[i]))))
        # every operation must look at the stack
        if P.n > 2:
            for r in range(P.n):
                for i, (a, b, t) in enumerate(ms):
                    if r in (a, b):
                        x = rng.choice([y for y in range(P.n) if y not in (a, b)])
                        v = vary(P, i, (r, x, t) if a == r else (x, r, t))
                        out.append(("stack-wrong", f"the stack of role {r} names role {x} for message {i} {ms[i]}", dict(r=r, stack=v)))
        a, b = rng.sample(range(P.n), 2)
        perm = list(range(P.n))
        perm[a], perm[b] = b, a
        if P.n > 2:     # between two, endpoints exchanged are dual again
            out.append(("place", f"role {a} is connected in the place of role {b} and conversely", dict(perm=perm)))
    # ownership
    for k, st in (("moved", "let twice = s;"), ("cloned", "let twice = s.clone();")):
        r, i = take()

        def edit(node, f, st=st, i=i):
            j = next(n for n, l in enumerate(f) if re.search(rf"cx\.call_(send|recv)\({i}, ", l))
            return f[:j] + ["    " + st] + f[j:]
        out.append((f"own-{k}", f"role {r} keeps its session (`{st}`) at message {i} and goes on with it", dict(r=r, edit=edit)))
    # payloads that must stay in their thread
    r, i = take()
    out.append(("thread-bound", f"message {i} has a payload that must not leave its thread", dict(whole=vary(P, i, (*ms[i][:2], "std::rc::Rc<u64>")))))
    if timed:
        out.append(("dual-constraint", f"role {r} declares another time constraint for message {i}", dict(r=r, cons=i)))
    return out


def choices(rng, B, P, q):
    out = []
    p = P.nodes[0][1][1]
    for r, what in ((p, "selects a branch and continues in the other"), (q, "enters the wrong branch")):
        def edit(node, f, r=r):
            if node:
                return f
            k = rng.randrange(2)
            g, n = [], 0
            for l in f:
                if (r == p and f"cx.call_choose({255}, {k})" in l) or (r != p and f"cx.branch({255}, {k});" in l):
                    l2 = l.replace(f"n{k + 1}_r{r}(", f"n{2 - k}_r{r}(").replace(f"T{k + 1}_{r}", f"T{2 - k}_{r}")
                    n += l2 != l
                    l = l2
                g.append(l)
            if not n and r != p:
                # left/right offers are on one line
                l = next(i for i, x in enumerate(g) if f"cx.branch({255}, {k});" in x)
                g[l] = re.sub(rf"cx\.branch\(255, {k}\);(.*?)n{k + 1}_r{r}\(", rf"cx.branch(255, {k});\1n{2 - k}_r{r}(", g[l])
            return g
        out.append(("branch", f"role {r} {what}", dict(r=r, edit=edit)))
    return out


def backends(ctx):
    rng = ctx.rng
    L = lambda: letters(rng)
    out = [(Binary(canceled_send=i == 1), 2, False) for i in range(2)] + [(BinaryTimed(rng, "loose"), 2, False)]
    for m in MODES:
        out += [(Baking(m, letters=L()), n, True) for n in ((2, 3) if ctx.quick else (2, 3, 4))]
    out += [(Atmp(rng, "loose", True, L()), n, True) for n in ((2, 3) if ctx.quick else (2, 3, 4))]
    out += [(BuiltinFn(), 3, True), (BuiltinMethod(), 3, True), (Simple(L(), True), 3, True), (Simple(L(), False), 3, True)]
    out += [(Multi(L(), c, k), n, True) for c, k, n in ((False, "plain", 3), (True, "cancel", 3), (False, "check", 4))]
    return out


def check(d, bins, target):
    """line numbers with errors, per binary: {bin: [(line, code, message)]}"""
    p = subprocess.run(["cargo", "check", "--offline", "--keep-going", "--message-format=json"], cwd=d, env=crate.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
    errs, done = {b: [] for b in bins}, set()
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            done.add(m["target"]["name"])
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        b = m["target"]["name"]
        if b not in errs:
            raise Inconclusive("the library or the monitor does not build: " + m["message"]["message"])
        x = m["message"]
        lines = set()

        def walk(s):
            if s["file_name"].endswith(f"{b}.rs"):
                lines.add(s["line_start"])
            if s.get("expansion"):
                walk(s["expansion"]["span"])
        for s in x["spans"]:
            if s["is_primary"]:
                walk(s)
        if lines:
            errs[b] += [(l, (x.get("code") or {}).get("code"), x["message"]) for l in lines]
        elif not x["message"].startswith(("aborting", "could not compile")) and x["spans"]:
            errs[b].append((0, (x.get("code") or {}).get("code"), x["message"]))
    if p.returncode and not any(errs.values()):
        print(p.stderr[-3000:])
        raise Inconclusive("the library or the monitor does not build")
    return errs, done


def check_S01(ctx):
    rng = ctx.rng
    ctx.rule = ("Each evaluation is one program: a generated protocol written for one interface, with one planted deviation (types not dual: payload, direction, missing, extra message or time "
                "constraint; participant deviating from its type: payload, direction, missing, extra, reordered operation, other branch; stack too short, too long, reordered; endpoints exchanged; "
                "session used twice or copied), or none. It is given to the compiler with the real library; a deviating program that comes into being is run under the history and deadlock "
                "monitors. distinct_nontrivial counts distinct (interface, deviation) pairs refused for a reason of types or ownership.")
    ctx.assumptions = ["a program that does not come into being has no executions; what the property promises about such programs is observed as the refusal itself"]
    progs = []      # (module name, interface, kind, description, text)
    k = 0
    for rep in range(1 if ctx.quick else 4):
        for B, n, named in backends(ctx):
            k += 1
            P = base(rng, f"s01_{k}", n)
            M = Mod(B, P, f"m{k}_ok")
            progs.append((M.name, B.mode, "none", "no deviation", M.text()))
            for j, (kind, desc, kw) in enumerate(deviations(rng, B, P, named)):
                M.name = f"m{k}_{j}"
                if "whole" in kw:
                    t = Mod.__new__(Mod)
                    t.B, t.P, t.name = B, kw["whole"], M.name
                    t = t.text()
                elif "cons" in kw:
                    i = kw.pop("cons")
                    types = B.types(P)
                    keep = B.cons[0, i]
                    c = list(keep)
                    if c[0] == " ":
                        c[0] = "a"
                    z = rng.randrange(3)
                    c[1 if z == 0 else 3] += 1 if c[1 if z == 0 else 3] >= 0 else -1
                    if z == 2:
                        c[5] = "b" if c[5] != "b" else "c"
                    B.cons[0, i] = tuple(c)
                    alt = [l for l in B.types(P) if mine(l, kw["r"])]
                    B.cons[0, i] = keep
                    t = M.text()
                    for l in alt:
                        old = next(x for x in types if x.split("=")[0] == l.split("=")[0])
                        t = t.replace("\n" + old + "\n", "\n" + l + "\n")
                else:
                    t = M.text(**kw)
                progs.append((M.name, B.mode, kind, desc, t))
            for style in ("enum", "lr"):
                if style == "lr" and isinstance(B, Multi) and not isinstance(B, (BuiltinFn, BuiltinMethod, Simple)):
                    p = n - 1
                else:
                    p = rng.randrange(n)
                P2, q = branching(rng, f"s01_{k}{style}", n, style, p)
                M2 = Mod(B, P2, f"m{k}_{style}_ok")
                progs.append((M2.name, B.mode, "none", "no deviation", M2.text()))
                for j, (kind, desc, kw) in enumerate(choices(rng, B, P2, q)):
                    M2.name = f"m{k}_{style}_{j}"
                    progs.append((M2.name, B.mode, kind + "-" + style, desc, M2.text(**kw)))
    # ownership is judged after types: those programs get files of their own
    groups = {"ok": [p for p in progs if p[2] == "none"], "own": [p for p in progs if p[2] == "own-moved"]}
    rest = [p for p in progs if p not in groups["ok"] and p not in groups["own"]]
    nb = 10 if ctx.quick else 30
    for i in range(nb):
        groups[f"dev{i}"] = rest[i::nb]
    bins, where = {}, {}
    for b, ps in groups.items():
        t = prelude()
        for p in ps:
            start = t.count("\n") + 1
            t += p[4] + "\n"
            where[p[0]] = (b, start, t.count("\n"))
        bins[b] = t + "\nfn main() { vmon::main_loop(vec![" + ", ".join(f"&{p[0]}::PROG" for p in ps) + "]) }\n"
    d = crate.write_crate("S01_ill", bins)
    t0 = time.time()
    errs, done = check(d, bins, None)
    ctx.log(f"{len(progs)} programs checked in {time.time() - t0:.1f}s")
    seen = set()
    suspects = []
    for p in progs:
        name, mode, kind, desc, text = p
        b, lo, hi = where[name]
        e = [x for x in errs[b] if lo <= x[0] <= hi]
        ctx.evaluations += 1
        if kind == "none":
            ctx.add("programs_without_deviation")
            if e:
                ctx.violation(f"{mode}", "compile", f"a well-typed program is refused ({mode}): {e[0][1]} {e[0][2]}", dict(errors=e[:5], program=text))
            continue
        ctx.add("programs_with_deviation")
        ctx.add("deviation:" + kind)
        if not e:
            suspects.append(p)
            continue
        bad = [x for x in e if x[1] not in REFUSALS]
        if bad and not [x for x in e if x[1] in REFUSALS]:
            print(name, mode, kind, desc, bad[:3])
            raise Inconclusive(f"program {name} ({kind}) is refused for another reason: {bad[0][1]} {bad[0][2]}")
        seen.add((mode, kind))
        for c in {x[1] for x in e}:
            ctx.add("refused_" + str(c))
    if not any(v["class"] == "compile" for v in ctx.viols) and "ok" not in done and not errs["ok"]:
        raise Inconclusive("the programs without deviation were not judged")
    ctx.distinct = len(seen)
    ctx.sample(f"{len(progs)} programs; refusals by interface and deviation: {sorted(seen)[:12]}")
    if suspects:
        accepted(ctx, suspects)
    copies(ctx)


def copies(ctx):
    """no endpoint of any interface can be copied, whatever the standard trait it would be copied by"""
    ts = ["End", "Send<i32, End>", "Recv<i32, End>", "Send<u8, Send<i32, End>>", "Send<i32, Recv<i32, End>>", "Recv<(), Send<i32, End>>", "Recv<u8, Recv<u8, End>>",
          "SendTimed<i32, 'a', 0, true, 1, true, ' ', End>", "RecvTimed<i32, 'a', 0, true, 1, true, ' ', End>", "SendTimed<i32, 'a', -1, false, 1, true, 'a', SendTimed<i32, 'a', 0, true, -1, false, ' ', End>>"]
    for m in ("MeshedChannels", "g1::M", "g2::M", "g3::M", "g4::M", "g5::M"):
        nm = "NameA" if m == "MeshedChannels" else m[:4] + "NameA"
        ts += [f"{m}<End, End, RoleEnd, {nm}>", f"{m}<Send<i32, End>, Send<i32, End>, RoleEnd, {nm}>", f"{m}<Recv<i32, End>, End, RoleEnd, {nm}>"]
    ts += [f"g6::M<End, End, RoleEnd, g6::NameA>", f"g6::M<{ts[7]}, {ts[8]}, RoleEnd, g6::NameA>"]
    head = """#![allow(warnings)]
use mpstthree::binary::struct_trait::{end::End, send::Send, recv::Recv};
use mpstthree::binary_atmp::struct_trait::{send::SendTimed, recv::RecvTimed};
use mpstthree::{meshedchannels::MeshedChannels, role::end::RoleEnd, name::a::NameA};
""" + "".join(f'mod g{i + 1} {{ use std::error::Error; mpstthree::generate!("{m}", M, A, B, C); }}\n' for i, m in enumerate(("basic", "recursive", "cancel", "rec_and_cancel"))) + """mod g5 { mpstthree::create_meshedchannels!(M, 3); mpstthree::create_multiple_normal_name!(NameA); }
mod g6 { use std::error::Error; mpstthree::generate_atmp!(M, A, B, C); }
fn copyable<T: Clone>() {}
"""
    text, where = head, {}
    for t in ts:
        where[text.count("\n") + 1] = t
        text += f"fn p{len(where)}() {{ copyable::<{t}>(); }}\n"
    text += "fn main() {}\n"
    errs, done = check(crate.write_crate("S01_copy", {"copies": text}), {"copies": text}, None)
    other = [x for x in errs["copies"] if x[0] not in where]
    if other:
        raise Inconclusive(f"the probes do not compile: {other[0]}")
    for line, t in where.items():
        ctx.evaluations += 1
        ctx.add("copy_probes")
        if not any(x[0] == line and x[1] == "E0277" for x in errs["copies"]):
            b = {"p": head + f"fn main() {{ copyable::<{t}>(); println!(\"copyable\"); }}\n"}
            ok, log = crate.build(crate.write_crate("S01_cp", b))
            out = subprocess.run([os.path.join(crate.TARGET, "debug", "p")], capture_output=True, text=True).stdout if ok else log
            if ok and "copyable" in out:
                ctx.violation("copy", "own-cloned", f"an endpoint of type {t} can be copied: two owners can use the same place of a protocol", dict(type=t, program=b["p"]))


def accepted(ctx, suspects):
    """programs without an error of their own: built alone, and run"""
    ctx.log(f"{len(suspects)} programs without a refusal: building them alone")
    suspects = suspects[:24]
    bins = {f"sus{i}": prelude() + p[4] + f"\nfn main() {{ vmon::main_loop(vec![&{p[0]}::PROG]) }}\n" for i, p in enumerate(suspects)}
    d = crate.write_crate("S01_sus", bins)
    ok, log = crate.build(d)
    jobs = []
    for i, p in enumerate(suspects):
        exe = os.path.join(crate.TARGET, "debug", f"sus{i}")
        if f'(bin "sus{i}")' in log and "could not compile" in log:
            m = re.search(r"error\[(E\d+)\]", log)
            ctx.add("refused_alone")
            continue
        o = os.path.join(crate.BUILD, f"S01_sus{i}.json")
        if os.path.exists(o):
            os.remove(o)
        jobs.append((i, [exe, "--seed", "1", "--secs", "1", "--workers", "1", "--out", o, "--property", "S01"], 60))
    res = ctx.run_all(jobs)
    for i, (rc, out) in res.items():
        name, mode, kind, desc, text = suspects[i]
        try:
            rep = json.load(open(os.path.join(crate.BUILD, f"S01_sus{i}.json")))
        except Exception:
            rep = {}
        does = "; ".join(sorted({v["class"] + ": " + v["msg"][:200] for v in rep.get("violations", [])})[:3]) or f"ended with {rc}"
        ctx.violation(mode, kind, f"a program that deviates from its types comes into being ({mode}): {desc}. Run: {does}", dict(program=text, run=rep.get("violations", [])[:2], output=out[-1500:]))
