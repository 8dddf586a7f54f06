"""C01: the communication graphs and automata extracted by the bottom-up checker, compared with the
automaton of each role derived from the protocol the endpoint types were generated from."""
import json, os, random, shutil, stat, subprocess
import crate
from harness import prelude, NCPU
from protogen import Proto, Baking, rand_enum, rand_msgs, lr_tree, linear, all_pairs, others, cover_enum

EXTRA = ["Vec<Tok>", "[Tok; 3]", "&'static str", "&'static Tok", "HashMap<String, u8>", "NameTag", "UserName", "Result<u8, ()>", "(u8, (Tok, String), i32)", "Option<(u8, u8)>",
         "[u8; 128]", "Box<[Tok]>", "Sender", "RoleModel", "Wrap<NameTag>", "Wrap<(NameTag, u8)>"]
NAMES = [list("ABCDEFGH"), list("ACFKMPRZ"), ["Alice", "Bob", "Carol", "Dave", "Eve", "Frank", "Grace", "Heidi"], ["P1", "P2", "P3", "P4", "P5", "P6", "P7", "P8"],
         ["A", "Ab", "Abc", "B", "Ba", "C", "Ca", "D"], ["Client", "Server", "Worker", "Zed", "Zee", "Zoo", "Zow", "Zy"], ["Aa", "Ab", "Name", "Role", "T0", "T1", "V", "W"]]


def label(ty):
    """how the checker is to print a payload type"""
    return "".join(ty.replace("&'static ", "").split())


def pay(rng):
    from protogen import rtype
    return rng.choice(EXTRA) if rng.random() < .3 else rtype(rng)


def repay(rng, P):
    P.nodes = [([(a, b, pay(rng)) for a, b, _ in ms], t) for ms, t in P.nodes]
    return P


def mixed(rng, name, n, nn):
    P = rand_enum(rng, name, n, nn)
    nodes = []
    for i, (ms, t) in enumerate(P.nodes):
        ms = ms[:rng.randint(0, 4)]
        if t[0] == "choice":
            style = "enum"
            tg = list(t[2])
            if rng.random() < .35 and i < len(P.nodes) - 2:
                tg = [rng.randint(i + 1, len(P.nodes) - 1), i + 1]
                rng.shuffle(tg)
                style = "lr"
            t = ("choice", t[1], tg, 0, style)
        nodes.append((ms, t))
    P.nodes = nodes
    return P


class Gen(Baking):
    def header(self, P):
        return super().header(P) + ["use std::collections::HashMap;", "pub struct NameTag;", "pub struct UserName;", "pub struct Sender;", "pub struct RoleModel;", "pub struct Wrap<T>(T);"]

    def module(self, P, rng):
        out = [f"pub mod {P.name} {{"]
        out += self.header(P) + self.types(P)
        groups = []
        for i, (_, t) in enumerate(P.nodes):
            if t[0] == "choice" and t[4] == "enum":
                for k, tgt in enumerate(t[2]):
                    es = [f"E{i}_{r}, L{k}" for r in others(P.n, t[1])]
                    rng.shuffle(es)
                    groups.append((f"T{tgt}_{t[1]}", es))
        rng.shuffle(groups)
        if groups:
            out.append("mpstthree::checker_concat_impl!(" + ", ".join("[" + ", ".join(e) + "]" for _, e in groups) + ");")
        ends = [f"T0_{r}" for r in range(P.n)]
        rng.shuffle(ends)
        br = " => " + ", ".join(f"[{t}, " + ", ".join(e) + "]" for t, e in groups) if groups else ""
        out.append(f"pub fn run(file: &str) -> Result<(HashMap<String, petgraph::Graph<String, String>>, Option<i32>), Box<dyn std::error::Error>> {{\n    mpstthree::checker_concat!(file, {', '.join(ends)}{br})\n}}")
        out.append("}")
        return "\n".join(out)


MAIN = r'''
fn q(s: &str) -> String { vmon::json::esc(s) }
fn show(name: &str, i: usize, file: &str, f: fn(&str) -> Result<(std::collections::HashMap<String, petgraph::Graph<String, String>>, Option<i32>), Box<dyn std::error::Error>>) {
    use petgraph::visit::EdgeRef;
    let r = std::panic::catch_unwind(|| f(file).map_err(|e| e.to_string()));
    let body = match r {
        Err(e) => format!("\"panic\":{}", q(e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?"))),
        Ok(Err(e)) => format!("\"error\":{}", q(&e)),
        Ok(Ok((g, k))) => {
            let gs: Vec<String> = g.iter().map(|(r, g)| {
                let ns: Vec<String> = g.node_weights().map(|w| q(w)).collect();
                let es: Vec<String> = g.edge_references().map(|e| format!("[{},{},{}]", e.source().index(), e.target().index(), q(e.weight()))).collect();
                format!("{}:{{\"nodes\":[{}],\"edges\":[{}]}}", q(r), ns.join(","), es.join(","))
            }).collect();
            format!("\"kmc\":{},\"graphs\":{{{}}}", k.map(|k| k.to_string()).unwrap_or("null".into()), gs.join(","))
        }
    };
    println!("@@{{\"name\":{},\"round\":{i},{body}}}", q(name));
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let rounds: usize = a[1].parse().unwrap();
    let file = a.get(2).cloned().unwrap_or_default();
    let only = a.get(3).cloned();
'''


# ---------------------------------------------------------------- automata
class Nfa:
    def __init__(self):
        self.start, self.edges, self.eps, self.final = None, {}, {}, set()

    def closure(self, ss):
        st, out = list(ss), set(ss)
        while st:
            for t in self.eps.get(st.pop(), ()):
                if t not in out:
                    out.add(t)
                    st.append(t)
        return frozenset(out)

    def step(self, ss):
        out = {}
        for s in ss:
            for l, t in self.edges.get(s, ()):
                out.setdefault(l, set()).add(t)
        return {l: self.closure(t) for l, t in out.items()}


def spec(P, r, names):
    a = Nfa()
    a.start = (0, 0)
    for i, (ms, t) in enumerate(P.nodes):
        for j, (x, y, ty) in enumerate(ms):
            if r == x:
                a.edges.setdefault((i, j), []).append((f"Role{names[x]}!Role{names[y]}: {label(ty)}", (i, j + 1)))
            elif r == y:
                a.edges.setdefault((i, j), []).append((f"Role{names[y]}?Role{names[x]}: {label(ty)}", (i, j + 1)))
            else:
                a.eps.setdefault((i, j), []).append((i, j + 1))
        e = (i, len(ms))
        if t[0] == "end":
            a.final.add(e)
        else:
            a.eps.setdefault(e, []).extend((k, 0) for k in t[2])
    return a


def coarse(P, r, names):
    """what a role's graph accepts when choices are not nodes of their own: two choices with no action of the
    role between them share a node, so that going back to the second one also offers the branches of the first"""
    a = Nfa()
    a.start = 0
    cnt = [0]

    def new():
        cnt[0] += 1
        return cnt[0]

    def expand(i, g, seen):
        ms, t = P.nodes[i]
        for x, y, ty in ms:
            if r in (x, y):
                h = new()
                a.edges.setdefault(g, []).append((f"Role{names[r]}{'!' if r == x else '?'}Role{names[y if r == x else x]}: {label(ty)}", h))
                g = h
        if t[0] == "end":
            h = new()
            a.final.add(h)
            a.eps.setdefault(g, []).append(h)
        elif t[4] == "enum":
            if i in seen:
                a.eps.setdefault(g, []).append(seen[i])
            else:
                for k in t[2]:
                    expand(k, g, {**seen, i: g})
        else:
            for k in t[2]:
                expand(k, g, seen)
    expand(0, 0, {})
    return a


def of_graph(g):
    """automaton of an extracted graph, or a complaint about its shape"""
    a = Nfa()
    a.start = 0
    out = {}
    for x, y, l in g["edges"]:
        out.setdefault(x, []).append((y, l))
    for x, es in out.items():
        for y, l in es:
            if l == "0":
                if out.get(y):
                    return None, f"terminal node {y} has outgoing edges"
                a.final.add(y)
                a.eps.setdefault(x, []).append(y)
            elif l == "µ":
                if y > x:
                    return None, f"recursion edge {x} -> {y} does not go back"
                a.eps.setdefault(x, []).append(y)
            else:
                a.edges.setdefault(x, []).append((l, y))
    seen, st = {0}, [0]
    while st:
        for y, _ in out.get(st.pop(), ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    if len(seen) != len(g["nodes"]):
        return None, f"{len(g['nodes']) - len(seen)} nodes cannot be reached from the start"
    return a, None


def of_cfsm(text, names):
    """{role: automaton} of a cfsm file (transitions `from peer dir payload to`)"""
    res = {}
    for idx, blk in enumerate(b for b in text.split(".outputs\n")[1:]):
        lines = [l for l in blk.splitlines() if l.strip()]
        mark = [l for l in lines if l.startswith(".marking ")]
        if len(mark) != 1 or lines[0] != ".state graph" or lines[-1] != ".end":
            return None, f"machine {idx} is ill-formed"
        role = mark[0].split()[1][:-1]
        a = Nfa()
        a.start = 0
        for l in lines[1:-2]:
            src, peer, d, ty, dst = l.split(" ")
            if not (src.startswith(role) and dst.startswith(role)) or d not in "!?":
                return None, f"transition {l} of {role}"
            a.edges.setdefault(int(src[len(role):]), []).append((f"{role}{d}Role{names[int(peer)]}: {ty}", int(dst[len(role):])))
        if role != "Role" + names[idx]:
            return None, f"machine {idx} is that of {role}"
        res[role] = a
    return res, None


def differ(a, b, final=True, cap=20000):
    """a shortest word on which the two automata disagree, or None; number of state pairs seen"""
    s = (a.closure([a.start]), b.closure([b.start]))
    seen, todo = {s}, [(s, ())]
    while todo:
        nxt = []
        for (x, y), w in todo:
            if final and bool(x & a.final) != bool(y & b.final):
                return (w, "may stop here" if x & a.final else "must not stop here"), len(seen)
            ex, ey = a.step(x), b.step(y)
            for l in ex.keys() | ey.keys():
                if l not in ex or l not in ey:
                    return (w + (l,), "is possible" if l in ex else "is not possible"), len(seen)
                p = (ex[l], ey[l])
                if p not in seen:
                    if len(seen) > cap:
                        return None, len(seen)
                    seen.add(p)
                    nxt.append((p, w + (l,)))
        todo = nxt
    return None, len(seen)


KMC = """#!/bin/sh
# stand-in for the model checker: refuses every bound below the one asked for
echo "$1 $2 $3" >> "$KMC_LOG"
if [ "$2" -lt "$KMC_AT" ]; then echo "False"; else echo "True"; fi
"""


def programs(ctx):
    rng = ctx.rng
    ps = []
    reps = 4 if ctx.quick else 20

    def add(P, mode):
        names = rng.choice(NAMES)[:]
        pick = sorted(rng.sample(range(len(names)), P.n))
        ps.append((repay(rng, P), Gen(mode, letters=[names[i] for i in pick])))
    # the listed finding, in its smallest form
    ps.append((Proto("two_choices_in_a_row", 3, [([], ("choice", 0, [4, 1], 0, "enum")), ([], ("choice", 0, [3, 2], 1, "enum")), ([], ("end",)),
                                                 ([(1, 2, "u64")], ("choice", 0, [1, 2], 1, "enum")), ([(1, 2, "i32")], ("end",))]), Gen("rec_and_cancel", letters=list("ABC"))))
    for rep in range(reps):
        for n in [2, 3, 4, 5]:
            add(linear(rng, f"c{rep}_lin{n}", n, rng.randint(2, 8)), "basic")
        for n in [3, 3, 4]:
            add(lr_tree(rng, f"c{rep}_lr{n}_{len(ps)}", n, [rng.randrange(n) for _ in range(rng.randint(1, 3))], allp=False), "basic")
        for n in [2, 3, 3, 3, 4, 4, 5]:
            add(rand_enum(rng, f"c{rep}_en{n}_{len(ps)}", n, rng.randint(1, 4)), "rec_and_cancel")
        for n in [3, 3, 4]:
            add(mixed(rng, f"c{rep}_mix{n}_{len(ps)}", n, rng.randint(2, 4)), "rec_and_cancel")
        add(cover_enum(rng, f"c{rep}_cov", 3), "rec_and_cancel")
    return ps


def check_C01(ctx):
    ctx.level = "exploration"
    ctx.rule = ("Each evaluation is one run of the checker on the endpoint types of a generated protocol; every role's graph is determinised and compared with the automaton of that role "
                "built from the protocol description (labels, directions, roles, payload names, stopping points; recursion edges go back, terminal nodes are final, no unreachable nodes). "
                "Runs are repeated because the checker iterates hash maps. distinct_nontrivial counts distinct (protocol, role) automata compared.")
    ps = programs(ctx)
    ctx.extra["programs"] = len(ps)
    nb = min(8, len(ps))
    bins = {}
    for b in range(nb):
        part = ps[b::nb]
        src = prelude() + "\n".join(g.module(P, ctx.rng) for P, g in part) + MAIN
        src += "    for i in 0..rounds {\n" + "\n".join(f'        if only.as_deref().is_none_or(|o| o == "{P.name}") {{ show("{P.name}", i, &file, {P.name}::run); }}' for P, _ in part) + "\n    }\n}\n"
        bins[f"checking{b}"] = src
    d, exes = ctx.build("checking", bins)
    byname = {P.name: (P, g.letters) for P, g in ps}
    rounds = 12 if ctx.quick else 60
    res = ctx.run_all([(b, [e, str(rounds)], 300) for b, e in exes.items()])
    states = set()
    for b, (rc, out) in sorted(res.items()):
        if rc != 0:
            ctx.violation(b, "crash", f"the checker workload ended with {rc}", dict(output=out[-2000:]))
            continue
        for line in out.splitlines():
            if not line.startswith("@@"):
                continue
            o = json.loads(line[2:])
            ctx.evaluations += 1
            P, names = byname[o["name"]]
            detail = dict(protocol=P.nodes, roles=names, run=o)
            if "graphs" not in o:
                ctx.violation(P.name, "rejected", f"the checker gave no graphs: {o.get('panic') or o.get('error')}", detail)
                continue
            if o["kmc"] is not None or set(o["graphs"]) != {"Role" + names[r] for r in range(P.n)}:
                ctx.violation(P.name, "roles", f"graphs of {sorted(o['graphs'])}, bound {o['kmc']}", detail)
                continue
            for r in range(P.n):
                g, why = of_graph(o["graphs"]["Role" + names[r]])
                ctx.add("graphs_compared")
                if g is None:
                    ctx.violation(P.name, "shape", f"graph of Role{names[r]}: {why}", detail)
                    continue
                ctx.add("edges_seen", len(o["graphs"]["Role" + names[r]]["edges"]))
                w, n = differ(g, spec(P, r, names))
                ctx.add("state_pairs_compared", n)
                states.add((P.key(), r))
                if w and differ(g, coarse(P, r, names))[0] is None:
                    ctx.add("coarse_graphs")
                    ctx.violation(P.name, "coarse-choices", f"graph of Role{names[r]}: two choices in a row share a node; after {list(w[0])} the graph and the type disagree (in the graph this {w[1]})", detail)
                elif w:
                    ctx.violation(P.name, "language", f"graph of Role{names[r]}: after {list(w[0])} the graph and the type disagree (in the graph this {w[1]})", detail)
    # ---- automata handed to the model checker, which is replaced by a stand-in
    base = os.path.join(crate.BUILD, f"C01_kmc")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    kmc = os.path.join(base, "KMC")
    open(kmc, "w").write(KMC)
    os.chmod(kmc, 0o755)
    jobs = []
    for i, (P, g) in enumerate(ps):
        exe = exes.get(f"checking{i % nb}")
        if exe:
            w = os.path.join(base, P.name, "mpst_rust_github")
            os.makedirs(os.path.join(w, "outputs"))
            jobs.append((P, g.letters, exe, w, [1, 1, 2, 3, 7, 49, 50, 60][i % 8]))

    def kmcrun(j):
        P, names, exe, w, at = j
        e = dict(os.environ, PATH=base + ":" + os.environ["PATH"], KMC_AT=str(at), KMC_LOG=os.path.join(w, "log"))
        p = subprocess.run([exe, "1", "proto", P.name], cwd=w, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        return p.returncode, p.stdout
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(kmcrun, jobs))
    for (P, names, exe, w, at), (rc, out) in zip(jobs, outs):
        lines = [l for l in out.splitlines() if l.startswith("@@")]
        o = json.loads(lines[0][2:]) if lines else {}
        ctx.evaluations += 1
        ctx.add("automata_runs")
        detail = dict(protocol=P.nodes, roles=names, run=o, bound=at)
        if "graphs" not in o:
            ctx.violation(P.name, "rejected", f"with a file name, the checker gave no graphs: {o.get('panic') or o.get('error')}", detail)
            continue
        want = at if at <= 50 else None
        if o["kmc"] != want:
            ctx.violation(P.name, "bound", f"the model checker accepts from bound {at} on, the checker reports {o['kmc']}", detail)
        calls = [l.split() for l in open(os.path.join(w, "log")).read().splitlines()]
        if calls != [["cfsm/proto.txt", str(k), "--fsm"] for k in range(1, min(at, 50) + 1)]:
            ctx.violation(P.name, "bound", f"the model checker was asked {calls[:3]}.. ({len(calls)} times)", detail)
        text = open(os.path.join(w, "cfsm", "proto.txt")).read()
        detail["cfsm"] = text
        ms, why = of_cfsm(text, names)
        if ms is None or len(ms) != P.n:
            ctx.violation(P.name, "cfsm", f"automata file: {why or sorted(ms)}", detail)
            continue
        for r in range(P.n):
            ctx.add("automata_compared")
            m, n = differ(ms["Role" + names[r]], spec(P, r, names), final=False)
            if m and differ(ms["Role" + names[r]], coarse(P, r, names), final=False)[0] is None:
                ctx.add("coarse_automata")
                ctx.violation(P.name, "coarse-choices", f"automaton of Role{names[r]}: two choices in a row share a state; after {list(m[0])} it and the type disagree (in the file this {m[1]})", detail)
            elif m:
                ctx.violation(P.name, "cfsm", f"automaton of Role{names[r]}: after {list(m[0])} it and the type disagree (in the file this {m[1]})", detail)
    shutil.rmtree(base, ignore_errors=True)
    ctx.distinct = len(states)
