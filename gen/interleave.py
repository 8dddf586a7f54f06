"""I01: one thread taking part in two sessions (generate!("interleaved" / "atmp_interleaved")), and
one thread driving all participants of one session (solo forks)."""
import re
from protogen import *
from handgen import Multi, Simple, BuiltinFn, BuiltinMethod, USES


def prefixed(k, lines):
    return [re.sub(r"\b([TSE]\d+_\d+)\b", rf"P{k}\1", re.sub(r"\b(n\d+_r\d+)\(", rf"p{k}_\1(", l)) for l in lines]


class Side(Baking):
    """one of the two sessions, untimed"""
    def __init__(self, k, rng, letters):
        super().__init__("rec_and_cancel", rng.random() < .5, letters)
        self.mc = ["MCX", "MCY"][k]


class SideT(Atmp):
    def __init__(self, k, rng, letters):
        super().__init__(rng, "loose", rng.random() < .5, letters)
        self.mc = ["MCX", "MCY"][k]


class Interleaved:
    def __init__(self, rng, name, P, shared, timed, letters):
        self.rng, self.name, self.P, self.i, self.timed = rng, name, P, shared, timed
        S = SideT if timed else Side
        self.B = [S(0, rng, letters), S(1, rng, letters[P[0].n:])]
        self.mode = "atmp_interleaved" if timed else "interleaved"
        self.thread = [[], []]  # role -> thread, per session
        t = 0
        for k in (0, 1):
            for r in range(P[k].n):
                if r == shared[k]:
                    self.thread[k].append(P[0].n + P[1].n - 2)
                else:
                    self.thread[k].append(t)
                    t += 1
        self.nth = t + 1
        self.cuts = {}

    # position of the shared participant in session k: ("n", node, cut) or None (closed)
    def mine(self, k, node):
        r = self.i[k]
        return [ix for ix, (a, b, _) in enumerate(self.P[k].nodes[node][0]) if r in (a, b)]

    def cut(self, k, node):
        m = self.mine(k, node)
        if (k, node) not in self.cuts:
            self.cuts[k, node] = self.rng.randint(0, len(m))
        return self.rng.choice([0, self.cuts[k, node], len(m)])

    def fname(self, st):
        return "sh_" + "_".join("x" if p is None else f"{p[0]}c{p[1]}" for p in st)

    def ty(self, k, p):
        node, c = p
        if not c:
            return f"P{k}T{node}_{self.i[k]}"
        # the type in front of message c: recomputed from a truncated node
        ms, term = self.P[k].nodes[node]
        cutix = self.mine(k, node)[c] if c < len(self.mine(k, node)) else len(ms)
        keep = [ix for ix in range(len(ms)) if ix >= cutix]
        return ("MID", node, keep)

    def args(self, st):
        a = []
        for k in (0, 1):
            if st[k] is not None:
                a.append(f"s{k}: {self.mid(k, st[k])}")
        a.append("cx: &Cx")
        if self.timed:
            a += [f"clk{k}: &mut Clk" for k in (0, 1) if st[k] is not None]
        return ", ".join(a)

    def mid(self, k, p):
        """type of the shared participant's session in the middle of a node"""
        node, c = p
        r, P, B = self.i[k], self.P[k], self.B[k]
        if c == 0:
            return f"P{k}T{node}_{r}"
        mine = self.mine(k, node)
        ms, term = P.nodes[node]
        first = mine[c] if c < len(mine) else len(ms)
        # drop the messages of r already performed; constraints keep their index
        keep = list(ms)
        for ix in mine[:c]:
            keep[ix] = (-1, -1, "u8")
        Q = Proto(P.name, P.n, list(P.nodes))
        Q.nodes[node] = (keep, term)
        ss = ", ".join(B.session(Q, node, r, q) for q in others(P.n, r))
        t = f"{B.mc}<{ss}, {B.stack(Q, node, r)}, {B.nm(r)}>"
        return prefixed(k, [t])[0]

    def call(self, st, over):
        a = []
        for k in (0, 1):
            if st[k] is not None:
                a.append(over.get(f"s{k}", f"s{k}"))
        a.append("cx")
        if self.timed:
            a += [over.get(f"clk{k}", f"clk{k}") for k in (0, 1) if st[k] is not None]
        return f"{self.fname(st)}({', '.join(a)})"

    def shared(self):
        out, seen, todo = [], set(), [((0, 0), (0, 0))]
        rng = self.rng
        while todo:
            st = todo.pop()
            if st in seen:
                continue
            seen.add(st)
            pos = [None if p is None else p[1] for p in st]
            node = [None if p is None else p[0] for p in st]
            o = [f"fn {self.fname(st)}({self.args(st)}) -> R {{"]
            live = [k for k in (0, 1) if st[k] is not None]
            t = rng.choice(live)          # the session whose terminator comes next
            stop = {t: len(self.mine(t, node[t]))}
            for k in live:
                if pos[k] == 0:
                    o += self.wrap(k, self.B[k].enter_lines(self.P[k], node[k], self.i[k]), False)
                if k != t:
                    stop[k] = max(pos[k], self.cut(k, node[k]))
            while any(pos[k] < stop[k] for k in live):
                k = rng.choice([k for k in live if pos[k] < stop[k]])
                ix = self.mine(k, node[k])[pos[k]]
                pos[k] += 1
                o += self.wrap(k, self.B[k].msg_lines(self.P[k], node[k], ix, self.i[k]))
            u = 1 - t
            other = None if st[u] is None else (node[u], pos[u])
            term = self.P[t].nodes[node[t]][1]
            lr_offer = term[0] == "choice" and term[4] == "lr" and term[1] != self.i[t]
            nexts = []

            def cont(x):
                ns = [None, None]
                ns[t], ns[u] = (x, 0), other
                ns = tuple(ns)
                nexts.append(ns)
                over = {f"s{t}": "s", f"clk{t}": "clk"}
                pre = ""
                if lr_offer and other is not None:
                    pre = f"let s{u} = cell_s.borrow_mut().take().unwrap(); "
                    if self.timed:
                        pre += f"let clk{u}: &mut Clk = cell_c.borrow_mut().take().unwrap(); "
                return pre + self.call(ns, over)
            lines = [x for x in self.B[t].term_lines(self.P[t], node[t], self.i[t], cont) if x]
            # the continuation is not part of the session's own names
            lines = prefixed(t, lines)
            o.append(f"    cx.set_sess({t}); let s = s{t};" + (f" let clk = &mut *clk{t};" if self.timed else ""))
            if lr_offer and other is not None:
                o.append(f"    let cell_s = std::cell::RefCell::new(Some(s{u}));" + (f" let cell_c = std::cell::RefCell::new(Some(clk{u}));" if self.timed else ""))
            if term[0] == "end":
                if other is None:
                    o += lines
                else:
                    ns = [None, None]
                    ns[u] = other
                    ns = tuple(ns)
                    nexts.append(ns)
                    lines[-1] += "?;"
                    o += lines + ["    " + self.call(ns, {})]
            else:
                o += lines
            o.append("}")
            out += o
            todo += nexts
        self.states = len(seen)
        return out

    def wrap(self, k, lines, moves=True):
        lines = [x for x in lines if x]
        if not lines:
            return []
        a = f"    cx.set_sess({k});" + (f" let s = s{k};" if moves else "") + (f" let clk = &mut *clk{k};" if self.timed else "")
        return [a] + prefixed(k, lines) + ([f"    let s{k} = s;"] if moves else [])

    def module(self):
        P, B, I = self.P, self.B, self.i
        L = lambda k: ", ".join(B[k].letters[r] for r in range(P[k].n))
        if self.timed:
            for k in (0, 1):
                B[k].plan(P[k])
        h = [x for x in B[0].header(P[0]) if not x.startswith("generate")]
        h = [x.replace("generate_atmp", "generate") for x in h]
        if not self.timed:
            h.append("use mpstthree::offer_mpst;")
        out = [f"pub mod {self.name} {{"] + h + [
            f'generate!("{self.mode}", MCX, {L(0)}, {I[0] + 1}, MCY, {L(1)}, {I[1] + 1}, fork_two);']
        for k in (0, 1):
            ls = B[k].types(P[k])
            for i in range(len(P[k].nodes)):
                for r in range(P[k].n):
                    if r != I[k]:
                        ls += B[k].fn(P[k], i, r)
            out += prefixed(k, ls)
        out += self.shared()
        cl = []
        for k in (0, 1):
            for r in range(P[k].n):
                if r != I[k]:
                    t = self.thread[k][r]
                    ins = "for c in ['a', 'b', 'c'] { clk.insert(c, std::time::Instant::now()); } " if self.timed else ""
                    cl.append(f"{{ let run = run.clone(); move |s: P{k}T0_{r}{', clk: &mut Clk' if self.timed else ''}| vmon::run_role(&run, {t}, |cx| {{ cx.set_sess({k}); {ins}p{k}_n0_r{r}(s, cx{', clk' if self.timed else ''}) }}) }}")
        if self.timed:
            cl.append(f"{{ let run = run.clone(); move |s0: P0T0_{I[0]}, clk0: &mut Clk, s1: P1T0_{I[1]}, clk1: &mut Clk| vmon::run_role(&run, {self.nth - 1}, |cx| {{ "
                      "for c in ['a', 'b', 'c'] { clk0.insert(c, std::time::Instant::now()); clk1.insert(c, std::time::Instant::now()); } sh_0c0_0c0(s0, s1, cx, clk0, clk1) }) }")
        else:
            cl.append(f"{{ let run = run.clone(); move |s0: P0T0_{I[0]}, s1: P1T0_{I[1]}| vmon::run_role(&run, {self.nth - 1}, |cx| sh_0c0_0c0(s0, s1, cx)) }}")
        hs = ", ".join(f"h{t}" for t in range(self.nth))
        j = ", ".join(f"h{t}.join().is_ok()" for t in range(self.nth))
        out += ["fn run(run: &std::sync::Arc<vmon::Run>) -> Vec<bool> {", f"    let ({hs}) = fork_two(\n        " + ",\n        ".join(cl) + ");", f"    vec![{j}]", "}"]
        for k in (0, 1):
            out += proto_static(P[k], B[k].fallible_send, True, f"PROTO{k}")
        ths = [", ".join(map(str, self.thread[k])) for k in (0, 1)]
        hc = any(t[0] == "choice" for k in (0, 1) for _, t in P[k].nodes)
        out.append(f'pub static PROG: vmon::Program = vmon::Program {{ name: "{self.name}", mode: "{self.mode}", '
                   f'sessions: &[(&PROTO0, &[{ths[0]}]), (&PROTO1, &[{ths[1]}])], nthreads: {self.nth}, run, src: file!(), '
                   f'ops: {P[0].max_ops() + P[1].max_ops()}, fault_kinds: {B[0].kinds()}, has_choice: {str(hc).lower()} }};')
        out.append("}")
        return "\n".join(out)


# ------------------------------------------------------------------------------------------ solo

def solo(rng, B, P, fork, close, method, name):
    """one thread performs every operation of every role, in a random admissible global order"""
    n = P.n
    out = [f"pub mod {name} {{"] + B.header_solo(P)
    out += B.types(P)
    S = lambda r: f"s{r}"
    argl = ", ".join(f"s{r}" for r in range(n))
    for node, (msgs, term) in enumerate(P.nodes):
        args = ", ".join(f"s{r}: T{node}_{r}" for r in range(n))
        o = [f"fn n{node}({args}, cx: &Cx) -> R {{"]
        # per-role program
        prog = {r: [ix for ix, m in enumerate(msgs) if r in m[:2]] for r in range(n)}
        at = {r: 0 for r in range(n)}
        sent, done = set(), 0
        queue = {}
        total = sum(len(x) for x in prog.values())
        while done < total:
            en = []
            for r in range(n):
                if at[r] < len(prog[r]):
                    ix = prog[r][at[r]]
                    if msgs[ix][0] == r or ix in sent:
                        en.append(r)
            r = rng.choice(en)
            ix = prog[r][at[r]]
            a, b, ty = msgs[ix]
            # stop of a random participant here
            z = rng.randrange(n)
            o.append(f"    if cx.solo_stop() {{ let dead = s{z}; {'mpstthree::binary::cancel::cancel(dead)' if rng.random() < .5 else 'drop(dead)'};")
            for q in others(n, z):
                if at[q] < len(prog[q]):
                    jx = prog[q][at[q]]
                    c, d, ty2 = msgs[jx]
                    if c == z and d == q:
                        s_ = f"s{q}"
                        recv = B.e_recv(P, node, jx, c, d).replace("(s)", f"({s_})").replace("s.recv", f"{s_}.recv")
                        if jx in sent:
                            o.append(f"        match {recv} {{ Ok((x, _)) => cx.solo_same({node << 8 | jx}, vmon::Payload::fp(&x)), Err(e) => cx.finding(\"solo\", &format!(\"a delivered value was lost with its sender: {{e}}\")) }}")
                        else:
                            o.append(f"        if {recv}.is_ok() {{ cx.finding(\"solo\", \"a receive from a cancelled participant succeeded\"); }}")
            o.append("        return Err(\"stopped\".into()); }")
            if a == r:
                o.append(f"    let x: {ty} = cx.solo_make({node << 8 | ix});")
                e = B.e_send(P, node, ix, a, b).replace("s.send", f"s{r}.send").replace(", s)", f", s{r})")
                o.append(f"    let s{r} = cx.solo_ret({e})?;")
                sent.add(ix)
            else:
                e = B.e_recv(P, node, ix, a, b).replace("(s)", f"(s{r})").replace("s.recv", f"s{r}.recv")
                o.append(f"    let (x, s{r}) = cx.solo_ret({e})?; cx.solo_same({node << 8 | ix}, <{ty} as vmon::Payload>::fp(&x));")
            at[r] += 1
            done += 1
        if term[0] == "end":
            if close:
                o.append(f"    cx.solo_ret({close}({argl}))?; cx.solo_closed(); Ok(())")
        else:
            _, p, targets, esc, style = term
            o.append(f"    match cx.decide({len(targets)}, {esc}) {{")
            for k, t in enumerate(targets):
                pat = str(k) if k + 1 < len(targets) else "_"
                ch = B.e_choose_enum(P, node, p, k)
                os_ = others(n, p)
                off = ", ".join((f"s{q}, E{node}_{q}::L{k}" if method else f"s{q}, recv_mpst_{B.l(q)}_from_{B.l(p)}, E{node}_{q}::L{k}") for q in os_)
                pats = ", ".join(f"s{q}" for q in os_)
                o.append(f"        {pat} => {{ let s = s{p}; let r: Result<T{t}_{p}, Box<dyn Error>> = {ch}; let s{p} = cx.solo_ret(r)?; let r: Result<_, Box<dyn Error>> = (move || Ok(offer_mpst_interleaved!({off})))(); let ({pats}) = cx.solo_ret(r)?; cx.note({k}); n{t}({argl}, cx) }}")
            o.append("    }")
        o.append("}")
        out += o
    ts = ", ".join(f"s{r}: T0_{r}" for r in range(n))
    out += ["fn run(run: &std::sync::Arc<vmon::Run>) -> Vec<bool> {",
            f"    let r2 = run.clone(); let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || "
            f"{fork}(move |{ts}| -> R {{ vmon::run_role(&r2, 0, |cx| n0({argl}, cx)) }}).is_ok()).unwrap();",
            "    vec![h.join().unwrap_or(false)]", "}"]
    out.append(f'pub static PROG: vmon::Program = vmon::Program {{ name: "{name}", mode: "solo", sessions: &[], nthreads: 1, run, src: file!(), ops: {P.max_ops()}, fault_kinds: &vmon::FAULT_KINDS, has_choice: false }};')
    out.append("}")
    return "\n".join(out)


class SoloMulti(Multi):
    """macros_multiple items driven by one thread"""
    def header_solo(self, P):
        h = self.header(P)
        h = [x for x in h if "bundle_struct_fork_close_multi" not in x]
        h.insert(len(USES) + 2, f"bundle_struct_fork_close_multi_interleaved!(close_solo, fork_solo, MC, {P.n});")
        return h


class SoloSimple(Simple):
    def __init__(self, letters, lib):
        super().__init__(letters)
        self.lib = lib

    def header_solo(self, P):
        h = self.header(P)
        if self.lib:
            return h + ["use mpstthree::interleaved::{fork::fork_mpst_solo as fork_solo, close::close_mpst_interleaved as close_solo};"]
        return h + ["close_mpst_interleaved!(close_solo, MeshedChannels, 3);", "fork_mpst_multi_solo!(fork_solo, MeshedChannels, 3);"]


class SoloMethod(BuiltinMethod):
    def header_solo(self, P):
        return self.header(P) + ["use mpstthree::offer_mpst_interleaved;",
                                 "use mpstthree::interleaved::{fork::fork_mpst_solo as fork_solo, close::close_mpst_interleaved as close_solo};"]
