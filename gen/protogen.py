"""Protocol descriptions, random and covering protocol generation, and Rust back ends.

A protocol is a list of nodes. A node is (msgs, term): msgs is a list of (sender, receiver, type),
term is ('end',) or ('choice', chooser, [targets], escape, style) with style 'enum' or 'lr'.
Roles are numbered 0..n-1; role i is called by the i-th letter."""
import random

LETTERS = "ABCDEFGHIJKLMNOPQRSTUV"
TYPES = ["u64", "i32", "String", "Tok", "(u64, String)", "Vec<u8>", "Option<u64>", "Big", "Box<u64>", "bool", "()", "i64", "(Tok, i32)", "f64", "u8", "Deleg", "Thunk"]
WEIGHTS = [5, 2, 2, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1]


def rtype(rng):
    return rng.choices(TYPES, WEIGHTS)[0]


class Proto:
    def __init__(self, name, n, nodes):
        self.name, self.n, self.nodes = name, n, nodes

    def max_ops(self):
        """largest number of operations of one role along escape path + one pass of every node"""
        best = 0
        for r in range(self.n):
            c = 0
            for msgs, term in self.nodes:
                c += sum(1 for (p, q, _) in msgs if r in (p, q)) + 1
            best = max(best, c)
        return best

    def key(self):
        return repr((self.n, self.nodes))


def rand_msgs(rng, n, k, pairs=None):
    out = []
    for _ in range(k):
        if pairs:
            p, q = rng.choice(pairs)
        else:
            p, q = rng.sample(range(n), 2)
        out.append((p, q, rtype(rng)))
    return out


def all_pairs(rng, n):
    ps = [(p, q) for p in range(n) for q in range(n) if p != q]
    rng.shuffle(ps)
    return [(p, q, rtype(rng)) for p, q in ps]


def cover_enum(rng, name, n, reps=1):
    """Every ordered pair communicates, every role selects, recursion through every selection."""
    order = list(range(n))
    rng.shuffle(order)
    nodes = []
    for i, p in enumerate(order):
        msgs = []
        if i == 0:
            for _ in range(reps):
                msgs += all_pairs(rng, n)
            msgs = msgs[:200]
        else:
            msgs = rand_msgs(rng, n, rng.randint(0, 3))
        nb = rng.choice([2, 2, 3, 3, 4, 4, 5, 7])
        nxt = (i + 1) if i + 1 < n else n + 1
        targets = [nxt, n]  # n = end node, n+1 = second body
        if i == 0 or rng.random() < 0.3:
            targets.append(n + 1)
        for _ in range(nb - len(targets)):
            targets.append(n if rng.random() < .08 else rng.choice(list(range(n)) + [n + 1]))
        rng.shuffle(targets)
        nodes.append((msgs, ("choice", p, targets, targets.index(n), "enum")))
    nodes.append((rand_msgs(rng, n, rng.randint(0, 4)), ("end",)))
    # second body: all pairs again after a choice, then back
    p = rng.randrange(n)
    targets = [0, n]
    rng.shuffle(targets)
    nodes.append((all_pairs(rng, n), ("choice", p, targets, targets.index(n), "enum")))
    return Proto(name, n, nodes)


def rand_enum(rng, name, n, nn=None):
    nn = nn or rng.randint(2, 5)
    nodes = []
    for i in range(nn):
        msgs = rand_msgs(rng, n, rng.randint(0, 6))
        p = rng.randrange(n)
        nb = rng.choice([1, 2, 2, 3, 3, 4, 4, 6])
        targets = [nn if rng.random() < .08 else rng.randrange(nn) for _ in range(nb)]
        targets[rng.randrange(nb)] = nn if rng.random() < 0.5 else min(nn, i + 1)
        esc = next(j for j, t in enumerate(targets) if t == nn or t == i + 1)
        nodes.append((msgs, ("choice", p, targets, esc, "enum")))
    nodes.append((rand_msgs(rng, n, rng.randint(0, 5)), ("end",)))
    return Proto(name, n, nodes)


def linear(rng, name, n, k):
    return Proto(name, n, [(all_pairs(rng, n) + rand_msgs(rng, n, k), ("end",))])


def lr_tree(rng, name, n, choosers, allp=True):
    """acyclic: chain of left/right selections by the given choosers"""
    nodes = []
    k = len(choosers)
    for i, p in enumerate(choosers):
        msgs = all_pairs(rng, n) if (i == 0 and allp and n <= 5) else rand_msgs(rng, n, rng.randint(0, 3))
        targets = [i + 1, k + 1 + i]
        if rng.random() < 0.5:
            targets.reverse()
        nodes.append((msgs, ("choice", p, targets, targets.index(k + 1 + i), "lr")))
    nodes.append((rand_msgs(rng, n, rng.randint(1, 4)), ("end",)))
    for i in range(k):
        nodes.append((rand_msgs(rng, n, rng.randint(0, 4)), ("end",)))
    return Proto(name, n, nodes)


# --------------------------------------------------------------------------------------------

def others(n, r):
    return [x for x in range(n) if x != r]


class Backend:
    """Emits one Rust module for one protocol."""
    mode = "?"
    fallible_send = True
    has_cancel = True
    result_ops = True     # send/recv return Result
    strict_close = True
    central = False
    mc = "MC"

    def __init__(self, letters=None):
        self.letters = letters or LETTERS

    def role(self, r):
        return "Role" + self.letters[r]

    def nm(self, r):
        return "Name" + self.letters[r]

    # ---- types
    def session(self, P, node, r, q):
        """session type of role r with role q from the start of node"""
        msgs, term = P.nodes[node]
        tail = "End"
        if term[0] == "choice":
            p = term[1]
            if term[4] == "enum":
                if p == q:
                    tail = self.ty_choice(P, node, r, f"E{node}_{r}", "Recv")
                elif p == r:
                    tail = self.ty_choice(P, node, q, f"E{node}_{q}", "Send")
            else:
                l, rr = term[2]
                if p == q:
                    tail = self.ty_choice(P, node, r, f"Either<T{l}_{r}, T{rr}_{r}>", "Recv")
                elif p == r:
                    tail = self.ty_choice(P, node, q, f"Either<T{l}_{q}, T{rr}_{q}>", "Send")
        t = tail
        for idx in range(len(msgs) - 1, -1, -1):
            a, b, ty = msgs[idx]
            if a == r and b == q:
                t = self.ty_send(P, node, idx, ty, t)
            elif a == q and b == r:
                t = self.ty_recv(P, node, idx, ty, t)
        return t

    def ty_send(self, P, node, idx, ty, t):
        return f"Send<{ty}, {t}>"

    def ty_recv(self, P, node, idx, ty, t):
        return f"Recv<{ty}, {t}>"

    def ty_choice(self, P, node, recv, payload, kind):
        return f"{kind}<{payload}, End>"

    def stack(self, P, node, r):
        msgs, term = P.nodes[node]
        if term[0] == "end":
            t = "RoleEnd"
        else:
            p = term[1]
            if term[4] == "enum":
                t = "RoleBroadcast" if p == r else f"{self.role(p)}<RoleEnd>"
            else:
                l, rr = term[2]
                if p == r:
                    t = f"{self.role(p)}toAll<S{l}_{r}, S{rr}_{r}>"
                else:
                    t = f"RoleAllto{self.letters[p]}<RoleEnd, RoleEnd>"
        for a, b, ty in reversed(msgs):
            if a == r:
                t = f"{self.role(b)}<{t}>"
            elif b == r:
                t = f"{self.role(a)}<{t}>"
        return t

    def types(self, P):
        out = []
        for i, (msgs, term) in enumerate(P.nodes):
            for r in range(P.n):
                out.append(f"type S{i}_{r} = {self.stack(P, i, r)};")
                ss = ", ".join(self.session(P, i, r, q) for q in others(P.n, r))
                out.append(f"type T{i}_{r} = {self.mc}<{ss}, S{i}_{r}, {self.nm(r)}>;")
                if term[0] == "choice" and term[4] == "enum" and term[1] != r:
                    vs = ", ".join(f"L{k}(T{t}_{r})" for k, t in enumerate(term[2]))
                    out.append(f"enum E{i}_{r} {{ {vs} }}")
                    # breaks the compiler's recursive proof that the mutually recursive types are
                    # Send (all payloads are); the proof itself is exponential in protocol size
                    out.append(f"unsafe impl std::marker::Send for E{i}_{r} {{}}")
        return out

    # ---- statements (each works on a variable `s`)
    def ok(self, e):
        return e if self.result_ops else f"Ok({e})"

    def e_send(self, P, node, idx, r, q):
        return self.ok("s.send(x)")

    def e_recv(self, P, node, idx, q, r):
        return self.ok("s.recv()")

    def e_cancel(self):
        return "s.cancel()" if self.has_cancel else "std::mem::drop(s)"

    def e_close(self):
        return "s.close()"

    def e_choose_enum(self, P, node, r, k):
        labels = [f"E{node}_{q}::L{k}" for q in others(P.n, r)]
        return f"Ok(choose_mpst_multi_to_all!(s, {', '.join(labels)}, => {self.nm(r)}, {self.mc}, {r + 1}))"

    def e_choose_lr(self, P, node, r, k):
        return "Ok(s.choose_left())" if k == 0 else "Ok(s.choose_right())"

    def e_offer_enum(self, P, node, r, arms):
        a = "\n".join(f"            E{node}_{r}::L{k}(s) => {{ {b} }}," for k, b in enumerate(arms))
        return "offer_mpst!(s, {\n" + a + "\n        })"

    def e_offer_lr(self, P, node, r, arms, targets):
        f = [f"|s: T{t}_{r}| {{ {b} }}" for t, b in zip(targets, arms)]
        return f"s.offer({f[0]}, {f[1]})"

    fnargs = "s: {T}, cx: &Cx"
    callargs = "s, cx"
    extra_head = ""

    def fn(self, P, node, r):
        o = [f"fn n{node}_r{r}({self.fnargs.format(T=f'T{node}_{r}')}) -> R {{"] + self.enter_lines(P, node, r)
        for idx in range(len(P.nodes[node][0])):
            o += self.msg_lines(P, node, idx, r)
        o += self.term_lines(P, node, r, lambda t: f"n{t}_r{r}({self.callargs})")
        return [x for x in o + ["}"] if x]

    def enter_lines(self, P, node, r):
        return []

    def msg_lines(self, P, node, idx, r):
        """statements of role r for one message (works on a variable s)"""
        a, b, ty = P.nodes[node][0][idx]
        op = (node << 8) | idx
        if r not in (a, b):
            return []
        o = [f"    vmon::fault!(cx, s, {self.e_cancel()});", self.pre(P, node, idx, r)]
        if a == r:
            o.append(f"    let x: {ty} = cx.call_send({op}, {a}, {b});")
            o.append(f"    let s = cx.ret_send({self.e_send(P, node, idx, a, b)})?;")
        else:
            o.append(f"    cx.call_recv({op}, {a}, {b});")
            o.append(f"    let (x, s): ({ty}, _) = cx.ret_recv({self.e_recv(P, node, idx, a, b)})?;")
            o.append("    drop(x);")
        o.append(self.post(P, node, idx, r))
        return o

    def term_lines(self, P, node, r, cont):
        """final expression of role r in a node; cont(target) continues with the variable s"""
        term = P.nodes[node][1]
        op = (node << 8) | 0xff
        o = [f"    vmon::fault!(cx, s, {self.e_cancel()});"]
        if term[0] == "end":
            o.append(f"    cx.call_close({op});")
            o.append(f"    cx.ret_close({self.e_close()})")
        else:
            _, p, targets, esc, style = term
            if p == r:
                o.append(f"    let k = cx.decide({len(targets)}, {esc});")
                o.append("    match k {")
                for k, t in enumerate(targets):
                    e = self.e_choose_enum(P, node, r, k) if style == "enum" else self.e_choose_lr(P, node, r, k)
                    pat = str(k) if k + 1 < len(targets) else "_"
                    o.append(f"        {pat} => {{ cx.call_choose({op}, {k}); let s: T{t}_{r} = cx.ret_choose({r}, {P.n}, {e})?; {cont(t)} }}")
                o.append("    }")
            else:
                o.append(f"    let o = cx.call_offer({op}, {p}, {r});")
                arms = [f"cx.branch({op}, {k}); {cont(t)}" for k, t in enumerate(targets)]
                if style == "enum":
                    e = self.e_offer_enum(P, node, r, arms)
                else:
                    e = self.e_offer_lr(P, node, r, arms, targets)
                o.append(f"    let res: R = {e};")
                o.append(f"    cx.end_offer(o, {op}, res)")
        return o

    def pre(self, P, node, idx, r):
        return ""

    def post(self, P, node, idx, r):
        return ""

    # ---- module
    def header(self, P):
        raise NotImplementedError

    def fork(self, P):
        return "fork_mpst"

    def role_closure(self, P, r):
        return f"{{ let run = run.clone(); move |s: T0_{r}| vmon::run_role(&run, {r}, |cx| n0_r{r}(s, cx)) }}"

    def runfn(self, P):
        hs = ", ".join(f"h{r}" for r in range(P.n))
        cl = ",\n        ".join(self.role_closure(P, r) for r in range(P.n))
        j = ", ".join(f"h{r}.join().is_ok()" for r in range(P.n))
        return [f"fn run(run: &std::sync::Arc<vmon::Run>) -> Vec<bool> {{",
                f"    let ({hs}) = {self.fork(P)}(\n        {cl});",
                f"    vec![{j}]", "}"]

    def kinds(self):
        return "&vmon::FAULT_KINDS"

    def statics(self, P):
        return proto_static(P, self.fallible_send, self.strict_close, central=self.central) + [
            f'pub static PROG: vmon::Program = vmon::Program {{ name: "{P.name}", mode: "{self.mode}", '
            f'sessions: &[(&PROTO, &[{", ".join(map(str, range(P.n)))}])], nthreads: {P.n}, run, src: file!(), '
            f'ops: {P.max_ops()}, fault_kinds: {self.kinds()}, has_choice: {str(any(t[0] == "choice" for _, t in P.nodes)).lower()} }};']

    def module(self, P):
        out = [f"pub mod {P.name} {{"]
        out += self.header(P)
        out += self.types(P)
        for i in range(len(P.nodes)):
            for r in range(P.n):
                out += self.fn(P, i, r)
        out += self.runfn(P)
        out += self.statics(P)
        out.append("}")
        return "\n".join(out)


def proto_static(P, fallible, strict=True, nm="PROTO", central=False):
    nodes = []
    for msgs, term in P.nodes:
        ms = ", ".join(f'({a}, {b}, "{t}")' for a, b, t in msgs)
        if term[0] == "end":
            tt = "vmon::Term::End"
        else:
            tt = f"vmon::Term::Choice({term[1]}, &[{', '.join(map(str, term[2]))}], {term[3]})"
        nodes.append(f"vmon::Node {{ msgs: &[{ms}], term: {tt} }}")
    return [f"pub static {nm}: vmon::Proto = vmon::Proto {{ name: \"{P.name}\", n: {P.n}, nodes: &[" + ",\n ".join(nodes) +
            f"], fallible_send: {str(fallible).lower()}, strict_close: {str(strict).lower()}, central: {str(central).lower()} }};"]


# payloads that are themselves sessions or code: the receiver of a delegated endpoint finds what its first owner sent on it
SESSION_PAYLOADS = r"""
pub struct Deleg(std::cell::RefCell<Result<mpstthree::binary::struct_trait::recv::Recv<u64, mpstthree::binary::struct_trait::end::End>, u64>>, u64, std::thread::ThreadId);
impl vmon::Payload for Deleg {
    fn make(u: u64) -> Self {
        let (s, r) = <mpstthree::binary::struct_trait::send::Send<u64, mpstthree::binary::struct_trait::end::End> as mpstthree::binary::struct_trait::session::Session>::new();
        let _ = mpstthree::binary::send::send(u, s);
        Deleg(std::cell::RefCell::new(Ok(r)), u, std::thread::current().id())
    }
    fn fp(&self) -> u64 {
        if self.2 == std::thread::current().id() { return self.1; } // its first owner, about to send it
        let v = match self.0.replace(Err(0)) {
            Ok(r) => mpstthree::binary::recv::recv(r).map(|x| x.0).unwrap_or(0xDEAD),
            Err(v) => v,
        };
        let _ = self.0.replace(Err(v));
        v
    }
}
pub struct Thunk(Box<dyn Fn() -> u64 + std::marker::Send>);
impl vmon::Payload for Thunk {
    fn make(u: u64) -> Self { let t = vmon::Tok::make(u); Thunk(Box::new(move || vmon::Payload::fp(&t))) }
    fn fp(&self) -> u64 { (self.0)() }
}
"""

COMMON = [
          SESSION_PAYLOADS,
          "use vmon::{Cx, R, Tok, Big};", "use either::Either;", "use std::error::Error;"]


class Baking(Backend):
    def __init__(self, mode, local_macro=False, letters=None):
        super().__init__(letters)
        self.mode = mode
        self.local_macro = local_macro  # generated choose_mpst_x_to_all! instead of the generic macro
        self.result_ops = mode in ("cancel", "rec_and_cancel")
        self.fallible_send = self.result_ops
        self.has_cancel = self.result_ops

    def header(self, P):
        return COMMON + [
            "use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};",
            "use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd, Role};",
            "use mpstthree::{choose_mpst_multi_to_all, generate};",
            f'generate!("{self.mode}", {self.mc}, {", ".join(self.letters[r] for r in range(P.n))});']

    def e_offer_enum(self, P, node, r, arms):
        if self.mode != "cancel":
            return super().e_offer_enum(P, node, r, arms)
        a = "\n".join(f"            E{node}_{r}::L{k}(s) => {{ {b} }}," for k, b in enumerate(arms))
        return ("(move || -> R { let (l, s) = s.recv()?; mpstthree::binary::cancel::cancel(s); match l {\n" + a + "\n        } })()")

    def e_choose_enum(self, P, node, r, k):
        if not self.local_macro:
            return super().e_choose_enum(P, node, r, k)
        labels = ", ".join(f"E{node}_{q}::L{k}" for q in others(P.n, r))
        return f"Ok(choose_mpst_{self.letters[r].lower()}_to_all!(s, {labels}))"


class Binary(Backend):
    """two-party sessions (functions of mpstthree::binary)"""
    has_cancel = True
    result_ops = True

    def __init__(self, canceled_send=False, forked=0, detached=False):
        super().__init__()
        self.mode = "binary" + ("_sc" if canceled_send else "") + ("_detached" if detached else "")
        self.fallible_send = canceled_send
        self.forked, self.detached = forked, detached

    def header(self, P):
        return COMMON + [
            "use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};",
            "use mpstthree::binary::{cancel::cancel, choose::*, close::close, fork::{fork, fork_with_thread_id}, offer::offer_either, recv::recv, send::{send, send_canceled}};",
            "use mpstthree::{choose, offer};"]

    def types(self, P):
        out = []
        for i, (msgs, term) in enumerate(P.nodes):
            for r in range(2):
                out.append(f"type T{i}_{r} = {self.session(P, i, r, 1 - r)};")
                if term[0] == "choice" and term[4] == "enum" and term[1] != r:
                    vs = ", ".join(f"L{k}(T{t}_{r})" for k, t in enumerate(term[2]))
                    out.append(f"enum E{i}_{r} {{ {vs} }}")
                    out.append(f"unsafe impl std::marker::Send for E{i}_{r} {{}}")
        return out

    def e_send(self, P, node, idx, r, q):
        return "send_canceled(x, s)" if self.fallible_send else "Ok(send(x, s))"

    def e_recv(self, P, node, idx, q, r):
        return "recv(s)"

    def e_cancel(self):
        return "cancel(s)"

    def e_close(self):
        return "close(s)"

    def e_choose_enum(self, P, node, r, k):
        return f"Ok(choose!(E{node}_{1 - r}::L{k}, s))"

    def e_choose_lr(self, P, node, r, k):
        l, rr = P.nodes[node][1][2]
        return f"Ok(choose_{'right' if k else 'left'}::<T{l}_{r}, T{rr}_{r}>(s))"

    def e_offer_enum(self, P, node, r, arms):
        a = "\n".join(f"            E{node}_{r}::L{k}(s) => {{ {b} }}," for k, b in enumerate(arms))
        return "offer!(s, {\n" + a + "\n        })"

    def e_offer_lr(self, P, node, r, arms, targets):
        f = [f"|s: T{t}_{r}| {{ {b} }}" for t, b in zip(targets, arms)]
        return f"offer_either(s, {f[0]}, {f[1]})"

    def runfn(self, P):
        a, b = self.forked, 1 - self.forked
        o = ["fn run(run: &std::sync::Arc<vmon::Run>) -> Vec<bool> {",
             "    let (ra, rb) = (run.clone(), run.clone());"]
        if self.detached:
            o += ["    let (tx, rx) = std::sync::mpsc::channel::<bool>();",
                  f"    let s: T0_{b} = fork(move |s: T0_{a}| {{ let r = vmon::run_role(&ra, {a}, |cx| n0_r{a}(s, cx)); tx.send(r.is_ok()); r }});"]
        else:
            o += [f"    let (ha, s): (_, T0_{b}) = fork_with_thread_id(move |s: T0_{a}| vmon::run_role(&ra, {a}, |cx| n0_r{a}(s, cx)));"]
        o += [f"    let hb = std::thread::Builder::new().stack_size(64 << 20).spawn(move || vmon::run_role(&rb, {b}, |cx| n0_r{b}(s, cx)).map_err(|e| e.to_string())).unwrap();",
              f"    let ja = {'rx.recv().unwrap_or(false)' if self.detached else 'ha.join().is_ok()'};",
              "    let jb = matches!(hb.join(), Ok(Ok(())));",
              "    vec![" + ("ja, jb" if a == 0 else "jb, ja") + "]", "}"]
        return o


class Atmp(Backend):
    """generate_atmp!: every operation carries a clock constraint.

    style 'loose': constraints are met by construction (clocks are wound to known offsets, resets tracked),
    except in executions with an injected out-of-window operation, which must fail;
    style 'tight': receives start 2-60 ms before the end of their window, so participants may time out by themselves."""
    fallible_send = True
    fnargs = "s: {T}, cx: &Cx, clk: &mut Clk"
    callargs = "s, cx, clk"

    def __init__(self, rng, style="loose", local_macro=True, letters=None):
        super().__init__(letters)
        self.rng, self.style, self.local_macro = rng, style, local_macro
        self.mode = "atmp_" + style

    def kinds(self):
        return "&vmon::FAULT_KINDS_TIMED" if self.style == "loose" else "&vmon::FAULT_KINDS_STALL"

    def header(self, P):
        return COMMON + [
            "use mpstthree::binary::struct_trait::{end::End, session::Session};",
            "use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};",
            "use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd, Role};",
            "use mpstthree::{choose_atmp_mpst_multi_to_all, generate_atmp};",
            "type Clk = std::collections::HashMap<char, std::time::Instant>;",
            f'generate_atmp!({self.mc}, {", ".join(self.letters[r] for r in range(P.n))});']

    # constraint = (clock, S, incl_S, E, incl_E, reset)
    def constraint(self, states):
        rng = self.rng
        if self.style == "tight":
            c = rng.choice("ab")
            E = rng.randint(1, 4)
            S = rng.choice([-1, rng.randint(0, E - 1)])
            return (c, S, int(S == E - 1 or rng.random() < .5), E, rng.randint(0, 1), rng.choice("  ab"))
        c = rng.choice("aaabbcc ")
        reset = rng.choice("   aabbcc")
        if c == " ":
            return (" ", -rng.randint(1, 4), 0, -rng.randint(1, 4), 0, rng.choice([" ", reset]))
        lo = min(st[c][0] for st in states)
        hi = max(st[c][1] for st in states)
        if rng.random() < .2:
            reset = c
        S = rng.choice([-1, 0, lo, lo]) if lo == 0 else rng.choice([-1, lo, lo, lo - 1, rng.randint(0, lo)])
        incl = 1 if S == lo else rng.randint(0, 1)
        if rng.random() < .25:
            return (c, S, incl if S >= 0 else 0, -rng.randint(1, 5), 0, reset)
        E = hi + rng.choice([25, 26, 40, 100, 5000])
        return (c, S, incl, E, rng.randint(0, 1), reset)

    def plan(self, P):
        rng = self.rng
        self.cons, self.winds, self.ccons = {}, {}, {}
        for i, (msgs, term) in enumerate(P.nodes):
            st = []
            same = {c: rng.choice([1, 2, 3, 50, 200]) for c in "ac"}
            for r in range(P.n):
                w = {c: same[c] if rng.random() < .75 else rng.choice([0, 1, 2, 3, 50, 200]) for c in "ac"}
                self.winds[i, r] = w
                # clock b is only ever reset, never wound: it is below 25 s in every run
                st.append({c: (w[c], w[c]) for c in w} | {"b": (0, 0)})
            for idx, (a, b, ty) in enumerate(msgs):
                k = self.constraint([st[a], st[b]])
                self.cons[i, idx] = k
                for r in (a, b):
                    if k[5] != " ":
                        st[r][k[5]] = (0, 0)
            if term[0] == "choice":
                p = term[1]
                if term[4] == "lr":
                    k = self.constraint(st)
                    for q in others(P.n, p):
                        self.ccons[i, q] = k
                else:
                    for q in others(P.n, p):
                        self.ccons[i, q] = self.constraint([st[p], st[q]])

    def par(self, k):
        b = lambda x: "true" if x else "false"
        return f"'{k[0]}', {k[1]}, {b(k[2])}, {k[3]}, {b(k[4])}, '{k[5]}'"

    def ty_send(self, P, node, idx, ty, t):
        return f"SendTimed<{ty}, {self.par(self.cons[node, idx])}, {t}>"

    def ty_recv(self, P, node, idx, ty, t):
        return f"RecvTimed<{ty}, {self.par(self.cons[node, idx])}, {t}>"

    def ty_choice(self, P, node, recv, payload, kind):
        return f"{kind}Timed<{payload}, {self.par(self.ccons[node, recv])}, End>"

    def e_send(self, P, node, idx, r, q):
        return "s.send(x, clk)"

    def e_recv(self, P, node, idx, q, r):
        return "s.recv(clk)"

    def e_choose_enum(self, P, node, r, k):
        labels = ", ".join(f"E{node}_{q}::L{k}" for q in others(P.n, r))
        if self.local_macro:
            m = f"choose_mpst_{self.letters[r].lower()}_to_all!(s, clk, {labels})"
        else:
            m = f"choose_atmp_mpst_multi_to_all!(s, clk, {labels}, => {self.nm(r)}, {self.mc}, {r + 1})"
        return f"{{ let clk = &mut *clk; (move || -> Result<_, Box<dyn Error>> {{ Ok({m}) }})() }}"

    def e_choose_lr(self, P, node, r, k):
        return f"s.choose_{'right' if k else 'left'}(clk)"

    def e_offer_enum(self, P, node, r, arms):
        a = "\n".join(f"            E{node}_{r}::L{k}(s) => {{ {b} }}," for k, b in enumerate(arms))
        return "offer_mpst!(s, clk, {\n" + a + "\n        })"

    def e_offer_lr(self, P, node, r, arms, targets):
        f = [f"|clk: &mut Clk, s: T{t}_{r}| {{ {b} }}" for t, b in zip(targets, arms)]
        return f"s.offer(clk, {f[0]}, {f[1]})"

    def before(self, ks):
        """statements in front of an operation with the given constraints"""
        if self.style == "tight":
            w = {}
            for k in ks:
                w[k[0]] = min(k[3], w.get(k[0], 99))
            return "".join(f" cx.near(clk, '{c}', {e});" for c, e in w.items()) + " cx.clk_before(clk);"
        return " cx.clk_before(clk);"

    def after(self, ks):
        return f'cx.clk_after(clk, "{"".join(sorted({k[5] for k in ks if k[5] != " "}))}");'

    def out(self, k):
        """winds the clock of constraint k out of its window; None when that is impossible"""
        o = []
        if k[0] != " " and (k[1] >= 0 or k[3] >= 0):
            o.append(f"{{ clk.remove(&'{k[0]}'); }}")
        if k[1] > 0 or (k[1] == 0 and not k[2]):
            o.append(f"cx.wind(clk, '{k[0]}', {max(k[1] - 1, 0)}, 500);")
        if k[3] >= 0:
            o.append(f"cx.wind(clk, '{k[0]}', {k[3]}, 700);")
        return self.rng.choice(o) if o else None

    def fault(self, k, expr):
        w = self.out(k) if self.style == "loose" else None
        if not w:
            return f"    vmon::fault!(cx, s, {self.e_cancel()});"
        return f"    vmon::fault_timed!(cx, s, {self.e_cancel()}, {{ {w} cx.clk_before(clk); let bad = {expr}.is_ok(); cx.clk_after(clk, \"\"); bad }});"

    def enter_lines(self, P, node, r):
        o = []
        if self.style == "loose":
            for c, v in self.winds[node, r].items():
                o.append(f"    cx.wind(clk, '{c}', {v}, {self.rng.choice([20, 200, 300])});")
        return o

    def msg_lines(self, P, node, idx, r):
        a, b, ty = P.nodes[node][0][idx]
        o = []
        op = (node << 8) | idx
        k = self.cons.get((node, idx))
        if a == r:
            o.append(self.fault(k, f"{{ let x = <{ty} as vmon::Payload>::make(77); {self.e_send(P, node, idx, a, b)} }}"))
            o.append(f"    let x: {ty} = cx.call_send({op}, {a}, {b});{self.before([k])}")
            o.append(f"    let res = cx.ret_send({self.e_send(P, node, idx, a, b)}); if res.is_ok() {{ {self.after([k])} }} else {{ {self.after([])} }} let s = res?;")
        elif b == r:
            o.append(self.fault(k, self.e_recv(P, node, idx, a, b)))
            o.append(f"    cx.call_recv({op}, {a}, {b});{self.before([k])}")
            o.append(f"    let res: Result<({ty}, _), _> = cx.ret_recv({self.e_recv(P, node, idx, a, b)}); if res.is_ok() {{ {self.after([k])} }} else {{ {self.after([])} }} let (x, s) = res?;")
            o.append("    drop(x);")
        return o

    def term_lines(self, P, node, r, cont):
        term = P.nodes[node][1]
        o = []
        op = (node << 8) | 0xff
        if term[0] == "end":
            o.append(f"    vmon::fault!(cx, s, {self.e_cancel()});")
            o.append(f"    cx.call_close({op});")
            o.append(f"    cx.ret_close({self.e_close()})")
        else:
            _, p, targets, esc, style = term
            if p == r:
                qs = others(P.n, r)
                ks = [self.ccons[node, q] for q in qs]
                ex = self.e_choose_enum(P, node, r, 0) if style == "enum" else self.e_choose_lr(P, node, r, 0)
                o.append(self.fault(ks[0] if style == "lr" else ks[0], f"{{ let res: Result<T{targets[0]}_{r}, Box<dyn Error>> = {ex}; res }}"))
                o.append(f"    let k = cx.decide({len(targets)}, {esc});")
                o.append("    match k {")
                for k, t in enumerate(targets):
                    e = self.e_choose_enum(P, node, r, k) if style == "enum" else self.e_choose_lr(P, node, r, k)
                    pat = str(k) if k + 1 < len(targets) else "_"
                    # a failing selection may have reset nothing or (left/right) be undecided: only successes are judged
                    o.append(f"        {pat} => {{ cx.call_choose({op}, {k});{self.before(ks)} let res: Result<T{t}_{r}, Box<dyn Error>> = cx.ret_choose({r}, {P.n}, {e}); "
                             f"if res.is_ok() {{ {self.after(ks)} }} else {{ {self.after([])} }} let s = res?; {cont(t)} }}")
                o.append("    }")
            else:
                k = self.ccons[node, r]
                if style == "enum":
                    ex = self.e_offer_enum(P, node, r, ["drop(s); R::Ok(())"] * len(targets))
                else:
                    ex = self.e_offer_lr(P, node, r, ["drop(s); R::Ok(())"] * 2, targets)
                o.append(self.fault(k, f"{{ let clk = &mut *clk; let res: R = {ex}; res }}"))
                o.append(f"    let o = cx.call_offer({op}, {p}, {r});{self.before([k])}")
                arms = [f"cx.branch({op}, {j}); {self.after([k])} {cont(t)}" for j, t in enumerate(targets)]
                e = self.e_offer_enum(P, node, r, arms) if style == "enum" else self.e_offer_lr(P, node, r, arms, targets)
                o.append(f"    let res: R = {{ let clk = &mut *clk; {e} }};")
                o.append(f"    cx.end_offer(o, {op}, res)")
        return o

    def role_closure(self, P, r):
        return f"{{ let run = run.clone(); move |s: T0_{r}, clk: &mut Clk| vmon::run_role(&run, {r}, |cx| {{ for c in ['a', 'b', 'c'] {{ clk.insert(c, std::time::Instant::now()); }} n0_r{r}(s, cx, clk) }}) }}"

    def statics(self, P):
        o = super().statics(P)
        if self.style == "tight":
            o[-1] = o[-1].replace("has_choice:", "has_choice:")
        return o

    def module(self, P):
        self.plan(P)
        return super().module(P)


class BinaryTimed(Atmp):
    """two-party timed sessions: binary_atmp's send, recv, choose, offer and fork"""

    def __init__(self, rng, style="loose", without_reset=False, forked=0):
        super().__init__(rng, style, False)
        self.mode = "binary_atmp_" + style
        self.forked = forked
        self.detached = rng.random() < .4

    def header(self, P):
        return COMMON + [
            "use mpstthree::binary::struct_trait::{end::End, session::Session};",
            "use mpstthree::binary::{cancel::cancel, close::close};",
            "use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};",
            "use mpstthree::binary_atmp::{choose::{choose_left, choose_right}, fork::{fork, fork_with_thread_id}, offer::offer_either, recv::recv, send::send};",
            "use mpstthree::{choose_atmp, offer_atmp};",
            "type Clk = std::collections::HashMap<char, std::time::Instant>;"]

    types = Binary.types

    def e_send(self, P, node, idx, r, q):
        return "send(x, clk, s)"

    def e_recv(self, P, node, idx, q, r):
        return "recv(clk, s)"

    def e_cancel(self):
        return "cancel(s)"

    def e_close(self):
        return "close(s)"

    def e_choose_enum(self, P, node, r, k):
        return f"{{ let clk = &mut *clk; choose_atmp!(E{node}_{1 - r}::L{k}, clk, s) }}"

    def e_choose_lr(self, P, node, r, k):
        l, rr = P.nodes[node][1][2]
        return f"choose_{'right' if k else 'left'}::<T{l}_{r}, T{rr}_{r}, {self.par(self.ccons[node, 1 - r])}>(clk, s)"

    def e_offer_enum(self, P, node, r, arms):
        a = "\n".join(f"            E{node}_{r}::L{k}(s) => {{ {b} }}," for k, b in enumerate(arms))
        return "offer_atmp!(clk, s, {\n" + a + "\n        })"

    def e_offer_lr(self, P, node, r, arms, targets):
        f = [f"|clk: &mut Clk, s: T{t}_{r}| {{ {b} }}" for t, b in zip(targets, arms)]
        return f"offer_either(clk, s, {f[0]}, {f[1]})"

    def runfn(self, P):
        a, b = self.forked, 1 - self.forked
        ins = "for c in ['a', 'b', 'c'] { clk.insert(c, std::time::Instant::now()); }"
        return ["fn run(run: &std::sync::Arc<vmon::Run>) -> Vec<bool> {",
                "    let (ra, rb) = (run.clone(), run.clone());",
                "    let (tx, rx) = std::sync::mpsc::channel::<bool>();",
                f"    let s: T0_{b} = fork(move |s: T0_{a}, clk: &mut Clk| {{ let r = vmon::run_role(&ra, {a}, |cx| {{ {ins} n0_r{a}(s, cx, clk) }}); tx.send(r.is_ok()); r }});"
                if self.detached else
                f"    let (ha, s): (_, T0_{b}) = fork_with_thread_id(move |s: T0_{a}, clk: &mut Clk| {{ let _keep = tx; vmon::run_role(&ra, {a}, |cx| {{ {ins} n0_r{a}(s, cx, clk) }}) }});",
                f"    let hb = std::thread::Builder::new().stack_size(64 << 20).spawn(move || vmon::run_role(&rb, {b}, |cx| {{ let clk = &mut Clk::new(); {ins} n0_r{b}(s, cx, clk) }}).map_err(|e| e.to_string())).unwrap();",
                "    let ja = rx.recv().unwrap_or(false);" if self.detached else "    let ja = { let _ = &rx; ha.join().is_ok() };",
                "    let jb = matches!(hb.join(), Ok(Ok(())));",
                "    vec![" + ("ja, jb" if a == 0 else "jb, ja") + "]", "}"]


def cover_binary(rng, name, nn=4, style=None, k=4):
    """random binary protocol; selections by both endpoints, recursion for enum style"""
    nodes = []
    for i in range(nn):
        msgs = rand_msgs(rng, 2, rng.randint(0, k))
        p = rng.randrange(2)
        st = style or rng.choice(["enum", "enum", "lr"])
        if st == "enum":
            nb = rng.randint(1, 8) if rng.random() < .3 else rng.randint(2, 4)
            # recursion never crosses an lr selection (its type is structural): only targets > i
            targets = [rng.randint(i + 1, nn) for _ in range(nb)]
            if style == "enum":
                targets = [rng.randint(0, nn) for _ in range(nb)]
        else:
            nb = 2
            targets = [i + 1, nn]
            if rng.random() < .5:
                targets.reverse()
        esc = rng.randrange(nb)
        if style == "enum":
            targets[esc] = rng.choice([i + 1, nn])
        nodes.append((msgs, ("choice", p, targets, esc, st)))
    nodes.append((rand_msgs(rng, 2, rng.randint(0, k)), ("end",)))
    return Proto(name, 2, nodes)
