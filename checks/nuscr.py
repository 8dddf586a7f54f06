"""N01, N02: the top-down generator. Protocols are generated as data, rendered as text, given to the real generator;
the program it writes is compared with the protocol's projections, compiled, and run."""
import json, os, random, re, shutil, subprocess
import crate
from harness import prelude, Inconclusive, NCPU
from concurrent.futures import ThreadPoolExecutor

W = os.path.join(crate.VERIF, "workloads")
NAMES = [list("ABCDE"), list("ZYXWV"), ["Alice", "Bob", "Carol", "Dave", "Eve"], ["A", "Ab", "Abc", "B", "Ba"], ["P1", "P2", "P3", "P10", "P11"], ["Srv", "Client", "Auth2", "Db", "Q"],
         ["Seller", "Buyer", "Shipper", "Bank", "Broker"]]
WORDS = ["Test", "Ask", "Reply", "Price", "Quit", "Data", "Login", "Token", "Ping", "Pong", "Order", "Ship", "Pay"]
PAYS = ["payload", "integer", "amount", "text", "Blob", "Id7", "address_book", "QuoteList", "Money"]
BIG = 10 ** 24


class Msg:
    def __init__(self, label, pay, a, b, clock, l, lb, r, rb, reset):
        self.__dict__.update(label=label, pay=pay, a=a, b=b, clock=clock, l=l, lb=lb, r=r, rb=rb, reset=reset)

    def con(self):
        return (self.clock, self.l, self.lb == "[", self.r, self.rb == "]", self.reset or " ")


class P:
    """head: messages; loops: {name: position in head}; choice: (chooser, [(messages, continued loop or None)]) or None"""
    def __init__(self, name, roles, head, loops, choice):
        self.name, self.roles, self.head, self.loops, self.choice = name, roles, head, loops, choice
        self.expect, self.kind = True, "valid"

    def branch(self, k):
        ms, cont = self.choice[1][k]
        return ms + self.head[self.loops[cont]:] if cont else ms

    def terminal(self, k):
        return self.choice is None or (k is not None and self.choice[1][k][1] is None)

    def all(self):
        out = list(self.head)
        for ms, _ in (self.choice[1] if self.choice else []):
            out += ms
        return out

    def state(self, k):
        """(messages, choice follows) of the entry (None) or of branch k"""
        if k is None:
            return self.head, self.choice is not None
        return self.branch(k), self.choice[1][k][1] is not None


# ---------------------------------------------------------------- what the rules say (N02)
def sup(m):
    return (m.r, m.rb == "]")


def feasible(P):
    """True / False / None (the rules leave it open)"""
    openq = False

    def walk(ms, st):
        nonlocal openq
        for m in ms:
            if m.l > m.r or (m.l == m.r and (m.lb == "]" or m.rb == "[")):
                return False
            if m.r - m.l == 1 and m.lb == "]" and m.rb == "[":
                openq = True
            for x in (m.a, m.b):
                p = st.get((x, m.clock))
                if p is not None:
                    if m.r < p[0] and not (m.r == p[0] - 1 and m.rb == "]" and not p[1]):
                        return False
                    if m.r < p[0] or (m.r == p[0] and p[1] and m.rb != "]"):
                        # [..;5] after [..;6[ (the same set of whole seconds)
                        if m.r == p[0]:
                            return False
                        openq = True
            for x in (m.a, m.b):
                st[x, m.clock] = sup(m)
            for x in (m.a, m.b):
                if m.reset:
                    st.pop((x, m.reset), None)
        return True
    st = {}
    ok = walk(P.head, st)
    for k in range(len(P.choice[1]) if P.choice else 0):
        ok = ok and walk(P.branch(k), dict(st))
    return None if ok and openq else ok


# ---------------------------------------------------------------- text
def text(rng, P, plain=False):
    sp = lambda lo=1: " " * (lo if plain or rng.random() < .8 else rng.randint(lo, lo + 3))
    out = []
    ind = [1]

    def put(s):
        note()
        out.append(("    " * ind[0] if plain or rng.random() < .9 else "\t") + s + (rng.choice(["  ", " // said", "//}", " // Old() from A to B within [0;1] using x and resetting ();"]) if not plain and rng.random() < .07 else ""))

    def note():
        if not plain and rng.random() < .1:
            out.append(rng.choice(["", "", "   ", "// a note", "    // another note, with words", "  // } or {", f"// Old() from {P.roles[0]} to {P.roles[1]} within [0;1] using x and resetting ();",
                                   "// choice at Nobody {", "// continue Nowhere;", "//{"]))

    def msg(m):
        put(f"{m.label}({m.pay or ''}){sp()}from{sp()}{m.a}{sp()}to{sp()}{m.b}{sp()}within{sp()}{m.lb}{sp(0)}{m.l}{sp(0)};{sp(0)}{m.r}{sp(0)}{m.rb}{sp()}using{sp()}{m.clock}"
            f"{sp()}and{sp()}resetting{sp()}({m.reset or ''}){sp(0)};")
    roles = list(P.roles)
    rng.shuffle(roles)
    rl = ("," + sp()).join(f"role{sp()}{r}" for r in roles)
    out.append(f"timed{sp()}global{sp()}protocol{sp()}{P.name}({rl}){sp(0)}")
    if plain or rng.random() < .85:
        out[-1] += " {"
    else:
        note()
        out.append("{")
    at = {}
    for nm, pos in P.loops.items():
        at.setdefault(pos, []).append(nm)
    for i in range(len(P.head) + 1):
        for nm in at.get(i, []):
            put(f"rec{sp()}{nm}{sp()}{{")
            ind[0] += 1
        if i < len(P.head):
            msg(P.head[i])
    if P.choice:
        c, bs = P.choice
        if rng.random() < .5:
            put(f"choice{sp()}at{sp()}{c}")
            note()
            out.append("    " * ind[0] + "{")
        else:
            put(f"choice{sp()}at{sp()}{c}{sp()}{{")
        for k, (ms, cont) in enumerate(bs):
            if k:
                put(f"}}{sp()}or{sp()}{{")
            ind[0] += 1
            for m in ms:
                if isinstance(m, str):
                    put(m)
                else:
                    msg(m)
            if cont:
                put(f"continue{sp()}{cont};")
            ind[0] -= 1
        put("}")
    for _ in P.loops:
        ind[0] -= 1
        put("}")
    out.append("}")
    note()
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- protocols
def window(rng, lo=0, wide=False):
    """wide: an operation at the first admitted second has at least 30 s left"""
    if wide:
        l = rng.choice([0, 0, 0, 1, 2, 5, 9, 10, 11, 60])
        return l, rng.choice("[[]"), l + rng.choice([40, 90, 99, 100, 1000]), rng.choice("]][")
    s = rng.choice([3, 12, 30, 120, 1200, 10 ** 10, BIG]) if rng.random() < .9 else 2
    l = rng.randint(0, s)
    r = max(l, rng.randint(l, s + 1), lo)
    lb, rb = rng.choice("[[[]"), rng.choice("]]][")
    if l == r:
        lb, rb = "[", "]"
    return l, lb, r, rb


def gen(rng, name, n=None, wide=False, choice=None):
    n = n or rng.choice([2, 3, 3, 3, 4, 5])
    roles = rng.sample(rng.choice(NAMES), n)
    labels = {}
    clocks = rng.sample("abcxyzT", rng.randint(1, 3))
    style = rng.randrange(3)
    used = set()

    def label():
        if labels and rng.random() < .25:
            return rng.choice(list(labels.items()))
        while True:
            w = rng.choice(WORDS)
            lb = [f"{w}{rng.randint(0, 40)}", f"{w}{rng.choice(WORDS)}", f"{w.lower()}_{rng.choice(WORDS).lower()}"][style]
            if lb.replace("_", "").lower() not in used:
                used.add(lb.replace("_", "").lower())
                labels[lb] = rng.choice(PAYS) if rng.random() < .5 else None
                return lb, labels[lb]
    st = {}

    def msg():
        lb, pay = label()
        a, b = rng.sample(roles, 2)
        c = rng.choice(clocks)
        p = [st[x, c] for x in (a, b) if (x, c) in st]
        lo = max([q[0] for q in p], default=0)
        l, bl, r, br = window(rng, lo, wide)
        if r < lo:
            r = lo + rng.choice([0, 1, 10])
        if any(r == q[0] and q[1] for q in p):
            br = "]"
        m = Msg(lb, pay, a, b, c, l, bl, r, br, rng.choice(clocks) if rng.random() < .35 else None)
        st[a, c] = st[b, c] = sup(m)
        for x in (a, b):
            if m.reset:
                st.pop((x, m.reset), None)
        return m
    choice = rng.random() < .65 if choice is None else choice
    head = [msg() for _ in range(rng.randint(0 if choice else 1, 6))]
    loops, ch = {}, None
    if choice:
        for j in range(rng.choice([0, 0, 1, 1, 2])):
            loops[rng.choice(["Loop", "L", "Again", "Retry"]) + str(j) * rng.randint(0, 1) + "ab"[j]] = rng.randint(max(loops.values(), default=0), len(head))
        base = dict(st)
        bs = []
        nb = rng.choice([1, 2, 2, 3, 3, 4])
        for k in range(nb):
            st = dict(base)
            ms = [msg() for _ in range(rng.randint(0, 4))]
            cont = rng.choice(list(loops)) if loops and k < nb - 1 and rng.random() < .7 else None
            bs.append((ms, cont))
        rng.shuffle(bs)
        ch = (rng.choice(roles), bs)
    return P(name, roles, head, loops, ch)


def make(rng, name, **kw):
    """a protocol that meets the rules"""
    while True:
        p = gen(rng, name, **kw)
        if feasible(p) is True:
            return p


def mutate(rng, name):
    """a protocol of which the rules say exactly what is to happen, often just inside or just outside them"""
    while True:
        p = gen(rng, name)
        kind = rng.choice(["window", "window", "window", "window", "prev", "prev", "prev", "reset", "reset", "role", "role", "self", "chooser", "continue", "unclosed", "untimed", "nested",
                           "line", "line", "line", "after", "endless", "clock", "roles", "label", "name"])
        ms = p.all()
        if not ms:
            continue
        m = rng.choice(ms)
        expect = None
        tail = None
        if kind == "window":
            m.l, m.r = rng.choice([(5, 10), (10, 5), (9, 10), (10, 9), (99, 100), (100, 99), (2, 2), (12, 12), (100, 20), (20, 100), (3, 20), (20, 3), (BIG, 5), (5, BIG), (10, 10), (0, 0), (1, 0), (7, 11), (11, 7)])
            m.lb, m.rb = rng.choice("[]"), rng.choice("[]")
        elif kind in ("prev", "reset"):
            i = rng.randrange(len(ms))
            for x in ms[i:]:
                if kind == "reset":
                    x.reset = rng.choice([None, None, x.clock, m.clock])
                if x.clock == m.clock and rng.random() < .5:
                    d = rng.choice([-30, -2, -1, 0, 0, 1, 2, 30])
                    x.r = max(0, m.r + d)
                    x.l = min(x.l, x.r)
                    x.rb = rng.choice("[]") if x.l < x.r else "]"
                    x.lb = "[" if x.l == x.r else x.lb
        elif kind == "role":
            x = rng.choice(["Nobody", "Role" + p.roles[0], p.roles[0] + "x", p.roles[0][:-1] or "Q"])
            if x in p.roles:
                continue
            setattr(m, rng.choice("ab"), x)
            expect = False
        elif kind == "self":
            m.b = m.a
            expect = False
        elif kind == "chooser":
            if not p.choice:
                continue
            p.choice = ("Nobody", p.choice[1])
            expect = False
        elif kind == "continue":
            if not p.choice:
                continue
            k = rng.randrange(len(p.choice[1]))
            p.choice[1][k] = (p.choice[1][k][0] + ["continue Nowhere;"], None)
            expect = False
        elif kind == "nested":
            if not p.choice:
                continue
            k = rng.randrange(len(p.choice[1]))
            p.choice[1][k] = (p.choice[1][k][0] + [f"choice at {p.roles[0]} {{", f"Test77() from {p.roles[0]} to {p.roles[1]} within [0;1] using a and resetting ();", "} or {",
                                                   f"Test78() from {p.roles[0]} to {p.roles[1]} within [0;1] using a and resetting ();", "}"], None)
            expect = False
        elif kind in ("unclosed", "untimed", "line"):
            expect = False
        elif kind == "after":
            expect = False
        elif kind == "endless":
            if p.choice:
                continue
            expect = False
        elif kind == "clock":
            setattr(m, rng.choice(["clock", "reset"]), rng.choice(["xy", "clk", "x1", "time_1"]))
            expect = False
        elif kind == "roles":
            r = rng.choice(p.roles)
            x = rng.choice([r, r, r.swapcase(), r + "Dual", r + "toAll", "Allto" + r, "All", "End", "Broadcast", "7th", "Spare", "Idle2"])
            if x == r or x not in p.roles:
                p.roles = p.roles + [x]
            expect = None if x in ("Spare", "Idle2") else False
        elif kind == "label":
            o = rng.choice(ms)
            if o is m or (o.pay or "").lower() == (m.pay or "").lower():
                if not m.pay:
                    continue
                m.label = rng.choice([m.pay, m.pay if m.pay != m.pay.lower() else m.pay.replace("_", " ").title().replace(" ", "")])
            else:
                m.label = rng.choice([o.label, o.label.lower() if "_" in o.label else o.label])
            expect = False
        elif kind == "name":
            what = rng.choice(["label", "pay", "fine"])
            if what == "fine":
                for o in ms:
                    if o.label == m.label and o is not m:
                        o.label += "Bis"
                m.label, m.pay = rng.choice(["Ok", "ok", "err", "Some"]), "cargo"
            else:
                x = rng.choice(["Box", "error", "end", "role_end", "instant", "string", "String", "result", "hash_map", "MeshedChannels", "SendTimed", "self", "9lives", "Role" + rng.choice("AZ"), "Name" + rng.choice("AZ"), "ok", "Err"])
                if x[:4] in ("Role", "Name") and x[4:] not in p.roles or x in ("ok", "Err") and what == "label" and m.pay:
                    continue
                setattr(m, what, x)
                expect = False
        if expect is None:
            expect = feasible(p)
            if expect is None:
                continue
        p.expect, p.kind = expect, kind
        t = text(rng, p)
        if kind == "unclosed":
            ls = t.split("\n")
            k = max(i for i, l in enumerate(ls) if l.split("//")[0].strip() == "}")
            t = "\n".join(ls[:k] + ls[k + 1:])
        elif kind == "untimed":
            t = t.replace("timed", rng.choice(["", "tim", "Timed"]), 1)
        elif kind in ("line", "after", "endless"):
            t = disturb(rng, t, kind)
            if t is None:
                continue
        return p, t


def disturb(rng, t, kind):
    """the text with something that is no statement, or with a statement where there cannot be any"""
    ls = t.rstrip("\n").split("\n")
    code = [l.split("//")[0].rstrip() for l in ls]
    ends = [i for i, l in enumerate(code) if l.strip() == "}"]
    msgs = [i for i, l in enumerate(code) if " within " in l]
    if not msgs or not ends:
        return None
    last = max(i for i, l in enumerate(code) if l)
    any_msg = "    " + code[rng.choice(msgs)].strip()
    if kind == "line":
        i = rng.choice(msgs)
        l = code[i]
        new = rng.choice([re.sub(r"\s*within.*;", ";", l), l.rstrip(" ;"), re.sub(r"using\s+\w+\s+", "", l), re.sub(r"\s+and\s+resetting.*;", ";", l), re.sub(r"([\[\]])\s*(\d)", r"\1-\2", l, count=1),
                          re.sub(r"([\[\]]\s*\d+)", r"\1.5", l, count=1), re.sub(r"\(\w*\)", "(a, b)", l, count=1), re.sub(r"(\d)\s*;", r"\1,", l, count=1), l + any_msg, "then " + l.strip(), l + " done",
                          l + " }", l.replace(" from ", "\nfrom ", 1), l.replace("within", "between"), l.replace(" from ", " to ", 1), re.sub(r"\(", " (", l, count=1), "skip;\n" + l, l + "\nstop;",
                          l + "\n{ " + any_msg.strip() + " }"])
        if new == l:
            return None
        ls[i] = new
    elif kind == "endless":
        ls[last:last] = ["    rec Zed {", any_msg, "    continue Zed;", "    }"]
    else:
        cont = [i for i, l in enumerate(code) if l.strip().startswith("continue")]
        ch = any(l.strip().startswith("choice") for l in code)
        how = rng.choice(["end", "end2"] + ["choice"] * 3 * ch + ["continue"] * 3 * bool(cont))
        if how == "end":
            ls.insert(last + 1, rng.choice([any_msg, "}", "{", "{\n}", "choice at A {", "word"]))
        elif how == "end2":
            ls += ls
        elif how == "choice":
            k = last
            while code[k - 1].strip() in ("", "}"):
                k -= 1
            # k is the first closing line: the one of the last branch
            k = next(j for j in range(k, last + 1) if code[j])
            ls.insert(rng.choice([j for j in range(k + 1, last + 1)]), any_msg)
        else:
            ls.insert(rng.choice(cont) + 1, any_msg)
    return "\n".join(ls) + "\n"


# ---------------------------------------------------------------- generated source
class Bad(Exception):
    pass


TOK = re.compile(r"\s*('(?:.)'|-?\d+(?:i128)?|[A-Za-z_][\w:]*|[<>,()])")


def parse(s):
    toks = TOK.findall(s)
    i = 0

    def ty():
        nonlocal i
        t = toks[i]
        i += 1
        args = []
        if i < len(toks) and toks[i] == "<":
            i += 1
            while toks[i] != ">":
                args.append(ty())
                if toks[i] == ",":
                    i += 1
            i += 1
        return (t.split("::")[-1] if t[0] != "'" else t, args)
    try:
        return ty()
    except IndexError:
        raise Bad(f"unreadable type {s[:200]}")


class Source:
    def __init__(self, src):
        src = re.sub(r"//[^\n]*", "", src)
        self.src = src
        self.alias, self.enums, self.structs = {}, {}, {}
        for m in re.finditer(r"type\s+(\w+)\s*=\s*([^;]*);", src):
            if m[1] in self.alias:
                raise Bad(f"type {m[1]} is defined twice")
            self.alias[m[1]] = parse(m[2])
        for m in re.finditer(r"enum\s+(\w+)\s*\{([^}]*)\}", src):
            if m[1] in self.enums:
                raise Bad(f"enum {m[1]} is defined twice")
            self.enums[m[1]] = [(v[1], parse(v[2])) for v in re.finditer(r"(\w+)\s*\(([^()]*)\)", m[2])]
        for m in re.finditer(r"struct\s+(\w+)\s*(;|\{([^}]*)\})", src):
            if m[1] in self.structs:
                raise Bad(f"struct {m[1]} is defined twice")
            f = re.match(r"\s*(?:pub\s+)?payload\s*:\s*(\w+)\s*,?\s*$", m[3] or "")
            self.structs[m[1]] = f[1] if f else (None if m[2] == ";" or not (m[3] or "").strip() else "?")
        m = re.search(r"generate_atmp!\s*\(([^)]*)\)", src)
        if not m:
            raise Bad("the roles are not declared")
        self.roles = [x.strip() for x in m[1].split(",")][1:]
        m = re.search(r"=\s*fork_mpst\s*\(([^)]*)\)", src)
        if not m:
            raise Bad("the main function does not fork the roles")
        self.entries = [x.strip() for x in m[1].split(",") if x.strip()]
        if len(self.entries) != len(self.roles):
            raise Bad("the main function does not fork every role")
        self.entry, self.clocks = {}, {}
        for r, f in zip(self.roles, self.entries):
            m = re.search(r"fn\s+" + f + r"\s*\(\s*\w+\s*:\s*(\w+)\s*,(.*?)\n\}", src, re.S)
            if not m:
                raise Bad(f"function {f} is missing")
            self.entry[r] = m[1]
            self.clocks[r] = set(re.findall(r"insert\s*\(\s*'(.)'", m[2]))

    def full(self, t, depth=0):
        if depth > 5000:
            raise Bad("types are circular")
        n, args = t
        if n in self.alias and not args:
            return self.full(self.alias[n], depth + 1)
        return (n, [self.full(a, depth + 1) for a in args])


def endpoint(t, roles):
    """type tree -> (own role, {peer: [op]}, [stack])"""
    n, args = t
    if n != "MeshedChannels" or len(args) != len(roles) + 1:
        raise Bad(f"not an endpoint of {len(roles)} roles: {n}<{len(args)}>")
    own = args[-1][0]
    if not own.startswith("Name") or own[4:] not in roles:
        raise Bad(f"not a role's name: {own}")
    own = own[4:]
    ses = {}
    for q, s in zip([r for r in roles if r != own], args):
        ops = []
        while s[0] != "End":
            if s[0] not in ("SendTimed", "RecvTimed") or len(s[1]) != 8:
                raise Bad(f"not a session: {s[0]}")
            a = [x[0] for x in s[1][:7]]
            num = lambda x: int(x.replace("i128", ""))
            ops.append((s[0], a[0], (a[1][1:-1], num(a[2]), a[3] == "true", num(a[4]), a[5] == "true", a[6][1:-1])))
            s = s[1][7]
        ses[q] = ops
    st = []
    s = args[-2]
    while s[0] != "RoleEnd":
        st.append(s[0])
        if s[0] == "RoleBroadcast":
            break
        if len(s[1]) != 1:
            raise Bad(f"not an ordering: {s[0]}")
        s = s[1][0]
    return own, ses, st


FREE = ("free",)


def expected(P, r, k):
    """({peer: [(kind, label or ("choice", chooser, receiver), constraint)]}, stack)"""
    ms, more = P.state(k)
    ses = {q: [] for q in P.roles if q != r}
    st = []
    for m in ms:
        if m.a == r:
            ses[m.b].append(("SendTimed", m.label, m.con()))
            st.append("Role" + m.b)
        elif m.b == r:
            ses[m.a].append(("RecvTimed", m.label, m.con()))
            st.append("Role" + m.a)
    if more:
        c = P.choice[0]
        if c == r:
            for q in ses:
                ses[q].append(("SendTimed", (c, q), FREE))
            st.append("RoleBroadcast")
        else:
            ses[c].append(("RecvTimed", (c, r), FREE))
            st.append("Role" + c)
    return ses, st


def differs(got, want, P, r, labels, enums):
    """None if the endpoint is the one wanted, else why"""
    own, ses, st = got
    wses, wst = want
    if own != r:
        return f"belongs to {own}"
    if st != wst:
        return f"order {st}, expected {wst}"
    for q in wses:
        a, b = ses[q], wses[q]
        if len(a) != len(b):
            return f"{len(a)} operations with {q}, expected {len(b)}"
        for x, y in zip(a, b):
            if x[0] != y[0]:
                return f"{x[0]} with {q}, expected {y[0]}"
            if isinstance(y[1], tuple):
                if enums.setdefault(y[1], x[1]) != x[1]:
                    return f"choice type {x[1]}, elsewhere {enums[y[1]]}"
                c = x[2]
                if not (c[0] == " " and c[1] < 0 and c[3] < 0 and not c[2] and not c[4] and c[5] == " "):
                    return f"the choice is constrained: {c}"
            else:
                if labels.setdefault(y[1], x[1]) != x[1]:
                    return f"message {x[1]} for {y[1]}, elsewhere {labels[y[1]]}"
                if x[2] != y[2]:
                    return f"constraint {x[2]} of {y[1]} with {q}, expected {y[2]}"
    return None


def plainname(x):
    return re.fullmatch(r"[A-Z][a-z]*\d*|([A-Z][a-z]+)+", x) is not None


def compare(P, src):
    """compares a generated source with the protocol. returns (why or None, Source, {(role, state): alias}, labels, enums)"""
    s = Source(src)
    if sorted(s.roles) != sorted(P.roles):
        raise Bad(f"roles {s.roles}, expected {P.roles}")
    labels, enums, names = {}, {}, {}
    todo = [(r, None, s.entry[r]) for r in s.roles]
    seen = 0
    for r, k, al in todo:
        w = differs(endpoint(s.full((al, [])), s.roles), expected(P, r, k), P, r, labels, enums)
        if w:
            return f"entry of {r}: {w}", s, names, labels, enums
        names[r, k] = al
    if P.choice:
        c, bs = P.choice
        for q in s.roles:
            if q == c:
                continue
            e = enums.get((c, q))
            if e not in s.enums:
                return f"no choice type of {q} ({e})", s, names, labels, enums
            if len(s.enums[e]) != len(bs):
                return f"choice of {q} has {len(s.enums[e])} branches, expected {len(bs)}", s, names, labels, enums
            for k, (v, t) in enumerate(s.enums[e]):
                w = differs(endpoint(s.full(t), s.roles), expected(P, q, k), P, q, labels, enums)
                if w:
                    return f"branch {k} of {q}: {w}", s, names, labels, enums
                names[q, k] = t[0]
        # the chooser's own continuation: some declared endpoint type must be it
        cands = []
        for al in s.alias:
            t = s.full((al, []))
            if t[0] == "MeshedChannels" and t[1][-1][0] == "Name" + c:
                cands.append((al, endpoint(t, s.roles)))
        for k in range(len(bs)):
            best = None
            for al, e in cands:
                l2, e2 = dict(labels), dict(enums)
                w = differs(e, expected(P, c, k), P, c, l2, e2)
                if w is None:
                    names[c, k] = al
                    labels, enums = l2, e2
                    break
                best = best or w
            else:
                return f"no endpoint type for {c} after choosing branch {k} ({best})", s, names, labels, enums
    if len(set(labels.values())) != len(labels):
        return f"two messages share a type: {labels}", s, names, labels, enums
    if len(set(enums.values())) != len(enums):
        return f"two choices share a type: {enums}", s, names, labels, enums
    pays, rel = {}, {m.label: m.pay for m in P.all()}
    for lb, idn in labels.items():
        if plainname(lb) and idn != lb:
            return f"message {lb} became {idn}", s, names, labels, enums
        if idn not in s.structs:
            return f"no type for message {lb}", s, names, labels, enums
        p = s.structs[idn]
        if (p is None) != (rel[lb] is None) or (p and p not in s.structs):
            return f"message {lb}({rel[lb] or ''}) carries {p}", s, names, labels, enums
        if p and pays.setdefault(rel[lb], p) != p:
            return f"payload {rel[lb]} is both {p} and {pays[rel[lb]]}", s, names, labels, enums
    if len(set(pays.values())) != len(pays):
        return f"two payloads share a type: {pays}", s, names, labels, enums
    for r in s.roles:
        need = {x for m in P.all() if r in (m.a, m.b) for x in (m.clock, m.reset) if x}
        if not need <= s.clocks[r]:
            return f"the function of {r} lacks clocks {sorted(need - s.clocks[r])}", s, names, labels, enums
    return None, s, names, labels, enums


# ---------------------------------------------------------------- driving the generated program
def clocks(s, r):
    """the clocks that the generated function of the role creates"""
    return "".join(f"clk.insert('{c}', Instant::now()); " for c in sorted(s.clocks[r]))


def driver(P, s, names, labels, enums):
    """Rust functions that play every role of P with the types of the generated source"""
    low = {r: r.lower() for r in s.roles}
    o = ["pub type Lg = std::sync::Arc<(Vec<usize>, std::sync::Mutex<Vec<(usize, String)>>)>;",
         "fn note(lg: &Lg, r: usize, e: String) { lg.1.lock().unwrap().push((r, e)); }",
         "fn wind(clk: &mut HashMap<char, Instant>, c: char, secs: u64) { clk.insert(c, Instant::now() - std::time::Duration::from_millis(secs * 1000 + 100)); }",
         "pub fn entries() -> Vec<(&'static str, &'static str)> { vec![" + ", ".join(f'("{r} {"" if k is None else k}", std::any::type_name::<{al}>())' for (r, k), al in names.items()) + "] }"]
    for (r, k), al in sorted(names.items(), key=str):
        i = s.roles.index(r)
        ms, more = P.state(k)
        b = []
        for m in ms:
            if r not in (m.a, m.b):
                continue
            first = m.l + (m.lb == "]")
            b.append(f"    wind(clk, '{m.clock}', {first});")
            if m.a == r:
                idn = labels[m.label]
                p = s.structs[idn]
                v = f"{idn} {{ payload: {p} }}" if p else idn
                b += [f"    let s = s.send({v}, clk)?;", f'    note(lg, {i}, "!{m.b} {m.label}".to_string());']
            else:
                b += ["    let (m, s) = s.recv(clk)?;", f'    note(lg, {i}, format!("?{m.a} {{}}", std::any::type_name_of_val(&m).rsplit("::").next().unwrap()));']
        if more:
            c, bs = P.choice
            if c == r:
                b.append("    let k = lg.0[at];")
                b.append("    match k {")
                for j in range(len(bs)):
                    lab = ", ".join(f"{enums[c, q]}::{s.enums[enums[c, q]][j][0]}" for q in s.roles if q != r)
                    b.append(f"        {j} => {{ let s: {names[r, j]} = choose_mpst_{low[r]}_to_all!(s, clk, {lab}); note(lg, {i}, \"!! {j}\".to_string()); d{i}_{j}(s, clk, lg, at + 1) }}")
                b += ["        _ => unreachable!(),", "    }"]
            else:
                arms = "\n".join(f"        {enums[c, r]}::{s.enums[enums[c, r]][j][0]}(s) => {{ note(lg, {i}, \"?? {j}\".to_string()); d{i}_{j}(s, clk, lg, at + 1) }}," for j in range(len(bs)))
                b += ["    offer_mpst!(s, clk, {", arms, "    })"]
        else:
            b.append("    s.close()")
        o += [f"fn d{i}_{'e' if k is None else k}(s: {al}, clk: &mut HashMap<char, Instant>, lg: &Lg, at: usize) -> Result<(), Box<dyn Error>> {{"] + b + ["}"]
    n = len(s.roles)
    cl = ",\n        ".join(f"{{ let lg = lg.clone(); move |s: {s.entry[r]}, clk: &mut HashMap<char, Instant>| -> Result<(), Box<dyn Error>> {{ {clocks(s, r)}let x = d{i}_e(s, clk, &lg, 0); "
                             f"if let Err(e) = &x {{ note(&lg, {i}, format!(\"error {{e}}\")); }} x }} }}" for i, r in enumerate(s.roles))
    hs = ", ".join(f"h{i}" for i in range(n))
    o += ["pub fn drive(script: &[usize]) -> Vec<String> {", "    let lg: Lg = std::sync::Arc::new((script.to_vec(), std::sync::Mutex::new(vec![])));",
          f"    let ({hs}) = fork_mpst(\n        {cl});"]
    for i in range(n):
        o.append(f"    if let Err(e) = h{i}.join() {{ note(&lg, {i}, format!(\"panic {{:?}}\", (e.downcast_ref::<String>(), e.downcast_ref::<&str>()))); }}")
    o += ["    let v = lg.1.lock().unwrap();", f"    (0..{n}).map(|r| v.iter().filter(|x| x.0 == r).map(|x| x.1.clone()).collect::<Vec<_>>().join(\";\")).collect()", "}",
          "pub fn skeleton() { main() }"]
    return "\n".join(o)


def play(P, s, labels, script):
    """what each role's log is to be"""
    log = {r: [] for r in s.roles}
    k = None
    at = 0
    while True:
        ms, more = P.state(k)
        for m in ms:
            log[m.a].append(f"!{m.b} {m.label}")
            log[m.b].append(f"?{m.a} {labels[m.label]}")
        if not more:
            return [";".join(log[r]) for r in s.roles]
        k = script[at]
        at += 1
        for r in s.roles:
            log[r].append(("!! " if r == P.choice[0] else "?? ") + str(k))


def cyclic(P):
    """a loop on which a role sends to the chooser and does something else with it before the choice: the compiler gives up
    on the generated types (known finding N01-loop)"""
    if P.choice:
        c = P.choice[0]
        for k in range(len(P.choice[1])):
            ms, more = P.state(k)
            for q in P.roles:
                ops = [m.a == q for m in ms if {m.a, m.b} == {q, c}]
                if more and q != c and True in ops[:-1]:
                    return True
    return False


def scripts(rng, P, n):
    if not P.choice:
        return [[]]
    final = [k for k, (_, c) in enumerate(P.choice[1]) if c is None]
    out = set()
    for _ in range(n * 3):
        sc = []
        while True:
            k = rng.randrange(len(P.choice[1]))
            if len(sc) > 12:
                k = rng.choice(final)
            sc.append(k)
            if k in final:
                break
        out.add(tuple(sc))
        if len(out) >= n:
            break
    for k in range(len(P.choice[1])):
        out.add((k,) if k in final else (k, rng.choice(final)))
    return sorted(map(list, out))


# ---------------------------------------------------------------- running the generator
NUSCR = """#!/bin/sh
echo "$@" >> "$NUSCR_LOG/args"
cp "$2" "$NUSCR_LOG/$(basename "$2")"
[ "$NUSCR_OK" = 1 ] && echo "(sexp)"
exit 0
"""


def build_gen(ctx):
    d, exes = ctx.build("gen", {"nuscr_gen": prelude() + open(os.path.join(W, "nuscr_gen.rs")).read()})
    if "nuscr_gen" not in exes:
        raise Inconclusive("the generator driver does not build")
    return exes["nuscr_gen"]


def run_gen(ctx, exe, base, items, check=0, ok="1"):
    """items: [(id, text)] -> {id: (verdict, message, generated source or None, files)}"""
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(os.path.join(base, "cwd"))
    os.makedirs(os.path.join(base, "bin"))
    os.makedirs(os.path.join(base, "log"))
    nu = os.path.join(base, "bin", "nuscr")
    open(nu, "w").write(NUSCR)
    os.chmod(nu, 0o755)
    with open(os.path.join(base, "list"), "w") as f:
        for i, t in items:
            os.makedirs(os.path.join(base, "o", i))
            open(os.path.join(base, i + ".nuscr"), "w").write(t)
            f.write(f"{i} {base}/{i}.nuscr {base}/o/{i}/ {check}\n")
    e = dict(os.environ, PATH=os.path.join(base, "bin") + ":" + os.environ["PATH"], NUSCR_LOG=os.path.join(base, "log"), NUSCR_OK=ok)
    p = subprocess.run([exe, os.path.join(base, "list")], cwd=os.path.join(base, "cwd"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    res = {}
    for l in p.stdout.splitlines():
        if l.startswith("@@"):
            f = (l[2:] + "  ").split(" ", 2)
            res[f[0]] = (f[1], f[2].strip())
    out = {}
    for i, t in items:
        if i not in res:
            out[i] = ("died", f"the generator process ended with {p.returncode}: {p.stdout[-300:]}", None, [])
            continue
        fs = sorted(os.listdir(os.path.join(base, "o", i)))
        src = open(os.path.join(base, "o", i, fs[0])).read() if len(fs) == 1 else None
        out[i] = (*res[i], src, fs)
    return out


def unsend(P, enums):
    return "".join(f"unsafe impl Send for {e} {{}}\n" for e in enums.values()) if cyclic(P) else ""


def loop_finding(ctx, exe, base):
    """the smallest protocol on which the generated code does not compile"""
    w = lambda l: Msg(l, None, "B", "A", "x", 0, "[", 5, "]", "x")
    p = P("LoopSendSend", ["A", "B"], [], {"L": 0}, ("A", [([w("M1"), w("M2")], "L"), ([], None)]))
    t = text(random.Random(0), p, plain=True)
    v, msg, src, fs = run_gen(ctx, exe, base, [("f", t)])["f"]
    shutil.rmtree(base, ignore_errors=True)
    if v != "ok" or not src:
        ctx.violation(p.name, "rejected", f"valid protocol: {v} {msg}", dict(protocol=t))
        return
    d = crate.write_crate("N01_loop", {"n01loop": src})
    ok, log = crate.build(d)
    ctx.evaluations += 1
    if not ok:
        ctx.violation(p.name, "compile-loop" if "E0275" in log else "compile", "the generated program does not compile: " + "; ".join(l for l in log.splitlines() if l.startswith("error"))[:600],
                      dict(protocol=t, generated=src, log=log[-4000:]))


def check_N01(ctx):
    ctx.level = "exploration"
    rng = ctx.rng
    exe = build_gen(ctx)
    ctx.rule = ("Each evaluation is one generated program of one random timed global protocol, written by the real generator: every endpoint type (entry and each branch, of each role) is "
                "resolved and compared with the projection of the protocol (peers, direction, order, message, payload, window, clock, reset, choices, loops); a subset is compiled against the "
                "library and run through random branch scripts, each role's log of operations being compared with its projection, and the compiler's own rendering of the "
                "endpoint types with the projection. distinct_nontrivial counts distinct protocols.")
    base = os.path.join(crate.BUILD, "N01_gen")
    ps = []
    n = 1000 if ctx.quick else 30000
    nrun = 48 if ctx.quick else 400
    for i in range(nrun):
        ps.append(make(rng, f"Prot{i}", n=[2, 3, 3, 4, 3, 5][i % 6], wide=True, choice=[True, True, False][i % 3] if i else True))
    for i in range(nrun, n):
        ps.append(make(rng, f"Prot{i}", n=rng.choice([2, 3, 3, 4, 5])))
    texts = [text(rng, p, plain=rng.random() < .3) for p in ps]
    res = run_gen(ctx, exe, base, [(p.name, t) for p, t in zip(ps, texts)])
    drv = []
    keys = set()
    for j, (p, t) in enumerate(zip(ps, texts)):
        v, msg, src, fs = res[p.name]
        ctx.evaluations += 1
        detail = dict(protocol=t, result=v, message=msg, generated=src)
        if v != "ok" or fs != [p.name + ".rs"]:
            ctx.violation(p.name, "rejected", f"valid protocol: {v} {msg}; files {fs}", detail)
            continue
        try:
            w, s, names, labels, enums = compare(p, src)
        except Bad as e:
            ctx.violation(p.name, "shape", str(e), detail)
            continue
        ctx.add("endpoint_types_compared", len(names))
        ctx.add("operations_compared", sum(len(p.state(k)[0]) for _, k in names))
        ctx.add("protocols_with_choice", p.choice is not None)
        ctx.add("protocols_with_loop", any(c for _, c in p.choice[1]) if p.choice else 0)
        keys.add(t)
        if w:
            ctx.violation(p.name, "types", w, detail)
        elif j < nrun:
            drv.append((p, s, names, labels, enums, src, t))
    shutil.rmtree(base, ignore_errors=True)
    ctx.distinct = len(keys)
    if not drv:
        return
    nb = 7
    bins = {}
    for i in range(nb):
        part = drv[i::nb]
        if not part:
            continue
        mods = [f"#[allow(warnings)]\npub mod {p.name.lower()} {{\n{src}\n{unsend(p, enums)}{driver(p, s, names, labels, enums)}\n}}" for p, s, names, labels, enums, src, t in part]
        run = []
        for p, s, names, labels, enums, src, t in part:
            m = p.name.lower()
            run.append(f'for (r, t) in {m}::entries() {{ println!("@@type {p.name} {{r}}|{{t}}"); }}\n{m}::skeleton();')
            for sc in scripts(rng, p, 10 if ctx.quick else 30):
                run.append(f'println!("@@run {p.name} {sc}|{{}}", {m}::drive(&{sc}).join("|"));')
        bins[f"nuscr{i}"] = prelude() + "\n".join(mods) + "\nfn main() {\n" + "\n".join(run) + "\n}\n"
    d, exes = ctx.build("run", bins)
    loop_finding(ctx, exe, base)
    by = {x[0].name: x for x in drv}
    for b, (rc, out) in sorted(ctx.run_all([(b, [e], 200) for b, e in exes.items()]).items()):
        if rc != 0:
            ctx.violation(b, "crash" if rc is not None else "hang", f"generated programs ended with {rc}", dict(output=out[-3000:]))
        for l in out.splitlines():
            if l.startswith("@@type "):
                h, t = l[7:].split("|", 1)
                nm, r, k = (h + " ").split(" ")[:3]
                p, s, names, labels, enums, src, txt = by[nm]
                try:
                    w = differs(endpoint(parse(t), s.roles), expected(p, r, int(k) if k else None), p, r, dict(labels), dict(enums))
                except Bad as e:
                    w = str(e)
                ctx.add("compiled_types_compared")
                if w:
                    ctx.violation(nm, "compiled-types", f"{r} {k}: {w}", dict(protocol=txt, type=t))
            elif l.startswith("@@run "):
                h, *logs = l[6:].split("|")
                nm, sc = h.split(" ", 1)
                p, s, names, labels, enums, src, txt = by[nm]
                want = play(p, s, labels, json.loads(sc))
                ctx.evaluations += 1
                ctx.add("runs")
                ctx.add("operations_observed", sum(len(x.split(";")) for x in logs))
                if logs != want:
                    ctx.violation(nm, "run", f"script {sc}: roles did {logs}, expected {want}", dict(protocol=txt, generated=src))
                ctx.sample(dict(protocol=nm, roles=s.roles, script=sc, logs=logs))
    if exes and not ctx.counters.get("runs"):
        ctx.violation("nuscr", "crash", "no generated program ran", None)


def squeeze(t):
    t = re.sub(r"//[^\n]*", "", t)  # comments may be handed on or not
    return re.sub(r"\s*([(){};,])\s*", r"\1", re.sub(r"\s+", " ", t)).strip()


def odd_inputs(ctx, exe, base, valid):
    """inputs that are no text at all, outputs that cannot be written, programs that are there already"""
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + "/cwd")
    cases, lines = {}, []

    def case(i, path, out, expect, text=b""):
        if text is not None:
            open(path, "wb").write(text)
        os.makedirs(base + "/o/" + i)
        cases[i] = expect
        for chk in "0":
            lines.append(f"{i} {path} {out} {chk}")
    t = valid[0][1].encode()
    for k in range(40):
        name, txt = valid[k % len(valid)]
        b = txt.encode()
        # a byte that is no UTF-8, anywhere: the file is not readable as a protocol
        pos = ctx.rng.randrange(len(b) + 1)
        case(f"bytes{k}", f"{base}/bytes{k}.nuscr", f"{base}/o/bytes{k}/", "err", b[:pos] + ctx.rng.choice([b"\xff", b"\xc3\x28", b"\x80"]) + b[pos:])
    case("missing", f"{base}/nothing.nuscr", f"{base}/o/missing/", "err", None)
    os.makedirs(base + "/dir.nuscr")
    case("directory", f"{base}/dir.nuscr", f"{base}/o/directory/", "err", None)
    case("empty", f"{base}/empty.nuscr", f"{base}/o/empty/", "err", b"")
    case("nowhere", f"{base}/nowhere.nuscr", f"{base}/o/not/there/", "err", t)
    for k, (name, txt) in enumerate(valid[:12]):
        i = f"again{k}"
        case(i, f"{base}/{i}.nuscr", f"{base}/o/{i}/", "ok", txt.encode())
        open(f"{base}/o/{i}/{name}.rs", "w").write("// an older and longer program\n" * 5000)
    open(base + "/list", "w").write("\n".join(lines) + "\n")
    p = subprocess.run([exe, base + "/list"], cwd=base + "/cwd", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    got = {l[2:].split(" ")[0]: l[2:].split(" ")[1] for l in p.stdout.splitlines() if l.startswith("@@")}
    for i, want in cases.items():
        ctx.evaluations += 1
        ctx.add("odd_inputs_" + want)
        g = got.get(i, "died")
        left = [os.path.join(d, f) for d, _, fs in os.walk(f"{base}/o/{i}") for f in fs]
        src = "".join(open(f).read() for f in left)
        if g != want:
            ctx.violation("odd-" + re.sub(r"[0-9]", "", i), "odd-input", f"{i}: the generator answered {g} instead of {want}", dict(output=p.stdout[-2000:]))
        elif want == "err" and src.strip():
            ctx.violation("odd-" + i, "partial-output", f"{i}: rejected, but a program was left behind", dict(program=src[:3000]))
        elif want == "ok" and ("older" in src or "fn main" not in src):
            ctx.violation("odd-" + i, "stale-output", f"{i}: the program that was there before is not replaced", dict(program=src[-2000:]))
    if os.listdir(base + "/cwd"):
        ctx.violation("odd", "left-behind", "files are left behind in the working directory: " + str(os.listdir(base + "/cwd")), None)
    shutil.rmtree(base, ignore_errors=True)


def check_N02(ctx):
    ctx.level = "exploration"
    rng = ctx.rng
    exe = build_gen(ctx)
    ctx.rule = ("Each evaluation is one call of the real generator on a protocol text, with the verdict compared with the rules (numeric windows, feasibility with respect to the previous window "
                "and resets of the clock for each participant, declared roles, closed and timed protocol of nothing but statements, known loops that contain a choice, nothing after a choice or a continue, names and clocks that make types, no nested choice); on rejection no program may be left behind. "
                "A share of the calls also has the stand-in nuscr accept or refuse the untimed protocol it is handed, which is compared with the original. distinct_nontrivial counts distinct texts.")
    base = os.path.join(crate.BUILD, "N02_gen")
    n = 12000 if ctx.quick else 250000
    items, ps = [], {}
    for i in range(n):
        p, t = mutate(rng, f"Prot{i}")
        ps[p.name] = (p, t)
        items.append((p.name, t))
    keys = set()

    def judge(res, only=None):
        for nm, (v, msg, src, fs) in res.items():
            p, t = ps[nm]
            ctx.evaluations += 1
            keys.add(t.split("\n", 1)[1])
            expect = p.expect if only is None else only
            ctx.add(f"{p.kind}_{'accepted' if expect else 'rejected'}")
            detail = dict(protocol=t, result=v, message=msg, files=fs, rule=p.kind)
            if expect and v != "ok":
                ctx.violation(nm, "rejected-" + p.kind, f"protocol that meets the rules: {v} {msg}", detail)
            elif expect and (src is None or "fn main" not in src):
                ctx.violation(nm, "no-output", f"accepted, but no program was written ({fs})", detail)
            elif not expect and v == "ok":
                ctx.violation(nm, "accepted-" + p.kind, "protocol that breaks the rules was accepted", detail)
            elif not expect and v != "err":
                ctx.violation(nm, "panic-" + p.kind, f"protocol that breaks the rules: {v} {msg} instead of an error", detail)
            elif not expect and src and src.strip():
                ctx.violation(nm, "partial-output", "rejected, but a program was left behind", detail)
    chunks = [items[i::NCPU] for i in range(NCPU)]
    with ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(lambda a: run_gen(ctx, exe, f"{base}_{a[0]}", a[1]), enumerate(chunks)):
            judge(r)
    for i in range(NCPU):
        shutil.rmtree(f"{base}_{i}", ignore_errors=True)
    odd_inputs(ctx, exe, base + "_odd", [(n, t) for n, (p, t) in ps.items() if p.expect][:40])
    # ---- with the external check
    sub = rng.sample(items, 150 if ctx.quick else 3000)
    for ok in "10":
        b = f"{base}_nuscr{ok}"
        judge(run_gen(ctx, exe, b, sub, 1, ok), None if ok == "1" else False)
        left = os.listdir(os.path.join(b, "cwd"))
        if left:
            ctx.violation("nuscr", "left-behind", f"temporary files {left[:4]} are left behind", None)
        got = {}
        log = os.path.join(b, "log")
        args = open(os.path.join(log, "args")).read().splitlines() if os.path.exists(os.path.join(log, "args")) else []
        for l in args:
            m = re.match(r"--generate-sexp=(\w+) (\S+)$", l)
            if m and os.path.exists(os.path.join(log, os.path.basename(m[2]))):
                got[m[1]] = open(os.path.join(log, os.path.basename(m[2]))).read()
        for nm, t in sub:
            p = ps[nm][0]
            if p.kind in ("untimed", "line", "after"):
                continue
            want = squeeze(re.sub(r"\s+within\s+[\[\]]\s*\d+\s*;\s*\d+\s*[\[\]]\s+using\s+\w+\s+and\s+resetting\s+\(\w*\)\s*;", ";", re.sub(r"^timed +", "", t)))
            ctx.add("untimed_protocols_compared")
            if nm not in got:
                ctx.violation(nm, "not-checked", "nuscr was not asked about the protocol", dict(protocol=t, args=args[:5]))
            elif squeeze(got[nm]) != want:
                ctx.violation(nm, "untimed", "the untimed protocol handed to nuscr differs from the original", dict(protocol=t, got=got[nm]))
        shutil.rmtree(b, ignore_errors=True)
    ctx.distinct = len(keys)
    for p, t in list(ps.values())[:4]:
        ctx.sample(dict(rule=p.kind, expect=p.expect, protocol=t))
