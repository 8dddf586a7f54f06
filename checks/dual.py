"""D01: structure strings, duality and connectivity of sessions, roles and names."""
import os
import crate
from harness import prelude

W = os.path.join(crate.VERIF, "workloads")
PAY = ["u64", "i32", "String", "Tok", "Vec<u8>", "(u64, String)", "Option<Tok>", "()"]


# sessions: ("End",) | (head, type text before the continuation, dual text, cont)
def sess(rng, depth, timed):
    if depth == 0:
        return None
    pay = rng.choice(PAY)
    head = rng.choice(["Send", "Recv"])
    t = None
    if rng.random() < timed:
        l, r = rng.choice([(0, 0), (0, 5), (1, 2), (3, 10 ** 20), (-1, 4), (2, -1), (-7, 0), (0, -3), (7, 3), (5, 5)])
        t = f"'{rng.choice('abcz')}', {l}, {rng.choice(['true', 'false'])}, {r}, {rng.choice(['true', 'false'])}, '{rng.choice('abcz ')}'"
        import re
        t = re.sub(r"(?<= )(-\d+)", r"{ \1 }", t)
    return (head, pay, t, sess(rng, depth - 1, timed))


FLIP = {"Send": "Recv", "Recv": "Send"}


def sdual(s):
    return None if s is None else (FLIP[s[0]], s[1], s[2], sdual(s[3]))


def stype(s):
    if s is None:
        return "End"
    h, p, t, k = s
    return f"{h}Timed<{p}, {t}, {stype(k)}>" if t else f"{h}<{p}, {stype(k)}>"


def sstr(s):
    """(head, tail)"""
    if s is None:
        return "End", ""
    h, t = sstr(s[3])
    return s[0], f"{h}<{t}>"


def full(ht):
    return f"{ht[0]}<{ht[1]}>"


def sparts(s):
    return [full(sstr(s))] + ([] if s is None else sparts(s[3]))


# roles: ("RoleX", kids)
class Fam:
    def __init__(self):
        self.dual = {"RoleEnd": "RoleEnd", "RoleBroadcast": "RoleBroadcast"}
        self.arity = {"RoleEnd": 0, "RoleBroadcast": 0}
        self.names = []

    def normal(self, a, b):
        self.dual[a], self.dual[b] = b, a
        self.arity[a] = self.arity[b] = 1

    def broad(self, a, b):
        self.dual[a], self.dual[b] = b, a
        self.arity[a] = self.arity[b] = 2

    def short(self, x):
        self.normal(f"Role{x}", f"Role{x}Dual")

    def bshort(self, x):
        self.broad(f"Role{x}toAll", f"RoleAllto{x}")


def role(rng, F, depth, size):
    """size: a list holding the number of constructors left"""
    size[0] -= 1
    if depth == 0 or size[0] <= 0:
        return (rng.choice(["RoleEnd", "RoleEnd", "RoleBroadcast"]), [])
    h = rng.choice([x for x in F.arity if F.arity[x]])
    return (h, [role(rng, F, depth - 1, size) for _ in range(F.arity[h])])


def rdual(F, r):
    return (F.dual[r[0]], [rdual(F, k) for k in r[1]])


def rtype(r):
    return r[0] + (("<" + ", ".join(rtype(k) for k in r[1]) + ">") if r[1] else "")


def rstr(r):
    return r[0], " + ".join(full(rstr(k)) for k in r[1])


def rparts(r):
    out = [full(rstr(r))]
    for k in r[1]:
        out += rparts(k)
    return out


def lit(x):
    import json
    return json.dumps(x)


def arr(xs):
    return "&[" + ", ".join(lit(x) for x in xs) + "]"


def program(rng, bi, quick):
    src = [prelude(), "include!(%s);" % lit(os.path.join(W, "dual.rs"))]
    F = Fam()
    for x in "ABC":
        F.short(x)
        F.bshort(x)
    names = ["NameA", "NameB", "NameC"]
    seen = {"A", "B", "C"}

    def fresh():
        while True:
            x = rng.choice("DEFGHKLMPQRSTUVWXYZ") + "".join(rng.choice("abcdxyz0189") for _ in range(rng.randrange(0, 5)))
            if x not in seen and x not in ("End",):
                seen.add(x)
                return x
    norm, broad, wires = [], [], []
    # one family per macro
    x, y = fresh(), fresh()
    F.normal("R" + x, "Op" + y)
    src.append(f"mpstthree::create_normal_role!(R{x}, Op{y});")
    norm += ["R" + x, "Op" + y]
    xs = [("N" + fresh(), "M" + fresh()) for _ in range(3)]
    src.append("mpstthree::create_multiple_normal_role!(" + "".join(f"{a}, {b} | " for a, b in xs) + ");")
    for a, b in xs:
        F.normal(a, b)
        norm += [a, b]
    x, y = "Cast" + fresh(), "Hear" + fresh()
    F.broad(x, y)
    src.append(f"mpstthree::create_broadcast_role!({x}, {y});")
    broad += [x, y]
    xs = [("To" + fresh(), "From" + fresh()) for _ in range(2)]
    src.append("mpstthree::create_multiple_broadcast_role!(" + "".join(f"{a}, {b} | " for a, b in xs) + ");")
    for a, b in xs:
        F.broad(a, b)
        broad += [a, b]
    for multi in (False, True):
        xs = [fresh() for _ in range(3 if multi else 1)]
        m = "multiple_" if multi else ""
        src.append(f"mpstthree::create_{m}normal_role_short!({', '.join(xs)});")
        src.append(f"mpstthree::create_{m}broadcast_role_short!({', '.join(xs)});")
        src.append(f"mpstthree::create_{m}normal_name_short!({', '.join(xs)});")
        for x in xs:
            F.short(x)
            F.bshort(x)
            norm += [f"Role{x}", f"Role{x}Dual"]
            broad += [f"Role{x}toAll", f"RoleAllto{x}"]
            wires.append("Name" + x)
        xs = ["Id" + fresh() for _ in range(3 if multi else 1)]
        src.append(f"mpstthree::create_{m}normal_name!({', '.join(xs)});")
        wires += xs
    meshes = {"mpstthree::meshedchannels::MeshedChannels": 2}
    anorm, abroad = [], []
    for i, (mode, n) in enumerate([[("basic", rng.randrange(2, 6)), ("recursive", rng.randrange(2, 5)), ("atmp", rng.randrange(2, 5)), ("interleaved", 3), ("basic", 3), ("recursive", 6)][bi % 6]]):
        xs = [fresh() for _ in range(n)]
        if mode == "atmp":
            src.append(f"mpstthree::generate_atmp!(Mesh{i}, {', '.join(xs)});")
        elif mode == "interleaved":
            src.append(f"mpstthree::generate!(\"{rng.choice(['basic', 'recursive'])}\", Mesh{i}, {', '.join(xs)});")
        else:
            src.append(f"mpstthree::generate!(\"{mode}\", Mesh{i}, {', '.join(xs)});")
        meshes[f"Mesh{i}"] = n - 1
        for x in xs:
            F.short(x)
            F.bshort(x)
            (anorm if mode == "atmp" else norm).extend([f"Role{x}", f"Role{x}Dual"])
            (abroad if mode == "atmp" else broad).extend([f"Role{x}toAll", f"RoleAllto{x}"])
            wires.append("Name" + x)
    k = rng.randrange(2, 9)
    src.append(f"mpstthree::create_meshedchannels!(MeshOwn, {k});")
    meshes["MeshOwn"] = k - 1
    if anorm:
        src.append(f"normal_role!({', '.join(anorm)}; [unwrap]);\nbroad_role!({', '.join(abroad)}; [unwrap]);")
    src.append(f"normal_role!({', '.join(norm)}; []);\nbroad_role!({', '.join(broad)}; []);\nwire!({', '.join(wires)});")
    names += wires

    cases, meta = [], []

    def case(kind, body):
        nm = f"d{bi}_{kind}{len(cases)}"
        src.append(f"fn {nm}(rng: &mut Rng, st: &mut Stats) {{ let mut b = Bad {{ name: \"{nm}\", out: vec![], n: 0 }};\n{body}\nreport(b, st, rng); }}")
        cases.append(nm)

    m = 1 if quick else 3
    depths = [0, 1, 2, 3, 4, 6, 9] * m + [30]
    for i, d in enumerate(depths * 2):
        s = sess(rng, d, [0, .5, 1][i % 3] if i else 0)
        e = sdual(s)
        case("session", f"chk_session::<{stype(s)}, {stype(e)}>({arr(sparts(s))}, {arr(sparts(e))}, rng, &mut b);")
    heads = [x for x in F.arity]
    for h in heads:   # every constructor at the top
        r = (h, [role(rng, F, rng.randrange(0, 4), [12]) for _ in range(F.arity[h])])
        e = rdual(F, r)
        case("role", f"chk_role::<{rtype(r)}, {rtype(e)}>({arr(rparts(r))}, {arr(rparts(e))}, rng, &mut b);")
    for d in [5, 8, 12, 20] * m:
        r = role(rng, F, d, [30])
        e = rdual(F, r)
        case("role", f"chk_role::<{rtype(r)}, {rtype(e)}>({arr(rparts(r))}, {arr(rparts(e))}, rng, &mut b);")
    for n in names:
        case("name", f"chk_name::<{n}>({lit(n)}, rng, &mut b);")
    for mesh, k in meshes.items():
        for j in range(2 * m):
            base = sess(rng, rng.randrange(1, 4), 0)
            ss = [base if j == 0 else sess(rng, rng.randrange(0, 4), .3 if j > 1 else 0) for _ in range(k)]
            r = role(rng, F, rng.randrange(0, 5), [10]) if j else ("RoleEnd", [])
            nm = rng.choice(names)

            def strs(ss, r):
                ps = [sstr(s) for s in ss] + [rstr(r), (nm, "")]
                return "\n".join(p[0] for p in ps), "\n".join(full(p) for p in ps)
            h, t = strs(ss, r)
            ds, dr = [sdual(s) for s in ss], rdual(F, r)
            dh, dt = strs(ds, dr)
            ty = f"{mesh}<{', '.join(stype(s) for s in ss)}, {rtype(r)}, {nm}>"
            dty = f"{mesh}<{', '.join(stype(s) for s in ds)}, {rtype(dr)}, {nm}>"
            body = f"let (s, d) = chk_mesh::<{ty}, {dty}>({lit(h)}, {lit(t)}, {lit(dh)}, {lit(dt)}, &mut b);\n"
            order = list(range(1, k + 1))
            rng.shuffle(order)
            body += "let how = rng.below(3);\nif how == 0 {\n"   # everything connected to its counterpart
            for q in order:
                body += f"s.session{q}.walk(d.session{q}, stop_at({len(sparts(ss[q - 1]))}, rng), rng, &mut b);\n"
            body += "s.stack.leaf(d.stack, rng, &mut b);\n} else if how == 1 {\n"   # values in flight on all sessions at once
            for q in order:
                if ss[q - 1] is not None and not ss[q - 1][2]:
                    x, y = ("s", "d") if ss[q - 1][0] == "Send" else ("d", "s")
                    body += f"let f{q} = rng.next(); let v = <{ss[q - 1][1]} as Payload>::make(f{q}); let f{q} = v.fp(); let _k{q} = mpstthree::binary::send::send(v, {x}.session{q});\n"
            for q in sorted(order):
                if ss[q - 1] is not None and not ss[q - 1][2]:
                    x, y = ("s", "d") if ss[q - 1][0] == "Send" else ("d", "s")
                    body += f"match mpstthree::binary::recv::recv({y}.session{q}) {{ Ok((v, _)) => b.must(\"connectivity\", v.fp() == f{q}, \"session {q} of a multiparty channel delivered another session's value\"), Err(_) => b.add(\"connectivity\", \"session {q} of a multiparty channel delivered nothing\".into()) }}\n"
            body += "} else {\n"     # dropping the whole object is seen on every session
            if j % 2:
                body += "let gone = s; let stay = d; drop(gone);\n"
                rem = ds
            else:
                body += "let gone = d; let stay = s; drop(gone);\n"
                rem = ss
            for q in order:
                s = rem[q - 1]
                if s is None:
                    body += f"b.must(\"connectivity\", mpstthree::binary::close::close(stay.session{q}).is_err(), \"session {q}: close succeeded after the other side was dropped\");\n"
                elif s[2]:
                    pass
                elif s[0] == "Recv":
                    body += f"b.must(\"connectivity\", mpstthree::binary::recv::recv(stay.session{q}).is_err(), \"session {q}: receive succeeded after the other side was dropped\");\n"
                else:
                    body += f"b.must(\"connectivity\", stay.session{q}.channel.try_send((<{s[1]} as Payload>::make(3), <{stype(sdual(s[3]))} as Session>::new().0)).is_err(), \"session {q}: the drop of the other side is not seen\");\n"
            body += "}\n"
            case("mesh", body)
    src.append("fn main() { case_loop(vec![" + ", ".join(f"Case {{ name: \"{c}\", f: {c} }}" for c in cases) + f"], {60 if quick else 400}); }}")
    return "\n".join(src), len(cases), len(F.arity) + len(names) + len(meshes)


def check_D01(ctx):
    ctx.rule = ("Random nestings (depth 0-30) of Send/Recv/End and their timed versions, of every built-in role and of roles, names and multiparty channels "
                "made by each creating macro under random names; printed heads and tails of types, objects, continuations and duals are compared with strings computed "
                "from the term, and each pair is driven: values, signals, drops at a random point, closes and cancels must be seen by the other object and nowhere else. "
                "Distinct: (term, drive) pairs.")
    bins, terms = {}, 0
    for i in range(6 if ctx.quick else 16):
        bins[f"d01_{i}"], n, k = program(ctx.rng, i, ctx.quick)
        terms += n
        ctx.add("constructors", k)
    ctx.extra["terms"] = terms
    d, exes = ctx.build("dual", bins)
    if exes:
        ctx.run_vmon(exes, [], 3 if ctx.quick else 60, 2)
