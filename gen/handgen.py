"""Back ends for the hand-built multiparty interfaces: built-in roles A, B, C; macros_simple; macros_multiple."""
from protogen import *

USES = COMMON + [
    "use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};",
    "use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd, Role};"]


def dual(x):
    return f"<{x} as Role>::Dual"


class Three(Backend):
    """common parts of the three-role back ends over mpstthree::meshedchannels::MeshedChannels"""
    mc = "MeshedChannels"
    fallible_send = False
    has_cancel = False
    has_choose_fn = True

    def e_cancel(self):
        return "mpstthree::binary::cancel::cancel(s)"

    def l(self, r):
        return self.letters[r].lower()

    def sends(self, P, idx=None):
        return sorted({(a, b) for ms, _ in P.nodes for a, b, _ in ms})

    def turbofish(self, P, node, p):
        _, term = P.nodes[node]
        lt, rt = term[2]
        x, y = others(3, p)
        S = lambda t, a, b: self.session(P, t, a, b)
        g = [S(lt, y, x), S(rt, y, x), S(lt, p, x), S(lt, p, y), S(rt, p, x), S(rt, p, y),
             dual(f"S{lt}_{x}"), dual(f"S{rt}_{x}"), dual(f"S{lt}_{y}"), dual(f"S{rt}_{y}"), f"S{lt}_{p}", f"S{rt}_{p}"]
        return "::<" + ", ".join(g) + ">"

    def e_send(self, P, node, idx, r, q):
        return f"Ok(send_mpst_{self.l(r)}_to_{self.l(q)}(x, s))"

    def e_recv(self, P, node, idx, q, r):
        return f"recv_mpst_{self.l(r)}_from_{self.l(q)}(s)"

    def e_close(self):
        return "mpstthree::functionmpst::close::close_mpst(s)"

    def e_choose_lr(self, P, node, r, k):
        return f"Ok(choose_{'right' if k else 'left'}_mpst_session_{self.l(r)}_to_all{self.turbofish(P, node, r)}(s))"

    def fork(self, P):
        return "mpstthree::functionmpst::fork::fork_mpst"


class BuiltinFn(Three):
    mode = "builtin_functions"

    def __init__(self):
        super().__init__("ABC")

    def header(self, P):
        return USES + [
            "use mpstthree::meshedchannels::MeshedChannels;",
            "use mpstthree::name::{a::NameA, b::NameB, c::NameC, Name};",
            "use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC, a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};",
            "use mpstthree::functionmpst::{choose::*, offer::*, send::*, recv::*};",
            "use mpstthree::{choose_mpst_a_to_all, choose_mpst_b_to_all, choose_mpst_c_to_all};",
            "use mpstthree::{offer_mpst_a_to_b, offer_mpst_a_to_c, offer_mpst_b_to_a, offer_mpst_b_to_c, offer_mpst_c_to_a, offer_mpst_c_to_b};"]

    def e_offer_lr(self, P, node, r, arms, targets):
        f = [f"|s: T{t}_{r}| {{ {b} }}" for t, b in zip(targets, arms)]
        p = P.nodes[node][1][1]
        return f"offer_mpst_session_to_{self.l(r)}_from_{self.l(p)}(s, {f[0]}, {f[1]})"

    def e_choose_enum(self, P, node, r, k):
        labels = ", ".join(f"E{node}_{q}::L{k}" for q in others(P.n, r))
        return f"Ok(choose_mpst_{self.l(r)}_to_all!(s, {labels}))"

    def e_offer_enum(self, P, node, r, arms):
        p = P.nodes[node][1][1]
        a = "\n".join(f"            E{node}_{r}::L{k}(s) => {{ {b} }}," for k, b in enumerate(arms))
        return f"offer_mpst_{self.l(r)}_to_{self.l(p)}!(s, {{\n{a}\n        }})"


class BuiltinMethod(BuiltinFn):
    mode = "builtin_methods"

    def e_cancel(self):
        return "s.cancel()"

    def e_send(self, P, node, idx, r, q):
        return "Ok(s.send(x))"

    def e_recv(self, P, node, idx, q, r):
        return "s.recv()"

    def e_close(self):
        return "s.close()"

    def e_choose_lr(self, P, node, r, k):
        return "Ok(s.choose_right())" if k else "Ok(s.choose_left())"

    def e_offer_lr(self, P, node, r, arms, targets):
        return Backend.e_offer_lr(self, P, node, r, arms, targets)

    def e_choose_enum(self, P, node, r, k):
        labels = [f"E{node}_{q}::L{k}" for q in others(P.n, r)]
        return f"Ok(mpstthree::choose_mpst_multi_to_all!(s, {', '.join(labels)}, => {self.nm(r)}, MeshedChannels, {r + 1}))"

    def e_offer_enum(self, P, node, r, arms):
        return Backend.e_offer_enum(self, P, node, r, arms).replace("offer_mpst!", "mpstthree::offer_mpst!")


class Simple(Three):
    """macros_simple: own roles and names over the three-role MeshedChannels"""
    mode = "macros_simple"

    def __init__(self, letters, short=False):
        super().__init__(letters)
        self.short = short

    def header(self, P):
        L = self.letters[:3]
        o = USES + [
            "use mpstthree::meshedchannels::MeshedChannels;", "use mpstthree::functionmpst::{ChooseMpst, OfferMpst};", "use mpstthree::name::Name;",
            "use mpstthree::*;"]
        if self.short:
            o += [f"create_multiple_normal_role_short!({', '.join(L)});", f"create_multiple_normal_name_short!({', '.join(L)});",
                  f"create_multiple_broadcast_role_short!({', '.join(L)});"]
        else:
            o += ["create_multiple_normal_role!(" + " ".join(f"Role{x}, Role{x}Dual |" for x in L) + ");",
                  f"create_multiple_normal_name!({', '.join('Name' + x for x in L)});",
                  "create_multiple_broadcast_role!(" + " ".join(f"RoleAllto{x}, Role{x}toAll |" for x in L) + ");"]
        for a in range(3):
            for b in others(3, a):
                i = others(3, a).index(b) + 1
                o.append(f"create_send_mpst_session_{i}!(send_mpst_{self.l(a)}_to_{self.l(b)}, {self.role(b)}, {self.nm(a)});")
                o.append(f"create_recv_mpst_session_{i}!(recv_mpst_{self.l(a)}_from_{self.l(b)}, {self.role(b)}, {self.nm(a)});")
        for node, (ms, term) in enumerate(P.nodes):
            if term[0] == "choice" and term[4] == "lr":
                p = term[1]
                x, y = others(3, p)
                if f"// choose {p}" not in o:
                    o.append(f"// choose {p}")
                    o.append(f"create_choose_both_from_{p + 1}_to_{x + 1}_and_{y + 1}!(choose_right_mpst_session_{self.l(p)}_to_all, choose_left_mpst_session_{self.l(p)}_to_all, {self.nm(x)}, {self.nm(y)}, {self.role(p)}toAll, {self.nm(p)});")
                    for r in (x, y):
                        i = others(3, r).index(p) + 1
                        o.append(f"create_offer_mpst_session_{i}!(offer_mpst_session_{self.l(r)}_to_{self.l(p)}, RoleAllto{self.letters[p]}, {self.nm(r)});")
        return o

    def e_offer_lr(self, P, node, r, arms, targets):
        f = [f"|s: T{t}_{r}| {{ {b} }}" for t, b in zip(targets, arms)]
        p = P.nodes[node][1][1]
        return f"offer_mpst_session_{self.l(r)}_to_{self.l(p)}(s, {f[0]}, {f[1]})"

    def e_choose_enum(self, P, node, r, k):
        labels = [f"E{node}_{q}::L{k}" for q in others(P.n, r)]
        if r == 2:
            return f"Ok(choose_mpst_to_all!(s, {', '.join(labels)}, => {self.nm(r)}))"
        return f"Ok(choose_mpst_multi_to_all!(s, {', '.join(labels)}, => {self.nm(r)}, MeshedChannels, {r + 1}))"

    def e_offer_enum(self, P, node, r, arms):
        p = P.nodes[node][1][1]
        a = "\n".join(f"            E{node}_{r}::L{k}(s) => {{ {b} }}," for k, b in enumerate(arms))
        return f"offer_mpst!(s, recv_mpst_{self.l(r)}_from_{self.l(p)}, {{\n{a}\n        }})"


class Multi(Backend):
    """macros_multiple for any number of roles; left/right selection only by the last role"""
    mc = "MC"
    has_cancel = False

    def __init__(self, letters, cancel=False, close="plain", choosefn=False, single=False):
        super().__init__(letters)
        self.cancel, self.close, self.choosefn, self.single = cancel, close, choosefn, single
        self.mode = "macros_multiple" + ("_cancel" if cancel else "") + (f"_choose{choosefn if isinstance(choosefn, str) else 'fn'}" if choosefn else "") + ("_close_" + close)
        self.fallible_send = cancel

    def l(self, r):
        return self.letters[r].lower()

    def e_cancel(self):
        return "mpstthree::binary::cancel::cancel(s)"

    def header(self, P):
        n, L = P.n, self.letters[:P.n]
        o = USES + ["use mpstthree::name::Name;", "use mpstthree::*;"]
        if self.close == "cancel":
            o.append(f"bundle_struct_fork_close_multi_cancel!(close_mc, fork_mc, MC, {n});")
        elif self.close == "check":
            o += [f"create_meshedchannels!(MC, {n});", f"close_mpst_check_cancel!(close_mc, MC, {n});", f"fork_mpst_multi!(fork_mc, MC, {n});"]
        else:
            o.append(f"bundle_struct_fork_close_multi!(close_mc, fork_mc, MC, {n});")
        o += ["create_multiple_normal_role!(" + " ".join(f"Role{x}, Role{x}Dual |" for x in L) + ");",
              f"create_multiple_normal_name!({', '.join('Name' + x for x in L)});"]
        kind = "cancel" if self.cancel else "session"
        for a in range(n):
            ss, rs = [], []
            for i, b in enumerate(others(n, a)):
                ss.append(f"send_mpst_{self.l(a)}_to_{self.l(b)}, {self.role(b)}, {i + 1} |")
                rs.append(f"recv_mpst_{self.l(a)}_from_{self.l(b)}, {self.role(b)}, {i + 1} |")
            if self.single:
                for i, b in enumerate(others(n, a)):
                    o.append(f"create_send_mpst_{kind}!(send_mpst_{self.l(a)}_to_{self.l(b)}, {self.role(b)}, {self.nm(a)}, MC, {n}, {i + 1});")
                    o.append(f"create_recv_mpst_session!(recv_mpst_{self.l(a)}_from_{self.l(b)}, {self.role(b)}, {self.nm(a)}, MC, {n}, {i + 1});")
            else:
                o.append(f"create_send_mpst_{kind}_bundle!({' '.join(ss)} => {self.nm(a)}, MC, {n});")
                o.append(f"create_recv_mpst_session_bundle!({' '.join(rs)} => {self.nm(a)}, MC, {n});")
        p = n - 1
        if any(t[0] == "choice" and t[4] == "lr" for _, t in P.nodes):
            c = self.letters[p]
            o += [f"create_broadcast_role!(RoleAllto{c}, Role{c}toAll);", f"create_offer_type_multi!(OfferT, MC, {n});", f"create_choose_type_multi!(ChooseT, MC, {n});",
                  f"create_choose_mpst_session_multi_both!(choose_left_x, choose_right_x, ChooseT, Role{c}toAll, {self.nm(p)}, MC, {n});"]
            for r in range(n - 1):
                o.append(f"create_offer_mpst_session_multi!(offer_x_{self.l(r)}, OfferT, RoleAllto{c}, {self.nm(r)}, MC, {n}, {n - 1});")
        return o

    def types(self, P):
        o = super().types(P)
        if self.choosefn == "macro":
            for p in sorted({t[1] for _, t in P.nodes if t[0] == "choice" and t[4] == "enum"}):
                o.append(f"choose_mpst_create_multi_to_all!(pick_{self.l(p)}, {self.nm(p)}, MC, {p + 1});")
        elif self.choosefn:
            for node, (ms, term) in enumerate(P.nodes):
                if term[0] == "choice" and term[4] == "enum":
                    p, ts = term[1], term[2]
                    os = others(P.n, p)
                    o.append("create_fn_choose_mpst_multi_to_all_bundle!(" + "".join(f"ch{node}_{k}, " for k in range(len(ts))) + "=> " +
                             "".join(f"L{k}, " for k in range(len(ts))) + "=> " + "".join(f"T{t}_{p}, " for t in ts) + "=> " +
                             "".join(f"E{node}_{q}, " for q in os) + "=> " + "".join(f"{self.nm(q)}, " for q in os) + f"=> {self.nm(p)}, MC, {p + 1});")
        return o

    def e_send(self, P, node, idx, r, q):
        e = f"send_mpst_{self.l(r)}_to_{self.l(q)}(x, s)"
        return e if self.cancel else f"Ok({e})"

    def e_recv(self, P, node, idx, q, r):
        return f"recv_mpst_{self.l(r)}_from_{self.l(q)}(s)"

    def e_close(self):
        return "close_mc(s)"

    def e_choose_enum(self, P, node, r, k):
        if self.choosefn == "macro":
            labels = ", ".join(f"E{node}_{q}::L{k}" for q in others(P.n, r))
            return f"Ok(pick_{self.l(r)}!(s, {labels}))"
        if self.choosefn:
            return f"Ok(ch{node}_{k}(s))"
        return super().e_choose_enum(P, node, r, k)

    def e_offer_enum(self, P, node, r, arms):
        p = P.nodes[node][1][1]
        a = "\n".join(f"            E{node}_{r}::L{k}(s) => {{ {b} }}," for k, b in enumerate(arms))
        return f"offer_mpst!(s, recv_mpst_{self.l(r)}_from_{self.l(p)}, {{\n{a}\n        }})"

    def e_choose_lr(self, P, node, r, k):
        n = P.n
        _, term = P.nodes[node]
        lt, rt = term[2]
        g = []
        for t in (lt, rt):
            for a in range(n):
                for b in range(a + 1, n):
                    g.append(self.session(P, t, a, b))
        for r2 in range(n - 1):
            g += [dual(f"S{lt}_{r2}"), dual(f"S{rt}_{r2}"), self.nm(r2)]
        g += [f"S{lt}_{r}", f"S{rt}_{r}"]
        return f"Ok(choose_{'right' if k else 'left'}_x::<{', '.join(g)}>(s))"

    def e_offer_lr(self, P, node, r, arms, targets):
        f = [f"|s: T{t}_{r}| {{ {b} }}" for t, b in zip(targets, arms)]
        return f"offer_x_{self.l(r)}(s, {f[0]}, {f[1]})"

    def fork(self, P):
        return "fork_mc"


class Check(Multi):
    """checked cancellation: role 0 is the central role, sends check for cancel signals"""
    mode = "macros_cancel"
    central = True
    strict_close = True

    def __init__(self, letters, close="plain", choosefn=False, single=False, signal=True):
        super().__init__(letters, True, close, choosefn, single)
        self.mode = "macros_cancel" + ("_choosefn" if choosefn else "") + "_close_" + close
        self.signal = signal  # injected failures are cancel signals only

    def kinds(self):
        return "&[vmon::FaultKind::CancelErr]" if self.signal else "&vmon::FAULT_KINDS"

    def header(self, P):
        n, L = P.n, self.letters[:P.n]
        o = USES + ["use mpstthree::name::Name;", "use mpstthree::*;"]
        if self.close == "check":
            o += [f"create_meshedchannels!(MC, {n});", f"close_mpst_check_cancel!(close_mc, MC, {n});", f"fork_mpst_multi!(fork_mc, MC, {n});"]
        else:
            o.append(f"bundle_struct_fork_close_multi!(close_mc, fork_mc, MC, {n});")
        o += ["create_multiple_normal_role!(" + " ".join(f"Role{x}, Role{x}Dual |" for x in L) + ");",
              f"create_multiple_normal_name!({', '.join('Name' + x for x in L)});"]
        for a in range(1, n):
            ss, rs = [], []
            for i, b in enumerate(others(n, a)):
                if b == 0:
                    continue
                ss.append(f"send_mpst_{self.l(a)}_to_{self.l(b)}, {self.role(b)}, {i + 1} |")
                rs.append(f"recv_mpst_{self.l(a)}_from_{self.l(b)}, {self.role(b)}, {i + 1} |")
                if self.single:
                    o.append(f"create_send_check_cancel!(send_mpst_{self.l(a)}_to_{self.l(b)}, {self.role(b)}, {self.nm(a)}, MC, {n}, {i + 1});")
            if not self.single:
                o.append(f"create_send_check_cancel_bundle!({' '.join(ss)} => {self.nm(a)}, MC, {n});")
            o.append(f"create_recv_mpst_session_bundle!({' '.join(rs)} => {self.nm(a)}, MC, {n});")
            o.append(f'send_cancel!(cancel_{self.l(a)}, {self.nm(a)}, MC, {n}, "cancelled by {a}");')
        return o

    def session(self, P, node, r, q):
        if 0 in (r, q):
            return "End"
        import re
        s = super().session(P, node, r, q)
        return re.sub(r"<(E\d+_\d+), End>", r"<(End, \1), End>", s)

    def stack(self, P, node, r):
        return "RoleEnd" if r == 0 else super().stack(P, node, r)

    def types(self, P):
        o = Backend.types(self, P)
        o = [x for x in o if not (x.startswith("enum E") and "_0 " in x) and not ("for E" in x and "_0 {" in x)]
        if self.choosefn:
            for node, (ms, term) in enumerate(P.nodes):
                if term[0] == "choice":
                    p, ts = term[1], term[2]
                    os = [q for q in others(P.n, p) if q != 0]
                    o.append("create_fn_choose_mpst_cancel_multi_to_all_bundle!(" + "".join(f"ch{node}_{k}, " for k in range(len(ts))) + "=> " +
                             "".join(f"L{k}, " for k in range(len(ts))) + "=> " + "".join(f"T{t}_{p}, " for t in ts) + "=> " +
                             "".join(f"E{node}_{q}, " for q in os) + "=> " + "".join(f"{self.nm(q)}, " for q in os) + f"=> {self.nm(0)}, {self.nm(p)}, MC, {p + 1});")
        return o

    def e_choose_enum(self, P, node, r, k):
        if self.choosefn:
            return f"ch{node}_{k}(s)"
        os = [q for q in others(P.n, r) if q != 0]
        labels = "".join(f"E{node}_{q}::L{k}, " for q in os)
        return (f"(move || -> Result<_, Box<dyn Error>> {{ Ok(choose_mpst_multi_cancel_to_all!(s, {labels}=> {''.join(self.nm(q) + ', ' for q in os)}"
                f"=> {self.nm(0)}, {self.nm(r)}, MC, {r + 1})) }})()")

    def e_offer_enum(self, P, node, r, arms):
        return super().e_offer_enum(P, node, r, arms).replace("offer_mpst!", "offer_cancel_mpst!")

    def fn(self, P, node, r):
        if r == 0:
            if node:
                return []
            return [f"fn n0_r0(s: T0_0, cx: &Cx) -> R {{", "    cx.call_close(vmon::CENTRAL_OP);",
                    f"    cx.ret_close((move || -> R {{ broadcast_cancel!(s, {P.n}) }})())", "}"]
        out = super().fn(P, node, r)
        # an injected cancellation is the signal of the interface
        return [x.replace("vmon::fault!(cx, s, mpstthree::binary::cancel::cancel(s));", f"vmon::fault!(cx, s, return cancel_{self.l(r)}(s));") for x in out]


class Unrelayed(Multi):
    """checked closes and cancel signals without a relaying role: role 0 only closes, or cancels"""

    def __init__(self, letters, cancel=True, single=False):
        super().__init__(letters, cancel, "check", False, single)
        self.mode = "macros_unrelayed_cancel"

    def kinds(self):
        return "&[vmon::FaultKind::CancelErr]"

    def header(self, P):
        return super().header(P) + [f'send_cancel!(cancel_{self.l(a)}, {self.nm(a)}, MC, {P.n}, "cancelled by {a}");' for a in range(P.n)]

    def fn(self, P, node, r):
        out = super().fn(P, node, r)
        return [x.replace("vmon::fault!(cx, s, mpstthree::binary::cancel::cancel(s));", f"vmon::fault!(cx, s, return cancel_{self.l(r)}(s));") for x in out]
