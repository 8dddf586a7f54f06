"""A01: attempt blocks."""
import os
import crate
from harness import prelude
from dual import lit

W = os.path.join(crate.VERIF, "workloads")
OKS = ["()", "u64", "Tok", "String", "(u64, Tok)"]
ERRS = ["String", "u32", "Box<dyn Error>", "Owned"]


class Gen:
    def __init__(self, rng, name):
        self.rng, self.name, self.n, self.talks, self.statics = rng, name, 0, [], []
        self.opened = []

    def id(self):
        self.n += 1
        return self.n - 1

    def expr(self, i, E):
        """one of several shapes of an expression evaluating step i"""
        rng, T = self.rng, self.rng.choice(OKS)
        e = f"env.step::<{T}, {E}>({i})"
        k = rng.randrange(9)
        if k == 0:
            return f"{e}.map(|_| {rng.randrange(9)}u8)"
        if k == 1:
            return f"{{ let r = {e}; r }}"
        if k == 2:
            return f"match {e} {{ Ok(x) => Ok(Some(x)), Err(e) => Err(e) }}"
        if k == 3:
            return f"if env.fail.len() < 1000 {{ {e} }} else {{ unreachable!() }}"
        if k == 4:
            return f"(|| -> Result<(), {E}> {{ let _x = {e}?; Ok(()) }})()"
        if k == 5:
            return f"{e}.and_then(|x| Ok((x, 1)))"
        return e

    def block(self, depth, infn):
        """(code, static name)"""
        rng = self.rng
        E = rng.choice(ERRS)
        b = self.id()
        body, sts, talks = [], [], []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 9] if depth else [1, 2, 3])):
            k, i = rng.random(), self.id()
            if depth and k < .2:
                c, s = self.block(depth - 1, False)
                body.append(f"{{ env.ev(Ev::Begin({i})); {c} env.end::<{E}>({i}) }}")
                sts.append(f"St::Nest({i}, &{s})")
            elif k < .45:
                self.talks.append(i)
                talks.append(i)
                body.append(f"env.talk::<{E}>({i}, t{i})")
                sts.append(f"St::Talk({i})")
            else:
                body.append(self.expr(i, E))
                sts.append(f"St::Leaf({i})")
        hd, hs = [], []
        for _ in range(rng.randrange(0, 3)):
            if depth and rng.random() < .35:
                c, s = self.block(depth - 1, False)
                hd.append(c)
                hs.append(f"Hd::Nest(&{s})")
            else:
                i = self.id()
                hd.append(f"env.ev(Ev::Effect({i}));")
                hs.append(f"Hd::Effect({i})")
        leave = infn and rng.random() < .4
        v = rng.choice(["e", "err", "failure"])
        joins = " ".join(f"env.join({i});" for i in talks)
        code = " ".join(f"let t{i} = env.open({i});" for i in talks)
        own = rng.random() < .5
        code += f" let mut handled{b} = false; attempt! {{{{ {' '.join(x + ';' for x in body)} }} catch ({v}) {{ "
        code += f"env.ev(Ev::Handler({b}, Code::id(&{v}))); " + (f"let {v} = {v}; drop({v}); " if own else "") + joins + " " + " ".join(hd)
        code += f" handled{b} = true; " + ("return; " if leave else "") + "}} "
        code += f"if !handled{b} {{ {joins} }} env.ev(Ev::After({b}));"
        s = f"{self.name.upper()}_{b}"
        self.statics.append(f"static {s}: Blk = Blk {{ id: {b}, body: &[{', '.join(sts)}], handler: &[{', '.join(hs)}], leave: {'true' if leave else 'false'} }};")
        return code, s


def check_A01(ctx):
    ctx.level = "fault_enumeration"
    ctx.rule = ("Random attempt blocks (1-9 statements of several shapes, results and error types, nested in bodies and handlers, statements that carry sessions with live peers); "
                "in each, every statement is made to fail once - on its own account, half way through a conversation, or because the peer left - besides random combinations. "
                "The trail of statements, handlers, errors and peers' outcomes is compared with the block read as data. Distinct: trails.")
    bins = {}
    per = 12 if ctx.quick else 30
    for bi in range(4 if ctx.quick else 12):
        src, cases = [prelude(), "include!(%s);" % lit(os.path.join(W, "attempt.rs"))], []
        for k in range(per):
            nm = f"a{bi}_{k}"
            g = Gen(ctx.rng, nm)
            code, root = g.block([0, 1, 1, 2, 2, 3][k % 6], True)
            src += g.statics
            src.append(f"fn {nm}_code(env: &Env) {{ {code} }}")
            src.append(f"fn {nm}(rng: &mut Rng, st: &mut Stats) {{ drive(\"{nm}\", {g.n}, &{g.talks}, &{root}, {nm}_code, rng, st) }}")
            cases.append(nm)
        src.append("fn main() { case_loop(vec![" + ", ".join(f"Case {{ name: \"{c}\", f: {c} }}" for c in cases) + f"], {5 if ctx.quick else 40}); }}")
        bins[f"a01_{bi}"] = "\n".join(src)
    ctx.extra["programs"] = per * len(bins)
    d, exes = ctx.build("attempt", bins)
    if exes:
        ctx.run_vmon(exes, [], 3 if ctx.quick else 60, 1)
