"""P06: Variable.

Streams: definitions D, queries Q, both with strictly increasing times.  Ghost: D_last(i) = index of the latest definition at or
before query i (-1: none), Ans(i) = (time of query i, its value or the default).
State between calls: definitions [d, kd) and queries [c, kc) in the buffers,
    initialized      ->  d < kd  and  D.t(d) <= Q.t(c)
    not initialized  ->  d = 0   and  (c < kc -> kd = 0)
    c < kc and initialized  ->  d = kd-1  and  D.t(d) < Q.t(c)
One delivery and its processing emit Ans[c, c'), where c' is the first query for which no definition at or after it is known."""
from spec import *
import multi


class AnsHist:
    """The stream of answers."""

    def __init__(self, S):
        self.S = S
        self.tf = S.Q.tf
        self.base = S.sh.base("answers", self.msg)

    def v(self, i):
        S = self.S
        L = S.last(Z(i))
        return z3.If(L < 0, S.dflt, S.D.v(L))

    def msg(self, i):
        return Rec("Message", {"time": self.S.Q.t(i), "value": self.v(i)})


class VSpec(multi.LoopSpec):
    def __init__(self, S):
        self.S = S

    def windows(self, m, st):
        S = self.S
        o = S.o
        out = [multi.Win("definitions", o.cell, o.path + (("f", "dataInputs"), ("m", "i1"), ("f", "data")), S.D, S.kd2),
               multi.Win("queries", o.cell, o.path + (("f", "controlInputs"), ("m", "c1"), ("f", "data")), S.Q, S.kc2)]
        for c, v in st.items():
            if c == o.cell:
                continue
            if isinstance(v, MapV) and set(v.d) == {"o1"} and isinstance(v.d["o1"], Seq) and v.d["o1"].segs:
                out.append(multi.Win(str(c), c, (("m", "o1"),), S.A, None, "vector", S.c))
            elif isinstance(v, Seq) and v.segs and self.messages(v):
                out.append(multi.Win(str(c), c, (), S.A, None, v.kind, S.c))
        return out

    def messages(self, v):
        for g in v.segs:
            if isinstance(g, Sym):
                return g.base is self.S.A.base
            return isinstance(g.xs[0], Rec) and g.xs[0].cls == "Message"

    def cands(self, m, V):
        S = self.S
        d, c = Z(V.off["definitions"]), Z(V.off["queries"])
        out = {}
        out["a definition is kept"] = d < Z(S.kd2)
        out["one definition is kept"] = d == Z(S.kd2) - 1
        out["no definition known"] = d >= Z(S.kd2)
        out["definitions only move forward"] = d >= Z(S.d)
        out["no definition dropped"] = d == Z(S.d)
        out["queries only move forward"] = c >= Z(S.c)
        out["no query answered"] = c == Z(S.c)
        out["some query answered"] = c > Z(S.c)
        out["the kept definition is not after the next query"] = S.D.t(d) <= S.Q.t(c)
        out["the kept definition is before the next query"] = S.D.t(d) < S.Q.t(c)
        out["answered queries had a definition at or after them"] = z3.Or(c == Z(S.c), z3.And(Z(S.kd2) > 0, S.Q.t(c - 1) <= S.D.t(Z(S.kd2) - 1)))
        out["only queries before every definition were answered"] = z3.Or(c == Z(S.c), S.Q.t(c - 1) < S.D.t(z3.IntVal(0)))
        done = c >= Z(S.kc2)
        out["every delivered query answered"] = done
        out["nothing left to answer"] = z3.Or(done, Z(S.kd2) <= 0, S.Q.t(c) > S.D.t(Z(S.kd2) - 1))
        for k in ("one definition is kept", "the kept definition is before the next query", "a definition is kept"):
            out[f"{k} or every query answered"] = z3.Or(done, out[k])
        dyn = [n for n in V.off if n not in ("definitions", "queries")]
        pos = {"the first query": Z(S.c), "the next query": c, "the last answered query": c - 1}
        for n in dyn:
            for w in dyn:
                if w != n:
                    pos[f"start of {w}"], pos[f"end of {w}"] = Z(V.off[w]), Z(V.end[w])
        for n in dyn:
            out[f"{n} not empty"] = Z(V.off[n]) < Z(V.end[n])
            for k, x in pos.items():
                if n not in k.split():
                    out[f"{n} starts at {k}"] = Z(V.off[n]) == x
                    out[f"{n} ends at {k}"] = Z(V.end[n]) == x
        for (cell, path), x in V.x.items():
            nm = multi.leafname(cell, path)
            if is_bool(x):
                out[f"{nm} on"] = Z(x)
                out[f"{nm} off"] = z3.Not(Z(x))
            elif is_int(x):
                out[f"{nm} = 0"] = Z(x) == 0
                out[f"{nm} >= 0"] = Z(x) >= 0
                out[f"{nm} is the time of the next query"] = Z(x) == S.Q.t(c)
        return out

    def decreases(self, m, V, V2, st, st2):
        D, Q = (lambda W: Z(W.off["definitions"])), (lambda W: Z(W.off["queries"]))
        alts = [D(V2) > D(V), Q(V2) > Q(V)]
        if len(V2.off) < len(V.off):
            alts = [z3.BoolVal(True)]
        return z3.And(D(V2) >= D(V), Q(V2) >= Q(V), z3.Or(*alts))


class S:
    def __init__(self, sh, P, ctx, default=True):
        self.sh, self.ctx = sh, ctx
        m = self.m = Machine(P, ctx)
        self.dflt = z3.Real("default")
        self.o = build(m, "Variable", ["op", self.dflt])
        self.E = Emit(m, self.o)
        m.hooks.update(self.E.hooks())
        self.D, self.Q = Hist(sh, "D", increasing=True), Hist(sh, "Q", increasing=True)
        self.last = z3.Function("D_last", z3.IntSort(), z3.IntSort())
        self.D.facts(ctx)
        self.Q.facts(ctx)
        self.A = AnsHist(self)
        D, Q, L = self.D, self.Q, self.last
        ctx.add_fact(Fact("latest definition", ["Qt", "D_last"], lambda i: z3.And(
            L(i) >= -1, z3.Implies(L(i) >= 0, D.t(L(i)) <= Q.t(i)), D.t(L(i) + 1) > Q.t(i))))
        f = m.read(self.o).f
        ok = set(f["dataInputs"].d) == {"i1"} and set(f["controlInputs"].d) == {"c1"} and "initialized" in f and "value" in f
        if not ok:
            raise Undecided("representation of Variable")

    def inv(self, init, d, kd, c, kc):
        D, Q = self.D, self.Q
        d, kd, c, kc = Z(d), Z(kd), Z(c), Z(kc)
        i = Z(init)
        return {"positions": z3.And(d >= 0, d <= kd, c >= 0, c <= kc),
                "a known definition is kept": z3.Implies(i, z3.And(d < kd, D.t(d) <= Q.t(c))),
                "before the first known definition": z3.Implies(z3.Not(i), z3.And(d == 0, z3.Implies(c < kc, kd == 0))),
                "a waiting query is after every definition": z3.Implies(z3.And(i, c < kc), z3.And(d == kd - 1, D.t(d) < Q.t(c)))}

    def install(self, init=None):
        ctx, m = self.ctx, self.m
        self.d, self.kd, self.c, self.kc = z3.Ints("d kd c kc")
        init = bool(ctx.choose(2)) if init is None else init
        for x in self.inv(init, self.d, self.kd, self.c, self.kc).values():
            ctx.assume(x)
        ctx.assume(z3.And(self.kd < 2**62, self.kc < 2**62))
        if ctx.check([]) == "unsat":
            raise PathEnd()
        set_input(m, self.o, "i1", self.D.win(self.d, sub(self.kd, self.d)), z3.Real("sumD"))
        set_input(m, self.o, "c1", self.Q.win(self.c, sub(self.kc, self.c)), z3.Real("sumQ"), "controlInputs")
        m.write(self.o.f("initialized"), init)
        self.case = ctx.choose(2)
        m.write(self.o.f("toProcess"), SetV([[], ["i1"]][self.case]))
        self.known = field_snapshot(m, self.o)
        self.init = init


def t_init(sh, P):
    def go(ctx):
        s = S(sh, P, ctx)
        f = s.m.read(s.o).f
        eqv(s.m, "output ports", f["outputIds"], SetV(["o1"]), "inv")
        eqv(s.m, "default", f["value"], s.dflt, "inv")
        for k, p in (("dataInputs", "i1"), ("controlInputs", "c1")):
            eqv(s.m, "new buffers are empty", f[k].d[p].f["data"], Seq((), "deque"), "inv")
        for n, x in s.inv(f["initialized"], 0, 0, 0, 0).items():
            ctx.oblige(f"new: {n}", x, "inv")
    explore(sh, go)


def t_step(control, init):
    def run(sh, P):
        def go(ctx):
            s = S(sh, P, ctx)
            s.install(init)
            m = s.m
            s.kd2, s.kc2 = s.kd, s.kc
            if control:
                s.kc2 = add(s.kc, 1)
            else:
                s.kd2 = add(s.kd, 1)
            m.hooks["invariant"] = VSpec(s)
            try:
                name = ("c1" if control else "i1") if s.case else ""
                deliver(m, s.o, s.Q.msg(s.kc) if control else s.D.msg(s.kd), name, control)
                if s.E.emitted().d:
                    ctx.oblige("a delivery alone emits nothing", False, "post")
                r = execute(m, s.o, control)
            except CppThrow as e:
                ctx.oblige("no error for increasing streams", False, "safety", note=e.what)
                return
            if ctx.check([]) == "unsat":
                raise PathEnd()
            f = m.read(s.o).f
            d = multi.as_window(m, f["dataInputs"].d["i1"].f["data"], s.D, s.kd2)
            c = multi.as_window(m, f["controlInputs"].d["c1"].f["data"], s.Q, s.kc2)
            ctx.oblige("the buffers are tails of the streams", d is not None and c is not None, "inv")
            if d is None or c is None:
                return
            d, c = Z(d), Z(c)
            ctx.oblige("queries are answered in order", z3.And(c >= s.c, c <= Z(s.kc2)), "post")
            known = z3.And(Z(s.kd2) > 0, s.Q.t(c) <= s.D.t(Z(s.kd2) - 1))
            ctx.oblige("every query with a definition at or after it is answered", z3.Or(c == Z(s.kc2), z3.Not(known)), "post")
            ctx.oblige("no other query is answered", z3.Or(c == s.c, z3.And(Z(s.kd2) > 0, s.Q.t(c - 1) <= s.D.t(Z(s.kd2) - 1))), "post")
            em = s.E.emitted()
            ctx.oblige("answers leave through the output", set(em.d) <= {"o1"}, "post")
            for n, x in s.inv(f["initialized"], d, s.kd2, c, s.kc2).items():
                ctx.oblige(f"after: {n}", x, "inv")
            for k, v in s.known.items():
                if k not in ("dataInputs", "controlInputs", "initialized", "toProcess") and not same(f[k], v):
                    if k == "value":
                        ctx.oblige("the default stays", eq(f[k], v), "inv")
                        continue
                    raise Undecided(f"Variable.{k} changes but is not part of the contract's state")
            tp = f["toProcess"]
            ctx.oblige("ports with news", isinstance(tp, SetV) and set(tp.keys()) <= {"i1"}, "inv")
            for k, p in (("dataInputs", "i1"), ("controlInputs", "c1")):
                for x, v in f[k].d[p].f.items():
                    if x not in ("data", "sum") and not same(v, s.known[k].d[p].f[x]):
                        raise Undecided(f"Input.{x} changes but is not part of the contract's state")
            ctx.oblige("what was emitted is returned", s.E.returned_ok(r), "post")
            eqv(m, "emission", em.d.get("o1", Seq()), Seq([Sym(s.A.base, s.c, simp(c - s.c))], "vector"))
        explore(sh, go)
    return run


def t_reject(sh, P):
    def go(ctx):
        s = S(sh, P, ctx)
        s.install()
        control, port = [(False, "x"), (False, "c1"), (True, "x"), (True, "i1")][ctx.choose(4)]
        thrown = False
        try:
            deliver(s.m, s.o, msg(z3.Int("t"), z3.Real("v")), port, control)
        except CppThrow:
            thrown = True
        ctx.oblige("a delivery to a port that does not exist is an error", thrown, "post")
        for k, v in s.known.items():
            eqv(s.m, "a rejected delivery changes nothing", s.m.read(s.o).f[k], v)
    explore(sh, go)


def t_value(sh, P):
    def go(ctx):
        s = S(sh, P, ctx)
        s.install()
        eqv(s.m, "getValue is the default", s.m.call_method(s.o, "getValue", []), s.dflt)
    explore(sh, go)


def tasks():
    return [("Variable.init", t_init), ("Variable.definition.first", t_step(False, False)),
            ("Variable.definition", t_step(False, True)), ("Variable.query.early", t_step(True, False)), ("Variable.query", t_step(True, True)),
            ("Variable.reject", t_reject), ("Variable.value", t_value)]
