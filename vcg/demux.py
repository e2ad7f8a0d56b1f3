"""P05: the demultiplexer.

Streams: data H (strictly increasing), controls C_c (strictly increasing).  d, k: first data message waiting, number delivered;
l_c, k_c the same for control port c.  Two contracts are checked on the real methods, for one delivery and its processing:

`route`  (any streams): with data waiting, let f_c be the first control at or after the time of the waiting message.
    An error is raised exactly when some f_c exists and is for a later time or carries a value other than 0 or 1.  Otherwise
    older controls are gone, and if every f_c exists the message leaves, unchanged, through exactly the outputs whose control is
    1 and is consumed together with those controls.  Without waiting data nothing happens.
`aligned` (every data message has, on every control port, a control of its time with value 0 or 1): between calls the message
    before the waiting one and its controls are consumed, later ones are not, and the waiting message is incomplete.  Hence no
    error, and a message leaves as soon as it and its controls have arrived."""
from spec import *
import multi


def cports(n):
    return [f"c{j}" for j in range(1, n + 1)]


class D:
    def __init__(self, sh, P, ctx, n):
        self.sh, self.ctx, self.n = sh, ctx, n
        m = self.m = Machine(P, ctx)
        self.o = build(m, "Demultiplexer", ["op", n])
        self.E = Emit(m, self.o)
        m.hooks.update(self.E.hooks())
        self.cs = cports(n)
        self.ps = ["i1"] + self.cs
        self.H = {p: Hist(sh, "H" + p, increasing=True) for p in self.ps}
        for p in self.ps:
            self.H[p].facts(ctx)
        f = m.read(self.o).f
        ok = set(f["dataInputs"].d) == {"i1"} and set(f["controlInputs"].d) == set(self.cs)
        ctx.oblige("ports", ok, "inv")
        if not ok:
            raise Undecided("ports")

    def kind(self, p):
        return "dataInputs" if p == "i1" else "controlInputs"

    def install(self, lo, hi, empties=()):
        for p in self.ps:
            if p in empties:
                set_input(self.m, self.o, p, Seq((), "deque"), Fraction(0), self.kind(p))
            else:
                n = sub(hi[p], lo[p])
                set_input(self.m, self.o, p, self.H[p].win(lo[p], n), self.H[p].psum(lo[p], n), self.kind(p))
        self.known = field_snapshot(self.m, self.o)

    def windows(self, end):
        f = self.m.read(self.o).f
        out = {}
        for p in self.ps:
            off = multi.as_window(self.m, f[self.kind(p)].d[p].f["data"], self.H[p], end[p])
            self.ctx.oblige("every buffer is the tail of its stream", off is not None, "inv")
            if off is None:
                return None
            out[p] = off
        return out

    def rest(self, lo, hi):
        f = self.m.read(self.o).f
        for p in self.ps:
            inp = f[self.kind(p)].d[p]
            eqv(self.m, "total of a buffer", inp.f["sum"], self.H[p].psum(lo[p], sub(hi[p], lo[p])), "inv")
            for x, v in inp.f.items():
                if x not in ("data", "sum") and not same(v, self.known[self.kind(p)].d[p].f[x]):
                    raise Undecided(f"Input.{x} changes but is not part of the contract's state")
        for k, v in self.known.items():
            if k not in ("dataInputs", "controlInputs") and not same(f.get(k), v):
                raise Undecided(f"Demultiplexer.{k} changes but is not part of the contract's state")

    def step(self, q, k):
        """-> (error text or None, returned value)"""
        c = q != "i1"
        name = q if self.n > 1 and c or self.ctx.choose(2) == 0 else ""
        try:
            deliver(self.m, self.o, self.H[q].msg(k), name, c)
            if self.E.emitted().d:
                self.ctx.oblige("a delivery alone emits nothing", False, "post")
            return None, execute(self.m, self.o, c)
        except CppThrow as e:
            return e.what or "error", None

    def emission(self, i, ctl):
        """data message i through the outputs whose control message is 1; forks on the values"""
        d = {}
        for c in self.cs:
            if self.ctx.branch(ctl[c] == 1):
                d["o" + c[1:]] = Seq([Elems([self.H["i1"].msg(i)])])
        return MapV(d)


def t_init(n):
    def run(sh, P):
        def go(ctx):
            d = D(sh, P, ctx, n)
            f = d.m.read(d.o).f
            eqv(d.m, "output ports", f["outputIds"], SetV([f"o{j}" for j in range(1, n + 1)]), "inv")
            for p in d.ps:
                eqv(d.m, "new buffers are empty", f[d.kind(p)].d[p].f["data"], Seq((), "deque"), "inv")
                eqv(d.m, "new totals", f[d.kind(p)].d[p].f["sum"], Fraction(0), "inv")
        explore(sh, go)
    return run


def t_zero(sh, P):
    def go(ctx):
        thrown = False
        try:
            build(Machine(P, ctx), "Demultiplexer", ["op", 0])
        except CppThrow:
            thrown = True
        ctx.oblige("a demultiplexer without outputs is refused", thrown, "post")
    explore(sh, go)


def t_route(n, q):
    def run(sh, P):
        def go(ctx):
            S = D(sh, P, ctx, n)
            lo, hi = {}, {}
            for p in S.ps:
                lo[p], hi[p] = z3.Int("l_" + p), z3.Int("k_" + p)
                ctx.assume(z3.And(lo[p] >= 0, lo[p] <= hi[p]))
            empties = []
            if ctx.choose(2):
                ctx.assume(hi["i1"] == lo["i1"])
                hi["i1"] = lo["i1"]
                empties = ["i1"]
            else:
                ctx.assume(hi["i1"] > lo["i1"])
            S.install(lo, hi, empties)
            h2 = dict(hi)
            h2[q] = add(hi[q], 1)
            data = q == "i1" or not empties
            d = lo["i1"]
            t = S.H["i1"].t(d)
            first = {}
            if data:
                for c in S.cs:
                    f = first[c] = z3.Int("f_" + c)
                    Hc = S.H[c]
                    ctx.assume(z3.And(f >= lo[c], f <= h2[c]))
                    ctx.add_fact(Fact("older controls", ["H" + c + "t"],
                                      lambda j, Hc=Hc, f=f, c=c: z3.Implies(z3.And(j >= lo[c], j < f), Hc.t(j) < t)))
                    ctx.assume(z3.Or(f == h2[c], Hc.t(f) >= t))
            err, r = S.step(q, hi[q])
            if ctx.check([]) == "unsat":
                raise PathEnd()
            if not data:
                ctx.oblige("without waiting data nothing happens", err is None and not S.E.emitted().d and S.E.returned_ok(r), "post")
                if err is not None:
                    return
                w = S.windows(h2)
                if w is None:
                    return
                ctx.oblige("controls wait for their data", z3.And(*[Z(w[p]) == Z(lo[p]) for p in S.ps]), "post")
                S.rest(lo, h2)
                return
            v = {c: S.H[c].v(first[c]) for c in S.cs}
            bad = z3.Or(*[z3.And(first[c] < h2[c], z3.Or(S.H[c].t(first[c]) != t, z3.And(v[c] != 0, v[c] != 1))) for c in S.cs])
            if err is not None:
                ctx.oblige("an error is raised only for a control that does not fit", bad, "post", note=err)
                return
            ctx.oblige("a control for a later time or with another value is reported", z3.Not(bad), "post")
            w = S.windows(h2)
            if w is None:
                return
            whole = z3.And(*[first[c] < h2[c] for c in S.cs])
            if ctx.branch(whole):
                for c in S.cs:
                    ctx.oblige("the controls of the message are consumed, the later ones kept", Z(w[c]) == first[c] + 1, "post")
                ctx.oblige("the message is consumed", Z(w["i1"]) == d + 1, "post")
                eqv(S.m, "emission", S.E.emitted(), S.emission(d, v))
            else:
                for c in S.cs:
                    ctx.oblige("older controls are discarded, the others kept", Z(w[c]) == first[c], "post")
                ctx.oblige("the message keeps waiting", Z(w["i1"]) == d, "post")
                ctx.oblige("an incomplete message is not emitted", not S.E.emitted().d, "post")
            ctx.oblige("what was emitted is returned", S.E.returned_ok(r), "post")
            S.rest(w, h2)
        explore(sh, go)
    return run


def t_aligned(n, q):
    def run(sh, P):
        def go(ctx):
            S = D(sh, P, ctx, n)
            lo, hi, M = {}, {}, {}
            for p in S.ps:
                lo[p], hi[p] = z3.Int("l_" + p), z3.Int("k_" + p)
                ctx.assume(z3.And(lo[p] >= 0, lo[p] <= hi[p]))
            d = lo["i1"]
            for c in S.cs:
                M[c] = z3.Function("match_" + c, z3.IntSort(), z3.IntSort())
                Hc, Hd = S.H[c], S.H["i1"]
                ctx.add_fact(Fact("a control of the same time", ["Hi1t", "match_" + c], lambda i, Hc=Hc, Hd=Hd, g=M[c]: z3.Implies(
                    i >= 0, z3.And(g(i) >= 0, Hc.t(g(i)) == Hd.t(i), z3.Or(Hc.v(g(i)) == 0, Hc.v(g(i)) == 1)))))

            def inv(lo, hi):
                out = [Z(lo["i1"]) <= Z(hi["i1"])]
                for c in S.cs:
                    out += [Z(lo[c]) <= M[c](Z(lo["i1"])), z3.Or(Z(lo["i1"]) == 0, Z(lo[c]) > M[c](Z(lo["i1"]) - 1)),
                            Z(lo[c]) <= Z(hi[c])]
                out.append(z3.Or(Z(lo["i1"]) >= Z(hi["i1"]), *[M[c](Z(lo["i1"])) >= Z(hi[c]) for c in S.cs]))
                return out
            for x in inv(lo, hi):
                ctx.assume(x)
            empties = []
            if ctx.choose(2):
                ctx.assume(hi["i1"] == d)
                hi["i1"] = d
                empties = ["i1"]
            else:
                ctx.assume(hi["i1"] > d)
            S.install(lo, hi, empties)
            h2 = dict(hi)
            h2[q] = add(hi[q], 1)
            err, r = S.step(q, hi[q])
            if ctx.check([]) == "unsat":
                raise PathEnd()
            ctx.oblige("no error for streams of the same times", err is None, "safety", note=err or "")
            if err is not None:
                return
            w = S.windows(h2)
            if w is None:
                return
            whole = z3.And(d < Z(h2["i1"]), *[M[c](d) < Z(h2[c]) for c in S.cs])
            if ctx.branch(whole):
                ctx.oblige("a complete message is consumed at once", Z(w["i1"]) == d + 1, "post")
                eqv(S.m, "emission", S.E.emitted(), S.emission(d, {c: S.H[c].v(M[c](d)) for c in S.cs}))
            else:
                ctx.oblige("an incomplete message keeps waiting", Z(w["i1"]) == d, "post")
                ctx.oblige("an incomplete message is not emitted", not S.E.emitted().d, "post")
            ctx.oblige("what was emitted is returned", S.E.returned_ok(r), "post")
            for k, x in enumerate(inv(w, h2)):
                ctx.oblige(f"controls and data stay aligned ({k})", x, "inv")
            S.rest(w, h2)
        explore(sh, go)
    return run


def t_reject(sh, P):
    def go(ctx):
        S = D(sh, P, ctx, 2)
        lo = {p: z3.Int("l_" + p) for p in S.ps}
        hi = {p: z3.Int("k_" + p) for p in S.ps}
        for p in S.ps:
            ctx.assume(z3.And(lo[p] >= 0, hi[p] >= lo[p]))
        S.install(lo, hi)
        control, port = [(False, "x"), (False, "c1"), (True, "c3"), (True, ""), (True, "i1")][ctx.choose(5)]
        thrown = False
        try:
            deliver(S.m, S.o, msg(z3.Int("t"), z3.Real("v")), port, control)
        except CppThrow:
            thrown = True
        ctx.oblige("a delivery to a port that does not exist is an error", thrown, "post")
        for k, v in S.known.items():
            eqv(S.m, "a rejected delivery changes nothing", S.m.read(S.o).f[k], v)
    explore(sh, go)


def tasks(ns=(1, 2, 3)):
    out = [("Demultiplexer(0)", t_zero), ("Demultiplexer.reject", t_reject)]
    for n in (1, 2, 3, 11):
        out.append((f"Demultiplexer({n}).init", t_init(n)))
    for n in ns:
        for q in ["i1"] + cports(n):
            out += [(f"Demultiplexer({n}).route.{q}", t_route(n, q)), (f"Demultiplexer({n}).aligned.{q}", t_aligned(n, q))]
    return out
