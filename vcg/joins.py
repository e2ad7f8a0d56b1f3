"""P03: the join (any operator that synchronises its ports the way Join does).

Ghost state of port p: H_p its stream (strictly increasing times), k_p messages delivered, l_p the first one not consumed.
Invariant between calls, for every tuple of indices i_p whose messages carry one common time:
    buffer of p = H_p[l_p, k_p), total = their sum;    some port is empty;
    (all i_p < l_p)  or  (all i_p >= l_p)          -- consumed together or not at all
A step is one delivery followed by processing.  processData is replaced by its contract: called on equal fronts, it changes
nothing and returns some messages (or none); JOIN.processData is verified against the contract separately."""
from spec import *
import multi
from inout import ports, outs


class JoinSpec(multi.LoopSpec):
    """Vocabulary for a scan that restarts: per port non-empty, order of the fronts, nothing matchable dropped, totals."""

    def __init__(self, J):
        self.J = J

    def windows(self, m, st):
        J = self.J
        return [multi.Win(p, J.o.cell, J.o.path + (("f", "dataInputs"), ("m", p), ("f", "data")), J.H[p], J.k2[p]) for p in J.ps]

    def cands(self, m, V):
        J = self.J
        out = {}
        ne = {p: z3.And(Z(V.off[p]) < Z(V.end[p])) for p in J.ps}
        t = {p: J.H[p].t(V.off[p]) for p in J.ps}
        for p in J.ps:
            out[f"{p} not empty"] = ne[p]
            out[f"{p} only moves forward"] = Z(V.off[p]) >= Z(J.l[p])
        for p in J.ps:
            for q in J.ps:
                if p != q:
                    out[f"front of {p} not after front of {q}"] = z3.Implies(z3.And(ne[p], ne[q]), t[p] <= t[q])
        out["no message dropped that can still be matched"] = z3.Implies(
            z3.And(J.T, *[Z(J.i[p]) >= Z(J.l[p]) for p in J.ps]),
            z3.And(*[Z(J.i[p]) >= Z(V.off[p]) for p in J.ps]))
        for (cell, path), x in V.x.items():
            q = [p for p in J.ps if cell == J.o.cell and path == J.o.path + (("f", "dataInputs"), ("m", p), ("f", "sum"))]
            if q:
                p = q[0]
                out[f"total of {p}"] = Z(x) == Z(J.H[p].psum(V.off[p], sub(V.end[p], V.off[p])))
            elif is_int(x):
                for p in J.ps:
                    out[f"{multi.leafname(cell, path)} equals the front time of {p}"] = z3.Implies(ne[p], Z(x) == t[p])
                    out[f"{multi.leafname(cell, path)} not before the front of {p}"] = z3.Implies(ne[p], Z(x) >= t[p])
                    out[f"{multi.leafname(cell, path)} not after the front of {p}"] = z3.Implies(ne[p], Z(x) <= t[p])
                    out[f"{multi.leafname(cell, path)}: tuples not older"] = z3.Implies(
                        z3.And(J.T, *[Z(J.i[p]) >= Z(J.l[p]) for p in J.ps]),
                        J.H[p].t(J.i[p]) >= Z(x))
            elif is_bool(x):
                nm = multi.leafname(cell, path)
                out[f"{nm} off"] = z3.Not(Z(x))
                out[f"{nm} on"] = Z(x)
        return out

    def decreases(self, m, V, V2, st, st2):
        J = self.J
        fwd = z3.And(*[Z(V2.off[p]) >= Z(V.off[p]) for p in J.ps])
        moved = z3.Or(*[Z(V2.off[p]) > Z(V.off[p]) for p in J.ps])
        alts = [moved]
        still = z3.And(*[Z(V2.off[p]) == Z(V.off[p]) for p in J.ps])
        s1, s2 = multi.strings(st), multi.strings(st2)
        ch = [c for c in s1 if s2.get(c) != s1[c]]
        if not ch:
            d = multi.advance(st, st2)
            if d:
                alts.append(still)
        elif len(ch) == 1 and s1[ch[0]] in J.ps and s2.get(ch[0]) in J.ps:
            a, b = s1[ch[0]], s2[ch[0]]
            alts.append(z3.And(still, Z(V.off[b]) < Z(V.end[b]), J.H[b].t(V.off[b]) > J.H[a].t(V.off[a])))
        return z3.And(fwd, z3.Or(*alts))


class Join:
    def __init__(self, sh, P, ctx, make, n, hook=True):
        self.sh, self.ctx, self.n, self.ps = sh, ctx, n, ports(n)
        m = self.m = Machine(P, ctx)
        self.o = make(m)
        self.cls = m.read(self.o).cls
        self.E = Emit(m, self.o)
        m.hooks.update(self.E.hooks())
        self.H = {p: Hist(sh, "H" + p, increasing=True) for p in self.ps}
        self.calls = []
        self.i = {p: z3.Int("i_" + p) for p in self.ps}
        for p in self.ps:
            self.H[p].facts(ctx)
            ctx.assume(self.i[p] >= 0)
        self.T = z3.And(*[self.H[p].t(self.i[p]) == self.H[self.ps[0]].t(self.i[self.ps[0]]) for p in self.ps[1:]])
        if hook:
            m.hooks["processData"] = self.process
            m.hooks["invariant"] = JoinSpec(self)
        names = set(m.read(self.o.f("dataInputs")).d)
        ctx.oblige("input ports", names == set(self.ps), "inv")
        if names != set(self.ps):
            raise Undecided("input ports")

    def process(self, m, this, fn, args):
        if this != self.o:
            return NotImplemented
        self.calls.append(m.read(self.o))
        c = self.ctx.choose(2)
        if c == 0:
            self.result = MapV()
        else:
            ids = m.read(self.o.f("outputIds")).keys()
            self.result = MapV({q: Seq([Elems([msg(z3.Int(f"rt{q}"), z3.Real(f"rv{q}"))])]) for q in ids})
        return self.result

    def whole(self, lo, hi):
        """every member of the tuple lies in [lo, hi)"""
        return z3.And(*[z3.And(Z(self.i[p]) >= Z(lo[p]), Z(self.i[p]) < Z(hi[p])) for p in self.ps])

    def cut(self, lo):
        return z3.Or(z3.And(*[self.i[p] < Z(lo[p]) for p in self.ps]), z3.And(*[self.i[p] >= Z(lo[p]) for p in self.ps]))

    def arbitrary(self, someempty=True, empty=None):
        ctx, m = self.ctx, self.m
        self.l, self.k = {}, {}
        e = None if not someempty else empty if empty is not None else ctx.choose(self.n)
        for j, p in enumerate(self.ps):
            l, k = z3.Int("l_" + p), z3.Int("k_" + p)
            ctx.assume(l >= 0)
            if j == e:
                k = l
                set_input(m, self.o, p, Seq((), "deque"), Fraction(0))
            else:
                ctx.assume(k >= l if someempty else k > l)
                # the ports in front of the chosen one are not empty
                if e is not None and j < e:
                    ctx.assume(k > l)
                set_input(m, self.o, p, self.H[p].win(l, sub(k, l)), self.H[p].psum(l, sub(k, l)))
            self.l[p], self.k[p] = l, k
        ctx.assume(z3.Implies(self.T, self.cut(self.l)))
        self.known = field_snapshot(m, self.o)

    def read_windows(self, rec, end):
        out = {}
        for p in self.ps:
            off = multi.as_window(self.m, rec.f["dataInputs"].d[p].f["data"], self.H[p], end[p])
            if off is None:
                return None
            out[p] = off
        return out

    def totals(self, name, rec, lo, hi):
        for p in self.ps:
            inp = rec.f["dataInputs"].d[p]
            eqv(self.m, f"{name}: total of a buffer", inp.f["sum"], self.H[p].psum(lo[p], sub(hi[p], lo[p])), "inv")
            for x, v in inp.f.items():
                if x not in ("data", "sum") and not same(v, self.known["dataInputs"].d[p].f[x]):
                    raise Undecided(f"Input.{x} changes but is not part of the contract's state")

    def frame(self, rec):
        for k, v in self.known.items():
            if k != "dataInputs" and not same(rec.f.get(k), v):
                raise Undecided(f"{self.cls}.{k} changes but is not part of the contract's state")


def t_init(make, n, outp):
    def run(sh, P):
        def go(ctx):
            J = Join(sh, P, ctx, make, n)
            f = J.m.read(J.o).f
            eqv(J.m, "output ports", f["outputIds"], SetV(outp), "inv")
            ctx.oblige("no control ports", not f["controlInputs"].d, "inv")
            for p in J.ps:
                i = f["dataInputs"].d[p]
                eqv(J.m, "new buffers are empty", i.f["data"], Seq((), "deque"), "inv")
                eqv(J.m, "new totals", i.f["sum"], Fraction(0), "inv")
        explore(sh, go)
    return run


def t_step(make, n, ei, qi):
    """One message for port q, port e being the first empty one, then processing."""
    def run(sh, P):
        def go(ctx):
            J = Join(sh, P, ctx, make, n)
            J.arbitrary(empty=ei)
            q = J.ps[qi]
            J.k2 = dict(J.k)
            J.k2[q] = add(J.k[q], 1)
            try:
                deliver(J.m, J.o, J.H[q].msg(J.k[q]), q)
                if J.E.emitted().d or J.calls:
                    ctx.oblige("a delivery alone emits nothing", False, "post")
                r = execute(J.m, J.o)
            except CppThrow as e:
                ctx.oblige("no error raised", False, "safety", note=e.what)
                return
            if ctx.check([]) == "unsat":
                raise PathEnd()
            after = J.m.read(J.o)
            ctx.oblige("computes at most once per step", len(J.calls) <= 1, "post")
            lo = J.read_windows(after, J.k2)
            ctx.oblige("every buffer is the tail of its stream", lo is not None, "inv")
            if lo is None:
                return
            if J.calls:
                c = J.read_windows(J.calls[0], J.k2)
                ctx.oblige("the computation sees tails of the streams", c is not None, "post")
                if c is None:
                    return
                ctx.oblige("computes only when every port has a message", z3.And(*[Z(c[p]) < Z(J.k2[p]) for p in J.ps]), "post")
                ctx.oblige("computes on equal times",
                           z3.And(*[J.H[p].t(c[p]) == J.H[J.ps[0]].t(c[J.ps[0]]) for p in J.ps[1:]]), "post")
                ctx.oblige("never computes on something consumed before", z3.And(*[Z(c[p]) >= Z(J.l[p]) for p in J.ps]), "post")
                ctx.oblige("the synchronised messages are consumed", z3.And(*[Z(lo[p]) == Z(c[p]) + 1 for p in J.ps]), "post")
                ctx.oblige("the common time that is complete is the one used", z3.Implies(
                    z3.And(J.T, J.whole(J.l, J.k2)), z3.And(*[J.i[p] == Z(c[p]) for p in J.ps])), "post")
                eqv(J.m, "emission", J.E.emitted(), J.result)
            else:
                ctx.oblige("a common time that is complete is emitted at once",
                           z3.Not(z3.And(J.T, J.whole(J.l, J.k2))), "post")
                ctx.oblige("nothing emitted without a match", not J.E.emitted().d, "post")
            ctx.oblige("what was emitted is returned", J.E.returned_ok(r), "post")
            ctx.oblige("streams only move forward", z3.And(*[z3.And(Z(lo[p]) >= Z(J.l[p]), Z(lo[p]) <= Z(J.k2[p])) for p in J.ps]), "inv")
            ctx.oblige("some port is empty", z3.Or(*[Z(lo[p]) == Z(J.k2[p]) for p in J.ps]), "inv")
            ctx.oblige("messages of one time are consumed together or not at all", z3.Implies(J.T, J.cut(lo)), "inv")
            J.totals("after", after, lo, J.k2)
            J.frame(after)
        explore(sh, go)
    return run


def t_reject(make, n):
    def run(sh, P):
        def go(ctx):
            J = Join(sh, P, ctx, make, n)
            J.arbitrary()
            port = ["", "x", f"i{n + 1}", "o1"][ctx.choose(4)]
            thrown = False
            try:
                deliver(J.m, J.o, msg(z3.Int("t"), z3.Real("v")), port)
            except CppThrow:
                thrown = True
            ctx.oblige("a delivery to a port that does not exist is an error", thrown, "post")
            for k, v in J.known.items():
                eqv(J.m, f"a rejected delivery changes nothing", J.m.read(J.o).f[k], v)
        explore(sh, go)
    return run


def t_execute_alone(make, n):
    """Processing without anything new: nothing happens."""
    def run(sh, P):
        def go(ctx):
            J = Join(sh, P, ctx, make, n)
            J.arbitrary()
            J.k2 = dict(J.k)
            try:
                r = execute(J.m, J.o)
            except CppThrow as e:
                ctx.oblige("no error raised", False, "safety", note=e.what)
                return
            ctx.oblige("nothing computed and nothing emitted", not J.calls and not J.E.emitted().d and J.E.returned_ok(r), "post")
            lo = J.read_windows(J.m.read(J.o), J.k2)
            ctx.oblige("every buffer is the tail of its stream", lo is not None, "inv")
            if lo is None:
                return
            ctx.oblige("messages of one time are consumed together or not at all", z3.Implies(J.T, J.cut(lo)), "inv")
            J.totals("after", J.m.read(J.o), lo, J.k2)
            J.frame(J.m.read(J.o))
        explore(sh, go)
    return run


def t_process(make, n, expect):
    """processData on equal fronts."""
    def run(sh, P):
        def go(ctx):
            J = Join(sh, P, ctx, make, n, hook=False)
            J.arbitrary(someempty=False)
            ctx.assume(z3.And(*[J.H[p].t(J.l[p]) == J.H[J.ps[0]].t(J.l[J.ps[0]]) for p in J.ps[1:]]))
            try:
                r = J.m.call_method(J.o, "processData", [])
            except CppThrow as e:
                ctx.oblige("no error raised", False, "safety", note=e.what)
                return
            r = J.m.read(r) if isinstance(r, Loc) else r
            fr = {p: J.H[p].msg(J.l[p]) for p in J.ps}
            want = expect(J, fr)
            eqv(J.m, "result", r, want)
            for k, v in J.known.items():
                eqv(J.m, "the buffers stay as they are", J.m.read(J.o).f[k], v, "inv")
        explore(sh, go)
    return run


def mk(n):
    return lambda m: build(m, "Join", ["op", n])


def t_small(sh, P):
    """Fewer than two ports are refused."""
    def go(ctx):
        thrown = False
        try:
            build(Machine(P, ctx), "Join", ["op", ctx.choose(2)])
        except CppThrow:
            thrown = True
        ctx.oblige("fewer than two ports are refused", thrown, "post")
    explore(sh, go)


def tasks(ns=(2, 3)):
    out = [("Join(<2)", t_small)]
    for n in ns + (11,):
        out += [(f"Join({n}).init", t_init(mk(n), n, outs(n)))]
    for n in ns:
        out += [(f"Join({n}).step.{p}{'.last' if e == p else f'.{e}empty'}", t_step(mk(n), n, e - 1, p - 1))
                for p in range(1, n + 1) for e in range(1, n + 1)]
        out += [(f"Join({n}).execute", t_execute_alone(mk(n), n)),
                (f"Join({n}).reject", t_reject(mk(n), n))]
    for n in ns + (4, 11):
        out += [(f"Join({n}).processData", t_process(mk(n), n, lambda J, fr: MapV(
            {q: Seq([Elems([fr[p]])]) for p, q in zip(J.ps, outs(J.n))})))]
    return out


# ---- P04: the operators built on the join -------------------------------------------------------------------------------
def one(c):
    return z3.If(c, z3.RealVal(1), z3.RealVal(0))


HALF = Fraction(1, 2)
BINARY = {
    "Plus": lambda a, b: (True, a + b),
    "Minus": lambda a, b: (True, a - b),
    "Multiplication": lambda a, b: (True, a * b),
    "Division": lambda a, b: (b != 0, a / b),
    "And": lambda a, b: (True, one(z3.And(a >= Z(HALF), b >= Z(HALF)))),
    "Or": lambda a, b: (True, one(z3.Or(a >= Z(HALF), b >= Z(HALF)))),
    "GreaterThanStream": lambda a, b: (a > b, a),
    "LessThanStream": lambda a, b: (a < b, a),
}


def binary_result(cls):
    def f(J, fr):
        a, b = fr["i1"], fr["i2"]
        c, v = BINARY[cls](a.f["value"], b.f["value"])
        if c is True or J.ctx.branch(c):
            return MapV({"o1": Seq([Elems([msg(a.f["time"], v)])])})
        return MapV()
    return f


def linear_result(J, fr):
    s = Fraction(0)
    for j, p in enumerate(J.ps):
        s = add(s, mul(to_real(z3.Real(f"coeff{j + 1}")), fr[p].f["value"]))
    return MapV({"o1": Seq([Elems([msg(fr["i1"].f["time"], s)])])})


def mkb(cls):
    return lambda m: build(m, cls, ["op"])


def mkl(n):
    return lambda m: build(m, "Linear", ["op", Seq([Elems([z3.Real(f"coeff{j + 1}") for j in range(n)])])])


def t_linear_small(sh, P):
    def go(ctx):
        thrown = False
        try:
            build(Machine(P, ctx), "Linear", ["op", Seq([Elems([z3.Real("c")] * ctx.choose(2))])])
        except CppThrow:
            thrown = True
        ctx.oblige("fewer than two ports are refused", thrown, "post")
    explore(sh, go)


def full(name, make, n, outp, result, steps=True):
    out = [(f"{name}.init", t_init(make, n, outp)), (f"{name}.processData", t_process(make, n, result))]
    if steps:
        out += [(f"{name}.step.{p}{'.last' if e == p else f'.{e}empty'}", t_step(make, n, e - 1, p - 1))
                for p in range(1, n + 1) for e in range(1, n + 1)]
        out += [(f"{name}.execute", t_execute_alone(make, n)), (f"{name}.reject", t_reject(make, n))]
    return out


def function_tasks():
    out = [("Linear(<2)", t_linear_small)]
    for c in BINARY:
        out += full(c, mkb(c), 2, ["o1"], binary_result(c))
    for n in (2, 3):
        out += full(f"Linear({n})", mkl(n), n, ["o1"], linear_result)
    for n in (4, 11):
        out += full(f"Linear({n})", mkl(n), n, ["o1"], linear_result, steps=False)
    return out
