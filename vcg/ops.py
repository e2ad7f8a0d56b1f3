"""Contracts of the operators with one input port: P02, P07, P08, P09 (and their part of P20)."""
from spec import *

K = z3.Int


def const_fn(name):
    return z3.Function(name, z3.IntSort(), z3.RealSort())


def one(port, *ms):
    return {port: Seq([Elems(ms)])}


class Op:
    """One operator class under contract.

    args(ctx,sh)   -> constructor arguments after the id
    window(a)      -> number of messages of its window (a python int or a term)
    state(S)       -> {field: value} at step S.k, beyond the input buffer
    scratch        -> fields whose content between two steps does not matter
    expect(S)      -> {port: Seq} emitted for message S.k when the window is full
    """
    window_term = None
    ports = ("i1",)

    def __init__(self, cls, args=lambda ctx, sh: [], window=lambda a: 1, state=None, expect=None, scratch=(),
                 facts=None, buffer=None, name=None, increasing=False, first=None, pre=None,
                 own=(), put=None, see=None):
        self.cls, self.args, self.window, self.state, self.expect = cls, args, window, state, expect
        self.scratch, self.facts, self.buffer, self.name = tuple(scratch), facts, buffer, name or cls
        self.increasing = increasing
        self.first = first
        self.pre = pre
        self.own, self.put, self.see = tuple(own), put, see   # fields with a representation invariant of their own


class Step:
    pass


def full(m, S):
    return S.full


def begin(sh, P, ctx, op):
    S = Step()
    m = S.m = Machine(P, ctx)
    S.ctx, S.sh, S.op, S.full = ctx, sh, op, False
    S.H = Hist(sh, "h", op.increasing)
    S.H.facts(ctx)
    m.hooks.update(getattr(op, "hooks", {}))
    S.a = op.args(ctx, sh)
    S.n = op.window(S.a)
    if isz(S.n):
        ctx.assume(S.n >= 1)
    S.o = build(m, op.cls, ["op"] + list(S.a))
    S.E = Emit(m, S.o)
    m.hooks.update(S.E.hooks())
    return S


def buffer_at(S, k, isfull):
    """(contents, sum) of the input buffer after k messages."""
    if S.op.buffer:
        return S.op.buffer(S, k, isfull)
    if isfull:
        return S.H.win(sub(k, S.n), S.n), S.H.psum(sub(k, S.n), S.n)
    return S.H.win(0, k), S.H.psum(0, k)


def extra_state(S, k):
    return S.op.state(S, k) if S.op.state else {}


def install(S, k, isfull):
    m = S.m
    data, total = buffer_at(S, k, isfull)
    set_input(m, S.o, "i1", data, total)
    for f, v in extra_state(S, k).items():
        if f not in m.read(S.o).f:
            raise Undecided(f"{S.op.cls} has no field {f}")
        m.write(S.o.f(f), v)
    for f in S.op.scratch:
        if f in m.read(S.o).f:
            old = m.read(S.o).f[f]
            m.write(S.o.f(f), S.ctx.fresh("scratch_" + f, "int" if is_int(old) else "bool" if is_bool(old) else "real"))
    if S.op.put:
        S.op.put(S, k)
    m.write(S.o.f("toProcess"), SetV())


def check_state(S, k, isfull, known, name):
    """The object is in the state the contract prescribes after k messages."""
    m = S.m
    data, total = buffer_at(S, k, isfull)
    d = m.read(S.o.f("dataInputs"))
    S.ctx.oblige(f"{name}.ports", isinstance(d, MapV) and set(d.d) == {"i1"} , "inv")
    inp = d.d["i1"]
    if total is not None:
        eqv(m, f"{name}.sum", inp.f["sum"], total, "inv")
    for f, v in extra_state(S, k).items():
        eqv(m, f"{name}.{f}", m.read(S.o).f[f], v, "inv")
    now = m.read(S.o).f
    for f, v in known.items():
        if f in ("dataInputs", "toProcess") or f in S.op.scratch or f in S.op.own or f in extra_state(S, k):
            continue
        if not same(now.get(f), v):
            if isinstance(v, Ptr) and isinstance(now.get(f), Ptr) and v.loc == now[f].loc:
                continue
            raise Undecided(f"{S.op.cls}.{f} changes but is not part of the contract's state")
    if S.op.see:
        S.op.see(S, k, name)
    eqv(m, f"{name}.toProcess", m.read(S.o.f("toProcess")), SetV(), "inv")
    for f, v in inp.f.items():
        if f in ("data", "sum"):
            continue
        if not same(v, known["dataInputs"].d["i1"].f[f]):
            raise Undecided(f"Input.{f} changes but is not part of the contract's state")
    eqv(m, f"{name}.buffer", inp.f["data"], data, "inv")


def task_init(op):
    def run(sh, P):
        def go(ctx):
            S = begin(sh, P, ctx, op)
            known = field_snapshot(S.m, S.o)
            check_state(S, 0, False, known, "init")
        explore(sh, go)
    return run


def task_step(op):
    def run(sh, P):
        def go(ctx):
            S = begin(sh, P, ctx, op)
            m, n = S.m, S.n
            k = z3.Int("k")
            if op.pre:
                op.pre(S)
            # three cases: the window stays partial, becomes full, is full already
            if not isz(n) and n == 1:
                case = 1 + ctx.choose(2)
            else:
                case = ctx.choose(3)
            if case == 0:
                ctx.assume(z3.And(k >= 0, k + 1 < n))
            elif case == 1:
                k = sub(n, 1)
            else:
                ctx.assume(k >= Z(n))
            if ctx.check([]) == "unsat":
                raise PathEnd()
            S.k, S.full = k, case > 0
            known = field_snapshot(m, S.o)
            if op.facts:
                op.facts(S)
            install(S, k, case == 2)
            try:
                deliver(m, S.o, S.H.msg(k), "i1" if ctx.choose(2) == 0 else "")
                r = execute(m, S.o)
            except CppThrow as e:
                ctx.oblige("no error raised", False, "safety", note=e.what)
                return
            exp = op.expect(S) if S.full else {}
            eqv(m, "emission", S.E.emitted(), MapV(exp))
            ctx.oblige("the emitted messages are returned", S.E.returned_ok(r), "post")
            check_state(S, add(k, 1), S.full, known, "state")
        explore(sh, go)
    return run


# ---- P07 ----------------------------------------------------------------------------------------------------------------
def rc(name="c"):
    return lambda ctx, sh: [z3.Real(name)]


def out1(f):
    return lambda S: one("o1", f(S, S.H.t(S.k), S.H.v(S.k)))


def filt(cond):
    def e(S):
        t, v = S.H.t(S.k), S.H.v(S.k)
        return one("o1", msg(t, v)) if S.ctx.branch(cond(v, S.a[0])) else {}
    return e


def shift_args(ctx, sh):
    dt, times = z3.Int("dt"), z3.Int("times")
    ctx.assume(z3.And(dt >= 0, times >= -2**31, times < 2**31))
    return [dt, times]


def shift_expect(S):
    t, v = S.H.t(S.k), S.H.v(S.k)
    dt, times = S.a
    x = t + dt * times
    return one("o1", msg(z3.If(x >= 0, x, z3.IntVal(0)), v))


P07 = [
    Op("Identity", expect=out1(lambda S, t, v: msg(t, v))),
    Op("Output", args=lambda c, s: [1], expect=out1(lambda S, t, v: msg(t, v))),
    Op("Add", rc(), expect=out1(lambda S, t, v: msg(t, v + S.a[0]))),
    Op("Scale", rc(), expect=out1(lambda S, t, v: msg(t, v * S.a[0]))),
    Op("Power", rc(), expect=out1(lambda S, t, v: msg(t, S.m.ufun("pow", v, S.a[0])))),
    Op("Constant", rc(), expect=out1(lambda S, t, v: msg(t, S.a[0]))),
    Op("TimeShift", shift_args, expect=shift_expect),
    Op("GreaterThan", rc(), expect=filt(lambda v, c: v > c)),
    Op("LessThan", rc(), expect=filt(lambda v, c: v < c)),
    Op("EqualTo", rc(), expect=filt(lambda v, c: v == c)),
]


# ---- P08 ----------------------------------------------------------------------------------------------------------------
def nargs(lo=1):
    def a(ctx, sh):
        n = z3.Int("n")
        ctx.assume(n >= lo)
        return [n]
    return a


def avg(S):
    n = S.n
    return S.H.psum(sub(add(S.k, 1), n), n) / z3.ToReal(Z(n))


def stddev(S):
    n, lo = S.n, simp(sub(add(S.k, 1), S.n))
    mean = avg(S)
    s = S.sh.sum_of(lambda j: (S.H.v(add(lo, j)) - mean) * (S.H.v(add(lo, j)) - mean), n)
    return one("o1", msg(S.H.t(S.k), S.m.ufun("sqrt", Z(s) / z3.ToReal(Z(n) - 1))))


def coeffs(name, ctx, sh, lo=1):
    n = z3.Int("n")
    ctx.assume(n >= lo)
    f = const_fn(name)
    return Seq([Sym(sh.base(name, lambda i: f(Z(i))), 0, n)])


def fir(S):
    c = const_fn("coef")
    k = S.k
    return one("o1", msg(S.H.t(k), S.sh.sum_of(lambda j: c(Z(j)) * S.H.v(sub(k, j)), S.n)))


def peak(S):
    n, lo = S.n, simp(sub(add(S.k, 1), S.n))
    mid = simp(add(lo, Z(n) / 2))
    ctx, H = S.ctx, S.H
    j = z3.Int("j!peak")
    if ctx.choose(2) == 0:
        ctx.add_fact(LoopFact("the middle is the maximum", j, n, H.v(mid) >= H.v(add(lo, j))))
        return one("o1", msg(H.t(mid), H.v(mid)))
    w = ctx.fresh("w", "int")
    ctx.assume(z3.And(w >= 0, w < Z(n), H.v(add(lo, w)) > H.v(mid)))
    return {}


def diff(S):
    k, H = S.k, S.H
    return one("o1", msg(z3.If(S.a[0], H.t(k), H.t(sub(k, 1))), H.v(k) - H.v(sub(k, 1))))


# Difference(id, useOldestTime): the flag selects the time of the newest message; the constructor's documented default is
# checked by P19.  See repo commit 2a42d8c.
def diff_expect(S):
    k, H = S.k, S.H
    newest = S.a[0] if not S.flip else z3.Not(S.a[0])
    return one("o1", msg(z3.If(newest, H.t(k), H.t(sub(k, 1))), H.v(k) - H.v(sub(k, 1))))


P08 = [
    Op("MovingAverage", nargs(), window=lambda a: a[0], expect=lambda S: one("o1", msg(S.H.t(S.k), avg(S)))),
    Op("StandardDeviation", nargs(2), window=lambda a: a[0], expect=stddev),
    Op("FiniteImpulseResponse", lambda c, s: [coeffs("coef", c, s)], window=lambda a: a[0].size(), expect=fir),
    Op("PeakDetector", nargs(), window=lambda a: a[0], expect=peak),
    Op("Difference", lambda c, s: [z3.Bool("useOldestTime")], window=lambda a: 2, expect=diff),
    Op("Collector", nargs(), window=lambda a: a[0], expect=lambda S: {}),
]


# ---- P09 ----------------------------------------------------------------------------------------------------------------
def win1(S, k, isfull):
    return None


def csum_state(S, k):
    return {"accumulated": S.H.psum(0, k)}


def ar_y(sh):
    return const_fn("y"), z3.Function("yt", z3.IntSort(), z3.IntSort())


def ar_buffer(S, k, isfull):
    y, yt = ar_y(S.sh)
    B = S.sh.base("Y", lambda i: msg(yt(Z(i)), y(Z(i))))
    if not isz(k) and k == 0:
        return Seq((), "deque"), None
    # after the first message the buffer always holds the last n outputs (zeros before the first one)
    N = S.a[0].size()
    return Seq([Sym(B, sub(k, N), N)], "deque"), None


def ar_facts(S):
    y, yt = ar_y(S.sh)
    c = const_fn("coef")
    H, k = S.H, S.k
    S.ctx.add_fact(Fact("y before the first", ["y", "yt"], lambda i: z3.Implies(i < 0, z3.And(y(i) == 0, yt(i) == 0))))
    S.ctx.add_fact(Fact("yt", ["yt"], lambda i: z3.Implies(i >= 0, yt(i) == H.t(i))))
    N = S.a[0].size()
    g = lambda j: c(Z(j)) * y(simp(sub(sub(k, 1), j)))
    total = S.sh.sum_of(g, N)
    # lemma (induction over N): a sum of zeros is zero
    w = S.ctx.fresh("w", "int")
    S.ctx.assume(z3.Or(Z(total) == 0, z3.And(w >= 0, w < Z(N), g(w) != 0)))
    S.yk = H.v(k) + total
    S.ctx.assume(y(Z(k)) == Z(S.yk))


def ar_expect(S):
    return one("o1", msg(S.H.t(S.k), S.yk))


def rsi_fns():
    return const_fn("AG"), const_fn("AL")


def gain(H, i):
    d = H.v(add(i, 1)) - H.v(i)
    return z3.If(d > 0, d, z3.RealVal(0))


def loss(H, i):
    d = H.v(add(i, 1)) - H.v(i)
    return z3.If(d < 0, -d, z3.RealVal(0))


def rsi_facts(S):
    """AG(k), AL(k): the averages after message number k (counted from 0), k >= n."""
    AG, AL = rsi_fns()
    H, k, n = S.H, S.k, S.a[0]
    nr = z3.ToReal(n)
    S.ctx.assume(AG(n) == Z(S.sh.sum_of(lambda j: gain(H, j), n)) / nr)
    S.ctx.assume(AL(n) == Z(S.sh.sum_of(lambda j: loss(H, j), n)) / nr)
    if not same(k, n):
        S.ctx.assume(z3.Implies(Z(k) > n, z3.And(
            AG(Z(k)) == (AG(Z(k) - 1) * (nr - 1) + gain(H, sub(k, 1))) / nr,
            AL(Z(k)) == (AL(Z(k) - 1) * (nr - 1) + loss(H, sub(k, 1))) / nr)))
    # the averages of gains and losses are never negative
    S.ctx.assume(AL(Z(k)) >= 0)


def rsi_state(S, k):
    AG, AL = rsi_fns()
    n = S.a[0]
    ctx = S.ctx
    if (not isz(k) and k == 0) or ctx.proves(Z(k) <= n):
        return {"initialized": False}
    return {"initialized": True, "prevAverageGain": AG(simp(Z(k) - 1)), "prevAverageLoss": AL(simp(Z(k) - 1))}


def rsi_expect(S):
    AG, AL = rsi_fns()
    k = Z(S.k)
    g, l = AG(k), AL(k)
    v = z3.If(l > 0, 100 - 100 / (1 + g / l), z3.RealVal(100))
    return one("o1", msg(S.H.t(S.k), v))


P09 = [
    Op("Count", state=lambda S, k: {"count": k}, expect=lambda S: one("o1", msg(S.H.t(S.k), z3.ToReal(Z(add(S.k, 1)))))),
    Op("CumulativeSum", state=csum_state, expect=lambda S: one("o1", msg(S.H.t(S.k), S.H.psum(0, add(S.k, 1))))),
    Op("AutoRegressive", lambda c, s: [coeffs("coef", c, s)], window=lambda a: 1, buffer=ar_buffer, facts=ar_facts,
       expect=ar_expect),
    Op("RelativeStrengthIndex", nargs(), window=lambda a: simp(a[0] + 1), state=rsi_state, facts=rsi_facts,
       expect=rsi_expect, scratch=("averageGain", "averageLoss")),
]


def tasks(ops):
    out = []
    for o in ops:
        out.append((f"{o.name}.init", task_init(o)))
        out.append((f"{o.name}.step", task_step(o)))
    return out
