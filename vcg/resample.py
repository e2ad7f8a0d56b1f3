"""P10: the resamplers.

Ghost state: p, the last grid point handled so far (t0 in the beginning); c, the number of grid points p+dt, p+2dt, ... the
operator has to emit for the message at hand (the unique c with p + c*dt <= limit < p + (c+1)*dt).  The step contract says that
exactly the points p + j*dt, 1 <= j <= c, leave in order with the right value, and that p + c*dt is the new p.  By induction
over the history every grid point t0 + i*dt leaves exactly once, in order."""
from spec import *
import ops
from ops import Op, Step, one

PI = Fraction("3.1415926535897931")
P, C, DT = z3.Int("p!grid"), z3.Int("c!grid"), z3.Int("dt")


def dt_args(ctx, sh):
    ctx.assume(DT >= 1)
    return [DT]


def grid(S, limit, value):
    """p + dt ... p + c*dt, the grid points up to the limit, with their values."""
    ctx = S.ctx
    ctx.assume(z3.And(C >= 0, P + C * DT <= limit, limit < P + (C + 1) * DT))
    b = S.sh.base(f"grid{S.k}", lambda j: msg(P + (Z(j) + 1) * DT, value(P + (Z(j) + 1) * DT)))
    return Seq([Sym(b, 0, C)])


def emitted(seqs):
    return {"o1": Seq([x for s in seqs for x in s.segs])}


def real(x):
    return z3.ToReal(Z(x))


# ---- constant -------------------------------------------------------------------------------------------------------------
def const_facts(S):
    k, H = S.k, S.H
    if not (not isz(k) and k == 0):
        S.ctx.assume(z3.And(0 <= P, P <= H.t(sub(k, 1)), H.t(sub(k, 1)) < P + DT))


def const_state(S, k):
    H = S.H
    if not isz(k) and k == 0:
        return {"initiated": False}
    if same(k, S.k):
        return {"initiated": True, "nextEmit": P + DT, "lastValue": H.v(sub(k, 1))}
    if not isz(k) and k == 1:
        return {"initiated": True, "nextEmit": H.t(0) + DT, "lastValue": H.v(0)}
    return {"initiated": True, "nextEmit": P + (C + 1) * DT, "lastValue": H.v(sub(k, 1))}


def const_expect(S):
    k, H = S.k, S.H
    if not isz(k) and k == 0:
        return {}
    return emitted([grid(S, H.t(k), lambda q: z3.If(q == H.t(k), H.v(k), H.v(sub(k, 1))))])


# ---- cosine ---------------------------------------------------------------------------------------------------------------
def cos_facts(S):
    k, H = S.k, S.H
    if S.full:
        if not isz(k):
            S.ctx.assume(P == H.t(0))
        else:
            S.ctx.assume(z3.And(0 <= P, P <= H.t(sub(k, 1)), H.t(sub(k, 1)) < P + DT))


def cos_state(S, k):
    H = S.H
    if not S.full:
        return {"carryOver": 0}
    if same(k, S.k):
        return {"carryOver": H.t(sub(k, 1)) - P if isz(k) else 0}
    return {"carryOver": H.t(sub(k, 1)) - (P + C * DT)}


def cos_expect(S):
    k, H, m = S.k, S.H, S.m
    j = sub(k, 1)

    def value(q):
        mu = real(q - H.t(j)) / real(H.t(k) - H.t(j))
        w = (1 - m.ufun("cos", mu * Z(PI))) / 2
        return H.v(j) * (1 - w) + H.v(k) * w
    return emitted([grid(S, H.t(k), value)])


# ---- hermite --------------------------------------------------------------------------------------------------------------
def cubic(y0, y1, y2, y3, mu):
    """The cubic through y1 and y2 whose tangents there are half the distance of the neighbours (tension 0, bias 0)."""
    m0, m1 = (y2 - y0) / 2, (y3 - y1) / 2
    mu2, mu3 = mu * mu, mu * mu * mu
    return (2 * mu3 - 3 * mu2 + 1) * y1 + (mu3 - 2 * mu2 + mu) * m0 + (mu3 - mu2) * m1 + (3 * mu2 - 2 * mu3) * y2


P2, C2 = z3.Int("p2!grid"), z3.Int("c2!grid")


def her_facts(S):
    k, H = S.k, S.H
    if not S.full:
        return
    if not isz(k):
        S.ctx.assume(P == H.t(0))
    else:
        S.ctx.assume(z3.And(0 <= P, P <= H.t(sub(k, 2)), H.t(sub(k, 2)) < P + DT))


def her_state(S, k):
    H, m = S.H, S.m
    if not S.full:
        return {"carryOver": 0}
    if same(k, S.k):
        return {"carryOver": H.t(sub(k, 2)) - P if isz(k) else 0}
    return {"carryOver": H.t(sub(k, 2)) - (P + C * DT)}


def line(H):
    """The least-squares line of the first four messages, times relative to the first one: value at 0 and slope."""
    xs = [real(H.t(i) - H.t(0)) for i in range(4)]
    ys = [H.v(i) for i in range(4)]
    sx, sy = sum(xs[1:], xs[0]), sum(ys[1:], ys[0])
    sxy, sxx = sum((x * y for x, y in zip(xs, ys)), z3.RealVal(0)), sum((x * x for x in xs), z3.RealVal(0))
    den = 4 * sxx - sx * sx
    return (sxx * sy - sxy * sx) / den, (4 * sxy - sx * sy) / den


def her_expect(S):
    k, H, m = S.k, S.H, S.m
    if isz(k):
        a, b, c, d = (sub(k, i) for i in (3, 2, 1, 0))
        f = lambda q: cubic(H.v(a), H.v(b), H.v(c), H.v(d), real(q - H.t(b)) / real(H.t(c) - H.t(b)))
        return emitted([grid(S, H.t(c), f)])
    # the fourth message: the first interval with the point before t0, then the second interval
    at0, slope = line(H)
    step = (H.t(3) - H.t(0)) / 3
    before = at0 - slope * real(step)

    def value(q):
        first = cubic(before, H.v(0), H.v(1), H.v(2), real(q - H.t(0)) / real(H.t(1) - H.t(0)))
        second = cubic(H.v(0), H.v(1), H.v(2), H.v(3), real(q - H.t(1)) / real(H.t(2) - H.t(1)))
        return z3.If(q <= H.t(1), first, second)
    return emitted([grid(S, H.t(2), value)])


def her_put(S, k):
    """From the fourth message on the point before t0 exists; its content must not matter any more."""
    if S.full and isz(k):
        m = S.m
        p = m.new(msg(S.ctx.fresh("before_t", "int"), S.ctx.fresh("before_v", "real")), "before")
        m.write(S.o.f("before"), Ptr(p))


def her_see(S, k, name):
    b = S.m.read(S.o.f("before"))
    if not isinstance(b, Ptr):
        raise Undecided("representation of before")
    S.ctx.oblige(f"{name}.before", (b.loc is not None) == S.full, "inv")


OPS = [
    Op("ConstantResampler", dt_args, window=lambda a: 1, state=const_state, facts=const_facts, expect=const_expect,
       increasing=True),
    Op("CosineResampler", dt_args, window=lambda a: 2, state=cos_state, facts=cos_facts, expect=cos_expect, increasing=True),
    Op("HermiteResampler", dt_args, window=lambda a: 4, state=her_state, facts=her_facts, expect=her_expect, increasing=True,
       own=("before",), put=her_put, see=her_see),
]


def p10():
    return ops.tasks(OPS)
