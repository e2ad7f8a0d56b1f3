"""P11: the function operator.

The points are an arbitrary finite list with distinct abscissas (px strictly increasing once sorted); std::sort is replaced by its
contract: the range becomes the sorted arrangement of the same elements."""
from spec import *
import ops
from ops import Op, one, const_fn

N = z3.Int("N")


def pair(a, b):
    return Rec("pair", {"first": a, "second": b})


def xy():
    return const_fn("px"), const_fn("py")


def points(sh, name="P"):
    px, py = xy() if name == "P" else (const_fn("lx"), const_fn("ly"))
    return Seq([Sym(sh.base(name, lambda i: pair(px(Z(i)), py(Z(i)))), 0, N)], "vector")


def sort_hook(m, a, b):
    s = m.read(a.loc)
    if a.loc != b.loc or not (same(a.pos, 0) and same(b.pos, s.size())):
        raise Unsupported("sort of a part of a sequence")
    eqv(m, "std::sort is given the points", s, points(m.ctx.sh, "L"), "pre")
    m.write(a.loc, points(m.ctx.sh, "P"))
    m.ctx.sh.trusted.add("std::sort arranges the elements in increasing order")


def args(kind):
    def a(ctx, sh):
        ctx.assume(N >= 2)
        px, py = xy()
        ctx.add_fact(Fact("sorted, distinct abscissas", ["px"],
                          lambda i, j: z3.Implies(z3.And(i < j, 0 <= i, j < N), px(i) < px(j)), arity=2))
        return [points(sh, "L"), kind] if kind else [points(sh, "L")]
    return a


def segment(S):
    """The segment of x: the one containing it, or the first or last one outside the range."""
    s = z3.Int("seg")
    px, py = xy()
    x = S.H.v(S.k)
    S.ctx.assume(z3.And(0 <= s, s <= N - 2, z3.Or(s == 0, px(s) <= x), z3.Or(s == N - 2, x < px(s + 1))))
    return s, x, px, py


def lin(S):
    s, x, px, py = segment(S)
    y = py(s) + (py(s + 1) - py(s)) * (x - px(s)) / (px(s + 1) - px(s))
    return value(S, y)


def value(S, y):
    return one("o1", msg(S.H.t(S.k), y))


def her(S):
    s, x, px, py = segment(S)
    h = px(s + 1) - px(s)
    mu = (x - px(s)) / h
    sl = lambda a, b: (py(b) - py(a)) / (px(b) - px(a))
    m0 = z3.If(s == 0, sl(s, s + 1), sl(s - 1, s + 1))
    m1 = z3.If(s == N - 2, sl(s, s + 1), sl(s, s + 2))
    mu2, mu3 = mu * mu, mu * mu * mu
    y = (2 * mu3 - 3 * mu2 + 1) * py(s) + (mu3 - 2 * mu2 + mu) * h * m0 + (3 * mu2 - 2 * mu3) * py(s + 1) + (mu3 - mu2) * h * m1
    return value(S, y)


def at_point(S):
    """x is the abscissa of the point number i: the value is its ordinate."""
    i = z3.Int("i!pt")
    px, py = xy()
    return value(S, py(i))


def at_facts(S):
    i = z3.Int("i!pt")
    px, py = xy()
    S.ctx.assume(z3.And(0 <= i, i < N, S.H.v(S.k) == px(i)))


OPS = [
    Op("Function", args("linear"), expect=lin, name="Function.linear"),
    Op("Function", args("hermite"), expect=her, name="Function.hermite"),
    Op("Function", args("linear"), expect=at_point, facts=at_facts, name="Function.linear.points"),
    Op("Function", args("hermite"), expect=at_point, facts=at_facts, name="Function.hermite.points"),
]
for o in OPS:
    o.hooks = {"sort": sort_hook}


def p11():
    return ops.tasks(OPS)
