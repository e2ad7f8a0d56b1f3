"""Symbolic values, path contexts, quantified facts with finite instantiation, and the solver interface."""
import itertools, time
from fractions import Fraction
import z3
from cxxast import Unsupported, Undecided

z3.set_param("smt.random_seed", 0)


class CppThrow(Exception):
    def __init__(self, what=""):
        self.what = what


class PathEnd(Exception):
    """The path is infeasible or was cut after a failed obligation."""


class Restart(Exception):
    """A loop turned out to need another treatment: the task is started over."""


STATS = {"queries": 0, "time": 0.0, "unknown": 0}


# ---- scalars ----------------------------------------------------------------------------------------------------
def isz(x):
    return isinstance(x, z3.ExprRef)


def is_bool(x):
    return isinstance(x, bool) or (isz(x) and z3.is_bool(x))


def is_real(x):
    return isinstance(x, Fraction) or (isz(x) and x.sort() == z3.RealSort())


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and x.sort() == z3.IntSort())


def is_scalar(x):
    return isinstance(x, (bool, int, Fraction)) or isz(x)


def Z(x):
    if isz(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    raise Unsupported(f"not a scalar: {type(x).__name__}")


def to_real(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if z3.is_bool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if x.sort() == z3.IntSort():
        return z3.ToReal(x)
    return x


def to_int(x):
    if isinstance(x, bool):
        return int(x)
    if isz(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def num2(a, b):
    if is_bool(a):
        a = to_int(a)
    if is_bool(b):
        b = to_int(b)
    if is_real(a) or is_real(b):
        a, b = to_real(a), to_real(b)
    return a, b


def lift(x):
    """Back to a Python value when a z3 expression is a literal."""
    if isz(x):
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return x


def simp(x):
    if isz(x):
        return lift(z3.simplify(x))
    return x


def simp_som(x):
    if isz(x):
        return lift(z3.simplify(x, som=True, arith_lhs=False))
    return x


def add(a, b):
    a, b = num2(a, b)
    if not isz(a) and not isz(b):
        return a + b
    if not isz(a) and a == 0:
        return b
    if not isz(b) and b == 0:
        return a
    return simp(Z(a) + Z(b)) if is_int(a) else Z(a) + Z(b)


def sub(a, b):
    a, b = num2(a, b)
    if not isz(a) and not isz(b):
        return a - b
    if not isz(b) and b == 0:
        return a
    return simp(Z(a) - Z(b)) if is_int(a) else Z(a) - Z(b)


def mul(a, b):
    a, b = num2(a, b)
    if not isz(a) and not isz(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if not isz(x):
            if x == 0:
                return x
            if x == 1:
                return y
    return simp(Z(a) * Z(b)) if is_int(a) else Z(a) * Z(b)


def neg(a):
    return sub(0, a) if is_int(a) else sub(Fraction(0), a)


def _cmp(op):
    def f(a, b):
        a, b = num2(a, b)
        if not isz(a) and not isz(b):
            return op(a, b)
        return simp(op(Z(a), Z(b)))
    return f


lt, le, gt, ge = (_cmp(lambda a, b: a < b), _cmp(lambda a, b: a <= b), _cmp(lambda a, b: a > b),
                  _cmp(lambda a, b: a >= b))


def eq(a, b):
    if is_bool(a) and is_bool(b):
        if not isz(a) and not isz(b):
            return a == b
        return simp(Z(a) == Z(b))
    a, b = num2(a, b)
    if not isz(a) and not isz(b):
        return a == b
    return simp(Z(a) == Z(b))


def not_(a):
    if isinstance(a, bool):
        return not a
    return simp(z3.Not(a))


def and_(*xs):
    out = []
    for x in xs:
        x = lift(x) if isz(x) else bool(x)
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*xs):
    out = []
    for x in xs:
        x = lift(x) if isz(x) else bool(x)
        if x is True:
            return True
        if x is not False:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def implies(a, b):
    return or_(not_(a), b)


def boolv(x):
    """C++ conversion to bool."""
    if is_bool(x):
        return x
    if is_scalar(x):
        return not_(eq(x, 0))
    raise Unsupported(f"condition of type {type(x).__name__}")


# ---- values -------------------------------------------------------------------------------------------------------
class Rec:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __repr__(self):
        return f"{self.cls}{self.f}"


class Base:
    """An unbounded family of elements indexed by an integer."""
    _n = itertools.count()

    def __init__(self, name, fn):
        self.name, self.fn, self.cache = name, fn, {}

    def at(self, i):
        i = simp(i)
        k = i if not isz(i) else i.get_id()
        if k not in self.cache:
            self.cache[k] = (self.fn(i), i)
        return self.cache[k][0]

    def __repr__(self):
        return self.name


class Elems:
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = tuple(xs)

    @property
    def n(self):
        return len(self.xs)

    def __repr__(self):
        return repr(list(self.xs))


class Sym:
    """base[off], base[off+1], ..., base[off+n-1]"""
    __slots__ = ("base", "off", "n")

    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n

    def __repr__(self):
        return f"{self.base}[{self.off}..+{self.n}]"


class Seq:
    __slots__ = ("segs", "kind")

    def __init__(self, segs=(), kind="vector"):
        self.kind = kind
        out = []
        for s in segs:
            if isinstance(s, Elems):
                if not s.xs:
                    continue
                if out and isinstance(out[-1], Elems):
                    out[-1] = Elems(out[-1].xs + s.xs)
                    continue
            else:
                n = s.n if isz(s.n) else s.n
                if not isz(n) and n == 0:
                    continue
            out.append(s)
        self.segs = tuple(out)

    def size(self):
        n = 0
        for s in self.segs:
            n = add(n, s.n)
        return n

    def __repr__(self):
        return "Seq" + repr(list(self.segs))


class MapV:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = dict(d or {})

    def keys(self):
        return sorted(self.d)

    def __repr__(self):
        return "Map" + repr(self.d)


class SetV:
    __slots__ = ("s",)

    def __init__(self, s=()):
        self.s = frozenset(s)

    def keys(self):
        return sorted(self.s)

    def __repr__(self):
        return "Set" + repr(self.keys())


class Opt:
    __slots__ = ("has", "val")

    def __init__(self, has, val=None):
        self.has, self.val = has, val


class Ptr:
    """Pointer or smart pointer: a location, or loc None for nullptr."""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return f"Ptr{self.loc}"


class It:
    """Iterator: container location and key/index. kind: map | set | seq"""
    __slots__ = ("kind", "loc", "pos")

    def __init__(self, kind, loc, pos):
        self.kind, self.loc, self.pos = kind, loc, pos

    def __repr__(self):
        return f"It({self.kind},{self.loc},{self.pos})"


class Clo:
    __slots__ = ("node", "caps", "this")

    def __init__(self, node, caps, this):
        self.node, self.caps, self.this = node, caps, this


class Opaque:
    """A value the proof knows nothing about except its identity."""
    __slots__ = ("name", "info")

    def __init__(self, name, info=None):
        self.name, self.info = name, info

    def __repr__(self):
        return f"<{self.name}>"


class PM:
    """A program message as the ordered list of its contributions (see the contract of mergeOutput)."""
    __slots__ = ("seq",)

    def __init__(self, seq=None):
        self.seq = seq if seq is not None else Seq()

    def __repr__(self):
        return f"PM{self.seq}"


class Uninit:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "?"


def ite(c, a, b):
    """Merge two values of the same shape under a condition."""
    if a is b or c is True:
        return a
    if c is False:
        return b
    if is_scalar(a) and is_scalar(b):
        if is_bool(a) and is_bool(b):
            return simp(z3.If(c, Z(a), Z(b)))
        a, b = num2(a, b)
        if not isz(a) and not isz(b) and a == b:
            return a
        if isz(a) and isz(b) and a.eq(b):
            return a
        return simp(z3.If(c, Z(a), Z(b)))
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls:
        return Rec(a.cls, {k: ite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, str) and a == b:
        return a
    if isinstance(a, Uninit):
        return b
    if isinstance(b, Uninit):
        return a
    raise Unsupported(f"cannot merge {type(a).__name__} and {type(b).__name__}")


def same(a, b):
    """Structural equality without a solver (used for fast paths and shape comparison)."""
    if a is b:
        return True
    if is_scalar(a) and is_scalar(b):
        if isz(a) and isz(b):
            return a.sort() == b.sort() and z3.simplify(a).eq(z3.simplify(b))
        if isz(a) or isz(b):
            return False
        return type(a) == type(b) and a == b
    if type(a) != type(b):
        return False
    if isinstance(a, str):
        return a == b
    if isinstance(a, Rec):
        return a.cls == b.cls and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Elems):
        return len(a.xs) == len(b.xs) and all(same(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, Sym):
        return a.base is b.base and same(a.off, b.off) and same(a.n, b.n)
    if isinstance(a, Seq):
        return len(a.segs) == len(b.segs) and all(same(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, MapV):
        return a.d.keys() == b.d.keys() and all(same(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, SetV):
        return a.s == b.s
    if isinstance(a, Ptr):
        return a.loc == b.loc
    if isinstance(a, It):
        return a.kind == b.kind and a.loc == b.loc and (same(a.pos, b.pos) if is_scalar(a.pos) and is_scalar(b.pos)
                                                        else type(a.pos) == type(b.pos) and a.pos == b.pos)
    if isinstance(a, Opt):
        return same(a.has, b.has) and (a.has is False or same(a.val, b.val))
    if isinstance(a, PM):
        return same(a.seq, b.seq)
    if isinstance(a, Clo):
        return a.node is b.node
    if isinstance(a, Uninit):
        return True
    if isinstance(a, Opaque):
        return a.name == b.name
    if hasattr(a, "same"):
        return a.same(b)
    return False


# ---- terms --------------------------------------------------------------------------------------------------------
def subterms(e, seen, apps):
    """Collect applications of uninterpreted functions: apps[decl name] = {id: expr}; constants under the name ''."""
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_app(x):
            d = x.decl()
            n = x.num_args()
            if n:
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    apps.setdefault(d.name(), {})[i] = x
                for k in range(n):
                    todo.append(x.arg(k))
            elif d.kind() == z3.Z3_OP_UNINTERPRETED:
                apps.setdefault("", {})[i] = x


_APPS = {}       # id -> (expr, apps): every expression that was part of a query, kept alive
_ARG = {}        # id of an application -> its simplified first argument


def apps_of(e):
    i = e.get_id()
    r = _APPS.get(i)
    if r is None:
        apps = {}
        subterms(e, {}, apps)
        r = _APPS[i] = (e, apps)
    return r[1]


def collect_apps(es, apps):
    for e in es:
        for f, xs in apps_of(e).items():
            d = apps.get(f)
            if d is None:
                apps[f] = dict(xs)
            else:
                d.update(xs)


def arg0(x):
    i = x.get_id()
    r = _ARG.get(i)
    if r is None:
        r = _ARG[i] = (x, z3.simplify(x.arg(0)))
    return r[1]


class Fact:
    """forall indices in the terms that occur as argument of one of `fns`: inst(*terms).

    arity 1: instantiated at every such term; arity 2: at every ordered pair of different terms."""

    def __init__(self, name, fns, inst, arity=1, extra=()):
        self.name, self.fns, self.inst, self.arity, self.extra = name, fns, inst, arity, list(extra)
        self.cache = {}

    def made(self, *ts):
        k = tuple(t.get_id() for t in ts)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = (self.inst(*ts), ts)
        return r[0]


class LoopFact(Fact):
    """forall 0 <= j < n: body(j); j is solved from the arguments of the functions occurring in body."""

    def __init__(self, name, jvar, n, bodyexpr, extra=()):
        self.name, self.jvar, self.n, self.body, self.extra = name, jvar, n, bodyexpr, list(extra)
        self.patterns, self.cache, self.tcache = [], {}, {}
        seen, apps = {}, {}
        subterms(bodyexpr, seen, apps)
        for f, xs in apps.items():
            if not f:
                continue
            for x in xs.values():
                for ai in range(x.num_args()):
                    a = x.arg(ai)
                    if a.sort() != z3.IntSort():
                        continue
                    a0 = z3.simplify(z3.substitute(a, (jvar, z3.IntVal(0))))
                    c = z3.simplify(z3.substitute(a, (jvar, z3.IntVal(1))) - a0)
                    if z3.is_int_value(c) and abs(c.as_long()) == 1:
                        self.patterns.append((f, ai, a0, c.as_long()))
        uniq = {}
        for p in self.patterns:
            uniq[(p[0], p[1], p[2].get_id(), p[3])] = p
        self.patterns = list(uniq.values())

    def terms(self, apps):
        out = {}
        for t in self.extra:
            t = z3.simplify(Z(t))
            out[t.get_id()] = t
        for f, ai, a0, c in self.patterns:
            for i, x in apps.get(f, {}).items():
                k = (i, ai, a0.get_id(), c)
                r = self.tcache.get(k)
                if r is None:
                    r = self.tcache[k] = (z3.simplify(c * (x.arg(ai) - a0)), x)
                if len(out) < 40:
                    out[r[0].get_id()] = r[0]
        return list(out.values())

    def at(self, t):
        r = self.cache.get(t.get_id())
        if r is None:
            r = self.cache[t.get_id()] = (z3.Implies(z3.And(t >= 0, t < Z(self.n)), z3.substitute(self.body, (self.jvar, Z(t)))), t)
        return r[0]

    def resolved(self, n, e):
        return LoopFact(self.name, self.jvar, z3.simplify(z3.substitute(Z(self.n), (n, e))),
                        z3.simplify(z3.substitute(self.body, (n, e))),
                        [z3.simplify(z3.substitute(Z(x), (n, e))) for x in self.extra])


class SumReg:
    """Finite sums  S = sum_{0<=j<n} g(j)  as fresh constants with the lemmas that relate them."""

    def __init__(self):
        self.items = {}   # const name -> (const, gfn, n)
        self.k = itertools.count()

    def make(self, gfn, n, hint="S"):
        n = simp(n)
        if not isz(n) and n <= 0:
            return Fraction(0)
        j = z3.Int("__j")
        body = z3.simplify(Z(to_real(gfn(j))))
        key = (body.get_id(), n if not isz(n) else z3.simplify(n).get_id())
        for c, (const, g, m, k2, keep) in self.items.items():
            if k2 == key:
                return const
        name = f"{hint}!{next(self.k)}"
        const = z3.Real(name)
        self.items[name] = (const, gfn, n, key, (body, n))
        return const

    def lemmas(self, names):
        """Lemmas for the sums in `names`; each is an induction-valid statement with a Skolem index."""
        out = []
        it = [self.items[n] for n in names]
        for c, g, n, key, _ in it:
            n = Z(n)
            out.append(z3.Implies(n <= 0, c == 0))
            out.append(z3.Implies(n == 1, c == Z(to_real(g(0)))))
        for (a, b) in itertools.combinations(it, 2):
            for x, y in ((a, b), (b, a)):
                cx, gx, nx, _, _ = x
                cy, gy, ny, _, _ = y
                nx, ny = Z(nx), Z(ny)
                sk = z3.Int(f"sk_{cx}_{cy}")
                rng = z3.And(sk >= 0, sk < ny)
                if x is a:
                    out.append(z3.Or(nx != ny, cx == cy, z3.And(rng, Z(to_real(gx(sk))) != Z(to_real(gy(sk))))))
                    sr = z3.Int(f"skr_{cx}_{cy}")
                    out.append(z3.Or(nx != ny, cx == cy,
                                     z3.And(sr >= 0, sr < ny,
                                            Z(to_real(gx(sr))) != Z(to_real(gy(simp(ny - 1 - sr)))))))
                # x is one longer than y: peel the last or the first term
                s1 = z3.Int(f"skl_{cx}_{cy}")
                out.append(z3.Or(nx != ny + 1, ny < 0, cx == cy + Z(to_real(gx(simp(ny)))),
                                 z3.And(s1 >= 0, s1 < ny, Z(to_real(gx(s1))) != Z(to_real(gy(s1))))))
                # the same read backwards: the first n-1 terms of x, or its last n-1, are those of y in reverse
                s3 = z3.Int(f"skb_{cx}_{cy}")
                out.append(z3.Or(nx != ny + 1, ny < 0, cx == cy + Z(to_real(gx(simp(ny)))),
                                 z3.And(s3 >= 0, s3 < ny, Z(to_real(gx(simp(ny - 1 - s3)))) != Z(to_real(gy(s3))))))
                s4 = z3.Int(f"skc_{cx}_{cy}")
                out.append(z3.Or(nx != ny + 1, ny < 0, cx == cy + Z(to_real(gx(0))),
                                 z3.And(s4 >= 0, s4 < ny, Z(to_real(gx(simp(ny - s4)))) != Z(to_real(gy(s4))))))
                s2 = z3.Int(f"skf_{cx}_{cy}")
                out.append(z3.Or(nx != ny + 1, ny < 0, cx == cy + Z(to_real(gx(0))),
                                 z3.And(s2 >= 0, s2 < ny, Z(to_real(gx(simp(s2 + 1)))) != Z(to_real(gy(s2))))))
        return out


# ---- polynomial normal form, for equalities over the reals -----------------------------------------------------------
class PolyFail(Exception):
    pass


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2))
            r[m] = r.get(m, 0) + c1 * c2
    if len(r) > 4000:
        raise PolyFail
    return {m: c for m, c in r.items() if c}


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def ratnorm(e, atoms):
    """(numerator, denominator) polynomials over atoms; a polynomial is {sorted tuple of atom ids: coeff}"""
    e = Z(e) if not isz(e) else e
    one = {(): Fraction(1)}
    if z3.is_int_value(e):
        return ({(): Fraction(e.as_long())} if e.as_long() else {}), one
    if z3.is_rational_value(e):
        v = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return ({(): v} if v else {}), one
    k = e.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        n, d = ratnorm(e.arg(0), atoms)
        for c in e.children()[1:]:
            n2, d2 = ratnorm(c, atoms)
            s = 1 if k == z3.Z3_OP_ADD else -1
            if d == d2:
                n = _padd(n, n2, s)
            else:
                n, d = _padd(_pmul(n, d2), _pmul(n2, d), s), _pmul(d, d2)
        return n, d
    if k == z3.Z3_OP_UMINUS:
        n, d = ratnorm(e.arg(0), atoms)
        return {m: -c for m, c in n.items()}, d
    if k == z3.Z3_OP_MUL:
        n, d = one, one
        for c in e.children():
            n2, d2 = ratnorm(c, atoms)
            n, d = _pmul(n, n2), _pmul(d, d2)
        return n, d
    if k == z3.Z3_OP_DIV and e.sort() == z3.RealSort():
        n, d = ratnorm(e.arg(0), atoms)
        n2, d2 = ratnorm(e.arg(1), atoms)
        return _pmul(n, d2), _pmul(d, n2)
    if k == z3.Z3_OP_TO_REAL:
        return ratnorm(e.arg(0), atoms)
    if k == z3.Z3_OP_POWER and z3.is_int_value(e.arg(1)) and 0 <= e.arg(1).as_long() <= 6:
        n, d = one, one
        n1, d1 = ratnorm(e.arg(0), atoms)
        for _ in range(e.arg(1).as_long()):
            n, d = _pmul(n, n1), _pmul(d, d1)
        return n, d
    i = e.get_id()
    if i not in atoms:
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args() and any(a.sort() == z3.RealSort() for a in e.children()):
            # congruence: equal arguments (as rational functions) make equal values
            for j, o in list(atoms.items()):
                if j != i and z3.is_app(o) and o.decl().eq(e.decl()) and \
                        all(x.eq(y) or (x.sort() == z3.RealSort() and poly_equal(x, y)) for x, y in
                            zip(e.children(), o.children())):
                    return {(j,): Fraction(1)}, one
        atoms[i] = e
    return {(i,): Fraction(1)}, one


def poly_equal(a, b):
    """True when a == b is an identity of rational functions (denominators taken as non-zero)."""
    try:
        at = {}
        n1, d1 = ratnorm(Z(to_real(a)), at)
        n2, d2 = ratnorm(Z(to_real(b)), at)
        if not d1 or not d2:
            return False
        return _padd(_pmul(n1, d2), _pmul(n2, d1), -1) == {}
    except (PolyFail, Unsupported):
        return False


# ---- contexts -----------------------------------------------------------------------------------------------------------
class Shared:
    """What all paths of one verification task share."""
    current = None

    def __init__(self, name, timeout_ms=8000, budget_s=400):
        Shared.current = self
        self.name = name
        self.obl = {}          # name -> dict(status, ...)
        self.failed = []       # list of dict
        self.loopcache = {}
        self.bases = {}
        self.sums = SumReg()
        self.timeout_ms = timeout_ms
        self.deadline = time.time() + budget_s
        self.functions = set()
        self.assumptions = set()
        self.covers = {}
        self.trusted = set()
        self.unranked = set()
        self.multi = set()
        self.only_safety = False   # P20: what a step emits is decided by the property that owns the operator
        import sums
        self.sumreg = sums.Sums(self)

    def sum_of(self, g, n):
        return self.sumreg.sum(g, n)

    def sumreg_facts(self):
        if len(self.sumreg.prefix) != getattr(self, "_psn", -1):
            self._psn, self._psf = len(self.sumreg.prefix), self.sumreg.facts()
        return self._psf

    def base(self, name, fn):
        """One family of elements per name, so that every path of the task shares it."""
        if name not in self.bases:
            self.bases[name] = Base(name, fn)
        return self.bases[name]


def all_terms(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        todo.extend(x.children())


def nonlinear(e):
    for x in all_terms(e):
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
            if sum(1 for a in x.children() if not z3.is_rational_value(a) and not z3.is_int_value(a)) > 1:
                return True
    return False


def first_ite(e):
    """The condition of an if-then-else term, innermost first."""
    seen, todo, best = set(), [e], None
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            best = x.arg(0)
        todo.extend(x.children())
    while best is not None and z3.is_app(best) and (z3.is_and(best) or z3.is_or(best) or z3.is_not(best)):
        best = best.arg(0)
    return best


def _dk(d):
    return f"{d[1]}" if isinstance(d, tuple) else {True: 'T', False: 'F'}.get(d, d)


class Ctx:
    def __init__(self, shared, trace=(), parent=None, prefix=""):
        self.sh = shared
        self.trace = list(trace)
        self.sig, self.want = [], []      # what each decision was about; a replayed path has to meet the same questions
        self.dec = []
        self.alts = []
        self.prefix = prefix
        self.count = itertools.count()
        self.loopn = itertools.count()
        if parent is None:
            self.pc, self.facts = [], []
            self.quiet = 0
        else:
            self.pc, self.facts = list(parent.pc), list(parent.facts)
            self.quiet = parent.quiet
        self.live_from = len(self.trace)
        self._axcache = {}

    # names are deterministic along a path
    def fresh(self, hint, sort):
        n = f"{hint}!{self.prefix}{next(self.count)}.{''.join(_dk(d) for d in self.dec)}"
        return {"int": z3.Int, "real": z3.Real, "bool": z3.Bool}[sort](n)

    @property
    def live(self):
        return len(self.dec) >= self.live_from and not self.quiet

    def assume(self, c):
        c = lift(c) if isz(c) else c
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(c)

    def add_fact(self, f):
        self.facts.append(f)

    # ---- solver
    def axioms(self, goal_terms, rounds=2):
        apps = {}
        collect_apps(list(self.pc) + list(goal_terms), apps)
        out, done = [], set()
        for r in range(rounds):
            new = []
            args = {}
            for f in self.facts + self.sh.sumreg_facts():
                if isinstance(f, LoopFact):
                    for t in f.terms(apps):
                        key = (id(f), t.get_id())
                        if key not in done:
                            done.add(key)
                            new.append(f.at(t))
                    continue
                terms = {}
                for fn in f.fns:
                    if fn not in args:
                        args[fn] = {}
                        for x in apps.get(fn, {}).values():
                            a = arg0(x)
                            args[fn][a.get_id()] = a
                    terms.update(args[fn])
                for t in f.extra:
                    t = z3.simplify(Z(t))
                    terms[t.get_id()] = t
                ts = list(terms.values())[:24]
                for tt in ([(t,) for t in ts] if f.arity == 1 else itertools.permutations(ts, 2)):
                    key = (id(f),) + tuple(t.get_id() for t in tt)
                    if key not in done:
                        done.add(key)
                        x = f.made(*tt)
                        if x is not True:
                            new.append(Z(x))
            names = [str(x) for x in apps.get("", {}).values() if str(x) in self.sh.sums.items] if self.sh.sums.items else []
            key = ("sums", tuple(sorted(names)))
            if names and key not in done:
                done.add(key)
                new += self.sh.sums.lemmas(sorted(names))
            if not new:
                break
            out += new
            collect_apps(new, apps)
        return out

    def check(self, extra, timeout=None, want_model=False):
        """sat / unsat / unknown for pc and extra"""
        if time.time() > self.sh.deadline:
            raise Undecided("time budget of the task used up")
        extra = [Z(x) for x in extra]
        ax = self.axioms(extra)
        s = z3.Solver()
        s.set("timeout", int(timeout or self.sh.timeout_ms))
        cx, sv = s.ctx.ref(), s.solver
        for xs in (self.pc, ax, extra):
            for x in xs:
                z3.Z3_solver_assert(cx, sv, x.ast)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        STATS["queries"] += 1
        STATS["time"] += dt
        res = str(r)
        if res == "unknown":
            STATS["unknown"] += 1
        if want_model:
            return res, (s.model() if res == "sat" else None), dt, s
        return res

    def proves(self, c, timeout=2000):
        c = simp(c)
        if c is True:
            return True
        if c is False:
            return self.check([], timeout) == "unsat"
        return self.check([z3.Not(c)], timeout) == "unsat"

    def branch(self, c, hint=""):
        """Decide a condition; forks the path when both outcomes are possible."""
        c = simp(boolv(c))
        if isinstance(c, bool):
            return c
        i = len(self.dec)
        self.asked(c.hash())
        if i < len(self.trace):
            d = self.trace[i]
            if d in ("t", "f"):        # forced outcome, not recorded as assumption-bearing
                self.dec.append(d)
                return d == "t"
        else:
            t_ok = self.check([c], 3000) != "unsat"
            f_ok = True if not t_ok else self.check([z3.Not(c)], 3000) != "unsat"
            if not t_ok and not f_ok:
                raise PathEnd()
            if t_ok and f_ok:
                self.alts.append((self.dec + [False], list(self.sig)))
                d = True
            else:
                d = "t" if t_ok else "f"
                self.dec.append(d)
                return d == "t"
        self.dec.append(d)
        self.pc.append(c if d else z3.simplify(z3.Not(c)))
        return d

    def asked(self, q):
        """The question of the next decision. Another one than when the path was recorded: a solver time-out made the
        two runs differ, and the decisions recorded mean nothing."""
        i = len(self.sig)
        self.sig.append(q)
        if i < len(self.want) and self.want[i] != q:
            raise Restart()

    def choose(self, n, hint=""):
        """Non-deterministic choice 0..n-1 (demonic): every alternative is explored."""
        i = len(self.dec)
        self.asked(("choose", n))
        if i < len(self.trace):
            d = self.trace[i]
            self.dec.append(d)
            return d[1]
        for k in range(n - 1, 0, -1):
            self.alts.append((self.dec + [("c", k)], list(self.sig)))
        self.dec.append(("c", 0))
        return 0

    # ---- obligations
    def oblige(self, name, c, cat="post", fatal=True, note=""):
        """A verification condition. Recorded once per path; a failed one is kept with its model."""
        if self.sh.only_safety and cat == "post" and name.startswith("emission"):
            return True
        if self.quiet:
            if c is False:
                raise PathEnd()
            if c is not True:
                self.assume(c)
            return True
        cc = simp(c) if isz(c) else bool(c)
        rec = self.sh.obl.setdefault(name, {"cat": cat, "n": 0, "discharged": 0, "failed": 0, "undecided": 0,
                                            "trivial": 0, "time": 0.0})
        if self.live:
            rec["n"] += 1
        if cc is True:
            if self.live:
                rec["discharged"] += 1
                rec["trivial"] += 1
            return True
        if not self.live:
            if cc is False:
                raise PathEnd()
            self.assume(cc)
            return True
        if isz(cc) and self._poly(c):
            rec["discharged"] += 1
            rec["poly"] = rec.get("poly", 0) + 1
            return True
        if isz(cc) and nonlinear(cc):
            c2 = self.unify(c)
            if c2 is True or self._poly(c2) or self._poly(self.merge_atoms(c2)) or (isz(c2) and first_ite(c2) is not None and self.split(c2)):
                rec["discharged"] += 1
                rec["poly"] = rec.get("poly", 0) + 1
                self.pc.append(cc)
                return True
        goal = z3.Not(cc) if isz(cc) else z3.BoolVal(True)
        r, m, dt, s = self.check([goal], want_model=True)
        rec["time"] += dt
        if r == "unknown":
            if isz(cc) and self.split(c):
                r, m = "unsat", None
            else:
                r, m, dt = self.retry(goal)
                rec["time"] += dt
        if r == "sat" and self.only_by_sums(goal):
            r = "unknown"
        if r == "unsat":
            rec["discharged"] += 1
            rec.setdefault("max", 0)
            if isz(cc):
                self.pc.append(cc)
            else:
                raise PathEnd()
            return True
        if r == "unknown":
            rec["undecided"] += 1
            self.sh.failed.append({"name": name, "cat": cat, "status": "undecided", "note": note, "cond": str(cc)[:3000],
                                   "ctx": self, "model": None})
        else:
            rec["failed"] += 1
            self.sh.failed.append({"name": name, "cat": cat, "status": "failed", "note": note, "cond": str(cc)[:3000],
                                   "ctx": self, "model": m, "pc": [str(x)[:300] for x in self.pc[-12:]]})
        if cc is False:
            raise PathEnd()
        self.assume(cc)
        return False

    def only_by_sums(self, goal, top=8):
        """A counterexample in which sums are free numbers: does one remain when the sums of up to `top` terms are
        written out? The lemmas about sums are true but not complete, so one that disappears decides nothing."""
        apps = {}
        collect_apps(list(self.pc) + [goal], apps)
        more = []
        for x in apps.get("", {}).values():
            it = self.sh.sums.items.get(str(x)) if self.sh.sums.items else None
            if it is None:
                continue
            c, g, n = it[:3]
            alts, t = [], z3.RealVal(0)
            for v in range(top + 1):
                alts.append(z3.And(Z(n) == v if v else Z(n) <= 0, c == t))
                t = t + Z(to_real(g(v)))
            more.append(z3.Or(alts))
        for f, p in list({str(f): (f, p) for f, p in self.sh.sumreg.prefix.values()}.values()) if self.sh.sumreg else []:
            xs = list({x.arg(0).get_id(): x.arg(0) for x in apps.get(str(f), {}).values()}.values())
            for a, b in itertools.combinations(xs, 2):
                at = lambda i: z3.substitute(p, (z3.Int("__j"), i))
                alts, up, dn = [], f(b), f(b)
                for d in range(top + 1):
                    alts.append(z3.And(a - b == d, f(a) == up))
                    alts.append(z3.And(a - b == -d, f(a) == dn))
                    up = up + at(b + d)
                    dn = dn - at(b - d - 1)
                more.append(z3.Or(alts))
        if not more:
            return False
        r = self.check([goal] + more, want_model=True)[0]
        return r != "sat"

    def split(self, c, budget=None):
        """Prove c by cases over the conditions of its if-then-else terms."""
        budget = [40] if budget is None else budget
        budget[0] -= 1
        if budget[0] < 0 or not isz(c):
            return not isz(c) and bool(c)
        q = first_ite(c)
        if q is None:
            c = self.unify(c)
            return c is True or self._poly(c) or self._poly(self.merge_atoms(c)) or self.check([z3.Not(Z(c))], self.sh.timeout_ms)== "unsat"
        n = len(self.pc)
        try:
            for val in (True, False):
                self.pc.append(q if val else z3.Not(q))
                if self.check([], 3000) != "unsat":
                    if not self.split(simp(z3.substitute(c, (q, z3.BoolVal(val)))), budget):
                        return False
                del self.pc[n:]
        finally:
            del self.pc[n:]
        return True

    def unify(self, c):
        """c with the conditions the path decides resolved and equal arguments of one function written alike."""
        for _ in range(12):
            q = first_ite(c) if isz(c) else None
            if q is None:
                break
            if self.proves(q, 1000):
                c = simp(z3.substitute(c, (q, z3.BoolVal(True))))
            elif self.proves(z3.Not(q), 1000):
                c = simp(z3.substitute(c, (q, z3.BoolVal(False))))
            else:
                break
        if not isz(c):
            return c
        by = {}
        for x in all_terms(c):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and z3.is_int(x.arg(0)):
                by.setdefault(x.decl().name(), {})[x.arg(0).get_id()] = x
        reps, rep = [], {}
        sub = []
        for d, xs in by.items():
            for x in xs.values():
                a = x.arg(0)
                if a.get_id() not in rep:
                    rep[a.get_id()] = a
                    for r in reps:
                        e = simp(a == r)
                        if e is True or (e is not False and self.proves(a == r, 1000)):
                            rep[a.get_id()] = r
                            break
                    else:
                        reps.append(a)
                r = rep[a.get_id()]
                if not r.eq(a):
                    sub.append((x, x.decl()(r)))
        return z3.substitute(c, *sub) if sub else c

    def merge_atoms(self, c):
        """c with integer unknowns that are equal on this path written alike (as reals)."""
        if not isz(c) or not z3.is_eq(c) or c.arg(0).sort() != z3.RealSort():
            return c
        atoms = {}
        for x in all_terms(c):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
                a = x.arg(0)
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    atoms[a.get_id()] = a
        xs = list(atoms.values())
        if not 2 <= len(xs) <= 9:
            return c
        reps, sub = [], []
        s = self.model_values(xs)
        for a in xs:
            for r in reps:
                if (s is None or s[a.get_id()] == s[r.get_id()]) and self.proves(a == r, 1000):
                    sub.append((a, r))
                    break
            else:
                reps.append(a)
        return z3.substitute(c, *sub) if sub else c

    def model_values(self, xs):
        """Values of integer terms in some state of this path (different values: the terms are not equal)."""
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*[Z(x) for x in self.pc if not nonlinear(Z(x))])
        if s.check() != z3.sat:
            return None
        m = s.model()
        r = {x.get_id(): m.eval(x, model_completion=True) for x in xs}
        return {k: v.as_long() if z3.is_int_value(v) else k for k, v in r.items()}

    def retry(self, goal):
        t = time.time()
        ax = self.axioms([goal], rounds=3)
        for tac in (("simplify", "propagate-values", "solve-eqs", "smt"), ("simplify", "purify-arith", "smt"),):
            try:
                s = z3.Then(*tac).solver()
                s.set("timeout", self.sh.timeout_ms)
                s.add(*[Z(x) for x in self.pc], *ax, goal)
                r = s.check()
                STATS["queries"] += 1
                if r == z3.unsat:
                    return "unsat", None, time.time() - t
                if r == z3.sat:
                    return "sat", s.model(), time.time() - t
            except z3.Z3Exception:
                pass
        return "unknown", None, time.time() - t

    def _poly(self, c):
        """Equalities that are identities of rational functions need no solver."""
        if not isz(c) or not z3.is_eq(c):
            return False
        a, b = c.arg(0), c.arg(1)
        if a.sort() != z3.RealSort():
            return False
        if poly_equal(a, b):
            return True
        a, b = self.sh.sumreg.unfold([a, b])
        return poly_equal(a, b)


def explore(shared, run, base=None, prefix="", max_paths=400):
    """All paths of run(ctx); returns the list of (ctx, result)."""
    if base is None:
        obl, failed = {k: dict(v) for k, v in shared.obl.items()}, list(shared.failed)
        for _ in range(6):
            try:
                return explore1(shared, run, base, prefix, max_paths)
            except Restart:
                shared.obl, shared.failed, shared.loopcache = {k: dict(v) for k, v in obl.items()}, list(failed), {}
        raise Undecided("the paths of the function do not settle")
    return explore1(shared, run, base, prefix, max_paths)


def explore1(shared, run, base=None, prefix="", max_paths=400):
    out, todo, n = [], [([], [])], 0
    while todo:
        tr, sig = todo.pop()
        n += 1
        if n > max_paths:
            raise Undecided(f"more than {max_paths} paths")
        c = Ctx(shared, tr, base, prefix)
        c.want = sig
        try:
            r = run(c)
            out.append((c, r))
        except PathEnd:
            pass
        todo.extend(c.alts)
        c.alts = []
    return out
