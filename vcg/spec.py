"""Common parts of the contracts: histories, objects, the contract of emit, comparison of states."""
import re
from fractions import Fraction
import z3
import cxxast as A
from cxxast import Unsupported, Undecided
from sym import *
from exe import Machine, Loc, BytesV, Rep, int_type, is_double, strip_cv
import exe
import loops


class Hist:
    """An infinite stream of messages: time t(i), value v(i); nothing else is known about it unless said so."""

    def __init__(self, sh, name, increasing=False):
        self.sh, self.name = sh, name
        self.tf = z3.Function(name + "t", z3.IntSort(), z3.IntSort())
        self.vf = z3.Function(name + "v", z3.IntSort(), z3.RealSort())
        self.increasing = increasing
        self.base = sh.base(name, self.msg)

    def t(self, i):
        return self.tf(Z(i))

    def v(self, i):
        return self.vf(Z(i))

    def msg(self, i):
        return Rec("Message", {"time": self.t(i), "value": self.v(i)})

    def facts(self, ctx):
        ctx.add_fact(Fact(self.name + ":t>=0", [self.name + "t"], lambda i: self.tf(i) >= 0))
        if self.increasing:
            ctx.add_fact(Fact(self.name + ":increasing", [self.name + "t"],
                              lambda i, j: z3.Implies(z3.And(i >= 0, i < j), self.tf(i) + (j - i) <= self.tf(j)), arity=2))

    def win(self, lo, n, kind="deque"):
        return Seq([Sym(self.base, lo, n)], kind)

    def psum(self, lo, n):
        return self.sh.sum_of(lambda j: self.v(add(lo, j)), n)


def msg(t, v):
    return Rec("Message", {"time": t, "value": to_real(v)})


# ---- the contract of emit, as seen by an operator ----------------------------------------------------------------------
class Emit:
    """Replaces the three overloads of emit by their contract: the messages leave through the ports, in order, and the
    returned program message stands for them and everything downstream (P14 proves the bodies against it)."""

    def __init__(self, m, oploc):
        self.m, self.op = m, oploc
        self.cell = m.new(MapV(), "ghost:emitted")
        self.ret = m.new(0, "ghost:tokens")

    def hooks(self):
        return {"Operator::emit": self.emit, "Operator::mergeOutput": self.merge}

    def put(self, port, seq):
        m = self.m
        v = m.read(self.cell)
        d = dict(v.d)
        d[port] = m.seq_concat(d.get(port, Seq()), seq)
        m.write(self.cell, MapV(d))

    def token(self):
        m = self.m
        k = m.read(self.ret)
        m.write(self.ret, k + 1)
        return PM(Seq([Elems([Opaque(f"emission{k}")])]))

    def emit(self, m, this, fn, args):
        if this != self.op:
            return NotImplemented
        vals = [m.read(a) if isinstance(a, Loc) else a for a in args]
        x = vals[0]
        ids = m.read(this.f("outputIds")).keys()
        if isinstance(x, MapV):
            if not x.d:
                return MapV()
            for p in x.keys():
                if p not in ids:
                    raise CppThrow("emit: unknown port")
                self.put(p, x.d[p])
            return self.token()
        ports = vals[1] if len(vals) > 1 else Seq()
        if isinstance(ports, tuple):
            ports = Seq([Elems(ports)])
        names = [p for s in ports.segs for p in s.xs] if ports.segs else ids
        seq = x if isinstance(x, Seq) else Seq([Elems([x])])
        if isinstance(x, Seq) and not x.segs:
            return MapV()
        for p in names:
            self.put(p, seq)
        return self.token()

    def merge(self, m, this, fn, args):
        out = args[0]
        a = m.read(out)
        b = m.read(args[1]) if isinstance(args[1], Loc) else args[1]
        if not (isinstance(a, PM) or isinstance(b, PM)):
            return NotImplemented
        if isinstance(a, MapV) and not a.d:
            a = PM()
        if isinstance(b, MapV) and not b.d:
            b = PM()
        if not (isinstance(a, PM) and isinstance(b, PM)):
            raise Unsupported("mergeOutput of different kinds")
        m.write(out, PM(m.seq_concat(a.seq, b.seq)))
        return None

    def emitted(self):
        return self.m.read(self.cell)

    def returned_ok(self, r):
        """The value executeData returns is exactly what emit returned (in order), empty when nothing was emitted."""
        r = self.m.read(r) if isinstance(r, Loc) else r
        k = self.m.read(self.ret)
        if isinstance(r, MapV):
            return not r.d and k == 0
        if isinstance(r, PM):
            return same(r.seq, Seq([Elems([Opaque(f"emission{i}") for i in range(k)])]))
        return False


# ---- equality of values as obligations ------------------------------------------------------------------------------------
def eqv(m, name, a, b, cat="post"):
    """Oblige a == b, structurally."""
    ctx = m.ctx
    if ctx.sh.only_safety and cat == "post" and name.startswith("emission"):
        return
    if a is b or same(a, b):
        ctx.oblige(name, True, cat)
        return
    if is_scalar(a) and is_scalar(b):
        if is_bool(a) or is_bool(b):
            ctx.oblige(name, eq(boolv(a), boolv(b)), cat)
        else:
            x, y = num2(a, b)
            ctx.oblige(name, Z(x) == Z(y), cat)
        return
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        ctx.oblige(name, False, cat, note="uninitialised")
        return
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.cls != b.cls or set(a.f) != set(b.f):
            ctx.oblige(name, False, cat, note=f"{a.cls} against {b.cls}")
            return
        for k in a.f:
            eqv(m, f"{name}.{k}", a.f[k], b.f[k], cat)
        return
    if isinstance(a, MapV) and isinstance(b, MapV):
        if set(a.d) != set(b.d):
            for k in set(a.d) ^ set(b.d):
                v = a.d.get(k, b.d.get(k))
                if isinstance(v, Seq) and name.startswith("emission"):
                    eqv(m, f"{name}[{k}]", a.d.get(k, Seq()), b.d.get(k, Seq()), cat)
                else:
                    ctx.oblige(name, False, cat, note=f"keys {sorted(a.d)} against {sorted(b.d)}")
                    return
        for k in set(a.d) & set(b.d):
            eqv(m, f"{name}[{k}]", a.d[k], b.d[k], cat)
        return
    if isinstance(a, Seq) and isinstance(b, Seq):
        na, nb = a.size(), b.size()
        ctx.oblige(f"{name}.size", eq(na, nb), cat)
        if not isz(na) and not isz(nb):
            for i in range(na):
                eqv(m, f"{name}[]", m.seq_at(a, i), m.seq_at(b, i), cat)
            return
        if ctx.choose(2) == 1:
            i = ctx.fresh("sk", "int")
            ctx.assume(i >= 0)
            ctx.assume(i < Z(na))
            if not isz(nb):
                ctx.assume(i < nb)
            if ctx.check([]) == "unsat":
                raise PathEnd()
            eqv(m, f"{name}[]", m.seq_at(a, i), m.seq_at(b, i), cat)
            raise PathEnd()
        return
    if isinstance(a, Opt) and isinstance(b, Opt):
        ctx.oblige(name + ".has", eq(a.has, b.has), cat)
        if a.has is not False and a.val is not None and b.val is not None and ctx.proves(boolv(a.has)):
            eqv(m, name + ".val", a.val, b.val, cat)
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.loc is None or b.loc is None:
            ctx.oblige(name, (a.loc is None) == (b.loc is None), cat)
            return
        eqv(m, name + "*", m.read(a.loc), m.read(b.loc), cat)
        return
    if isinstance(a, (str, SetV, It, Clo, Opaque)) and type(a) is type(b):
        ctx.oblige(name, same(a, b), cat, note=f"{a} against {b}")
        return
    if isinstance(a, tuple) and isinstance(b, tuple):
        ctx.oblige(name, same(Seq([Elems(a)]), Seq([Elems(b)])), cat)
        return
    if hasattr(a, "same") and type(a) is type(b):
        ctx.oblige(name, a.same(b), cat, note=f"{a} against {b}"[:400])
        return
    ctx.oblige(name, False, cat, note=f"{type(a).__name__} against {type(b).__name__}")


# ---- objects -----------------------------------------------------------------------------------------------------------------
def build(m, cls, args, pick=None):
    """Run the real constructor of a class."""
    C = m.P.classes.get(cls)
    if C is None:
        raise Unsupported(f"class {cls} not found")
    cand = [k for k in C.ctors if A.body(k) is not None or any(c.get("kind") == "CXXCtorInitializer" for c in k.get("inner", []))]
    cand = [k for k in cand if A.params(k) and len(A.params(k)) >= len(args) and not k.get("isImplicit")]
    cand = [k for k in cand if sum(1 for p in A.params(k) if not has_default(p)) <= len(args)]
    if pick is not None:
        cand = [k for k in cand if pick(k)]
    if not cand:
        raise Unsupported(f"no constructor of {cls} takes {len(args)} arguments")
    loc = m.new(m.raw_object(cls), "obj")
    m.construct_into(loc, cls, cand[0], args)
    return loc


def has_default(p):
    return any(c.get("kind") not in ("FullComment",) for c in p.get("inner", [])) or "init" in p


BASE_FIELDS = ("id", "dataInputs", "controlInputs", "outputIds", "outputs", "toProcess")


def field_snapshot(m, loc):
    return dict(m.read(loc).f)


def set_input(m, loc, port, seq, total, kind="dataInputs"):
    """Override the contents of one input buffer, keeping whatever else the constructor put there."""
    d = m.read(loc.f(kind))
    if not isinstance(d, MapV) or port not in d.d:
        raise Undecided(f"no port {port}")
    b = d.d[port]
    f = dict(b.f)
    if "data" not in f or "sum" not in f:
        raise Unsupported("representation of Input")
    f["data"], f["sum"] = seq, total
    dd = dict(d.d)
    dd[port] = Rec(b.cls, f)
    m.write(loc.f(kind), MapV(dd))


def deliver(m, loc, msg_, port, control=False):
    m.call_method(loc, "receiveControl" if control else "receiveData", [msg_, port])


def execute(m, loc, control=False):
    return m.call_method(loc, "executeControl" if control else "executeData", [])
