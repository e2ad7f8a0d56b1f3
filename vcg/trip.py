"""P19: operators to JSON and back, through the registry of the factory.

For every registered type and any parameters: the text written has the type, the id and every parameter under its documented
name; reading a text with those members yields exactly the object the constructor makes of them, also when members with a
documented default are left out; reading what was written yields an object whose members all equal those of the first."""
import cxxast as A
import func, saved
import jsonv
from exe import BytesV, TaintStr
from jsonv import JsonV, JText, text_for, wrap
from spec import *
from ops import const_fn
from program import plain

U64 = 2 ** 64 - 1
IDS = ["op", "", "a long id: ü 1"]


def pos(ctx, name, hi=U64):
    x = z3.Int(name)
    ctx.assume(z3.And(x >= 1, x <= hi))
    return x


def none(ctx, sh, m):
    return [], {}, {}


def size(n="n", lo=1, hi=U64):
    def f(ctx, sh, m):
        x = z3.Int("par_" + n)
        ctx.assume(z3.And(x >= lo, x <= hi))
        return [x], {n: x}, {}
    return f


def ports(n, default=None):
    def f(ctx, sh, m):
        return [n], {"numPorts": n}, ({"numPorts": default} if default == n else {})
    return f


def real(default=None):
    def f(ctx, sh, m):
        x = z3.Real("par_value")
        if default is not None and ctx.choose(2) == 1:
            return [Fraction(default)], {"value": Fraction(default)}, {"value": Fraction(default)}
        return [x], {"value": x}, {}
    return f


def coeff(lo):
    def f(ctx, sh, m):
        n = z3.Int("ncoef")
        ctx.assume(n >= lo)
        c = const_fn("coef")
        s = Seq([Sym(sh.base("coef", lambda i: c(Z(i))), 0, n)], "vector")
        return [s], {"coeff": s}, {}
    return f


def fixed_coeff(ctx, sh, m):
    n = (2, 3, 11)[ctx.choose(3)]
    s = Seq([Elems([z3.Real(f"c{i}") for i in range(n)])], "vector")
    return [s], {"coeff": s}, {}


def shift(ctx, sh, m):
    """dt and times; left out: 1 and 1."""
    dt, times = pos(ctx, "par_dt"), z3.Int("par_times")
    ctx.assume(z3.And(times >= -2 ** 31, times < 2 ** 31))
    c = ctx.choose(4)
    d = {}
    if c & 1:
        dt = d["dt"] = 1
    if c & 2:
        times = d["times"] = 1
    return [dt, times], {"dt": dt, "times": times}, d


def flag(ctx, sh, m):
    if ctx.choose(2) == 1:
        return [True], {"useOldestTime": True}, {"useOldestTime": True}
    x = z3.Bool("par_flag")
    return [x], {"useOldestTime": x}, {}


def points(ctx, sh, m):
    kind = ("linear", "hermite")[ctx.choose(2)]
    func.args(kind)(ctx, sh)

    calls = []

    def sort(m_, a, b):
        """Writing sorts once and reading back sorts what is sorted already; reading sorts the list as it was given."""
        calls.append(0)
        x = m.read(a.loc)
        if a.loc != b.loc or not (same(a.pos, 0) and same(b.pos, x.size())):
            raise Unsupported("sort of a part of a sequence")
        again = m.rewriting and len(calls) > 1
        eqv(m, "the points of the operator" + (", read back" if again else ""), x, func.points(sh, "P" if again else "L"))
        m.write(a.loc, func.points(sh, "P"))
        sh.trusted.add("std::sort arranges the elements in increasing order")
    m.hooks["sort"] = sort
    px, py = func.xy()
    js = JsonV("arr", Seq([Sym(sh.base("jpoints", lambda i: JsonV("arr", Seq([Elems([px(Z(i)), py(Z(i))])]))), 0, func.N)]))
    lx, ly = const_fn("lx"), const_fn("ly")
    jl = JsonV("arr", Seq([Sym(sh.base("jlist", lambda i: JsonV("arr", Seq([Elems([lx(Z(i)), ly(Z(i))])]))), 0, func.N)]))
    return [func.points(sh, "L"), kind], {"points": (js, jl), "interpolation": kind}, ({"interpolation": kind} if kind == "linear" else {})


TYPES = {
    "CosineResampler": [size("dt")], "HermiteResampler": [size("dt")], "ConstantResampler": [size("interval")],
    "MovingAverage": [size()], "StandardDeviation": [size()], "PeakDetector": [size()], "RelativeStrengthIndex": [size("n", 1, U64 - 1)],
    "FiniteImpulseResponse": [coeff(1)], "AutoRegressive": [coeff(1)], "Linear": [fixed_coeff],
    "Input": [ports(1, 1), ports(2), ports(11)], "Output": [ports(1, 1), ports(2), ports(11)],
    "Demultiplexer": [ports(1, 1), ports(2), ports(11)], "Join": [ports(2, 2), ports(3), ports(11)],
    **{k: [none] for k in "Minus And Or Division Multiplication Plus CumulativeSum Count Identity GreaterThanStream LessThanStream".split()},
    **{k: [real()] for k in "GreaterThan LessThan EqualTo Scale Constant Add Power".split()},
    "Variable": [real(0)], "Difference": [flag], "TimeShift": [shift], "Function": [points],
}


def registry(m):
    """The factory is constructed: its types are registered."""
    o = m.new(m.raw_object("FactoryOp"), "factory")
    C = m.P.classes["FactoryOp"]
    k = [c for c in C.ctors if not A.params(c)]
    m.construct_into(o, "FactoryOp", k[0], [])
    return o


def method(P, name):
    x = [k for k in P.classes["FactoryOp"].methods if k.get("name") == name]
    if not x:
        raise Undecided(f"FactoryOp::{name} not found")
    return x[0]


def write_op(m, o):
    r = m.invoke("FactoryOp", method(m.P, "writeOp"), None, [m.new(Ptr(o), "op")])
    return m.read(r) if isinstance(r, Loc) else r


def read_op(m, text):
    r = m.invoke("FactoryOp", method(m.P, "readOp"), None, [m.new(text, "text")])
    r = m.read(r) if isinstance(r, Loc) else r
    if not isinstance(r, Ptr) or r.loc is None:
        raise Undecided("readOp returns no operator")
    return r.loc


def members(js, which):
    return {k: wrap(v[which] if isinstance(v, tuple) else v) for k, v in js.items()}


def jeq(m, name, a, b):
    """Two JSON values: the same kind, and the same value."""
    if a.kind != b.kind:
        m.ctx.oblige(name, False, "post", note=f"{a} for {b}"[:200])
    elif a.kind == "obj":
        m.ctx.oblige(name, sorted(a.v) == sorted(b.v), "post", note=f"{a} for {b}"[:200])
        for k in a.v:
            if k in b.v:
                jeq(m, name, a.v[k], b.v[k])
    elif a.kind == "arr":
        eqv(m, name, unwrap(m, a.v), unwrap(m, b.v))
    elif a.kind != "null":
        eqv(m, name, a.v, b.v)


def unwrap(m, s):
    """An array of arrays as a sequence of sequences."""
    def f(x):
        return unwrap(m, x.v) if isinstance(x, JsonV) and x.kind == "arr" else unwrap(m, x) if isinstance(x, Seq) else x.v if isinstance(x, JsonV) else x
    if all(isinstance(g, Elems) for g in s.segs):
        return Seq([Elems([f(x) for x in g.xs]) for g in s.segs], "vector")
    return Seq([Elems([f(x) for x in g.xs]) if isinstance(g, Elems) else
                Sym(Base(g.base.name + "'", lambda i, g=g: f(g.base.at(i))), g.off, g.n) for g in s.segs], "vector")


def t_trip(cls, params, what):
    def run(sh, P):
        def go(ctx):
            m = Machine(P, ctx)
            m.rewriting = what == "write"
            args, js, dflt = params(ctx, sh, m)
            i = IDS[ctx.choose(len(IDS)) if not js else 0]
            try:
                registry(m)
                o = build(m, cls, [i] + list(args))
            except CppThrow as e:
                ctx.oblige("the factory and the operator are constructed", False, "safety", note=e.what)
                return
            want = saved.deep(m, o)
            full = {"type": wrap(cls), "id": wrap(i)}
            try:
                if what == "read":
                    text = text_for(JsonV("obj", {**full, **members(js, 1)}))
                    r = read_op(m, text)
                    check(m, cls, "read", r, want)
                    for k in subsets(dflt):
                        part = {a: v for a, v in members(js, 1).items() if a not in k}
                        r = read_op(m, text_for(JsonV("obj", {**full, **part})))
                        check(m, cls, "left out: " + ", ".join(k), r, want)
                else:
                    fill(m, ctx, sh, o)
                    before = saved.deep(m, o)
                    t = write_op(m, o)
                    for k in before:
                        eqv(m, f"writing leaves {k}", saved.deep(m, o)[k], before[k])
                    if not isinstance(t, JText) or t.json.kind != "obj":
                        raise Undecided("writeOp returns no text of a JSON object")
                    for k, v in {**full, **members(js, 0)}.items():
                        ctx.oblige("every parameter is written", k in t.json.v, "post", note=f"no {k} in {sorted(t.json.v)}")
                        if k in t.json.v:
                            jeq(m, f"{k} as written", t.json.v[k], v)
                    r = read_op(m, t)
                    check(m, cls, "read back", r, want)
            except CppThrow as e:
                ctx.oblige("no error raised", False, "safety", note=e.what)
        explore(sh, go)
    run.kind = "factory"
    return run


def subsets(d):
    ks = sorted(d)
    return [[k for j, k in enumerate(ks) if b >> j & 1] for b in range(1, 1 << len(ks))]


def fill(m, ctx, sh, o):
    """Whatever the operator has received so far does not matter: its buffers are arbitrary."""
    f = m.read(o).f
    for k in ("dataInputs", "controlInputs"):
        for j, p in enumerate(list(f[k].d)):
            n = z3.Int(f"len_{k[0]}_{p}")
            ctx.assume(n >= 0)
            m.write(o.f(k).x("m", p).f("data"), Hist(sh, f"{k[0]}_{p}").win(0, n))
            m.write(o.f(k).x("m", p).f("sum"), z3.Real(f"sum_{k[0]}_{p}"))


def check(m, cls, name, r, want):
    got = m.read(r)
    ok = isinstance(got, Rec) and got.cls == cls
    m.ctx.oblige(f"{name}: an operator of the same type", ok, "post", note=str(got)[:100])
    if ok:
        saved.same_state(m, name, want, saved.deep(m, r), cls, ())


def t_registry(sh, P):
    def go(ctx):
        m = Machine(P, ctx)
        registry(m)
        reg = m.invoke("FactoryOp", method(P, "op_registry"), None, [])
        r = m.read(reg) if isinstance(reg, Loc) else reg
        if not isinstance(r, MapV):
            raise Undecided("representation of the registry")
        for t in [*TYPES, "Pipeline"]:
            ctx.oblige("every documented type is registered", t in r.d, "post", note=t)
        for t in r.d:
            if t not in TYPES and t != "Pipeline":
                raise Undecided(f"no contract for the type {t}")
        c = ctx.choose(3)
        bad = [JsonV("obj", {"type": wrap("NoSuchType"), "id": wrap("x")}), JsonV("obj", {"id": wrap("x")}),
               JsonV("obj", {"type": JsonV("num", 3), "id": wrap("x")})][c]
        err = False
        try:
            m.invoke("FactoryOp", method(P, "readOp"), None, [m.new(text_for(bad), "text")])
        except CppThrow:
            err = True
        ctx.oblige("an unknown type is an error", err, "post")
        now = m.read(m.invoke("FactoryOp", method(P, "op_registry"), None, []))
        ctx.oblige("the registry stays", now.keys() == r.keys() and all(same(now.d[k], r.d[k]) for k in r.d), "post")
    explore(sh, go)


t_registry.kind = "factory"


def t_pipeline(sh, P):
    """A pipeline: its program goes through unchanged (the constructor is under contract elsewhere)."""
    def go(ctx):
        m = Machine(P, ctx)
        prog = JsonV("obj", {"operators": Opaque("operators"), "connections": Opaque("connections")})
        made = []

        def make(m_, ctor_type, argn):
            a = [plain(m, m.ev(x)) for x in argn]
            if len(a) == 1 and isinstance(a[0], Rec) and a[0].cls == "Pipeline":
                return a[0]
            if len(a) != 2:
                return NotImplemented
            made.append(a)
            r = m.raw_object("Pipeline")
            loc = m.new(r, "pipeline")
            m.default_ctor(loc, "Pipeline")
            m.write(loc.f("id"), a[0])
            m.write(loc.f("json_prog"), a[1])
            return m.store.pop(loc.cell)
        m.hooks["construct:Pipeline"] = make
        registry(m)
        full = JsonV("obj", {"type": wrap("Pipeline"), "id": wrap("p"), "prog": prog})
        try:
            r = read_op(m, text_for(full))
            good = len(made) == 1 and made[0][0] == "p" and isinstance(made[0][1], JText) and same(made[0][1].json, prog)
            ctx.oblige("made of the id and the text of the program", good, "post", note=str(made)[:200])
            x = m.read(r)
            good = isinstance(x, Rec) and x.cls == "Pipeline" and x.f["id"] == "p" and isinstance(x.f["json_prog"], JText) and same(x.f["json_prog"].json, prog)
            ctx.oblige("the pipeline read", good, "post", note=str(x)[:200])
            t = write_op(m, r)
            if not isinstance(t, JText) or t.json.kind != "obj":
                raise Undecided("writeOp returns no text of a JSON object")
            for k, v in full.v.items():
                ctx.oblige(f"{k} is written", k in t.json.v and same(t.json.v[k], v), "post", note=str(t.json.v)[:200])
        except CppThrow as e:
            ctx.oblige("no error raised", False, "safety", note=e.what)
    explore(sh, go)


t_pipeline.kind = "factory"


def p19():
    out = [("FactoryOp.registry", t_registry), ("Pipeline.json", t_pipeline)]
    for c, ps in TYPES.items():
        for j, p in enumerate(ps):
            nm = c + (f"({(1, 2, 11)[j]})" if len(ps) > 1 and c != "Join" else f"({(2, 3, 11)[j]})" if len(ps) > 1 else "")
            out += [(f"{nm}.write", t_trip(c, p, "write")), (f"{nm}.read", t_trip(c, p, "read"))]
    return out
