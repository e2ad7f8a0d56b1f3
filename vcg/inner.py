"""P18: Pipeline and Composite.

Pipeline: with the port tables the constructor makes (its own contract: inner ports nobody is connected to, in name order,
named i1, i2 ... and o1, o2 ...), receiveData hands the message to the inner operator port behind the named input;
executeData runs the inner operators that received something, once per port, in port order, and emits through o_k what the
inner port behind o_k reported, in order. The inner operators are unknown: what they answer is arbitrary.
Composite: everything on its ports goes to its input operator, connections from it start at its output operator."""
import saved as saved_m
from exe import BytesIt, BytesV
from spec import *

SIZE_MAX = 2 ** 64 - 1


def batchof(sh, ctx, name):
    n = z3.Int("n" + name)
    ctx.assume(n >= 0)
    return Hist(sh, name).win(0, n, "vector")


def blank(m, cls):
    """An object of the class with an id and otherwise what its fields start with."""
    f = {}
    for k, fd in m.P.all_fields(cls):
        f[fd["name"]] = m.default(norm_type(fd["type"]))
    f["id"] = "op"
    return m.new(Rec(cls, f), cls)


from cxxast import norm_type


def pipeline(m, ins, outs):
    """A pipeline with inner input ports ins and inner output ports outs (keys 'id:port')."""
    o = blank(m, "Pipeline")
    ops = {k.split(":")[0] for k in list(ins) + list(outs)}
    inner = {i: Opaque("inner", {"id": i}) for i in ops}
    m.write(o.f("inputs"), MapV({k: inner[k.split(":")[0]] for k in ins}))
    m.write(o.f("outputs"), MapV({k: inner[k.split(":")[0]] for k in outs}))
    pm = {f"i{n + 1}": k for n, k in enumerate(sorted(ins))}
    pm.update({k: f"o{n + 1}" for n, k in enumerate(sorted(outs))})
    m.write(o.f("portsMap"), MapV(pm))
    m.write(o.f("outputIds"), SetV([f"o{n + 1}" for n in range(len(outs))]))
    m.write(o.f("dataInputs"), MapV({f"i{n + 1}": Opaque("unused input") for n in range(len(ins))}))
    return o


SHAPES = [(["a:i1"], ["a:o1"]), (["a:i1", "a:i2"], ["b:o1"]), (["a:i1", "b:i1", "b:i2"], ["a:o1", "a:o2", "c:o1"]),
          ([f"m{k:02d}:i1" for k in range(11)], ["m00:o1"])]


def t_receive(sh, P):
    def go(ctx):
        m = Machine(P, ctx)
        ins, outs = SHAPES[ctx.choose(len(SHAPES))]
        o = pipeline(m, ins, outs)
        got = []

        def receive(m_, op, args, n):
            a = [m.read(x) if isinstance(x, Loc) else x for x in args]
            got.append((op.info["id"], a[0], a[1]))
        m.hooks["opaque:receiveData"] = receive
        was = [[], [sorted(ins)[-1]], list(ins)][ctx.choose(3)]
        m.write(o.f("toProcess"), SetV(was))
        names = [f"i{k + 1}" for k in range(len(ins))] + ["", "zz", "a:i1", "o1"]
        port = names[ctx.choose(len(names))]
        x = msg(z3.Int("mt"), z3.Real("mv"))
        before = field_snapshot(m, o)
        err = False
        try:
            m.call_method(o, "receiveData", [x, port])
        except CppThrow:
            err = True
        good = port[:1] == "i" or (port == "" and len(ins) == 1)
        if not good and port not in ("",) and not err:
            # a name that is not a port of the pipeline: nothing is said of how it fails
            ctx.oblige("only ports of the pipeline are served", not got or port in ("a:i1", "o1"), "post")
            return
        ctx.oblige("an error exactly for a port that is not there", err == (not good), "post")
        if err:
            ctx.oblige("nothing is delivered", not got, "post")
            return
        key = sorted(ins)[int(port[1:]) - 1 if port else 0]
        i, p = key.split(":")
        ctx.oblige("delivered once, to the inner port behind the input", [(a, c) for a, _, c in got] == [(i, p)], "post",
                   note=f"{[(a, c) for a, _, c in got]} for {key}")
        for _, y, _ in got:
            eqv(m, "the message", y, x)
        eqv(m, "what is to be processed", m.read(o.f("toProcess")), SetV(sorted(set(was) | {key})))
        for k, v in m.read(o).f.items():
            if k != "toProcess":
                ctx.oblige(f"{k} stays", same(v, before[k]), "post")
    explore(sh, go, max_paths=2000)


def answers(sh, ctx, k, outs):
    """Everything an inner operator may return: what was emitted inside, under operator and port."""
    c = ctx.choose(4)
    first = outs[0].split(":")
    last = outs[-1].split(":")
    n = f"r{k}"
    if c == 0:
        return {}
    if c == 1:
        return {first[0]: {first[1]: batchof(sh, ctx, n + "a")}}
    if c == 2:
        r = {first[0]: {first[1]: batchof(sh, ctx, n + "a")}}
        r.setdefault(last[0], {})[last[1]] = batchof(sh, ctx, n + "b")
        r.setdefault("zz", {})[last[1]] = batchof(sh, ctx, n + "c")
        return r
    return {"zz": {"o1": batchof(sh, ctx, n + "a")}, last[0]: {"zz": batchof(sh, ctx, n + "b"), last[1]: batchof(sh, ctx, n + "d")}}


def t_execute(sh, P):
    def go(ctx):
        m = Machine(P, ctx)
        ins, outs = SHAPES[ctx.choose(3)]
        o = pipeline(m, ins, outs)
        E = Emit(m, o)
        m.hooks.update(E.hooks())
        todo = [k for k in sorted(ins) if ctx.choose(2) == 1]
        m.write(o.f("toProcess"), SetV(todo))
        ran, ans = [], []
        fails = ctx.choose(len(todo) + 1) - 1   # which of the inner operators raises an error, if any

        def execute(m_, op, args, n):
            if len(ran) == fails:
                ran.append(op.info["id"])
                raise CppThrow("inner error")
            a = answers(sh, ctx, len(ran), outs)
            ran.append(op.info["id"])
            ans.append(a)
            return MapV({i: MapV(d) for i, d in a.items()})
        m.hooks["opaque:executeData"] = execute
        before = field_snapshot(m, o)
        try:
            r = m.call_method(o, "executeData", [])
        except CppThrow as e:
            ctx.oblige("no error raised but that of an inner operator", fails >= 0 and len(ran) > fails, "safety", note=e.what)
            done = todo[:fails + 1]
            ctx.oblige("the inner operators up to the failing one are processed, in port order", ran == [k.split(":")[0] for k in done], "post",
                       note=f"{ran} for {todo}, error at {fails}")
            left = m.read(o.f("toProcess")).keys()
            ctx.oblige("what was processed is not processed again", not set(left) & set(done), "post", note=f"{left} after {done}")
            ctx.oblige("what was not processed still is to be", set(todo) - set(done) <= set(left) <= set(todo), "post", note=f"{left} after {done}")
            ctx.oblige("nothing is emitted", not E.emitted().keys(), "post")
            for k, v in m.read(o).f.items():
                if k != "toProcess":
                    ctx.oblige(f"{k} stays", same(v, before[k]), "post")
            return
        ctx.oblige("an error of an inner operator is passed on", fails < 0, "post")
        if fails >= 0:
            return
        ctx.oblige("every inner operator that received is processed, in port order", ran == [k.split(":")[0] for k in todo], "post",
                   note=f"{ran} for {todo}")
        names = {k: f"o{n + 1}" for n, k in enumerate(sorted(outs))}
        want = {}
        for a in ans:
            for i, d in a.items():
                for p, s in d.items():
                    if f"{i}:{p}" in names:
                        q = names[f"{i}:{p}"]
                        want[q] = m.seq_concat(want.get(q, Seq()), s)
        got = E.emitted()
        ctx.oblige("the ports something leaves through", got.keys() == sorted(want), "post", note=f"{got.keys()} for {sorted(want)}")
        for q in want:
            if q in got.d:
                eqv(m, f"emission[{q}]", got.d[q], want[q])
        ctx.oblige("what is returned is what emitting returned", E.returned_ok(r), "post")
        eqv(m, "nothing is left to process", m.read(o.f("toProcess")), SetV())
        for k, v in m.read(o).f.items():
            if k != "toProcess":
                ctx.oblige(f"{k} stays", same(v, before[k]), "post")
    explore(sh, go, max_paths=3000)



def saved(cls):
    """collect and restore: the inner operators' own saved states are unknown bytes."""
    def run(sh, P):
        def go(ctx):
            m = Machine(P, ctx)
            ids = [[], ["a"], ["a", "b"], ["a", "b", "c10", "c2"]][ctx.choose(4)]
            objs = []
            for w in ("saved", "new"):
                o = blank(m, cls) if cls == "Pipeline" else build(m, cls, ["op"])
                for p in ("i1", "i2"):
                    m.call_method(o, "addDataInput", [p, 1])
                m.write(o.f("all_op" if cls == "Pipeline" else "ops"), MapV({i: Opaque("inner", {"id": i, "of": w}) for i in ids}))
                objs.append(o)
            o, o2 = objs
            for p in ("i1", "i2"):
                n = z3.Int("len_" + p)
                ctx.assume(n >= 0)
                set_input(m, o, p, Hist(sh, "h" + p).win(0, n), z3.Real("sum_" + p))
            m.write(o.f("toProcess"), SetV([p for p in ("i1", "i2") if ctx.choose(2) == 1]))
            state = {i: Opaque("state of " + i, {"size": z3.Int("size_" + i)}) for i in ids}
            for i in ids:
                ctx.assume(z3.Int("size_" + i) >= 0)
            collected, restored = [], []

            def collect(m_, op, args, n):
                collected.append((op.info["id"], op.info["of"]))
                return BytesV((("op", state[op.info["id"]]),))

            def restore(m_, op, args, n):
                it = m.bytes_norm(m.read(args[0]))
                p = it.bytes.ps[it.i] if it.i < len(it.bytes.ps) else None
                ok = p is not None and p[0] == "op" and p[1] is state[op.info["id"]] and op.info["of"] == "new"
                m.ctx.oblige("an inner operator gets back its own saved state", ok, "post", note=f"{op.info}: {p}"[:200])
                restored.append(op.info["id"])
                m.write(args[0], m.bytes_next(it))
                return None
            m.hooks.update({"opaque:collect": collect, "opaque:restore": restore})
            before = saved_m.deep(m, o)
            try:
                b = m.call_method(o, "collect", [])
                b = m.read(b) if isinstance(b, Loc) else b
                if not isinstance(b, BytesV):
                    raise Undecided("collect returns no byte string")
                ctx.oblige("every inner operator is saved once", sorted(collected) == [(i, "saved") for i in ids], "post", note=str(collected))
                saved_m.same_state(m, "collect leaves the operator as it was", before, saved_m.deep(m, o), cls, ())
                whole = BytesV((("op", Opaque("bytes before", {"size": 1})),) + b.ps + (("op", Opaque("bytes behind", {"size": 1})),))
                it = m.new(BytesIt(whole, 1), "it")
                m.call_method(o2, "restore", [it])
            except CppThrow as e:
                ctx.oblige("no error raised", False, "safety", note=e.what)
                return
            end = m.bytes_norm(m.read(it))
            ctx.oblige("restore consumes exactly the saved bytes", end.i == len(whole.ps) - 1 and end.sub == 0, "post",
                       note=f"{end} of {len(whole.ps)} pieces")
            ctx.oblige("every inner operator is restored once", sorted(restored) == ids, "post", note=str(restored))
            skip = ("inputs", "outputs", "portsMap", "json_prog") if cls == "Pipeline" else ()
            saved_m.same_state(m, "restored", saved_m.deep(m, o), saved_m.deep(m, o2), cls, skip)
        explore(sh, go)
    return run


def composite(m, inp=True, out=True):
    o = build(m, "Composite", ["op"])
    m.hooks["opaque:get"] = lambda m_, op, args, n: op
    m.write(o.f("input"), Opaque("inner", {"id": "in"}) if inp else Ptr(None))
    m.write(o.f("output"), Opaque("inner", {"id": "out"}) if out else Ptr(None))
    return o


def plain(m, v):
    return m.read(v) if isinstance(v, Loc) else v


def t_delegate(sh, P):
    """Whatever arrives at the ports of a composite goes to its input operator, unchanged, once."""
    def go(ctx):
        m = Machine(P, ctx)
        there = ctx.choose(2) == 1
        o = composite(m, there, ctx.choose(2) == 1)
        seen = []

        def log(name):
            def h(m_, op, args, n):
                seen.append((name, op.info["id"], [plain(m, a) for a in args]))
                return PM(Seq([Elems([Opaque("what the input operator returned")])])) if name.startswith("execute") else None
            return h
        names = ("receiveData", "receiveControl", "executeData", "executeControl")
        m.hooks.update({"opaque:" + n: log(n) for n in names})
        n = names[ctx.choose(4)]
        x = msg(z3.Int("mt"), z3.Real("mv"))
        port = ["i1", "zz", ""][ctx.choose(3)]
        args = [x, port] if n.startswith("receive") else []
        before = field_snapshot(m, o)
        err = False
        try:
            r = plain(m, m.call_method(o, n, list(args)))
        except CppThrow:
            err = True
        ctx.oblige("an error exactly without input operator", err == (not there), "post")
        ctx.oblige("asked once", [(a, b) for a, b, _ in seen] == ([(n, "in")] if there else []), "post", note=str(seen)[:200])
        for _, _, a in seen:
            ctx.oblige("with the same number of arguments", len(a) == len(args), "post")
            for u, v in zip(a, args):
                if isinstance(v, str):
                    ctx.oblige("the port", u == v, "post", note=f"{u} for {v}")
                else:
                    eqv(m, "the message", u, v)
        if not err and n.startswith("execute"):
            ctx.oblige("what the input operator returned is returned",
                       isinstance(r, PM) and same(r.seq, Seq([Elems([Opaque("what the input operator returned")])])), "post")
        for k, v in m.read(o).f.items():
            ctx.oblige(f"{k} stays", same(v, before[k]), "post")
    explore(sh, go)


def t_outgoing(sh, P):
    """connect starts at the output operator; createInternalConnection connects the two named inner operators."""
    def go(ctx):
        m = Machine(P, ctx)
        there = ctx.choose(2) == 1
        o = composite(m, ctx.choose(2) == 1, there)
        m.write(o.f("ops"), MapV({i: Opaque("inner", {"id": i}) for i in ("a", "b")}))
        child = build(m, "Identity", ["child"])
        fails = ctx.choose(2) == 1
        seen = []

        def connect(m_, op, args, n):
            seen.append((op.info["id"], args))
            return Ptr(None) if fails else args[0] if isinstance(args[0], Ptr) else Ptr(args[0]) if isinstance(args[0], Loc) else args[0]
        m.hooks["opaque:connect"] = connect
        how = ("pointer", "reference", "internal")[ctx.choose(3)]
        out, inp = [("", ""), ("o1", "i1"), ("o2", "")][ctx.choose(3)]
        before = field_snapshot(m, o)
        err = False
        ids = None
        try:
            if how == "internal":
                ids = [("a", "b"), ("a", "a"), ("zz", "a"), ("b", "zz")][ctx.choose(4)]
                r = m.call_method(o, "createInternalConnection", [*ids, out, inp])
            else:
                r = m.invoke("Composite", method_of(P, "Composite", "connect", "Operator<unsigned long, double> " + ("*," if how == "pointer" else "&,")),
                             o, [Ptr(child) if how == "pointer" else child, out, inp])
        except CppThrow:
            err = True
        if how == "internal":
            ok = "zz" not in ids
            ctx.oblige("an error exactly when an operator is unknown or the connection fails", err == (not ok or fails), "post")
            want = [(ids[0], ids[1])] if ok else []
            got = [(a, (g[0].info["id"] if isinstance(g[0], Opaque) else "?")) for a, g in seen]
        else:
            ctx.oblige("an error exactly without output operator", err == (not there), "post")
            want = [("out", child)] if there else []
            got = [(a, (g[0].loc if isinstance(g[0], Ptr) else g[0])) for a, g in seen]
            if not err:
                ctx.oblige("what connecting returned is returned", isinstance(r, Ptr) and r.loc == (None if fails else child), "post")
        ctx.oblige("connected once, the right two operators", got == want, "post", note=f"{got} for {want}")
        for _, g in seen:
            ctx.oblige("the ports as named", [plain(m, x) for x in g[1:3]] == [out, inp], "post", note=str(g[1:]))
        for k, v in m.read(o).f.items():
            ctx.oblige(f"{k} stays", same(v, before[k]), "post")
    explore(sh, go)


def method_of(P, cls, name, sig):
    import re
    for x in P.classes[cls].methods:
        if x.get("name") == name and re.sub(r"\s", "", sig) in re.sub(r"\s", "", x["type"]["qualType"]):
            return x
    raise Undecided(f"{cls}::{name}({sig}) not found")


def coef(sh, ctx, n=None):
    if n is not None:
        return Seq([Elems([z3.Real(f"c{i}") for i in range(n)])], "vector")
    k = z3.Int("ncoef")
    ctx.assume(k >= 1)
    f = z3.Function("coef", z3.IntSort(), z3.RealSort())
    return Seq([Sym(sh.base("coef", lambda i: f(Z(i))), 0, k)], "vector")


def num(name, lo=1):
    def g(sh, ctx):
        ctx.assume(z3.Int(name) >= lo)
        return z3.Int(name)
    return g


V = lambda sh, ctx: z3.Real("par")
CREATE = [("createAdd", "Add", [V]), ("createAutoregressive", "AutoRegressive", [coef]), ("createConstant", "Constant", [V]),
          ("createCosineResampler", "CosineResampler", [num("dt")]), ("createCount", "Count", []),
          ("createCumulativeSum", "CumulativeSum", []), ("createDifference", "Difference", [lambda sh, ctx: ctx.choose(2) == 1]),
          ("createJoin", "Join", [lambda sh, ctx: 2 + ctx.choose(3)]), ("createDivision", "Division", []), ("createMinus", "Minus", []),
          ("createLinear", "Linear", [lambda sh, ctx: coef(sh, ctx, 2 + ctx.choose(2))]), ("createEqualTo", "EqualTo", [V]),
          ("createGreaterThan", "GreaterThan", [V]), ("createLessThan", "LessThan", [V]),
          ("createHermiteResampler", "HermiteResampler", [num("dt")]), ("createIdentity", "Identity", []),
          ("createMovingAverage", "MovingAverage", [num("n")]), ("createFiniteImpulseResponse", "FiniteImpulseResponse", [coef]),
          ("createVariable", "Variable", [V]), ("createPeakDetector", "PeakDetector", [num("n")]),
          ("createStandardDeviation", "StandardDeviation", [num("n")]),
          ("createDemultiplexer", "Demultiplexer", [lambda sh, ctx: 1 + ctx.choose(3)]), ("createPower", "Power", [V]),
          ("createScale", "Scale", [V]), ("createTimeShift", "TimeShift", [num("dt"), num("times", -10)]),
          ("createInput", "Input", [lambda sh, ctx: (1, 2, 11)[ctx.choose(3)]]), ("createOutput", "Output", [lambda sh, ctx: (1, 2, 11)[ctx.choose(3)]])]


def t_create(sh, P):
    """create<Type>(id, parameters) adds the operator that the constructor makes of them, or fails for a used id."""
    def go(ctx):
        m = Machine(P, ctx)
        name, cls, par = CREATE[ctx.choose(len(CREATE))]
        o = build(m, "Composite", ["op"])
        old = {"a": Opaque("inner", {"id": "a"})}
        m.write(o.f("ops"), MapV(old))
        again = name in ("createInput", "createOutput") and ctx.choose(2) == 1
        which = {"createInput": "input", "createOutput": "output"}.get(name)
        if again:
            m.write(o.f(which), old["a"])
        i = ("a", "new")[ctx.choose(2)]
        args = [p(sh, ctx) for p in par]
        if cls == "TimeShift":
            ctx.assume(args[1] <= 10)
        before = field_snapshot(m, o)
        err = False
        try:
            r = plain(m, m.call_method(o, name, [i, *args]))
        except CppThrow:
            err = True
        try:
            want = build(m, cls, [i, *args])
        except CppThrow:
            ctx.oblige("an error where the constructor raises one", err, "post")
            return
        ctx.oblige("an error exactly for a used id or a second input or output", err == (i == "a" or again), "post", note=name)
        change = {"ops"} if not err else set()
        if not err:
            ctx.oblige("the id is returned", r == i, "post", note=str(r))
            ops = m.read(o.f("ops"))
            ctx.oblige("one operator more", ops.keys() == ["a", i] and same(ops.d["a"], old["a"]), "post")
            x = ops.d.get(i)
            ok = isinstance(x, Ptr) and x.loc is not None and m.dyn_class(x.loc) == cls
            ctx.oblige("an operator of the type asked for", ok, "post", note=f"{name}: {x}")
            if ok:
                saved_m.same_state(m, f"{name}", saved_m.deep(m, x.loc), saved_m.deep(m, want), cls, ("operation", "filter"))
            if which:
                y = m.read(o.f(which))
                ctx.oblige("it is the input or output operator", isinstance(y, Ptr) and isinstance(x, Ptr) and y.loc == x.loc, "post")
                change |= {which}
                if which == "input":
                    change |= {"dataInputs"}
                    got = m.read(o.f("dataInputs"))
                    ctx.oblige("the ports of the input operator are those of the composite",
                               got.keys() == m.read(want.f("dataInputs")).keys(), "post", note=str(got.keys()))
                else:
                    change |= {"outputIds"}
                    ctx.oblige("the ports of the output operator are those of the composite",
                               m.read(o.f("outputIds")).keys() == m.read(want.f("outputIds")).keys(), "post")
        for k, v in m.read(o).f.items():
            if k not in change:
                ctx.oblige(f"{k} stays", same(v, before[k]), "post")
    explore(sh, go, max_paths=3000)


def kind(f, k):
    def g(sh, P):
        return f(sh, P)
    g.kind = k
    return g


def saved_tasks():
    return [("Pipeline.saved", kind(saved("Pipeline"), "pipeline")), ("Composite.saved", saved("Composite"))]


def tasks():
    return [("Pipeline.receiveData", kind(t_receive, "pipeline")), ("Pipeline.executeData", kind(t_execute, "pipeline")),
            ("Composite.delegate", t_delegate), ("Composite.connect", t_outgoing), ("Composite.create", t_create)] + saved_tasks()
