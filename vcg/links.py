"""P15: connect, addDataInput, addControlInput, addOutput and what they read of an operator's ports.

connect(child, out, in), for every combination of ports of the two operators, every requested pair of names, and any number of
earlier connections: the named (or deduced) connection is appended to those of its output port and nothing else changes; or an
error is raised, or null returned, and nothing changes at all."""
from spec import *
from emission import method

NC = z3.Int("nconn")
SIZE_MAX = 2 ** 64 - 1


def some(ctx, names):
    return [p for p in names if ctx.choose(2) == 1]


def inputs(sh, ctx, m, o, field, names):
    m.write(o.f(field), MapV({p: input_of(sh, ctx, m, o, p) for p in names}))


def input_of(sh, ctx, m, o, p):
    n, mx = z3.Int(f"n_{p}"), z3.Int(f"max_{p}")
    if {fd["name"] for _, fd in m.P.all_fields("Operator::Input")} != {"id", "data", "max", "sum"}:
        raise Unsupported("members of Operator::Input")
    ctx.assume(z3.And(n >= 0, mx >= 1, mx <= SIZE_MAX))
    return Rec("Operator::Input", {"id": p, "data": Hist(sh, "h" + p).win(0, n), "max": mx, "sum": z3.Real("s_" + p)})


def connections(sh, name, n):
    return Seq([Sym(sh.base(name, lambda i: Rec("Operator::Connection", {"fOperator": Opaque("operator", {"i": i}),
                                                                "inputPort": Opaque("port", {"i": i})})), 0, n)], "vector")


def unchanged(m, ctx, o, before, but=()):
    for k, v in m.read(o).f.items():
        if k not in but:
            if same(v, before[k]):
                ctx.oblige(f"{k} stays", True, "post")
            else:
                eqv(m, f"{k} stays", v, before[k])


def t_connect(by, selfc):
    def run(sh, P):
        def go(ctx):
            m = Machine(P, ctx)
            o = build(m, "Identity", ["op"])
            ids = some(ctx, ("o1", "o2"))
            m.write(o.f("outputIds"), SetV(ids))
            child = o if selfc else build(m, "Identity", ["child"])
            data, ctl = some(ctx, ("i1", "i2")), some(ctx, ("c1",))
            inputs(sh, ctx, m, child, "dataInputs", data)
            inputs(sh, ctx, m, child, "controlInputs", ctl)
            ctx.assume(NC >= 1)
            old = {p: connections(sh, "c_" + p, NC if p == "o1" else 2) for p in ids if ctx.choose(2) == 1}
            m.write(o.f("outputs"), MapV(old))
            out, inp = ("", "o1", "o2", "zz")[ctx.choose(4)], ("", "i1", "c1", "zz")[ctx.choose(4)]
            before, cbefore = field_snapshot(m, o), field_snapshot(m, child)
            allin = data + ctl
            eo = out or (ids[0] if len(ids) == 1 else "")
            ei = inp or (allin[0] if len(allin) == 1 and not ctl else "")
            err = False
            try:
                r = m.invoke("Operator", method(P, "connect", ("(Operator<unsigned long, double> &" if by == "reference"
                             else "(Operator<unsigned long, double> *")), o, [child if by == "reference" else Ptr(child), out, inp])
                r = m.read(r) if isinstance(r, Loc) else r
            except CppThrow:
                err = True
            ctx.oblige("an error exactly when a port is left open that cannot be deduced", err == (not eo or not ei), "post")
            unchanged(m, ctx, child, cbefore, ("outputs",) if selfc else ())
            unchanged(m, ctx, o, before, ("outputs",))
            now = m.read(o.f("outputs"))
            if err or eo not in ids or ei not in allin:
                eqv(m, "no connection is made", now, MapV(old))
                if not err:
                    ctx.oblige("null is returned", isnull(r), "post", note=f"{type(r)} {r}"[:300])
                return
            ctx.oblige("the child is returned", points(r, child), "post", note=str(r))
            c = Rec("Operator::Connection", {"fOperator": Ptr(child), "inputPort": ei})
            want = dict(old)
            want[eo] = m.seq_concat(old.get(eo, Seq((), "vector")), Seq([Elems([c])]))
            conn_eq(m, "connections", now, MapV(want), old, eo, child, ei)
        explore(sh, go, max_paths=5000)
    return run


def isnull(r):
    return isinstance(r, Ptr) and r.loc is None


def points(r, o):
    return isinstance(r, Ptr) and r.loc == o


def conn_eq(m, name, now, want, old, eo, child, ei):
    ctx = m.ctx
    ctx.oblige("the connected ports", now.keys() == want.keys(), "post", note=f"{now.keys()} for {want.keys()}")
    for p in want.keys():
        if p not in now.d:
            continue
        if p != eo:
            eqv(m, f"{name}[{p}]", now.d[p], old[p])
            continue
        segs = [s for s in now.d[p].segs]
        last = segs[-1].xs[-1] if segs and isinstance(segs[-1], Elems) and segs[-1].xs else None
        ok = isinstance(last, Rec) and points(last.f.get("fOperator"), child) and last.f.get("inputPort") == ei
        ctx.oblige("the new connection leads to the named port of the child", ok, "post", note=str(last)[:200])
        if last is not None:
            rest = Seq(list(segs[:-1]) + ([Elems(segs[-1].xs[:-1])] if segs[-1].xs[:-1] else []), "vector")
            eqv(m, "the earlier connections", rest, old.get(p, Seq((), "vector")))


def t_add(kind):
    def run(sh, P):
        def go(ctx):
            m = Machine(P, ctx)
            o = build(m, "Identity", ["op"])
            data, ctl = some(ctx, ("i1", "i2")), some(ctx, ("c1", "c2"))
            inputs(sh, ctx, m, o, "dataInputs", data)
            inputs(sh, ctx, m, o, "controlInputs", ctl)
            name = ("", "i1", "c1", "new", "i10")[ctx.choose(5)]
            mx = z3.Int("mx")
            ctx.assume(z3.And(mx >= 0, mx <= SIZE_MAX))
            before = field_snapshot(m, o)
            err = False
            try:
                r = m.call_method(o, f"add{kind}Input", [name, mx])
                r = m.read(r) if isinstance(r, Loc) else r
            except CppThrow:
                err = True
            ctx.oblige("an error exactly for an empty or used name", err == (not name or name in data + ctl), "post")
            f = "dataInputs" if kind == "Data" else "controlInputs"
            unchanged(m, ctx, o, before, () if err else (f,))
            if err:
                return
            ctx.oblige("the operator is returned", points(r, o), "post", note=f"{type(r)} {r}"[:300])
            want = dict(before[f].d)
            want[name] = Rec("Operator::Input", {"id": name, "data": Seq((), "deque"), "max": ite(mx == 0, SIZE_MAX, mx), "sum": Fraction(0)})
            now = m.read(o.f(f))
            ctx.oblige("the ports", now.keys() == sorted(want), "post")
            for p in want:
                if p in now.d:
                    a, b = now.d[p], want[p]
                    ctx.oblige("an input port", isinstance(a, Rec), "post")
                    for k in b.f:
                        eqv(m, f"{k} of the port", a.f[k], b.f[k])
        explore(sh, go, max_paths=5000)
    return run


def t_queries(sh, P):
    """The lists of ports and what is said of a port."""
    def go(ctx):
        m = Machine(P, ctx)
        o = build(m, "Identity", ["op"])
        data, ctl, ids = some(ctx, ("i1", "i10", "i2")), some(ctx, ("c1", "c2")), some(ctx, ("o1", "o2"))
        inputs(sh, ctx, m, o, "dataInputs", data)
        inputs(sh, ctx, m, o, "controlInputs", ctl)
        m.write(o.f("outputIds"), SetV(ids))
        before = field_snapshot(m, o)

        def ask(name, *args):
            try:
                r = m.call_method(o, name, list(args))
            except CppThrow as e:
                ctx.oblige(f"{name}: no error raised", False, "safety", note=e.what)
                return None
            return m.read(r) if isinstance(r, Loc) else r
        for name, want in (("getDataInputs", data), ("getControlInputs", ctl), ("getAllInputs", data + ctl), ("getOutputs", ids)):
            eqv(m, name, ask(name), Seq([Elems(want)] if want else [], "vector"))
        for p in ("i1", "i10", "i2", "c1", "c2", "zz", ""):
            eqv(m, "isDataInput", boolv(ask("isDataInput", p)), p in data)
            eqv(m, "isControlInput", boolv(ask("isControlInput", p)), p in ctl)
        unchanged(m, ctx, o, before)
        new = ("o1", "o9")[ctx.choose(2)]
        ask("addOutput", new)
        eqv(m, "addOutput", ask("getOutputs"), Seq([Elems(sorted(set(ids) | {new}))], "vector"))
        unchanged(m, ctx, o, before, ("outputIds",))
    explore(sh, go, max_paths=5000)


def tasks():
    return [("connect.pointer", t_connect("pointer", False)), ("connect.reference", t_connect("reference", False)),
            ("connect.self", t_connect("pointer", True)), ("addDataInput", t_add("Data")), ("addControlInput", t_add("Control")),
            ("ports", t_queries)]
