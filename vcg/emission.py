"""P14: emit and mergeOutput.

mergeOutput(out, x): for every key, out' = out followed by x; nothing else changes.
emit(m, ports), one port: every connection of the port receives m on its input, in order; then every connection is processed
  once, in order; returned: the message itself and then what the connected operators returned, in order.
emit(m, ports), several ports: the same port by port in the given order (all outputs in name order when none is named).
emit(batch, ports): emit of every message, in order, the results merged in order.
emit(map): emit of every batch through its port, in key order; an undeclared port is an error."""
import z3
from spec import *

NC, NM = z3.Int("nconn"), z3.Int("nmsg")
DATA, CONTROL, RUN, RUNC = 1, 2, 3, 4


def method(P, name, sig):
    for m in P.classes["Operator"].methods:
        if m.get("name") == name and re.sub(r"\s", "", sig) in re.sub(r"\s", "", m["type"]["qualType"]):
            return m
    raise Undecided(f"Operator::{name}({sig}) not found")


import re


def event(kind, who, port, message=None):
    f = {"kind": kind, "who": who, "port": port}
    if message is not None:
        f["time"], f["value"] = message.f["time"], message.f["value"]
    else:
        f["time"], f["value"] = 0, Fraction(0)
    return Rec("event", f)


from fractions import Fraction


class World:
    """The connected operators: what they are asked is recorded, what they answer is unknown."""

    def __init__(self, m, P, ctx, sh):
        self.m, self.P, self.ctx, self.sh = m, P, ctx, sh
        self.trace = m.new(Seq(), "ghost:trace")
        self.isdata = z3.Function("isdata", z3.IntSort(), z3.BoolSort())
        self.answer = None
        m.hooks.update({"opaque:receiveData": self.receive(DATA), "opaque:receiveControl": self.receive(CONTROL),
                        "opaque:executeData": self.execute(RUN), "opaque:executeControl": self.execute(RUNC),
                        "opaque:isDataInput": self.is_data, "opaque:isControlInput": self.is_control})

    def connection(self, i):
        return Rec("Connection", {"fOperator": Opaque("operator", {"i": i}), "inputPort": Opaque("port", {"i": i})})

    def port(self, m, a):
        a = m.read(a) if isinstance(a, Loc) else a
        if not isinstance(a, Opaque) or a.name != "port":
            raise Unsupported("a port that is not the one of a connection")
        return a.info["i"]

    def receive(self, kind):
        def h(m, o, args, n):
            x = m.read(args[0]) if isinstance(args[0], Loc) else args[0]
            self.log(event(kind, o.info["i"], self.port(m, args[1]), x))
            return None
        return h

    def log(self, e):
        self.m.write(self.trace, self.m.seq_concat(self.m.read(self.trace), Seq([Elems([e])])))

    def execute(self, kind):
        def h(m, o, args, n):
            self.log(event(kind, o.info["i"], o.info["i"]))
            if self.answer:
                return self.answer(m, o.info["i"])
            return PM(Seq([Elems([Rec("answer", {"who": o.info["i"]})])]))
        return h

    def is_data(self, m, o, args, n):
        j = self.port(m, args[0])
        if not same(j, o.info["i"]):
            raise Unsupported("the port of another connection")
        return self.isdata(Z(j))

    def is_control(self, m, o, args, n):
        return not_(self.is_data(m, o, args, n))


def own(p, x):
    return Rec("own", {"port": Opaque(str(p)), "time": x.f["time"], "value": x.f["value"]})


def as_pm(v, oid):
    """The list of contributions a program message stands for."""
    if isinstance(v, PM):
        return v.seq
    if isinstance(v, MapV):
        out = []
        for i in v.keys():
            for p in v.d[i].keys():
                for s in v.d[i].d[p].segs:
                    if not isinstance(s, Elems):
                        raise Unsupported("merge of a symbolic batch")
                    out += [Rec("own", {"port": Opaque(str(p)), "time": x.f["time"], "value": x.f["value"]}) for x in s.xs]
            if i != oid:
                raise Unsupported("merge into the messages of another operator")
        return Seq([Elems(out)])
    raise Unsupported("merge of " + type(v).__name__)


def merge_hook(oid):
    def h(m, this, fn, args):
        a = m.read(args[0])
        b = m.read(args[1]) if isinstance(args[1], Loc) else args[1]
        m.write(args[0], PM(m.seq_concat(as_pm(a, oid), as_pm(b, oid))))
        return None
    return h


def ropaque(m, name, a, b):
    """Sequences of contributions or events; the names of ports inside are compared as they are."""
    eqv(m, name, a, b)


def start(sh, P, ctx):
    m = Machine(P, ctx)
    o = build(m, "Identity", ["op"])
    m.write(o.f("outputIds"), SetV(["o1"]))
    return m, o, World(m, P, ctx, sh)


MSG = lambda: msg(z3.Int("mt"), z3.Real("mv"))


def t_message(sh, P):
    """One port with any number of connections."""
    def go(ctx):
        m, o, W = start(sh, P, ctx)
        m.hooks["mergeOutput"] = merge_hook("op")
        ctx.assume(NC >= 0)
        x = MSG()
        connected = ctx.choose(2) == 1
        if connected:
            m.write(o.f("outputs"), MapV({"o1": Seq([Sym(sh.base("connections", W.connection), 0, NC)], "vector"),
                                          "zz": Seq([Sym(sh.base("other", lambda i: W.connection(add(-1, mul(-1, i)))), 0, 2)], "vector")}))
        before = field_snapshot(m, o)
        try:
            r = m.invoke("Operator", method(P, "emit", "(Message<"), o, [x, Seq([Elems(["o1"])], "vector")])
        except CppThrow as e:
            ctx.oblige("no error raised", False, "safety", note=e.what)
            return
        r = m.read(r) if isinstance(r, Loc) else r
        n = NC if connected else 0
        deliver_ = Seq([Sym(sh.base("deliveries", lambda i: event(ite(W.isdata(Z(i)), DATA, CONTROL), i, i, x)), 0, n),
                        Sym(sh.base("runs", lambda i: event(ite(W.isdata(Z(i)), RUN, RUNC), i, i)), 0, n)], "vector")
        eqv(m, "what the connected operators see", m.read(W.trace), deliver_)
        eqv(m, "what is returned", as_pm(r, "op"),
            Seq([Elems([own("o1", x)]), Sym(sh.base("answers", lambda i: Rec("answer", {"who": i})), 0, n)], "vector"))
        frame(m, ctx, before, o)
    explore(sh, go)


def frame(m, ctx, before, o):
    for k, v in m.read(o).f.items():
        ctx.oblige(f"emit does not change {k}", same(v, before[k]), "post")


def t_batch(sh, P):
    """Any number of messages through the given ports."""
    def go(ctx):
        m, o, W = start(sh, P, ctx)
        m.hooks["mergeOutput"] = merge_hook("op")
        ctx.assume(NM >= 0)
        H = Hist(sh, "b")
        ports = [[], ["o1"], ["o1", "o2"]][ctx.choose(3)]

        def emit(m_, this, fn, args):
            x = m.read(args[0]) if isinstance(args[0], Loc) else args[0]
            if not (isinstance(x, Rec) and x.cls == "Message"):
                return NotImplemented
            ps = m.read(args[1]) if len(args) > 1 and isinstance(args[1], Loc) else args[1] if len(args) > 1 else Seq()
            ps = ps if isinstance(ps, Seq) else Seq([Elems(ps)])
            return PM(Seq([Elems([Rec("emission", {"time": x.f["time"], "value": x.f["value"], "ports": portlist(ps)})])]))
        m.hooks["Operator::emit"] = emit
        before = field_snapshot(m, o)
        try:
            r = m.invoke("Operator", method(P, "emit", "(PortMessage<"), o,
                         [H.win(0, NM, "vector"), Seq([Elems(ports)], "vector")])
        except CppThrow as e:
            ctx.oblige("no error raised", False, "safety", note=e.what)
            return
        r = m.read(r) if isinstance(r, Loc) else r
        want = Seq([Sym(sh.base(f"emissions{len(ports)}", lambda i: Rec("emission", {
            "time": H.t(Z(i)), "value": H.v(Z(i)), "ports": portlist(Seq([Elems(ports)]))})), 0, NM)], "vector")
        eqv(m, "what is returned", as_pm(r, "op"), want)
        frame(m, ctx, before, o)
    explore(sh, go)


def portlist(ps):
    if any(not isinstance(s, Elems) for s in ps.segs):
        raise Unsupported("symbolic list of ports")
    return ",".join(str(x) for s in ps.segs for x in s.xs)


def t_map(sh, P):
    """Batches for up to three ports."""
    def go(ctx):
        m, o, W = start(sh, P, ctx)
        m.hooks["mergeOutput"] = merge_hook("op")
        m.write(o.f("outputIds"), SetV(["o1", "o2", "o3"]))
        names = [p for p in ("o1", "o2", "o3", "zz") if ctx.choose(2) == 1]
        batch = {p: Hist(sh, "b" + p).win(0, z3.Int("n" + p), "vector") for p in names}
        for p in names:
            ctx.assume(z3.Int("n" + p) >= 0)
        seen = []

        def emit(m_, this, fn, args):
            x = m.read(args[0]) if isinstance(args[0], Loc) else args[0]
            if not isinstance(x, Seq):
                return NotImplemented
            ps = m.read(args[1]) if len(args) > 1 and isinstance(args[1], Loc) else args[1] if len(args) > 1 else Seq()
            ps = ps if isinstance(ps, Seq) else Seq([Elems(ps)])
            seen.append((x, portlist(ps)))
            return PM(Seq([Elems([Rec("batch", {"number": len(seen)})])]))
        m.hooks["Operator::emit"] = emit
        before = field_snapshot(m, o)
        err = False
        try:
            r = m.invoke("Operator", method(P, "emit", "(OperatorMessage<"), o, [MapV(batch)])
            r = m.read(r) if isinstance(r, Loc) else r
        except CppThrow as e:
            err = True
        ctx.oblige("an undeclared port is an error, a declared one is not", err == ("zz" in names), "post")
        good = [p for p in names if p != "zz"]
        ctx.oblige("every port once, in name order", [p for _, p in seen] == good, "post", note=f"{[p for _, p in seen]} for {good}")
        for x, p in seen:
            if p in batch:
                eqv(m, "the batch of the port", x, batch[p])
        if not err:
            eqv(m, "what is returned", as_pm(r, "op"), Seq([Elems([Rec("batch", {"number": i + 1}) for i in range(len(good))])]))
        frame(m, ctx, before, o)
    explore(sh, go)


def merged(m, a, b):
    """The specification of mergeOutput on program messages of one or two levels."""
    d = dict(a.d)
    for k, v in b.d.items():
        if isinstance(v, MapV):
            d[k] = merged(m, d.get(k, MapV()), v)
        else:
            d[k] = m.seq_concat(d.get(k, Seq()), v)
    return MapV(d)


def batchof(sh, ctx, name):
    n = z3.Int("n" + name)
    ctx.assume(n >= 0)
    return Hist(sh, name).win(0, n, "vector")


def operator_message(sh, ctx, name, keys):
    return MapV({k: batchof(sh, ctx, f"{name}_{k}") for k in keys if ctx.choose(2) == 1})


def t_merge(level):
    def run(sh, P):
        def go(ctx):
            m = Machine(P, ctx)
            if level == 1:
                a, b = [operator_message(sh, ctx, x, ("o1", "o2", "o3")) for x in "ab"]
            else:
                a, b = [MapV({i: operator_message(sh, ctx, x + i, ("o1", "o2")) for i in ("p", "q") if ctx.choose(2) == 1}) for x in "ab"]
            la, lb = m.new(a, "out"), m.new(b, "x")
            try:
                m.invoke("Operator", method(P, "mergeOutput", "(OperatorMessage<" if level == 1 else "(ProgramMessage<"), None, [la, lb])
            except CppThrow as e:
                ctx.oblige("no error raised", False, "safety", note=e.what)
                return
            eqv(m, "merged", m.read(la), merged(m, a, b))
            eqv(m, "what is merged in stays", m.read(lb), b)
        explore(sh, go, max_paths=5000)
    return run


def t_ports(n):
    """All bodies together: n output ports with two connections each, the operators answering in all ways."""
    def run(sh, P):
        def go(ctx):
            m, o, W = start(sh, P, ctx)
            ps = [f"o{i + 1}" for i in range(n)]
            m.write(o.f("outputIds"), SetV(ps))
            conn = {p: [10 * (i + 1) + j for j in range(ctx.choose(2) + (n == 1))] for i, p in enumerate(ps)}
            if ctx.choose(2) == 1:
                conn.pop(ps[-1])
            named = ctx.choose(2) == 1
            m.write(o.f("outputs"), MapV({p: Seq([Elems([W.connection(i) for i in c])], "vector") for p, c in conn.items()}))
            answers = {}

            def answer(m_, i):
                k = ctx.choose(4)
                s = batchof(sh, ctx, f"r{i}")
                answers[i] = [MapV(), MapV({"x": MapV({"o1": s})}), MapV({f"y{i}": MapV({"o1": s, "o2": batchof(sh, ctx, f"s{i}")})}),
                              MapV({"op": MapV({ps[-1]: s})})][k]
                return answers[i]
            W.answer = answer
            x = MSG()
            before = field_snapshot(m, o)
            order = list(reversed(ps)) if named else ps
            try:
                r = m.invoke("Operator", method(P, "emit", "(Message<"), o, [x, Seq([Elems(order)] if named else [], "vector")])
            except CppThrow as e:
                ctx.oblige("no error raised", False, "safety", note=e.what)
                return
            r = m.read(r) if isinstance(r, Loc) else r
            want, trace = MapV(), []
            for p in order:
                want = merged(m, want, MapV({"op": MapV({p: Seq([Elems([x])])})}))
                for i in conn.get(p, []):
                    trace.append(event(ite(W.isdata(Z(i)), DATA, CONTROL), i, i, x))
                for i in conn.get(p, []):
                    trace.append(event(ite(W.isdata(Z(i)), RUN, RUNC), i, i))
                    want = merged(m, want, answers.get(i, MapV()))
            eqv(m, "what the connected operators see", m.read(W.trace), Seq([Elems(trace)]))
            eqv(m, "what is returned", r, want)
            frame(m, ctx, before, o)
        explore(sh, go, max_paths=20000)
    return run


def tasks():
    return [("emit.message", t_message), ("emit.batch", t_batch), ("emit.map", t_map), ("mergeOutput.operator", t_merge(1)),
            ("mergeOutput.program", t_merge(2)), ("emit.1port", t_ports(1)), ("emit.2ports", t_ports(2))]
