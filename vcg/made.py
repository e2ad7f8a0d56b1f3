"""P15, P16, P13: a program made of its text.

Program::init, for every shape of text: the operators are read from their own parts of the text, every listed connection is made
once, in order, between the named operators and ports, the entry operator and the output section are those of the text; or the
text is refused with an error.  Reading an operator and connecting two are under contract of their own: here they may answer
anything (fail, refuse)."""
import jsonv
from exe import BytesV
from jsonv import JsonV, JText, text_for, wrap
from program import blank, plain, kind, factory, program_hook, method_with, buffers_eq, stays
from spec import *


def obj(**k):
    return JsonV("obj", {a.rstrip("_"): wrap(b) for a, b in k.items()})


def arr(xs):
    return JsonV("arr", Seq([Elems(xs)] if xs else []))


OPS = [["a"], ["b", "a"], ["a", "z", "b"], ["a", "10", "9", "B"]]
# from, to, fromPort, toPort: by position in the list of operators; None: the member is left out
CONNS = [[], [(0, 0, None, None)], [(0, 1, "o1", "i1"), (1, 0, None, "c1")], [(1, 0, "o2", None), (0, 1, "o1", "i2"), (0, 1, "o1", "i2")],
         [(2, 0, "o1", "i1"), (0, 2, "o10", "i10"), (1, 2, "", "")], [(0, "nobody", None, None)], [("nobody", 0, "o1", "i1")]]
OUTPUTS = [None, {}, {"a": ["o1"]}, {"a": ["o1", "o2"], "b": ["o3"], "nobody": ["o1"]}, "wrong"]


def world(m, ctx):
    """A text and what the operators answer."""
    ids = OPS[ctx.choose(len(OPS))]
    ops = [obj(type="T", id=i, n=z3.Int(f"par_{j}")) for j, i in enumerate(ids)]
    cs = [c for c in CONNS if all(isinstance(x, str) or x < len(ids) for x in c_ends(c))]
    conn = cs[ctx.choose(len(cs))]
    js = []
    for f, t, fp, tp in conn:
        d = {"from": ids[f] if isinstance(f, int) else f, "to": ids[t] if isinstance(t, int) else t}
        if fp is not None:
            d["fromPort"] = fp
        if tp is not None:
            d["toPort"] = tp
        js.append(JsonV("obj", {k: wrap(v) for k, v in d.items()}))
    bad_op = ctx.choose(2) == 1 and len(ids) - 1
    c = ctx.choose(3) if conn else 0
    bad_conn = None if c == 0 else (len(conn) - 1, c)
    return ids, ops, conn, js, bad_op, bad_conn


def c_ends(c):
    return [x for a in c for x in a[:2]]


class Inner:
    """Operators that are read and connected: what was asked for is recorded."""

    def __init__(self, m, ctx, ids, ops, bad_op, bad_conn, control=False):
        self.m, self.ctx, self.ids, self.ops, self.made, self.links = m, ctx, ids, ops, [], []
        self.bad_op, self.bad_conn, self.control = bad_op, bad_conn, control
        m.hooks.update({"FactoryOp::readOp": self.read, "opaque:get": lambda m_, o, a, n: o, "opaque:connect": self.connect,
                        "opaque:hasControlInputs": lambda m_, o, a, n: self.control})

    def read(self, m, this, fn, args):
        t = plain(m, args[0])
        if not isinstance(t, JText):
            raise Unsupported("an operator read from another text")
        k = [j for j, x in enumerate(self.ops) if x.same(t.json)]
        m.ctx.oblige("an operator is read from its own part of the text", len(k) == 1, "post", note=str(t.json)[:200])
        if self.bad_op is not False and k == [self.bad_op]:
            raise CppThrow("readOp")
        self.made += k
        return Opaque("inner", {"id": self.ids[k[0]] if k else "?", "j": k[0] if k else None})

    def connect(self, m, o, args, n):
        a = [plain(m, x) for x in args]
        a += [""] * (3 - len(a))
        self.links.append((o.info["id"], a[0].info["id"] if isinstance(a[0], Opaque) else str(a[0]), a[1], a[2]))
        if self.bad_conn and len(self.links) - 1 == self.bad_conn[0]:
            if self.bad_conn[1] == 1:
                return Ptr(None)
            raise CppThrow("connect")
        return o

    def want(self, conn):
        name = lambda x: self.ids[x] if isinstance(x, int) else x
        return [(name(f), name(t), fp or "", tp or "") for f, t, fp, tp in conn]

    def unknown(self, conn):
        return any(isinstance(x, str) for x in c_ends(conn))

    def fails(self, conn):
        return self.bad_op is not False or self.unknown(conn) or bool(self.bad_conn)


def t_init(sh, P):
    def go(ctx):
        m = Machine(P, ctx)
        ids, ops, conn, js, bad_op, bad_conn = world(m, ctx)
        entry = [ids[0], ids[-1], "nobody", "", None][ctx.choose(5)]
        out = OUTPUTS[ctx.choose(len(OUTPUTS))] if bad_op is False and not bad_conn and entry == ids[0] else {"a": ["o1"]}
        control = entry in ids and ctx.choose(2) == 1
        d = {"operators": arr(ops), "connections": arr(js)}
        if entry is not None:
            d["entryOperator"] = wrap(entry)
        if isinstance(out, dict):
            d["output"] = JsonV("obj", {k: arr([wrap(x) for x in v]) for k, v in out.items()})
        elif out is not None:
            d["output"] = wrap(out)
        inner = Inner(m, ctx, ids, ops, bad_op, bad_conn, control)
        text = text_for(JsonV("obj", d))
        C = P.classes["Program"]
        k = [c for c in C.ctors if "string" in str([A.norm_type(p["type"]) for p in A.params(c)[:1]])]
        if len(k) != 1:
            raise Undecided("the constructor from a text")
        o = m.new(m.raw_object("Program"), "program")
        err = False
        try:
            m.construct_into(o, "Program", k[0], [m.new(text, "text")])
        except CppThrow:
            err = True
        refused = not entry or entry not in ids or control or inner.fails(conn)
        ctx.oblige("refused exactly when an operator, a connection or the entry operator is bad", err == refused, "post",
                   note=f"{ids} {conn} entry {entry} control {control} bad {bad_op} {bad_conn}: {'refused' if err else 'accepted'}")
        if err or refused:
            return
        f = m.read(o).f
        ctx.oblige("the text is kept", f["program_json"] == text, "post")
        ctx.oblige("the entry operator", f["entryOperator"] == entry, "post", note=str(f["entryOperator"]))
        eqv(m, "the output section", f["outputFilter"], MapV({k: Seq([Elems(v)] if v else [], "vector") for k, v in out.items()} if isinstance(out, dict) else {}))
        a = f["all_op"]
        ctx.oblige("the operators listed", isinstance(a, MapV) and a.keys() == sorted(ids), "post", note=str(a)[:200])
        ctx.oblige("each under its own id", all(isinstance(x, Opaque) and x.info.get("id") == i for i, x in a.d.items()), "post", note=str(a)[:200])
        ctx.oblige("each read once", sorted(inner.made) == list(range(len(ids))), "post", note=str(inner.made))
        ctx.oblige("the connections listed, in order", inner.links == inner.want(conn), "post", note=f"{inner.links} for {inner.want(conn)}")
    explore(sh, go, max_paths=6000)


def t_create_text(sh, P):
    """FactoryOp::createProgram(id, text): a program of the text, or a message when the text is no JSON."""
    def go(ctx):
        m = Machine(P, ctx)
        o, progs, b = factory(m, sh, ctx)
        made = []
        c = ctx.choose(3)        # 1: no JSON; 2: refused otherwise
        def hook(m_, ctor_type, argn):
            a = plain(m, m.ev(argn[0]))
            if isinstance(a, Opaque) and a.name == "program":
                return a
            made.append(a)
            if c == 1:
                raise jsonv.error("parse_error")
            if c == 2:
                raise CppThrow("Program")
            return Opaque("program", {"id": "made", "of": a})
        m.hooks["construct:Program"] = hook
        m.hooks["opaque:what"] = lambda m_, o_, a, n: jsonv.TaintStr("what")
        x = text_for(obj(a=1))
        before = field_snapshot(m, o)
        err = False
        try:
            r = plain(m, m.invoke("FactoryOp", create(P), o, ["p", m.new(x, "text")]))
        except CppThrow:
            err = True
        there = "p" in progs
        ctx.oblige("an error exactly when the program is refused for another reason than its syntax", not err if c != 2 else err or there, "post")
        stays(m, o, before, ("programs",))
        now = m.read(o.f("programs"))
        ok = not err and c == 0
        ctx.oblige("the other programs stay", now.keys() == sorted({*progs, *(["p"] if ok else [])}) and
                   all(same(now.d[i], before["programs"].d[i]) and now.d[i] is before["programs"].d[i] for i in progs), "post", note=str(now.keys()))
        if ok and not there:
            y = now.d["p"]
            ctx.oblige("made of the text", isinstance(y, Opaque) and "of" in y.info and y.info["of"] == x, "post")
            ctx.oblige("no message", r == "", "post", note=str(r))
        if not err and c == 1 and made:
            ctx.oblige("a message", isinstance(r, str) and r != "", "post", note=str(r))
    explore(sh, go)


def create(P):
    for x in P.classes["FactoryOp"].methods:
        ps = A.params(x)
        if x.get("name") == "createProgram" and len(ps) == 2 and "string" in str(ps[1]["type"]):
            return x
    raise Undecided("createProgram(id, text) not found")


# inner operators: data inputs, control inputs, outputs; connections: from, to, from port, to port (None: left out)
MANY = [str(k) for k in range(1, 12)]
PIPES = [
    ({"a": (["i1"], [], ["o1"]), "b": (["i1", "i2"], [], ["o1"])},
     [[], [("a", "b", None, "i1")], [("a", "b", "o1", "i2"), ("b", "a", None, None)], [("a", "b", "o1", "i1"), ("a", "b", "o1", "i2")]]),
    ({"d": (["i1"], ["c1"], ["o1", "o2"]), "b": (["i1"], [], ["o1"])},
     [[("b", "d", None, "c1")], [("d", "b", "o2", None)], [("b", "d", "", "i1"), ("d", "b", "o1", "i1")]]),
    ({"m": (["i" + k for k in MANY], [], ["o" + k for k in MANY])}, [[], [("m", "m", "o3", "i4"), ("m", "m", "o10", "i1")]]),
    ({"a": (["i1"], [], ["o1"]), "a1": (["i1"], [], ["o1"]), "A": ([], [], []), "": (["i1"], [], ["o1"])},
     [[], [("a", "a1", None, None)], [("a1", "a", None, "i1"), ("a", "", "o1", None)]]),
    ({"c": ([], ["c1", "c2"], ["o1"]), "v": (["i1"], ["c1"], ["o1"])}, [[("c", "v", None, "c1")], [("v", "c", None, "c2")]]),
]


def t_pipeline(sh, P):
    """The constructor of a pipeline: its ports are the inner ones nobody is connected to, in name order."""
    def go(ctx):
        m = Machine(P, ctx)
        shape, conns = PIPES[ctx.choose(len(PIPES))]
        conn = conns[ctx.choose(len(conns))]
        ids = list(shape)
        if len(ids) > 1 and ctx.choose(2) == 1:
            ids.reverse()
        ops = [obj(type="T", id=i, n=z3.Int(f"par_{j}")) for j, i in enumerate(ids)]
        js = []
        for f, t, fp, tp in conn:
            d = {"from": f, "to": t, **({"fromPort": fp} if fp is not None else {}), **({"toPort": tp} if tp is not None else {})}
            js.append(JsonV("obj", {k: wrap(v) for k, v in d.items()}))
        c = ctx.choose(3) if conn else 0
        bad = None if c == 0 else (len(conn) - 1, c)
        inner = Inner(m, ctx, ids, ops, False, bad)
        read = inner.read

        def made(m_, this, fn, args):
            r = read(m_, this, fn, args)
            d, k, o = shape[r.info["id"]]
            r.info.update({"dataInputs": MapV({p: Opaque("input") for p in d}), "controlInputs": MapV({p: Opaque("input") for p in k}),
                           "outputIds": SetV(o)})
            return r
        m.hooks["FactoryOp::readOp"] = made
        text = text_for(obj(operators=arr(ops), connections=arr(js)))
        C = P.classes["Pipeline"]
        k = [x for x in C.ctors if len(A.params(x)) == 2 and "json" in str(A.params(x)[1].get("name"))]
        k = k or [x for x in C.ctors if len(A.params(x)) == 2]
        if len(k) != 1:
            raise Undecided("the constructor from a text")
        o = m.new(m.raw_object("Pipeline"), "pipeline")
        err = False
        try:
            m.construct_into(o, "Pipeline", k[0], ["pipe", m.new(text, "text")])
        except CppThrow as e:
            err, why = True, e.what
        ctx.oblige("refused exactly when a connection is", err == bool(bad), "post", note=f"{conn} {bad}: {why if err else 'accepted'}")
        if err or bad:
            return
        ctx.oblige("the connections listed, in order", inner.links == inner.want(conn), "post", note=f"{inner.links} for {inner.want(conn)}")
        used_in = {f"{t}:{tp or shape[t][0][0]}" for f, t, fp, tp in conn}
        used_out = {f"{f}:{fp or shape[f][2][0]}" for f, t, fp, tp in conn}
        ins = sorted(f"{i}:{p}" for i in ids for p in shape[i][0] if f"{i}:{p}" not in used_in)
        outs = sorted(f"{i}:{p}" for i in ids for p in shape[i][2] if f"{i}:{p}" not in used_out)
        f = m.read(o).f
        op = lambda x: x.info.get("id") if isinstance(x, Opaque) and x.info else None
        for nm, want in (("inputs", ins), ("outputs", outs)):
            v = f[nm]
            ctx.oblige(f"the {nm}: the inner ports nobody is connected to", isinstance(v, MapV) and v.keys() == want, "post", note=f"{v} for {want}"[:200])
            ctx.oblige(f"the {nm}: each with its operator", all(op(x) == y.rsplit(":", 1)[0] for y, x in v.d.items()), "post", note=str(v)[:200])
        eqv(m, "the port names", f["portsMap"], MapV({**{f"i{j + 1}": x for j, x in enumerate(ins)}, **{x: f"o{j + 1}" for j, x in enumerate(outs)}}))
        eqv(m, "the outputs of the pipeline", f["outputIds"], SetV([f"o{j + 1}" for j in range(len(outs))]))
        ctx.oblige("the inputs of the pipeline", f["dataInputs"].keys() == sorted(f"i{j + 1}" for j in range(len(ins))), "post", note=str(f["dataInputs"].keys()))
        ctx.oblige("nothing else is an input, nothing is pending", not f["controlInputs"].d and not f["toProcess"].s, "post")
        ctx.oblige("the id and the text are kept", f["id"] == "pipe" and f["json_prog"] == text, "post")
        a = f["all_op"]
        ctx.oblige("the operators listed", isinstance(a, MapV) and a.keys() == sorted(ids) and all(op(x) == i for i, x in a.d.items()), "post", note=str(a)[:200])
        ctx.oblige("each read once", sorted(inner.made) == list(range(len(ids))), "post", note=str(inner.made))
    explore(sh, go, max_paths=3000)


def pipeline_tasks():
    return [("Pipeline.construct", kind(t_pipeline, "pipeline"))]


def init_tasks():
    return [("Program.init", kind(t_init)), ("FactoryOp.createProgram.text", kind(t_create_text, "factory"))]
