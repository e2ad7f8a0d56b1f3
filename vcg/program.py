"""P13, P16, P17: programs and their message buffers.

P16  receiveDebug: every message of every port reaches the entry operator, in order, each followed by one execution, and the
     result is what the executions answered, merged in order (an answer may be empty).  receive: the restriction of it.
P17  the buffers of the factory: what each call does to the buffers of its own program and to those of the others.
P13  serialize writes the text and the saved state of every operator; Program(bytes) gives every operator its own state back.
The entry operator, inner operators and programs (P17) are unknown: they may answer anything."""
from exe import BytesIt, BytesV
import re
import saved as saved_m
from spec import *
import z3


def blank(m, cls, **f):
    v = {}
    for k, fd in m.P.all_fields(cls):
        v[fd["name"]] = m.default(A.norm_type(fd["type"]))
    for k in f:
        if k not in v:
            raise Undecided(f"no member {k} in {cls}")
    v.update(f)
    return m.new(Rec(cls, v), cls)


def plain(m, v):
    return m.read(v) if isinstance(v, Loc) else v


def kind(f, k="program"):
    def g(sh, P):
        return f(sh, P)
    g.kind = k
    return g


def stays(m, o, before, but=(), name=""):
    for k, v in m.read(o).f.items():
        if k not in but:
            eqv(m, f"{name}{k} stays", v, before[k])


# ---- P16 -------------------------------------------------------------------------------------------------------------------
PORTS = [[], ["i1"], ["i1", "i2"], ["i1", "i10", "i2"]]


def t_debug(sh, P):
    def go(ctx):
        m = Machine(P, ctx)
        E = z3.Function("silent", z3.IntSort(), z3.BoolSort())
        off = z3.Function("answers", z3.IntSort(), z3.IntSort())
        ctx.add_fact(Fact("answers", ["answers"], lambda i: z3.And(
            off(0) == 0, off(i) >= 0, z3.Implies(i >= 1, off(i) == off(i - 1) + z3.If(E(i - 1), 0, 1)),
            z3.Implies(i >= 0, off(i + 1) == off(i) + z3.If(E(i), 0, 1)))))
        m.hooks["default"] = lambda m_, t: Rec("answers", {"n": 0}) if len(re.findall(r"\bmap<", t)) == 2 and "Message" in t else NotImplemented
        entry = Opaque("inner", {"id": "in"})
        there = ctx.choose(2) == 1
        o = blank(m, "Program", program_json="text", entryOperator="in",
                  all_op=MapV({"a": Opaque("inner", {"id": "a"}), **({"in": entry} if there else {})}),
                  outputFilter=MapV({"a": Seq([Elems(["o1"])], "vector")}))
        trace, runs, got, ran = m.new(Seq(), "ghost:received"), m.new(Seq(), "ghost:runs"), m.new(0, "ghost:got"), m.new(0, "ghost:ran")

        def log(where, e):
            m.write(where, m.seq_concat(m.read(where), Seq([Elems([e])])))

        def receive(m_, op, args, n):
            a = [plain(m, x) for x in args]
            m.ctx.oblige("only the entry operator receives", op is entry, "post", note=str(op.info))
            m.write(got, add(m.read(got), 1))
            log(trace, step(a[1], a[0].f["time"], a[0].f["value"]))

        def execute(m_, op, args, n):
            m.ctx.oblige("only the entry operator is executed", op is entry, "post", note=str(op.info))
            k = m.read(ran)
            m.write(ran, add(k, 1))
            log(runs, Rec("run", {"after": m.read(got)}))
            return Rec("answer", {"k": k})

        def empty(m_, loc, v, argn, n):
            return E(Z(v.f["k"])) if v.cls == "answer" else eq(v.f["n"], 0)

        def merge(m_, this, fn, args):
            a, b = plain(m, args[0]), plain(m, args[1])
            if not (isinstance(a, Rec) and a.cls == "answers" and isinstance(b, Rec) and b.cls == "answer"):
                raise Unsupported("merging other than an answer into the result")
            m.ctx.oblige("answers are merged in the order in which they were given", eq(a.f["n"], off(Z(b.f["k"]))), "post")
            m.write(args[0], Rec("answers", {"n": off(Z(add(b.f["k"], 1)))}))
        m.hooks.update({"opaque:receiveData": receive, "opaque:executeData": execute, "std:Rec.empty": empty, "mergeOutput": merge})
        ports = PORTS[ctx.choose(len(PORTS))]
        cnt = {}
        batch = {}
        for p in ports:
            cnt[p] = z3.Int("n_" + p)
            ctx.assume(cnt[p] >= 0)
            batch[p] = Hist(sh, "h" + p).win(0, cnt[p], "vector")
        arg = m.new(MapV(batch), "messages")
        before = field_snapshot(m, o)
        err = False
        try:
            r = plain(m, m.call_method(o, "receiveDebug", [arg]))
        except CppThrow:
            err = True
        ctx.oblige("an error exactly without entry operator", err == (not there), "post")
        stays(m, o, before)
        eqv(m, "the messages are not changed", m.read(arg), MapV(batch))
        if err:
            ctx.oblige("nothing is delivered", same(m.read(trace), Seq()) and same(m.read(runs), Seq()), "post")
            return
        total = 0
        segs = []
        for p in ports:
            h = Hist(sh, "h" + p)
            segs.append(Sym(sh.base("steps_" + p, lambda j, h=h, p=p: step(p, h.t(j), h.v(j))), 0, cnt[p]))
            total = add(total, cnt[p])
        eqv(m, "delivered", m.read(trace), Seq(segs))
        eqv(m, "executed after every message", m.read(runs), Seq([Sym(sh.base("runs", lambda j: Rec("run", {"after": add(j, 1)})), 0, total)] if ports else []))
        ctx.oblige("one execution per message", eq(m.read(ran), total), "post")
        ok = isinstance(r, Rec) and r.cls == "answers"
        ctx.oblige("what was answered is returned", ok, "post", note=str(r)[:200])
        if ok:
            ctx.oblige("all of what was answered is returned", eq(r.f["n"], off(Z(total))), "post")
    explore(sh, go, max_paths=3000)


def step(p, t, v):
    return Rec("step", {"port": Opaque("port " + p), "time": t, "value": v})


FILTERS = [{}, {"a": ["o1"]}, {"a": ["o1", "o2"], "b": ["o1"]}, {"a": ["o2", "o1", "o2"]}, {"zz": ["o1"], "b": ["zz", "o1"]}, {"a": [], "b": ["o2"]},
           {"a": ["o1", "o10", "o2", "zz"], "b": ["o10"], "c": ["o1"]}]


def t_filter(sh, P):
    """receive, over any result of receiveDebug."""
    def go(ctx):
        m = Machine(P, ctx)
        flt = FILTERS[ctx.choose(len(FILTERS))]
        o = blank(m, "Program", program_json="text", entryOperator="in", all_op=MapV({"in": Opaque("inner", {"id": "in"})}),
                  outputFilter=MapV({k: Seq([Elems(v)] if v else [], "vector") for k, v in flt.items()}))
        c = ctx.choose(4)
        ports = [{}, {"a": ["o1"]}, {"a": ["o1", "o10", "o2"], "b": ["o1", "o2"]}, {"b": ["o1", "zz"], "in": ["o1"], "zz": ["o1", "o2"]}][c]
        res = {}
        for i, ps in ports.items():
            res[i] = {}
            for p in ps:
                n = z3.Int(f"n_{i}_{p}")
                ctx.assume(n >= 0)
                res[i][p] = Hist(sh, f"r_{i}_{p}").win(0, n, "vector")
        arg = m.new(MapV({"i1": Hist(sh, "h").win(0, z3.Int("nmsg"), "vector")}), "messages")
        asked = []
        fails = ctx.choose(2) == 1

        def debug(m_, this, fn, args):
            asked.append((this, plain(m, args[0])))
            if fails:
                raise CppThrow("receiveDebug")
            return MapV({i: MapV(d) for i, d in res.items()})
        m.hooks["Program::receiveDebug"] = debug
        before = field_snapshot(m, o)
        err = False
        try:
            r = plain(m, m.call_method(o, "receive", [arg]))
        except CppThrow:
            err = True
        ctx.oblige("an error exactly when the messages raise one", err == fails, "post")
        ctx.oblige("the messages are processed once, as they are", len(asked) == 1 and asked[0][0] == o and same(asked[0][1], m.read(arg)), "post")
        stays(m, o, before)
        if err:
            return
        want = res if not flt else {i: {p: res[i][p] for p in res[i] if p in flt.get(i, [])} for i in res}
        want = {i: d for i, d in want.items() if d}
        ctx.oblige("the operators listed", isinstance(r, MapV) and r.keys() == sorted(want), "post", note=f"{r} for {sorted(want)}"[:200])
        for i in want:
            if i in r.d:
                ctx.oblige("the ports listed", r.d[i].keys() == sorted(want[i]), "post", note=f"{r.d[i].keys()} for {sorted(want[i])}")
                for p in want[i]:
                    if p in r.d[i].d:
                        eqv(m, "the messages of a listed port", r.d[i].d[p], want[i][p])
    explore(sh, go, max_paths=3000)


def t_query(what):
    """What a program says about itself: its entry operator, the data ports of that, its output section."""
    def run(sh, P):
        def go(ctx):
            m = Machine(P, ctx)
            entry = Opaque("inner", {"id": "in"})
            there = ctx.choose(2) == 1
            name = ["in", ""][ctx.choose(2)]
            fails = ctx.choose(2) == 1
            flt = MapV({"a": Seq([Elems(["o1", "o2"])], "vector"), "b": Seq((), "vector")})
            ports = Seq([Elems(["i1", "i10", "i2"])], "vector")
            o = blank(m, "Program", program_json="text", entryOperator=name, outputFilter=flt,
                      all_op=MapV({"a": Opaque("inner", {"id": "a"}), **({"in": entry} if there else {})}))
            asked = []

            def inputs(m_, op, args, n):
                asked.append(op)
                if fails:
                    raise CppThrow("getDataInputs")
                return ports
            m.hooks["opaque:getDataInputs"] = inputs
            before = field_snapshot(m, o)
            err = False
            try:
                r = plain(m, m.call_method(o, what, []))
            except CppThrow:
                err = True
            stays(m, o, before)
            if what == "getProgramEntryPorts":
                ok = there and name == "in"
                ctx.oblige("an error exactly without entry operator", err == (not ok or fails), "post")
                ctx.oblige("the entry operator is asked", all(x is entry for x in asked) and (not ok or bool(asked)), "post")
            else:
                ctx.oblige("no error", not err, "post")
            if not err:
                eqv(m, "the answer", r, {"getProgramEntryPorts": ports, "getProgramEntryOperatorId": name, "getProgramOutputFilter": flt}[what])
        explore(sh, go)
    return run


def t_ask(what, answer):
    """The same question through the factory."""
    def run(sh, P):
        def go(ctx):
            m = Machine(P, ctx)
            o, progs, b = factory(m, sh, ctx)
            fails, asked = ctx.choose(2) == 1, []

            def h(m_, op, args, n):
                asked.append(op.info["id"])
                if fails:
                    raise CppThrow(what)
                return answer()
            m.hooks["opaque:" + what] = h
            before = field_snapshot(m, o)
            err = False
            try:
                r = plain(m, m.call_method(o, what, ["p"]))
            except CppThrow:
                err = True
            ctx.oblige("an error exactly for an unknown program or when it raises one", err == ("p" not in progs or fails), "post")
            stays(m, o, before, ("messageBuffer",))
            buffers_eq(m, "the buffers stay", m.read(o.f("messageBuffer")), b)
            ctx.oblige("the program is asked", set(asked) == ({"p"} if "p" in progs else set()), "post", note=str(asked))
            if not err:
                eqv(m, "the answer of the program is returned", r, answer())
        explore(sh, go)
    return run


QUERIES = {"getProgramEntryOperatorId": lambda: "in", "getProgramEntryPorts": lambda: Seq([Elems(["i1", "i2"])], "vector"),
           "getProgramOutputFilter": lambda: MapV({"a": Seq([Elems(["o1"])], "vector"), "b": Seq((), "vector")})}


def p16():
    return [("Program.receiveDebug", kind(t_debug)), ("Program.receive", kind(t_filter))] + \
        [(f"Program.{q}", kind(t_query(q))) for q in QUERIES] + [(f"FactoryOp.{q}", kind(t_ask(q, a))) for q, a in QUERIES.items()]


# ---- P17 -------------------------------------------------------------------------------------------------------------------
def buf(sh, ctx, name, ports):
    out = {}
    for p in ports:
        n = z3.Int(f"n_{name}_{p}")
        ctx.assume(n >= 0)
        out[p] = Hist(sh, f"{name}_{p}").win(0, n, "vector")
    return MapV(out)


def factory(m, sh, ctx):
    """A factory with any of the programs p and q, and any buffers for programs that are there."""
    progs = [["p", "q"], ["p"], ["q"], [], ["p", "p2", "q"]][ctx.choose(5)]
    o = blank(m, "FactoryOp", programs=MapV({i: Opaque("program", {"id": i}) for i in progs}))
    b = {}
    if "q" in progs:
        b["q"] = buf(sh, ctx, "q", ["i1", "i2"])
    if "p2" in progs:
        b["p2"] = buf(sh, ctx, "p2", ["i1"])
    if "p" in progs:
        c = ctx.choose(4)
        if c:
            b["p"] = buf(sh, ctx, "p", [[], ["i1"], ["i1", "i2"]][c - 1])
    m.write(o.f("messageBuffer"), MapV(b))
    return o, progs, b


def buffers_eq(m, name, got, want):
    """The buffered messages, port by port; absent is the same as empty."""
    ctx = m.ctx
    if not isinstance(got, MapV):
        raise Undecided("representation of the buffers")
    for i in sorted(set(got.d) | set(want)):
        a, b = got.d.get(i, MapV()), want.get(i, MapV())
        for p in sorted(set(a.d) | set(b.d)):
            x, y = a.d.get(p, Seq((), "vector")), b.d.get(p, Seq((), "vector"))
            eqv(m, f"{name}", x, y)


def t_addbuf(sh, P):
    def go(ctx):
        m = Machine(P, ctx)
        o, progs, b = factory(m, sh, ctx)
        port = ("i1", "i2", "i9")[ctx.choose(3)]
        x = msg(z3.Int("mt"), z3.Real("mv"))
        before = field_snapshot(m, o)
        err = False
        try:
            r = plain(m, m.call_method(o, "addToMessageBuffer", ["p", port, x]))
        except CppThrow:
            err = True
        ctx.oblige("an error exactly for an unknown program", err == ("p" not in progs), "post")
        stays(m, o, before, ("messageBuffer",))
        want = dict(b)
        if not err:
            ctx.oblige("true is returned", same(boolv(r), True), "post")
            d = dict(b["p"].d) if "p" in b else {}
            d[port] = m.seq_concat(d.get(port, Seq((), "vector")), Seq([Elems([x])]))
            want["p"] = MapV(d)
        buffers_eq(m, "the buffered messages", m.read(o.f("messageBuffer")), want)
    explore(sh, go, max_paths=3000)


def t_process(debug):
    def run(sh, P):
        def go(ctx):
            m = Machine(P, ctx)
            o, progs, b = factory(m, sh, ctx)
            asked = []
            c = ctx.choose(3)
            answer = MapV({} if c else {"op": MapV({"o1": Hist(sh, "answer").win(0, z3.Int("nanswer"), "vector")})})
            name = "receiveDebug" if debug else "receive"

            def receive(which):
                def h(m_, op, args, n):
                    asked.append((which, op.info["id"], plain(m, args[0])))
                    if c == 2:
                        raise CppThrow("receive")
                    return answer
                return h
            m.hooks.update({"opaque:receive": receive("receive"), "opaque:receiveDebug": receive("receiveDebug")})
            before = field_snapshot(m, o)
            err = False
            try:
                r = plain(m, m.call_method(o, "processMessageBuffer" + ("Debug" if debug else ""), ["p"]))
            except CppThrow:
                err = True
            there = "p" in progs
            ctx.oblige("an error for an unknown program, and when processing raises one", err == (not there or (c == 2 and bool(asked))), "post")
            stays(m, o, before, ("messageBuffer",))
            fed = b.get("p", MapV())
            if any(n != name or i != "p" for n, i, _ in asked):
                ctx.oblige("only the program itself is fed", False, "post", note=str(asked)[:200])
            if fed.d:
                ctx.oblige("the program is fed once", len(asked) == 1, "post", note=str(asked)[:200])
            for _, _, x in asked:
                buffers_eq(m, "the program is fed what was buffered for it", MapV({"p": x}), {"p": fed} if len(asked) == 1 else {})
            buffers_eq(m, "the buffers left", m.read(o.f("messageBuffer")), {i: x for i, x in b.items() if i != "p"})
            if not err:
                eqv(m, "the answer of the program is returned", r, answer if asked else MapV())
        explore(sh, go, max_paths=3000)
    return run


def t_map(debug):
    """processMessageMap: straight to the program; the buffers are not involved."""
    def run(sh, P):
        def go(ctx):
            m = Machine(P, ctx)
            o, progs, b = factory(m, sh, ctx)
            asked = []
            answer = MapV({"op": MapV({"o1": Hist(sh, "answer").win(0, z3.Int("nanswer"), "vector")})})
            fails = ctx.choose(2) == 1

            def receive(which):
                def h(m_, op, args, n):
                    asked.append((which, op.info["id"], plain(m, args[0])))
                    if fails:
                        raise CppThrow("receive")
                    return answer
                return h
            m.hooks.update({"opaque:receive": receive("receive"), "opaque:receiveDebug": receive("receiveDebug")})
            x = m.new(buf(sh, ctx, "x", ["i1", "i2"]), "messages")
            before = field_snapshot(m, o)
            err = False
            try:
                r = plain(m, m.call_method(o, "processMessageMap" + ("Debug" if debug else ""), ["p", x]))
            except CppThrow:
                err = True
            there = "p" in progs
            ctx.oblige("an error exactly when processing raises one", err == (there and fails), "post")
            stays(m, o, before, ("messageBuffer",))
            buffers_eq(m, "the buffers stay", m.read(o.f("messageBuffer")), b)
            ctx.oblige("the program is fed once", [(n, i) for n, i, _ in asked] == ([("receiveDebug" if debug else "receive", "p")] if there else []), "post")
            for _, _, y in asked:
                eqv(m, "the program is fed the messages", y, m.read(x))
            if not err:
                eqv(m, "the answer of the program is returned", r, answer if there else MapV())
        explore(sh, go, max_paths=3000)
    return run


def t_delete(sh, P):
    def go(ctx):
        m = Machine(P, ctx)
        o, progs, b = factory(m, sh, ctx)
        before = field_snapshot(m, o)
        try:
            r = plain(m, m.call_method(o, "deleteProgram", ["p"]))
        except CppThrow as e:
            ctx.oblige("no error raised", False, "safety", note=e.what)
            return
        ctx.oblige("whether it existed", same(boolv(r), "p" in progs), "post", note=str(r))
        stays(m, o, before, ("programs", "messageBuffer"))
        got = m.read(o.f("programs"))
        ctx.oblige("the other programs stay", got.keys() == [i for i in progs if i != "p"] and
                   all(same(got.d[i], before["programs"].d[i]) for i in got.d), "post", note=str(got.keys()))
        buffers_eq(m, "the buffers of the others stay, its own is gone", m.read(o.f("messageBuffer")), {i: x for i, x in b.items() if i != "p"})
    explore(sh, go, max_paths=3000)


def p17():
    return [("addToMessageBuffer", kind(t_addbuf)), ("processMessageBuffer", kind(t_process(False))),
            ("processMessageBufferDebug", kind(t_process(True))), ("processMessageMap", kind(t_map(False))),
            ("processMessageMapDebug", kind(t_map(True))), ("deleteProgram", kind(t_delete))]


# ---- P13 -------------------------------------------------------------------------------------------------------------------
IDS = [[], ["a"], ["a", "bb"], ["a", "b" * 40, "c10", "c2"], ["a" * 300, "", "x:y"]]


def text_of(m, ctx, name):
    """The text of a program: nothing is known about it but its length."""
    n = z3.Int("len_" + name)
    ctx.assume(n >= 0)
    t = Opaque(name, {"size": n})
    t.info["text"] = t
    m.hooks["opaque:size"] = lambda m_, o, args, node: o.info["size"]
    m.hooks["opaque:length"] = m.hooks["opaque:size"]
    m.hooks["opaque:begin"] = lambda m_, o, args, node: ("stritt", o, "begin")
    m.hooks["opaque:end"] = lambda m_, o, args, node: ("stritt", o, "end")
    m.hooks["opaque:cbegin"], m.hooks["opaque:cend"] = m.hooks["opaque:begin"], m.hooks["opaque:end"]
    return t


def t_saved(sh, P):
    def go(ctx):
        m = Machine(P, ctx)
        ids = IDS[ctx.choose(len(IDS))]
        text = text_of(m, ctx, "the text of the program")
        state = {i: Opaque("state of " + i, {"size": z3.Int("size_" + i)}) for i in ids}
        for i in ids:
            ctx.assume(z3.Int("size_" + i) >= 0)
        old = MapV({i: Opaque("inner", {"id": i, "of": "saved"}) for i in ids})
        new = MapV({i: Opaque("inner", {"id": i, "of": "new"}) for i in ids})
        o = blank(m, "Program", program_json=text, entryOperator="in", all_op=old, outputFilter=MapV({"a": Seq([Elems(["o1"])], "vector")}))
        collected, restored, inits = [], [], []

        def collect(m_, op, args, n):
            collected.append((op.info["id"], op.info["of"]))
            return BytesV((("op", state[op.info["id"]]),))

        def restore(m_, op, args, n):
            it = m.bytes_norm(m.read(args[0]))
            p = it.bytes.ps[it.i] if it.i < len(it.bytes.ps) else None
            ok = p is not None and p[0] == "op" and p[1] is state[op.info["id"]] and op.info["of"] == "new"
            m.ctx.oblige("every operator gets back its own saved state", ok, "post", note=f"{op.info}: {p}"[:200])
            restored.append(op.info["id"])
            m.write(args[0], m.bytes_next(it))

        def init(m_, this, fn, args):
            """The contract of init: the program its text says (Program.init proves it of the body)."""
            x = m.read(this.f("program_json"))
            ok = isinstance(x, Opaque) and x is text
            m.ctx.oblige("the program is created from the saved text", ok, "post", note=str(x)[:200])
            m.ctx.oblige("the program is created before any state is given back", not restored and not inits, "post")
            inits.append(this)
            m.write(this.f("all_op"), new)
            m.write(this.f("entryOperator"), "in")
            m.write(this.f("outputFilter"), m.read(o.f("outputFilter")))
        m.hooks.update({"opaque:collect": collect, "opaque:restore": restore, "Program::init": init})
        before = field_snapshot(m, o)
        try:
            b = plain(m, m.call_method(o, "serialize", []))
            if not isinstance(b, BytesV):
                raise Undecided("serialize returns no byte string")
            ctx.oblige("every operator is saved once", sorted(collected) == [(i, "saved") for i in sorted(ids)], "post", note=str(collected)[:200])
            stays(m, o, before)
            ctx.oblige("the text is saved", any(not isinstance(p, Rep) and p[0] == "op" and p[1] is text for p in b.ps), "post")
            C = P.classes["Program"]
            k = [c for c in C.ctors if "Bytes" in str(A.params(c)[:1])]
            if len(k) != 1:
                raise Undecided("the constructor from saved bytes")
            o2 = m.new(m.raw_object("Program"), "restored")
            m.construct_into(o2, "Program", k[0], [m.new(b, "bytes")])
        except CppThrow as e:
            ctx.oblige("no error raised", False, "safety", note=e.what)
            return
        ctx.oblige("the program is created once", inits == [o2], "post")
        ctx.oblige("every operator is restored once", sorted(restored) == sorted(ids), "post", note=str(restored)[:200])
        for f, v in m.read(o2).f.items():
            eqv(m, f"restored {f}", v, new if f == "all_op" else before[f])
    explore(sh, go)


def t_factory_saved(sh, P):
    """FactoryOp::serialize and createProgram(id, bytes)."""
    def go(ctx):
        m = Machine(P, ctx)
        progs = [["p", "q"], ["q"], []][ctx.choose(3)]
        o = blank(m, "FactoryOp", programs=MapV({i: Opaque("program", {"id": i}) for i in progs}),
                  messageBuffer=MapV({"q": buf(sh, ctx, "q", ["i1"])} if "q" in progs else {}))
        asked = []
        b = BytesV((("op", Opaque("saved", {"size": z3.Int("nbytes")})),))
        m.hooks["opaque:serialize"] = lambda m_, op, args, n: asked.append(op.info["id"]) or b
        before = field_snapshot(m, o)
        err = False
        try:
            r = plain(m, m.call_method(o, "serialize", ["p"]))
        except CppThrow:
            err = True
        ctx.oblige("an error exactly for an unknown program", err == ("p" not in progs), "post")
        ctx.oblige("the program is saved once", asked == ([] if err else ["p"]), "post", note=str(asked))
        stays(m, o, before)
        if not err:
            eqv(m, "its bytes are returned", r, b)
    explore(sh, go)


def program_hook(made, fails, text=False):
    """A program made of bytes or of a text, by the contract of its constructors; a moved one stays the same."""
    def h(m, ctor_type, argn):
        a = plain(m, m.ev(argn[0]))
        if isinstance(a, Opaque) and a.name == "program":
            return a
        made.append(a)
        if fails:
            raise CppThrow("json::parse_error" if text else "Program")
        return Opaque("program", {"id": "made", "of": a})
    return h


def t_create_bytes(sh, P):
    """createProgram(id, bytes): a program made of the bytes, or an error for a used id."""
    def go(ctx):
        m = Machine(P, ctx)
        o, progs, b = factory(m, sh, ctx)
        made = []
        fails = ctx.choose(2) == 1
        m.hooks["construct:Program"] = program_hook(made, fails)
        x = BytesV((("op", Opaque("saved", {"size": z3.Int("nbytes")})),))
        before = field_snapshot(m, o)
        err = False
        try:
            r = plain(m, m.invoke("FactoryOp", method_with(P, "FactoryOp", "createProgram", "Bytes"), o, ["p", m.new(x, "bytes")]))
        except CppThrow:
            err = True
        ctx.oblige("an error exactly for a used id or bad bytes", err == ("p" in progs or fails), "post")
        stays(m, o, before, ("programs",))
        now = m.read(o.f("programs"))
        ctx.oblige("the other programs stay", now.keys() == sorted(progs if err else [*progs, "p"]) and
                   all(same(now.d[i], before["programs"].d[i]) for i in progs), "post", note=str(now.keys()))
        if not err:
            y = now.d["p"]
            ctx.oblige("made once, of the bytes", len(made) == 1 and same(made[0], x) and isinstance(y, Opaque) and "of" in y.info, "post")
            ctx.oblige("the id is returned", r == "p", "post", note=str(r))
    explore(sh, go)


def method_with(P, cls, name, sig):
    for x in P.classes[cls].methods:
        t = x["type"]
        if x.get("name") == name and any(sig in str(A.params(x)[i]["type"]) for i in range(len(A.params(x)))):
            return x
    raise Undecided(f"{cls}::{name}({sig}) not found")


def p13():
    return [("Program.saved", kind(t_saved)), ("FactoryOp.serialize", kind(t_factory_saved, "factory")),
            ("FactoryOp.createProgram.bytes", kind(t_create_bytes, "factory"))]
