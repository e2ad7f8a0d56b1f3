"""P13, P16, P17, P21: the functions the language wrappers call (bindings.cpp).

Each is one call of the factory with the arguments it was given, and answers what the factory answers (as JSON text).  A batch
is added message by message, in order: message i is (times[i], values[i]) for port ports[i].  A program is created from a text
only if the schema validator accepts the text; otherwise the answer says so with the message of the validator and nothing is
created.  The factory is known by its contract only (P13, P16, P17): it may answer anything or raise an error.  The validator is
a library: it may accept or reject anything."""
import z3
from spec import *
from program import plain, kind
from jsonv import JsonV, JText, TaintStr
import jsonv


def fn(m, name, *sig):
    """The function of the bindings with these parameter types."""
    r = [f for f in m.P.functions.get(name, []) if A.body(f) and len(A.params(f)) == len(sig) and "template" not in str(f.get("kind")).lower()
         and all(s in A.norm_type(p["type"]) or s in p["type"]["qualType"] for s, p in zip(sig, A.params(f)))]
    if len(r) != 1:
        raise Undecided(f"function {name}{sig} of the bindings: {len(r)} found")
    return r[0]


def call(m, f, args):
    from exe import Frame
    m.ctx.sh.functions.add(f["name"])
    return plain(m, m.run_body(Frame(f, None, ""), f, args))


def machine(P, ctx):
    m = Machine(P, ctx)
    ctx.sh.trusted.add("bindings.cpp is parsed with stand-ins (driver/shim) for the two headers that are not in this tree: the schema "
                       "validator library and the generated schema; nothing of their content is used")
    fac = m.new(Opaque("factory"), "factory")
    m.hooks["global:factory"] = lambda m_: fac
    return m


class Answer:
    """What the factory answers: an error or a value."""

    def __init__(self, m, names, answer, errors=True):
        self.m, self.log, self.fails, self.answer = m, [], errors and m.ctx.choose(2) == 1, answer
        for n in names:
            m.hooks["opaque:" + n] = self.hook(n)

    def hook(self, name):
        def h(m_, op, args, n):
            self.log.append((name, [plain(m_, a) for a in args]))
            if self.fails:
                raise CppThrow("factory." + name)
            return self.answer
        return h


FACTORY = ["createProgram", "deleteProgram", "addToMessageBuffer", "processMessageBuffer", "processMessageBufferDebug", "processMessageMap",
           "processMessageMapDebug", "serialize", "getProgramEntryOperatorId", "getProgramEntryPorts", "getProgramOutputFilter"]


def one_call(name, sig, args, callee, answer, result):
    """name(args) is callee(args) of the factory; its answer is returned as `result` says."""
    def run(sh, P):
        def go(ctx):
            m = machine(P, ctx)
            a = args(m, sh, ctx)
            ans = answer(m, sh, ctx)
            f = Answer(m, FACTORY, ans)
            want = [plain(m, x) for x in a]
            err = False
            try:
                r = call(m, fn(m, name, *sig), a)
            except CppThrow:
                err = True
            ctx.oblige("one call of the factory", [n for n, _ in f.log] == [callee], "post", note=str(f.log)[:200])
            for n, got in f.log[:1]:
                if n == callee:
                    ctx.oblige("all arguments", len(got) == len(want), "post")
                    for x, y in zip(got, want):
                        eqv(m, "argument", x, y)
            ctx.oblige("an error exactly when the factory raises one", err == f.fails, "post")
            if not err:
                result(m, ctx, r, ans)
        explore(sh, go, max_paths=3000)
    return run


def as_json(m, ctx, r, ans):
    ok = isinstance(r, JText)
    ctx.oblige("the answer is returned as JSON text", ok, "post", note=str(r)[:200])
    if ok:
        ctx.oblige("the whole answer is returned", r.json.same(jsonv.wrap(ans)), "post", note=f"{r.json} for {ans}"[:300])


def as_is(m, ctx, r, ans):
    eqv(m, "the answer is returned", r, ans)


def as_text(m, ctx, r, ans):
    ctx.oblige("the answer is returned as 0 or 1", r == str(int(ans)), "post", note=f"{r} for {ans}")


def nothing(m, ctx, r, ans):
    pass


def text(name):
    return Opaque(name)


PID = lambda m, sh, ctx: ["p"]
MAP = lambda m, sh, ctx: ["p", m.new(MapV({"i1": hist(sh, ctx, "m1"), "i2": hist(sh, ctx, "m2")}), "messages")]
FLAG = lambda m, sh, ctx: ctx.choose(2) == 1
STRINGS = lambda m, sh, ctx: Seq([Elems(["i1", "i10", "i2"])], "vector")


def hist(sh, ctx, name):
    n = z3.Int("n_" + name)
    ctx.assume(n >= 0)
    return Hist(sh, name).win(0, n, "vector")


def result(m, sh, ctx):
    return [MapV(), MapV({"a": MapV({"o1": hist(sh, ctx, "r1"), "o2": hist(sh, ctx, "r2")}), "b": MapV({"o1": hist(sh, ctx, "r3")})})][ctx.choose(2)]


# ---- batches ---------------------------------------------------------------------------------------------------------------
def t_batch(name, process):
    """addBatchToMessageBuffers, processBatch, processBatchDebug: any number of messages."""
    def run(sh, P):
        def go(ctx):
            m = machine(P, ctx)
            n = [z3.Int(f"n_{x}") for x in ("times", "values", "ports")]
            for x in n:
                ctx.assume(x >= 0)
            T, V, S = z3.Function("t", z3.IntSort(), z3.IntSort()), z3.Function("v", z3.IntSort(), z3.RealSort()), None
            K = z3.Function("port", z3.IntSort(), z3.IntSort())
            from sym import Base
            times = Seq([Sym(sh.base("times", lambda j: T(Z(j))), 0, n[0])], "vector")
            values = Seq([Sym(sh.base("values", lambda j: V(Z(j))), 0, n[1])], "vector")
            ports = Seq([Sym(sh.base("ports", lambda j: Rec("port", {"k": K(Z(j))})), 0, n[2])], "vector")
            ctx.add_fact(Fact("times", ["t"], lambda i: T(i) >= 0))
            trace = m.new(Seq(), "ghost:added")
            unknown = ctx.choose(2) == 1
            processed = []
            fails = ctx.choose(2) == 1 if process else False
            ans = result(m, sh, ctx) if process else None

            def add_(m_, op, args, node):
                a = [plain(m_, x) for x in args]
                ok = len(a) == 3 and a[0] == "p" and isinstance(a[1], Rec) and a[1].cls == "port" and not processed
                m_.ctx.oblige("added to the program named, before it is processed", ok, "post", note=str(a)[:200])
                if unknown:
                    raise CppThrow("unknown program")
                m_.write(trace, m_.seq_concat(m_.read(trace), Seq([Elems([Rec("added", {"port": a[1].f["k"], "time": a[2].f["time"], "value": a[2].f["value"]})])])))
                return True

            def process_(which):
                def h(m_, op, args, node):
                    processed.append((which, plain(m_, args[0])))
                    if fails or unknown:
                        raise CppThrow(which)
                    return ans
                return h
            m.hooks["opaque:addToMessageBuffer"] = add_
            for w in ("processMessageBuffer", "processMessageBufferDebug"):
                m.hooks["opaque:" + w] = process_(w)
            a = ["p", m.new(times, "times"), m.new(values, "values"), m.new(ports, "ports")]
            err = False
            r = None
            try:
                r = call(m, fn(m, name, "string", "vector", "vector", "vector"), a)
            except CppThrow:
                err = True
            same_n = z3.And(n[0] == n[1], n[0] == n[2])
            if unknown:
                eqv(m, "nothing is added for an unknown program", m.read(trace), Seq())
                if process:
                    ctx.oblige("an error for an unknown program", err, "post")
                else:
                    ctx.oblige("an error for an unknown program", boolv(err) if not err else True, "post") if ctx.proves(z3.And(same_n, n[0] > 0)) else None
                return
            if err and not processed:
                ctx.oblige("no error for vectors of the same length", z3.Not(same_n), "post")
                eqv(m, "nothing is added when the lengths differ", m.read(trace), Seq())
                return
            ctx.oblige("an error for vectors of different lengths", same_n, "post")
            want = Seq([Sym(sh.base("added", lambda j: Rec("added", {"port": K(Z(j)), "time": T(Z(j)), "value": V(Z(j))})), 0, n[0])])
            eqv(m, "added", m.read(trace), want)
            if process:
                ctx.oblige("the program is processed once, after that", processed == [(process, "p")], "post", note=str(processed))
                ctx.oblige("an error exactly when processing raises one", err == fails, "post")
                if not err:
                    as_json(m, ctx, r, ans)
        explore(sh, go, max_paths=3000)
    return run


# ---- creation and validation ----------------------------------------------------------------------------------------------------
class Validator:
    """The validator: may accept or reject any schema and any document."""

    def __init__(self, m, ctx, schema):
        self.bad_schema, self.rejects = ctx.choose(2) == 1, ctx.choose(2) == 1
        self.root, self.asked = None, []
        loc = m.new(schema, "rtbot_schema")
        m.hooks["global:rtbot_schema"] = lambda m_: loc

        def err(t):
            e = CppThrow(t)
            e.text = t
            return e

        def root(m_, op, args, n):
            self.root = plain(m_, args[0])
            if self.bad_schema:
                raise err(TaintStr("bad schema"))

        def validate(m_, op, args, n):
            self.asked.append((self.root, plain(m_, args[0])))
            m_.ctx.oblige("the validator has a schema", self.root is not None and not self.bad_schema, "post")
            if self.rejects:
                raise err(TaintStr("what is wrong with the document"))
            return JsonV()
        m.hooks.update({"opaque:set_root_schema": root, "opaque:validate": validate,
                        "construct:json_validator": lambda m_, t, args: Opaque("validator"),
                        "global:default_string_format_check": lambda m_: Opaque("check")})


def doc(ctx, name="doc"):
    """A text: parses to some document, or does not parse (perhaps only because of its comments)."""
    c = ctx.choose(3)
    d = JsonV("obj", {"title": JsonV("str", "anything")})
    j = d if c == 0 else None
    return Opaque("text", {"json": j, "size": z3.Int("len_" + name), "commented": d if c == 2 else None}), j


def verdict(ctx, r, valid, why=None):
    ok = isinstance(r, JText) and r.json.kind == "obj" and "valid" in r.json.v and r.json.v["valid"].kind == "bool"
    ctx.oblige("the answer says whether the text is valid", ok, "post", note=str(r)[:200])
    if ok:
        ctx.oblige("accepted exactly when the validator accepts", same(r.json.v["valid"].v, valid), "post", note=f"{r.json} for {valid}")
        if not valid:
            e = r.json.v.get("error")
            ctx.oblige("the reason is given", e is not None and e.kind == "str", "post", note=str(r.json)[:200])
            if e is not None and why is not None:
                ctx.oblige("the reason is the one the validator gives", str(e.v) == why, "post", note=f"{e.v} for {why}"[:200])


SCHEMA = JsonV("obj", {"title": JsonV("str", "the published schema")})


def t_validate(sh, P):
    def go(ctx):
        m = machine(P, ctx)
        v = Validator(m, ctx, SCHEMA)
        t, j = doc(ctx)
        r = None
        try:
            r = call(m, fn(m, "validate", "string"), [t])
        except CppThrow as e:
            ctx.oblige("no error raised", False, "safety", note=e.what)
            return
        valid = not v.bad_schema and j is not None and not v.rejects
        if valid or v.asked:
            ctx.oblige("the text is validated once against the published schema", len(v.asked) == 1 and v.asked[0][0] is not None
                       and v.asked[0][0].same(SCHEMA) and v.asked[0][1].same(j), "post", note=str(v.asked)[:200])
        verdict(ctx, r, valid, "bad schema" if v.bad_schema else "what is wrong with the document" if j is not None else None)
    explore(sh, go)


def t_create(sh, P):
    """createProgram(id, text), with validate by its contract."""
    def go(ctx):
        m = machine(P, ctx)
        t, j = doc(ctx)
        v = Validator(m, ctx, SCHEMA)
        ans = TaintStr("what the factory answers")
        f = Answer(m, FACTORY, ans)
        valid = not v.bad_schema and j is not None and not v.rejects
        err = False
        r = None
        try:
            r = call(m, fn(m, "createProgram", "string", "string"), ["p", t])
        except CppThrow:
            err = True
        ctx.oblige("created exactly when the text is valid", [n for n, _ in f.log] == (["createProgram"] if valid else []), "post", note=str(f.log)[:200])
        for n, a in f.log:
            ctx.oblige("created under its id from its text", len(a) == 2 and a[0] == "p" and a[1] is t, "post", note=str(a)[:200])
        ctx.oblige("an error exactly when the factory raises one", err == (valid and f.fails), "post")
        if err:
            return
        if valid:
            ctx.oblige("the answer of the factory is returned", r is ans, "post", note=str(r)[:200])
        else:
            verdict(ctx, r, False, "bad schema" if v.bad_schema else "what is wrong with the document" if j is not None else None)
    explore(sh, go)


TYPES = [[], ["Add"], ["Join", "Add"], ["AddOther", "Join", "Add", "ad"]]


def t_operator(sh, P):
    """validateOperator: against the part of the published schema for its type."""
    def go(ctx):
        m = machine(P, ctx)
        types = TYPES[ctx.choose(len(TYPES))]
        parts = {k: jsonv.from_python({"title": "schema of " + k, "properties": {"type": {"enum": [k]}}}) for k in types}
        s = jsonv.from_python({"properties": {"operators": {"items": {}}}})
        s.v["properties"].v["operators"].v["items"] = JsonV("obj", {"oneOf": JsonV("arr", Seq([Elems([parts[k] for k in types])] if types else []))})
        v = Validator(m, ctx, s)
        t, j = doc(ctx)
        try:
            r = call(m, fn(m, "validateOperator", "string", "string"), ["Add", t])
        except CppThrow as e:
            ctx.oblige("no error raised", False, "safety", note=e.what)
            return
        known = "Add" in types
        valid = known and not v.bad_schema and j is not None and not v.rejects
        if valid or v.asked:
            ctx.oblige("the text is validated once against the schema of its type", len(v.asked) == 1 and v.asked[0][0] is not None and known
                       and v.asked[0][0].same(parts["Add"]) and v.asked[0][1].same(j), "post", note=str(v.asked)[:300])
        verdict(ctx, r, valid, None if not known else "bad schema" if v.bad_schema else "what is wrong with the document" if j is not None else None)
    explore(sh, go)


def t_message(sh, P):
    """A message as JSON."""
    def go(ctx):
        m = machine(P, ctx)
        t, x = z3.Int("mt"), z3.Real("mv")
        out = m.new(JsonV(), "json")
        jsonv.convert(m, "to_json", "Message", 1, [out, m.new(msg(t, x), "message")])
        j = m.read(out)
        ok = isinstance(j, JsonV) and j.kind == "obj" and sorted(j.v) == ["time", "value"] and all(y.kind == "num" for y in j.v.values())
        ctx.oblige("time and value are written", ok, "post", note=str(j)[:200])
        if ok:
            eqv(m, "time", j.v["time"].v, t)
            eqv(m, "value", j.v["value"].v, x)
    explore(sh, go)


def k(f):
    return kind(f, "bindings")


S = "string"


def p13():
    b = lambda m, sh, ctx: Opaque("saved bytes")
    return [("bindings.serializeProgram", k(one_call("serializeProgram", (S,), PID, "serialize", b, as_is))),
            ("bindings.createProgram.bytes", k(one_call("createProgram", (S, "Bytes"), lambda m, sh, ctx: ["p", m.new(Opaque("saved bytes"), "bytes")],
                                                        "createProgram", lambda m, sh, ctx: "p", nothing)))]


def p16():
    return [("bindings.processMessageMap", k(one_call("processMessageMap", (S, "OperatorMessage"), MAP, "processMessageMap", result, as_json))),
            ("bindings.processMessageMapDebug", k(one_call("processMessageMapDebug", (S, "OperatorMessage"), MAP, "processMessageMapDebug", result, as_json))),
            ("bindings.processMessageMapNative", k(one_call("processMessageMapNative", (S, "OperatorMessage"), MAP, "processMessageMap", result, as_is))),
            ("bindings.getProgramEntryOperatorId", k(one_call("getProgramEntryOperatorId", (S,), PID, "getProgramEntryOperatorId", lambda m, sh, ctx: "in", as_is))),
            ("bindings.getProgramEntryPorts", k(one_call("getProgramEntryPorts", (S,), PID, "getProgramEntryPorts", STRINGS, as_json))),
            ("bindings.getProgramOutputFilter", k(one_call("getProgramOutputFilter", (S,), PID, "getProgramOutputFilter",
                                                           lambda m, sh, ctx: MapV({"a": STRINGS(m, sh, ctx), "b": Seq((), "vector")}), as_json))),
            ("bindings.message", k(t_message))]


def p17():
    def one(m, sh, ctx):
        return ["p", "i1", z3.Int("mt"), z3.Real("mv")]
    return [("bindings.addToMessageBuffer", k(t_add)),
            ("bindings.processMessageBuffer", k(one_call("processMessageBuffer", (S,), PID, "processMessageBuffer", result, as_json))),
            ("bindings.processMessageBufferDebug", k(one_call("processMessageBufferDebug", (S,), PID, "processMessageBufferDebug", result, as_json))),
            ("bindings.deleteProgram", k(one_call("deleteProgram", (S,), PID, "deleteProgram", FLAG, as_text))),
            ("bindings.addBatchToMessageBuffers", k(t_batch("addBatchToMessageBuffers", None))),
            ("bindings.processBatch", k(t_batch("processBatch", "processMessageBuffer"))),
            ("bindings.processBatchDebug", k(t_batch("processBatchDebug", "processMessageBufferDebug")))]


def t_add(sh, P):
    def go(ctx):
        m = machine(P, ctx)
        ans = ctx.choose(2) == 1
        f = Answer(m, FACTORY, ans)
        t, x = z3.Int("mt"), z3.Real("mv")
        ctx.assume(t >= 0)
        err = False
        try:
            r = call(m, fn(m, "addToMessageBuffer", S, S, "long", "double"), ["p", "i1", t, x])
        except CppThrow:
            err = True
        ok = len(f.log) == 1 and f.log[0][0] == "addToMessageBuffer" and f.log[0][1][:2] == ["p", "i1"]
        ctx.oblige("one call of the factory", ok, "post", note=str(f.log)[:200])
        if ok:
            eqv(m, "the message", f.log[0][1][2], msg(t, x))
        ctx.oblige("an error exactly when the factory raises one", err == f.fails, "post")
        if not err:
            as_text(m, ctx, r, ans)
    explore(sh, go)


def p21():
    return [("bindings.validate", k(t_validate)), ("bindings.createProgram", k(t_create)), ("bindings.validateOperator", k(t_operator))]


TASKS = {"P13": p13, "P16": p16, "P17": p17, "P21": p21}
