"""P02: the contracts of Operator's buffers (receiveData, executeData, receiveControl, executeControl and the accessors).

The object is a bare Operator with two data ports and a control port, each with its own window size and its own history of
unbounded length; processData / processControl are replaced by a stand-in that records the state it is called in and returns an
arbitrary result.  Ghost state of a port p: k_p = number of messages delivered to it so far."""
from spec import *

UNBOUNDED = 2**64 - 1


class Buf:
    def __init__(self, sh, P, ctx, unbounded=()):
        self.sh, self.ctx = sh, ctx
        m = self.m = Machine(P, ctx)
        o = self.o = build(m, "Operator", ["op"])
        self.H, self.n, self.k = {}, {}, {}
        for p, kind in (("a", "Data"), ("b", "Data"), ("c", "Control")):
            self.H[p] = Hist(sh, "h" + p)
            self.H[p].facts(ctx)
            if p in unbounded:
                self.n[p] = UNBOUNDED
                m.call_method(o, f"add{kind}Input", [p, 0])
            else:
                n = self.n[p] = z3.Int("n_" + p)
                ctx.assume(n >= 1)
                ctx.assume(n < 2**62)
                m.call_method(o, f"add{kind}Input", [p, n])
        for q in ("o1", "o2"):
            m.call_method(o, "addOutput", [q])
        self.E = Emit(m, o)
        self.calls = []
        m.hooks.update(self.E.hooks())
        m.hooks["Operator::processData"] = self.process("Data")
        m.hooks["Operator::processControl"] = self.process("Control")
        self.result = None

    def process(self, kind):
        def f(m, this, fn, args):
            self.calls.append((kind, m.read(self.o)))
            c = self.ctx.choose(3)
            if c == 0:
                self.result = MapV()
            elif c == 1:
                self.result = MapV({"o1": Seq([Elems([msg(z3.Int("rt"), z3.Real("rv"))])])})
            else:
                R = Hist(self.sh, "res")
                n = z3.Int("rn")
                self.ctx.assume(n >= 1)
                self.result = MapV({"o1": Seq([Elems([msg(z3.Int("rt"), z3.Real("rv"))])]), "o2": R.win(0, n, "vector")})
            return self.result
        return f

    def kindof(self, p):
        return "controlInputs" if p == "c" else "dataInputs"

    def contents(self, p, k, isfull):
        H, n = self.H[p], self.n[p]
        if isfull:
            return H.win(sub(k, n), n), H.psum(sub(k, n), n)
        return H.win(0, k), H.psum(0, k)

    def arbitrary(self, p, name=None):
        """Puts port p into the state after an arbitrary number of messages; -> (k, is it full)."""
        k = z3.Int("k_" + p)
        n = self.n[p]
        case = 0 if n == UNBOUNDED else self.ctx.choose(2)
        if case:
            self.ctx.assume(k >= n)
        else:
            self.ctx.assume(z3.And(k >= 0, k < (n if isz(n) else 2**62)))
        self.k[p] = (k, bool(case))
        d, t = self.contents(p, k, bool(case))
        set_input(self.m, self.o, p, d, t, self.kindof(p))
        return self.k[p]

    def plain(self, p, name):
        """A fixed, simple state for the ports the call must not touch."""
        k = z3.Int("k_" + p)
        n = self.n[p]
        self.ctx.assume(z3.And(k >= 0, k < (n if isz(n) else 2**62)))
        self.k[p] = (k, False)
        d, t = self.contents(p, k, False)
        set_input(self.m, self.o, p, d, t, self.kindof(p))

    def set_pending(self, ports):
        self.m.write(self.o.f("toProcess"), SetV(ports))
        self.pending = set(ports)

    def expect_state(self, name, states, pending, obj=None, cat="post"):
        """states: {port: (k, full)}"""
        m = self.m
        f = obj.f if obj is not None else m.read(self.o).f
        eqv(m, f"{name}: ports with news", f["toProcess"], SetV(pending), cat)
        want = {"dataInputs": {p for p in states if p != "c"}, "controlInputs": {"c"}}
        for kd in want:
            self.ctx.oblige(f"{name}: {kd} keep their names", isinstance(f[kd], MapV) and set(f[kd].d) == want[kd], cat)
        for p, (k, isfull) in states.items():
            inp = f[self.kindof(p)].d[p]
            d, t = self.contents(p, k, isfull)
            eqv(m, f"{name}: running total", inp.f["sum"], t, cat)
            eqv(m, f"{name}: window size", inp.f["max"], self.n[p], cat)
        for fl, v in self.known.items():
            if fl in ("dataInputs", "controlInputs", "toProcess"):
                continue
            eqv(m, f"{name}: {fl} unchanged", f[fl], v, cat)
        for p, (k, isfull) in states.items():
            inp = f[self.kindof(p)].d[p]
            for x, v in inp.f.items():
                if x not in ("data", "sum", "max") and not same(v, self.known[self.kindof(p)].d[p].f[x]):
                    raise Undecided(f"Input.{x} changes but is not part of the contract's state")
            d, t = self.contents(p, k, isfull)
            eqv(m, f"{name}: messages in the buffer", inp.f["data"], d, cat)

    def ready(self):
        self.known = field_snapshot(self.m, self.o)


def t_init(sh, P):
    def go(ctx):
        B = Buf(sh, P, ctx, () if ctx.choose(2) == 0 else ("a", "b", "c"))
        B.ready()
        B.expect_state("new operator", {p: (0, False) for p in "abc"}, [])
        eqv(B.m, "output ports", B.m.read(B.o.f("outputIds")), SetV(["o1", "o2"]))
    explore(sh, go)


def pend_choice(ctx):
    return [[], ["a"], ["b"], ["a", "b"]][ctx.choose(4)]


def t_receive(control, unbounded):
    p = "c" if control else "a"

    def run(sh, P):
        def go(ctx):
            B = Buf(sh, P, ctx, (p,) if unbounded else ())
            for q in "abc":
                if q != p:
                    B.plain(q, q)
            k, isfull = B.arbitrary(p)
            pend = pend_choice(ctx)
            B.set_pending(pend)
            B.ready()
            # the single control port may be left unnamed, one of several data ports may not
            port = p if not control or ctx.choose(2) == 0 else ""
            try:
                deliver(B.m, B.o, B.H[p].msg(k), port, control)
            except CppThrow as e:
                ctx.oblige("a delivery to an existing port raises no error", False, "safety", note=e.what)
                return
            after = dict(B.k)
            n = B.n[p]
            if not isfull and isz(n) and ctx.branch(k + 1 == n):
                after[p] = (simp(n), True)
            else:
                after[p] = (add(k, 1), isfull)
            if not isfull and after[p][1]:
                after[p] = (n, True)
            B.expect_state("after a delivery", after, pend if control else sorted(set(pend) | {p}))
            ctx.oblige("delivering computes nothing", not B.calls and not B.E.emitted().d, "post")
        explore(sh, go)
    return run


def t_reject(sh, P):
    def go(ctx):
        B = Buf(sh, P, ctx)
        for q in "abc":
            B.arbitrary(q) if q == "a" else B.plain(q, q)
        pend = pend_choice(ctx)
        B.set_pending(pend)
        B.ready()
        control, port = [(False, "x"), (False, ""), (False, "c"), (True, "x"), (True, "a")][ctx.choose(5)]
        thrown = False
        try:
            deliver(B.m, B.o, msg(z3.Int("t"), z3.Real("v")), port, control)
        except CppThrow:
            thrown = True
        ctx.oblige("a delivery to a port that does not exist is an error", thrown, "post")
        B.expect_state("after a rejected delivery", dict(B.k), pend)
        ctx.oblige("a rejected delivery computes nothing", not B.calls and not B.E.emitted().d, "post")
    explore(sh, go)


def t_execute(unbounded):
    def run(sh, P):
        def go(ctx):
            B = Buf(sh, P, ctx, unbounded)
            for q in "ab":
                B.arbitrary(q)
            B.plain("c", "c")
            pend = pend_choice(ctx)
            # a port with news has received something
            for q in pend:
                ctx.assume(B.k[q][0] >= 1)
            B.set_pending(pend)
            B.ready()
            r = execute(B.m, B.o)
            ready = [q for q in pend if B.k[q][1]]
            ctx.oblige("computes exactly once when a port with news is full, otherwise not at all",
                       [c[0] for c in B.calls] == (["Data"] if ready else []), "post")
            if B.calls:
                B.ctx.oblige("exactly the full ports with news are offered", same(B.calls[0][1].f["toProcess"], SetV(ready)), "post")
                eqv(B.m, "emitted is what was computed", B.E.emitted(), B.result)
            else:
                ctx.oblige("nothing emitted", not B.E.emitted().d, "post")
            ctx.oblige("what was emitted is returned", B.E.returned_ok(r), "post")
            if B.calls and ctx.choose(2) == 1:
                B.expect_state("seen by the computation", dict(B.k), ready, B.calls[0][1])
            B.expect_state("after processing", dict(B.k), [])
        explore(sh, go)
    return run


def t_execute_control(sh, P):
    def go(ctx):
        B = Buf(sh, P, ctx)
        B.plain("a", "a")
        B.plain("b", "b")
        B.arbitrary("c")
        pend = pend_choice(ctx)
        B.set_pending(pend)
        B.ready()
        r = execute(B.m, B.o, True)
        ctx.oblige("the control computation runs exactly once", [c[0] for c in B.calls] == ["Control"], "post")
        eqv(B.m, "emitted is what was computed", B.E.emitted(), B.result)
        ctx.oblige("what was emitted is returned", B.E.returned_ok(r), "post")
        B.expect_state("after control processing", dict(B.k), pend)
    explore(sh, go)


def t_getters(sh, P):
    def go(ctx):
        B = Buf(sh, P, ctx)
        m = B.m
        for q in "abc":
            B.arbitrary(q)
        B.set_pending([])
        B.ready()
        p = "ac"[ctx.choose(2)]
        control = p == "c"
        k, isfull = B.k[p]
        ctx.assume(k >= 1)
        n, H = B.n[p], B.H[p]
        size = n if isfull else k
        first = sub(k, n) if isfull else 0
        call = lambda name, *a: m.call_method(B.o, name, list(a))
        G = "Control" if control else "Data"
        which = ctx.choose(6)
        if which == 0:
            eqv(m, "last message", call(f"get{G}InputLastMessage", p), H.msg(sub(k, 1)))
        elif which == 1:
            i = z3.Int("i")
            ctx.assume(z3.And(i >= 0, i < size))
            eqv(m, "message at an index", call(f"get{G}InputMessage", p, i), H.msg(add(first, i)))
        elif which == 2:
            if control:
                eqv(m, "has control inputs", call("hasControlInputs"), True)
            else:
                eqv(m, "first message", call("getDataInputFirstMessage", p), H.msg(first))
        elif which == 3 and not control:
            eqv(m, "size", call("getDataInputSize", p), size)
            eqv(m, "window size", call("getDataInputMaxSize", p), n)
            d, t = B.contents(p, k, isfull)
            eqv(m, "total", call("getDataInputSum", p), t)
        elif which == 4:
            names = ["getDataInputSum", "getDataInputMaxSize", "getDataInputSize", "getDataInputLastMessage", "getDataInputFirstMessage",
                     "getControlInputLastMessage", "getDataInputMessage", "getControlInputMessage"]
            nm = names[ctx.choose(len(names))]
            args = ["x"] + ([0] if nm.endswith("InputMessage") else [])
            thrown = False
            try:
                call(nm, *args)
            except CppThrow:
                thrown = True
            ctx.oblige("asking for a port that does not exist is an error", thrown, "post")
        elif which == 5:
            eqv(m, "data ports", call("getDataInputs"), Seq([Elems(["a", "b"])]))
            eqv(m, "control ports", call("getControlInputs"), Seq([Elems(["c"])]))
            eqv(m, "all ports", call("getAllInputs"), Seq([Elems(["a", "b", "c"])]))
            eqv(m, "outputs", call("getOutputs"), Seq([Elems(["o1", "o2"])]))
            for q in "abcx":
                eqv(m, "is a data port", call("isDataInput", q), q in "ab")
                eqv(m, "is a control port", call("isControlInput", q), q == "c")
        B.expect_state("after asking", dict(B.k), [])
    explore(sh, go)


def tasks():
    return [
        ("buffers.new", t_init),
        ("receiveData", t_receive(False, False)),
        ("receiveData.unbounded", t_receive(False, True)),
        ("receiveControl", t_receive(True, False)),
        ("receiveControl.unbounded", t_receive(True, True)),
        ("receive.rejected", t_reject),
        ("executeData", t_execute(())),
        ("executeData.unbounded", t_execute(("b",))),
        ("executeControl", t_execute_control),
        ("accessors", t_getters),
    ]
