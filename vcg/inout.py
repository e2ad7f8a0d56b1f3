"""P01: the input operator; and the output operator with several ports (P07)."""
from spec import *


def ports(n):
    return [f"i{j}" for j in range(1, n + 1)]


def outs(n):
    return [f"o{j}" for j in range(1, n + 1)]


class IO:
    """Ghost state of port p: the message delivered last (cur) and, for the input operator, the message forwarded last."""

    def __init__(self, sh, P, ctx, cls, n):
        self.sh, self.ctx, self.cls, self.n = sh, ctx, cls, n
        m = self.m = Machine(P, ctx)
        self.o = build(m, cls, ["op", n])
        self.E = Emit(m, self.o)
        m.hooks.update(self.E.hooks())

    def message(self, name):
        t, v = z3.Int("t_" + name), z3.Real("v_" + name)
        self.ctx.assume(t >= 0)
        return msg(t, v)

    def check(self, name, st, known):
        """st: {port: (delivered?, cur, last)}"""
        m = self.m
        f = m.read(self.o).f
        eqv(m, f"{name}: ports with news", f["toProcess"], SetV(), "inv")
        if self.cls == "Input":
            if "lastSent" not in f:
                raise Undecided("Input has no field lastSent")
            eqv(m, f"{name}: last forwarded", f["lastSent"], MapV({p: s[2] for p, s in st.items() if s[0]}), "inv")
        d = f["dataInputs"]
        self.ctx.oblige(f"{name}: ports", isinstance(d, MapV) and set(d.d) == set(ports(self.n)), "inv")
        for p, (has, cur, last) in st.items():
            i = d.d[p]
            eqv(m, f"{name}: total", i.f["sum"], cur.f["value"] if has else 0, "inv")
            eqv(m, f"{name}: window", i.f["max"], 1, "inv")
            eqv(m, f"{name}: buffer", i.f["data"], Seq([Elems([cur])], "deque") if has else Seq((), "deque"), "inv")
        for k, v in known.items():
            if k in ("toProcess", "lastSent", "dataInputs"):
                continue
            if not same(f.get(k), v):
                raise Undecided(f"{self.cls}.{k} changes but is not part of the contract's state")

    def install(self, st, pending=()):
        m = self.m
        for p, (has, cur, last) in st.items():
            set_input(m, self.o, p, Seq([Elems([cur])], "deque") if has else Seq((), "deque"), cur.f["value"] if has else 0)
        if self.cls == "Input":
            if "lastSent" not in m.read(self.o).f:
                raise Undecided("Input has no field lastSent")
            m.write(self.o.f("lastSent"), MapV({p: s[2] for p, s in st.items() if s[0] and s[2] is not None}))
        m.write(self.o.f("toProcess"), SetV(pending))

    def arbitrary(self, ctx):
        st = {}
        for p in ports(self.n):
            if ctx.choose(2) == 0:
                cur, last = self.message("cur_" + p), self.message("last_" + p)
                st[p] = (True, cur, last)
            else:
                st[p] = (False, None, None)
        return st

    def forwards(self, ctx, m, last):
        return self.cls == "Output" or last is None or ctx.branch(m.f["time"] > last.f["time"])


def t_init(cls, n):
    def run(sh, P):
        def go(ctx):
            S = IO(sh, P, ctx, cls, n)
            f = S.m.read(S.o).f
            eqv(S.m, "output ports", f["outputIds"], SetV(sorted(outs(n))), "inv")
            S.check("new", {p: (False, None, None) for p in ports(n)}, field_snapshot(S.m, S.o))
        explore(sh, go)
    return run


def t_step(cls, n):
    """One delivery, followed by processing, in any state."""
    def run(sh, P):
        def go(ctx):
            S = IO(sh, P, ctx, cls, n)
            known = field_snapshot(S.m, S.o)
            st = S.arbitrary(ctx)
            j = ctx.choose(n)
            p, q = ports(n)[j], outs(n)[j]
            S.install(st)
            m = S.message("new")
            try:
                deliver(S.m, S.o, m, p if n > 1 or ctx.choose(2) == 0 else "")
                r = execute(S.m, S.o)
            except CppThrow as e:
                ctx.oblige("no error raised", False, "safety", note=e.what)
                return
            fw = S.forwards(ctx, m, st[p][2])
            eqv(S.m, "emission", S.E.emitted(), MapV({q: Seq([Elems([m])])} if fw else {}))
            ctx.oblige("the emitted messages are returned", S.E.returned_ok(r), "post")
            st[p] = (True, m, m if fw else st[p][2])
            S.check("state", st, known)
        explore(sh, go)
    return run


def t_batch(cls, n):
    """Deliveries to any set of ports before they are processed together."""
    def run(sh, P):
        def go(ctx):
            S = IO(sh, P, ctx, cls, n)
            known = field_snapshot(S.m, S.o)
            st = S.arbitrary(ctx)
            pend = [p for p in ports(n) if ctx.choose(2)]
            S.install(st)
            new = {p: S.message("new_" + p) for p in pend}
            try:
                for p in (pend if ctx.choose(2) == 0 else pend[::-1]):
                    deliver(S.m, S.o, new[p], p)
                r = execute(S.m, S.o)
            except CppThrow as e:
                ctx.oblige("no error raised", False, "safety", note=e.what)
                return
            exp = {}
            for p, q in zip(ports(n), outs(n)):
                if p in new:
                    fw = S.forwards(ctx, new[p], st[p][2])
                    if fw:
                        exp[q] = Seq([Elems([new[p]])])
                    st[p] = (True, new[p], new[p] if fw else st[p][2])
            eqv(S.m, "emission", S.E.emitted(), MapV(exp))
            ctx.oblige("the emitted messages are returned", S.E.returned_ok(r), "post")
            S.check("state", st, known)
        explore(sh, go)
    return run


def tasks(cls, ns=(1, 2, 3), batch=(2, 3)):
    return [(f"{cls}({n}).init", t_init(cls, n)) for n in ns + (11,)] + [(f"{cls}({n}).step", t_step(cls, n)) for n in ns] + \
           [(f"{cls}({n}).batch", t_batch(cls, n)) for n in batch]


def input_tasks():
    return tasks("Input")


def output_tasks():
    return tasks("Output")
