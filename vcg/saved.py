"""P12: collect and restore of every operator.

For an arbitrary state s of an operator (any buffers, sums, pending ports, any values of the members its methods write) and
a newly built operator o2 with the same parameters:  s.collect() returns some bytes b and leaves s as it was;
o2.restore(it) with it at b inside arbitrary surrounding bytes ends exactly behind b and makes every member of o2 equal
to that of s.  An operator is a deterministic function of its members, so equal members react alike for ever after."""
import cxxast as A
import ops, func
from exe import BytesIt, BytesV
from spec import *

# members that hold parameters or what the constructor made of them: never written afterwards (checked where scalar)
FIXED = {"controlMap", "portsMap", "coeff", "operation", "filter", "points", "type", "ops", "input", "output"}
# members whose content between two steps does not matter (proved with the step contracts, which start from any content)
SCRATCH = {"RelativeStrengthIndex": {"averageGain", "averageLoss"}}
# every other member the contract knows; one it does not know leaves the task undecided unless it survives the trip
KNOWN = FIXED | {"useOldestTime", "count", "accumulated", "dt", "times", "value", "nextEmit", "initiated", "lastValue", "carryOver",
                 "before", "initialized", "lastSent", "averageGain", "averageLoss", "prevAverageGain", "prevAverageLoss"}


def written(P, cls):
    """Names of the members that some method other than restore may write (syntactically: used other than by value)."""
    ids = {fd["id"]: fd["name"] for _, fd in P.all_fields(cls)}
    out = set()
    todo, seen = [cls], set()
    while todo:
        c = todo.pop()
        if c in seen or c not in P.classes:
            continue
        seen.add(c)
        todo += [b for b in P.classes[c].bases]
        for m in P.classes[c].methods:
            if m.get("name") == "restore":
                continue
            d = P.outofline.get(m["id"], m)
            b = A.body(d)
            if b is not None:
                scan(b, None, ids, out)
    return out


def scan(n, parent, ids, out):
    if n.get("kind") == "MemberExpr":
        byval = parent is not None and parent.get("kind") == "ImplicitCastExpr" and parent.get("castKind") in ("LValueToRValue", "NoOp")
        ptr = parent is not None and parent.get("kind") == "UnaryOperator" and parent.get("opcode") == "&"
        x = ids.get(n.get("referencedMemberDecl"))
        if x and not byval and not ptr:
            out.add(x)
    for c in n.get("inner", []):
        scan(c, parent if n.get("kind") == "ParenExpr" else n, ids, out)


def power(ctx, ports):
    if len(ports) <= 2:
        return [p for p in ports if ctx.choose(2) == 1]
    return [[], list(ports), ports[:1], ports[1:]][ctx.choose(4)]


def arbitrary(m, ctx, sh, o, cls, P):
    """The object becomes an arbitrary state of its class."""
    f = m.read(o).f
    for kind in ("dataInputs", "controlInputs"):
        d = f[kind]
        for p in list(d.d):
            H = Hist(sh, f"{kind[0]}_{p}")
            n = z3.Int(f"len_{kind[0]}_{p}")
            ctx.assume(n >= 0)
            if len(f["dataInputs"].d) + len(f["controlInputs"].d) > 4 and int(p[1:]) > 1:
                win = Seq([Elems([H.msg(0)])], "deque") if int(p[1:]) % 2 else Seq((), "deque")
            else:
                win = H.win(0, n)
            set_input(m, o, p, win, z3.Real(f"sum_{kind[0]}_{p}"), kind)
            x = z3.Int(f"max_{kind[0]}_{p}")
            ctx.assume(x >= 0)
            m.write(o.f(kind).x("m", p).f("max"), x)
    m.write(o.f("toProcess"), SetV(power(ctx, sorted(f["dataInputs"].d))))
    w = written(P, cls)
    for k, fd in P.all_fields(cls):
        x = fd["name"]
        v = m.read(o).f[x]
        if x in BASE_FIELDS or x in FIXED:
            if x in w and x in FIXED and is_scalar(v):
                raise Undecided(f"{cls}.{x} is written by a method")
            continue
        t = strip_cv(fd["type"].get("desugaredQualType", fd["type"]["qualType"]))
        if x == "before":
            if ctx.choose(2) == 1:
                loc = m.new(msg(z3.Int("before_t"), z3.Real("before_v")), "before")
                m.write(o.f(x), Ptr(loc))
                ctx.assume(z3.Int("before_t") >= 0)
            else:
                m.write(o.f(x), Ptr(None))
        elif x == "lastSent":
            ports = sorted(f["dataInputs"].d)
            ms = {p: msg(z3.Int(f"sent_t_{p}"), z3.Real(f"sent_v_{p}")) for p in power(ctx, ports)}
            m.write(o.f(x), MapV(ms))
        elif x not in w:
            continue
        elif is_double(t):
            m.write(o.f(x), z3.Real("now_" + x))
        elif t == "bool":
            m.write(o.f(x), z3.Bool("now_" + x))
        elif int_type(t):
            c = z3.Int("now_" + x)
            if "unsigned" in t or "size_t" in t or "uint" in t:
                ctx.assume(c >= 0)
            m.write(o.f(x), c)
        elif x not in KNOWN:
            raise Undecided(f"{cls}.{x} is not known to the contract")


def task(cls, args, name, setup=None, hooks=None, more=None):
    def run(sh, P):
        def go(ctx):
            m = Machine(P, ctx)
            m.hooks.update(hooks or {})
            a = args(ctx, sh)
            o = build(m, cls, ["op"] + list(a))
            o2 = build(m, cls, ["op"] + list(a))
            if more:
                more(m, ctx, o, o2)
            arbitrary(m, ctx, sh, o, cls, P)
            before = deep(m, o)
            try:
                b = m.call_method(o, "collect", [])
                b = m.read(b) if isinstance(b, Loc) else b
                if not isinstance(b, BytesV):
                    raise Undecided("collect returns no byte string")
                same_state(m, "collect leaves the operator as it was", before, deep(m, o), cls, ())
                whole = BytesV((("op", Opaque("bytes before", {"size": 1})),) + b.ps + (("op", Opaque("bytes behind", {"size": 1})),))
                it = m.new(BytesIt(whole, 1), "it")
                m.call_method(o2, "restore", [it])
            except CppThrow as e:
                ctx.oblige("no error raised", False, "safety", note=e.what)
                return
            if ctx.check([]) == "unsat":
                raise PathEnd()
            end = m.bytes_norm(m.read(it))
            ctx.oblige("restore consumes exactly the saved bytes", end.i == len(whole.ps) - 1 and end.sub == 0, "post",
                       note=f"{end} of {len(whole.ps)} pieces")
            same_state(m, "restored", deep(m, o), deep(m, o2), cls, SCRATCH.get(cls, ()))
        explore(sh, go)
    return run


def deep(m, o):
    """The members of an object; what it owns through a pointer is read, too."""
    out = {}
    for k, v in m.read(o).f.items():
        if k in ("ops", "input", "output", "all_op"):
            continue
        if isinstance(v, Ptr) and v.loc is not None:
            v = m.read(v.loc)
        out[k] = v
    return out


def same_state(m, name, a, b, cls, skip):
    for k in a:
        if k in skip:
            continue
        if isinstance(a[k], Clo) and isinstance(b[k], Clo):
            m.ctx.oblige(f"{name}: {k}", a[k].node is b[k].node, "post")
            continue
        if k not in KNOWN and k not in BASE_FIELDS and not same(a[k], b[k]):
            raise Undecided(f"{cls}.{k} is not known to the contract")
        if isinstance(a[k], Ptr) and not isinstance(b[k], Ptr) or isinstance(b[k], Ptr) and not isinstance(a[k], Ptr):
            m.ctx.oblige(f"{name}: {k}", False, "post", note="present in one of the two only")
            continue
        eqv(m, f"{name}: {k}", a[k], b[k])


def coeffs(ctx, sh):
    n = z3.Int("ncoef")
    ctx.assume(n >= 1)
    c = ops.const_fn("coef")
    return [Seq([Sym(sh.base("coef", lambda i: c(Z(i))), 0, n)], "vector")]


def posint(name):
    def a(ctx, sh):
        x = z3.Int(name)
        ctx.assume(x >= 1)
        return [x]
    return a


none = lambda ctx, sh: []
real = lambda ctx, sh: [z3.Real("par")]
num = lambda n: (lambda ctx, sh: [n])


def tasks():
    L = [("Identity", none), ("Add", real), ("Scale", real), ("Power", real), ("Constant", real),
         ("GreaterThan", real), ("LessThan", real), ("EqualTo", real), ("Count", none), ("CumulativeSum", none),
         ("TimeShift", lambda ctx, sh: [posint("dt")(ctx, sh)[0], 1]), ("Difference", lambda ctx, sh: [True]),
         ("MovingAverage", posint("win")), ("StandardDeviation", posint("win")), ("PeakDetector", posint("win")),
         ("RelativeStrengthIndex", posint("win")), ("FiniteImpulseResponse", coeffs), ("AutoRegressive", coeffs),
         ("ConstantResampler", posint("dt")), ("CosineResampler", posint("dt")), ("HermiteResampler", posint("dt")),
         ("And", none), ("Or", none), ("Plus", none), ("Minus", none), ("Multiplication", none), ("Division", none),
         ("GreaterThanStream", none), ("LessThanStream", none), ("Variable", real), ("Collector", num(3))]
    out = [(f"{c}.saved", task(c, a, c)) for c, a in L]
    for n in (1, 2, 11):
        out += [(f"{c}({n}).saved", task(c, num(n), c)) for c in ("Input", "Output", "Demultiplexer")]
    for n in (2, 11):
        out.append((f"Join({n}).saved", task("Join", num(n), "Join")))
    for n in (2, 3):
        out.append((f"Linear({n}).saved", task("Linear", lambda ctx, sh, n=n: [Seq([Elems([z3.Real(f"c{i}") for i in range(n)])], "vector")], "Linear")))
    for k in ("linear", "hermite"):
        out.append((f"Function.{k}.saved", task("Function", func.args(k), "Function", hooks={"sort": func.sort_hook})))
    return out
