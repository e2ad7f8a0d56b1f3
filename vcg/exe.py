"""Symbolic execution of the C++ AST: the operational semantics behind the verification conditions."""
import re
from fractions import Fraction
import z3
import cxxast as A
from cxxast import Unsupported, Undecided, clean_class, norm_type
from sym import *
import sym
import loops
import jsonv
import algo
from jsonv import JsonV, JText, TaintStr


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Loc:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def f(self, name):
        if self.path and self.path[-1][0] == "e":
            if name == "second":
                return Loc(self.cell, self.path[:-1] + (("m", self.path[-1][1]),))
        return Loc(self.cell, self.path + (("f", name),))

    def x(self, *el):
        return Loc(self.cell, self.path + (tuple(el),))

    def __eq__(self, o):
        return isinstance(o, Loc) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return f"&{self.cell}{''.join('.'+str(p[1]) for p in self.path if len(p) > 1)}"


class BytesV:
    """A byte string as a sequence of typed pieces.  Pieces: ('raw', type, size, value), ('str', s), ('op', Opaque),
    Rep(n, base) = for j < n: the pieces base.at(j)."""
    __slots__ = ("ps",)

    def __init__(self, ps=()):
        out = []
        for p in ps:
            if isinstance(p, Rep) and not isz(p.n) and p.n == 0:
                continue
            if isinstance(p, tuple) and p[0] == "str" and p[1] == "":
                continue
            out.append(p)
        self.ps = tuple(out)

    def same(self, o):
        return len(self.ps) == len(o.ps) and all(piece_same(a, b) for a, b in zip(self.ps, o.ps))

    def __repr__(self):
        return f"Bytes{list(self.ps)}"

    # ---- protocol of the loop rule
    def loop_shape(self, appended, path):
        return ("bytes",) + tuple(("rep", id(p.base)) if isinstance(p, Rep) else (p[0], p[2]) if p[0] == "raw" else (p[0], str(p[1]))
                                  for p in self.ps)

    def loop_diff(self, b, path, out):
        import loops
        if not isinstance(b, BytesV):
            raise loops.Odd()
        if len(self.ps) == len(b.ps):
            for i, (p, q) in enumerate(zip(self.ps, b.ps)):
                if piece_same(p, q):
                    continue
                if isinstance(p, Rep) and isinstance(q, Rep) and p.base is q.base:
                    out.append(("leaf", path + (("rep", i),)))
                elif not isinstance(p, Rep) and not isinstance(q, Rep) and p[0] == q[0] == "raw" and p[1] == q[1] and \
                        is_scalar(p[3]) and is_scalar(q[3]):
                    out.append(("leaf", path + (("raw", i),)))
                else:
                    raise loops.Odd()
            return
        if self.loop_suffix(b) is None:
            raise loops.Odd()
        out.append(("append", path))

    def loop_suffix(self, b):
        if not isinstance(b, BytesV) or len(b.ps) <= len(self.ps):
            return None
        if not all(piece_same(p, q) for p, q in zip(self.ps, b.ps)):
            return None
        t = b.ps[len(self.ps):]
        return None if any(isinstance(x, Rep) for x in t) else list(t)

    def loop_append(self, n, base):
        return BytesV(self.ps + (Rep(n, base),))

    def loop_get(self, p):
        return self.ps[p[1]].n if p[0] == "rep" else self.ps[p[1]][3]

    def loop_set(self, p, rest, x):
        q = self.ps[p[1]]
        q = Rep(x, q.base) if p[0] == "rep" else q[:3] + (x,)
        return BytesV(self.ps[:p[1]] + (q,) + self.ps[p[1] + 1:])

    def loop_subst(self, f):
        return BytesV(tuple(Rep(f(p.n), p.base) if isinstance(p, Rep) else p[:3] + (f(p[3]),) if p[0] == "raw" else p for p in self.ps))

    def loop_scalars(self, f):
        for p in self.ps:
            f(p.n if isinstance(p, Rep) else p[3] if p[0] == "raw" else None)


class Rep:
    __slots__ = ("n", "base")

    def __init__(self, n, base):
        self.n, self.base = n, base

    def __repr__(self):
        return f"Rep({self.n},{self.base})"


def piece_same(a, b):
    if isinstance(a, Rep) or isinstance(b, Rep):
        return isinstance(a, Rep) and isinstance(b, Rep) and a.base is b.base and same(a.n, b.n)
    if a[0] != b[0]:
        return False
    if a[0] == "raw":
        return a[2] == b[2] and same(a[3], b[3])
    return a[1] == b[1]


class BytesIt:
    """Position inside a byte string: piece index, repetition index, index inside the repeated pieces.
    A value of its own: `bytes` is the immutable content it walks over."""
    __slots__ = ("bytes", "i", "rep", "sub", "end", "loc")

    def __init__(self, bytes_, i=0, rep=0, sub=0, end=False, loc=None):
        self.bytes, self.i, self.rep, self.sub, self.end, self.loc = bytes_, i, rep, sub, end, loc

    def same(self, o):
        return self.i == o.i and same(self.rep, o.rep) and self.sub == o.sub and self.bytes.same(o.bytes)

    def __repr__(self):
        return f"BytesIt({self.i},{self.rep},{self.sub})"

    # ---- protocol of the loop rule
    def loop_shape(self, appended, path):
        return ("bytesit", self.i, self.sub, self.end, str(self.loc))

    def loop_diff(self, b, path, out):
        import loops
        if not isinstance(b, BytesIt) or (self.i, self.sub, self.end) != (b.i, b.sub, b.end) or not self.bytes.same(b.bytes):
            raise loops.Odd()
        out.append(("leaf", path + (("brep",),)))

    def loop_get(self, p):
        return self.rep

    def loop_set(self, p, rest, x):
        return BytesIt(self.bytes, self.i, x, self.sub, self.end, self.loc)

    def loop_subst(self, f):
        return BytesIt(self.bytes, self.i, f(self.rep), self.sub, self.end, self.loc)

    def loop_scalars(self, f):
        f(self.rep)


class BytesPlus:
    """it + n, only meaningful as the end of string(it, it + n)"""
    def __init__(self, it, n):
        self.it, self.n = it, n


class RawPtr:
    """reinterpret_cast<const unsigned char*>(&x) [+ sizeof(x)]"""
    def __init__(self, loc, ctype, plus=None):
        self.loc, self.ctype, self.plus = loc, ctype, plus


class BytePeek:
    """reinterpret_cast<const X*>(&*it)"""
    def __init__(self, it, ctype):
        self.it, self.ctype = it, ctype


INT = {"unsigned long": (64, False), "long": (64, True), "unsigned long long": (64, False), "long long": (64, True),
       "int": (32, True), "unsigned int": (32, False), "short": (16, True), "unsigned short": (16, False),
       "char": (8, True), "unsigned char": (8, False), "signed char": (8, True), "bool": (1, False),
       "size_t": (64, False), "uint64_t": (64, False), "std::size_t": (64, False)}


def strip_cv(t):
    t = re.sub(r"\b(const|volatile|struct|class|enum)\b", "", t)
    return t.replace("&", "").strip()


def int_type(t):
    return INT.get(strip_cv(t))


def is_double(t):
    return strip_cv(t) in ("double", "float", "long double")


def is_ref(t):
    return t.rstrip().endswith("&")


def sizeof(t):
    t = strip_cv(t)
    if t == "bool":
        return 1
    if t in INT:
        return INT[t][0] // 8
    if is_double(t):
        return {"double": 8, "float": 4, "long double": 16}[t]
    raise Unsupported(f"sizeof({t})")


class Frame:
    def __init__(self, fn, this, cls):
        self.fn, self.this, self.cls, self.env = fn, this, cls, {}


SKIP = {"ExprWithCleanups", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr",
        "FullExpr"}
PASS_CASTS = {"NoOp", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion", "UserDefinedConversion",
              "ArrayToPointerDecay", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "BitCast", "BaseToDerived",
              "FloatingCast", "ToVoid", "Dynamic"}


class Machine:
    def __init__(self, P, ctx, hooks=None):
        self.P, self.ctx = P, ctx
        self.store = {}
        self.statics = {}
        self.frames = []
        self.ncell = 0
        self.hooks = hooks or {}
        self.depth = 0
        self.loop_hints = []
        self.cellprefix = ""

    # ---- store -----------------------------------------------------------------------------------------------------
    def new(self, v, hint="t"):
        self.ncell += 1
        c = f"{hint}#{self.cellprefix}{self.ncell}"
        self.store[c] = v
        return Loc(c)

    def read(self, loc):
        if loc.cell not in self.store:
            raise Unsupported(f"dangling reference to {loc.cell}")
        v = self.store[loc.cell]
        for p in loc.path:
            v = self.step(v, p)
        if isinstance(v, Uninit):
            v = self.havoc_uninit(v)
            self.write(loc, v)
        return v

    def havoc_uninit(self, v):
        t = v.t
        if is_double(t):
            return self.ctx.fresh("uninit", "real")
        it = int_type(t)
        if strip_cv(t) == "bool":
            return self.ctx.fresh("uninit", "bool")
        if it:
            x = self.ctx.fresh("uninit", "int")
            b, s = it
            self.ctx.assume(z3.And(x >= (-(1 << (b - 1)) if s else 0), x < (1 << (b - 1 if s else b))))
            return x
        raise Unsupported(f"read of an uninitialised {t}")

    def step(self, v, p):
        k = p[0]
        if k == "f":
            if isinstance(v, Opaque) and v.info and p[1] in v.info:
                return v.info[p[1]]
            if not isinstance(v, Rec):
                raise Unsupported(f"field {p[1]} of {type(v).__name__}")
            if p[1] not in v.f:
                raise Unsupported(f"no field {p[1]} in {v.cls}")
            return v.f[p[1]]
        if k == "m":
            if not isinstance(v, MapV):
                raise Unsupported("map access on " + type(v).__name__)
            if p[1] not in v.d:
                raise Unsupported("access through an iterator to an erased element")
            return v.d[p[1]]
        if k == "e":
            if not isinstance(v, MapV) or p[1] not in v.d:
                raise Unsupported("access through an iterator to an erased element")
            return Rec("pair", {"first": p[1], "second": v.d[p[1]]})
        if k == "s":
            return self.seq_at(v, p[1])
        if k == "o":
            return v.val
        if k == "j":
            return v.v[p[1]]
        raise Unsupported(str(p))

    def write(self, loc, val):
        def go(v, path):
            if not path:
                return val
            p = path[0]
            k = p[0]
            if k == "f":
                if not isinstance(v, Rec):
                    raise Unsupported(f"write to a field of {type(v).__name__}")
                f = dict(v.f)
                f[p[1]] = go(v.f.get(p[1]), path[1:])
                return Rec(v.cls, f)
            if k == "m":
                d = dict(v.d)
                d[p[1]] = go(v.d.get(p[1]), path[1:])
                return MapV(d)
            if k == "s":
                new = go(self.seq_at(v, p[1]), path[1:])
                return self.seq_set(v, p[1], new)
            if k == "o":
                return Opt(v.has, go(v.val, path[1:]))
            if k == "j":
                x = go(v.v[p[1]], path[1:])
                return JsonV("obj", {**v.v, p[1]: x})
            raise Unsupported("write through " + str(p))
        if loc.path and loc.cell not in self.store:
            raise Unsupported("dangling reference")
        self.store[loc.cell] = go(self.store.get(loc.cell), loc.path)

    # ---- sequences -------------------------------------------------------------------------------------------------
    def seq_at(self, s, i):
        if not isinstance(s, Seq):
            raise Unsupported("element of " + type(s).__name__)
        i = simp(i)
        res = None
        pre = 0
        parts = []
        for seg in s.segs:
            if isinstance(seg, Elems):
                for x in seg.xs:
                    if not isz(i) and not isz(pre) and i == pre:
                        return x if not parts else self._merge(parts, x)
                    parts.append((eq(i, pre), x))
                    if parts[-1][0] is True:
                        parts.pop()
                        return x if not parts else self._merge(parts, x)
                    if parts[-1][0] is False:
                        parts.pop()
                    pre = add(pre, 1)
            else:
                nxt = add(pre, seg.n)
                c = lt(i, nxt)
                if c is not True and c is not False and seg is s.segs[-1] and not parts:
                    c = True     # bounds are a separate obligation
                if c is True or (seg is s.segs[-1]):
                    v = seg.base.at(add(seg.off, sub(i, pre)))
                    return v if not parts else self._merge(parts, v)
                if c is not False:
                    if self.ctx.proves(c, 1000):
                        v = seg.base.at(add(seg.off, sub(i, pre)))
                        return v if not parts else self._merge(parts, v)
                    if not self.ctx.proves(not_(c), 1000):
                        parts.append((c, seg.base.at(add(seg.off, sub(i, pre)))))
                pre = nxt
        if parts:
            return self._merge(parts[:-1], parts[-1][1])
        raise Unsupported("element of an empty sequence")

    def _merge(self, parts, last):
        try:
            v = last
            for c, x in reversed(parts):
                v = ite(c, x, v)
            return v
        except Unsupported:
            for c, x in parts:
                if self.ctx.branch(c):
                    return x
            return last

    def seq_set(self, s, i, val):
        i = simp(i)
        pre = 0
        for k, seg in enumerate(s.segs):
            if isinstance(seg, Elems):
                for j, x in enumerate(seg.xs):
                    if eq(i, add(pre, j)) is True:
                        xs = list(seg.xs)
                        xs[j] = val
                        return Seq(s.segs[:k] + (Elems(xs),) + s.segs[k + 1:], s.kind)
                pre = add(pre, len(seg.xs))
            else:
                pre = add(pre, seg.n)
        raise Unsupported("write to a symbolic element")

    def seq_push(self, s, v):
        if s.segs and isinstance(s.segs[-1], Sym):
            g = s.segs[-1]
            try:
                if same(g.base.at(add(g.off, g.n)), v):
                    return Seq(s.segs[:-1] + (Sym(g.base, g.off, add(g.n, 1)),), s.kind)
            except Unsupported:
                pass
        return Seq(s.segs + (Elems([v]),), s.kind)

    def seq_concat(self, s, t):
        for g in t.segs:
            if isinstance(g, Elems):
                for x in g.xs:
                    s = self.seq_push(s, x)
            else:
                s = Seq(s.segs + (g,), s.kind)
        return s

    def seq_pop_front(self, s):
        segs = list(s.segs)
        while segs:
            g = segs[0]
            if isinstance(g, Elems):
                return Seq([Elems(g.xs[1:])] + segs[1:], s.kind)
            if len(segs) == 1 or self.ctx.branch(gt(g.n, 0)):
                return Seq([Sym(g.base, add(g.off, 1), sub(g.n, 1))] + segs[1:], s.kind)
            segs.pop(0)
        raise Unsupported("pop_front of an empty sequence")

    def seq_pop_back(self, s):
        segs = list(s.segs)
        while segs:
            g = segs[-1]
            if isinstance(g, Elems):
                return Seq(segs[:-1] + [Elems(g.xs[:-1])], s.kind)
            if len(segs) == 1 or self.ctx.branch(gt(g.n, 0)):
                return Seq(segs[:-1] + [Sym(g.base, g.off, sub(g.n, 1))], s.kind)
            segs.pop()
        raise Unsupported("pop_back of an empty sequence")

    # ---- obligations ------------------------------------------------------------------------------------------------
    def safety(self, what, cond, node=None):
        fn = self.frames[-1].fn.get("name", "?") if self.frames else "?"
        cls = self.frames[-1].cls if self.frames else ""
        line = (node or {}).get("_loc", (None, None))[1]
        self.ctx.oblige(f"safety:{cls}.{fn}:{what}", cond, cat="safety", note=f"line {line}")

    def fork_bool(self, c):
        return self.ctx.branch(c)

    # ---- numbers -----------------------------------------------------------------------------------------------------
    def wrap(self, v, it):
        if it is None:
            return v
        b, signed = it
        v = to_int(v)
        lo, hi = (-(1 << (b - 1)), 1 << (b - 1)) if signed else (0, 1 << b)
        if not isz(v):
            if lo <= v < hi:
                return v
            v %= (1 << b)
            return v - (1 << b) if signed and v >= hi else v
        if signed:
            self.ctx.sh.assumptions.add("signed integer arithmetic does not overflow")
            return v
        if self.ctx.branch(v >= 0):
            self.ctx.sh.assumptions.add("sizes, counters and timestamps stay below 2^63")
            return v
        return simp(v + hi)

    def narrow(self, v, it):
        """Conversion to a type of fewer bits: exact."""
        v = to_int(v)
        if not isz(v):
            return self.wrap(v, it)
        b, signed = it
        lo, hi = (-(1 << (b - 1)), 1 << (b - 1)) if signed else (0, 1 << b)
        if self.ctx.branch(z3.And(v >= lo, v < hi)):
            return v
        v = v % (1 << b)
        return simp(z3.If(v >= hi, v - (1 << b), v)) if signed else simp(v)

    def arith(self, op, a, b, t, node=None):
        if op in ("+", "-", "*"):
            r = {"+": add, "-": sub, "*": mul}[op](a, b)
            it = int_type(t)
            if it and is_int(r):
                return self.wrap(r, it)
            return r
        if op == "/":
            if is_real(a) or is_real(b):
                a, b = to_real(a), to_real(b)
                if not isz(b) and b == 0:
                    return self.ctx.fresh("nan", "real")
                if not isz(a) and not isz(b):
                    return a / b
                return Z(a) / Z(b)
            self.safety("division by zero", not_(eq(b, 0)), node)
            if not isz(a) and not isz(b):
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            if self.ctx.proves(and_(ge(a, 0), gt(b, 0))):
                return simp(Z(a) / Z(b))
            raise Unsupported("division of possibly negative integers")
        if op == "%":
            self.safety("division by zero", not_(eq(b, 0)), node)
            if self.ctx.proves(and_(ge(a, 0), gt(b, 0))):
                return simp(Z(a) % Z(b)) if isz(a) or isz(b) else a % b
            raise Unsupported("remainder of possibly negative integers")
        raise Unsupported("operator " + op)

    def compare(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            r = self.ptr_eq(a, b)
            return r if op == "==" else not_(r)
        if isinstance(a, str) and isinstance(b, str):
            if isinstance(a, TaintStr) or isinstance(b, TaintStr):
                raise Unsupported("comparison of a symbolic string")
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if isinstance(a, It) or isinstance(b, It):
            if not (isinstance(a, It) and isinstance(b, It) and a.kind == b.kind):
                raise Unsupported("comparison of different iterators")
            if is_scalar(a.pos) and is_scalar(b.pos):
                r = eq(a.pos, b.pos) if op in ("==", "!=") else {"<": lt, ">": gt, "<=": le, ">=": ge}[op](a.pos, b.pos)
            else:
                r = a.pos == b.pos
            return not_(r) if op == "!=" else r
        if isinstance(a, BytesIt) and isinstance(b, BytesIt):
            e1, e2 = self.bytes_at_end(a), self.bytes_at_end(b)
            if b.end or a.end:
                r = e1 if b.end else e2
            else:
                r = a.same(b)
            return r if op == "==" else not_(r)
        if is_scalar(a) and is_scalar(b):
            return {"==": eq, "!=": lambda x, y: not_(eq(x, y)), "<": lt, ">": gt, "<=": le, ">=": ge}[op](a, b)
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == "Message" and op in ("==", "!="):
            r = and_(eq(a.f["time"], b.f["time"]), eq(a.f["value"], b.f["value"]))
            return r if op == "==" else not_(r)
        if isinstance(a, (MapV, SetV)) and op in ("==", "!=") and same(a, b):
            return op == "=="
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            r = a.name == b.name
            return r if op == "==" else not r
        raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def ptr_eq(self, a, b):
        def k(x):
            if isinstance(x, Ptr):
                return x.loc
            if x is None:
                return None
            if isinstance(x, Opaque):
                return ("op", x.name)
            raise Unsupported("pointer comparison")
        return k(a) == k(b)

    # ---- expressions -------------------------------------------------------------------------------------------------
    def rv(self, n):
        v = self.ev(n)
        return self.read(v) if isinstance(v, Loc) else v

    def lv(self, n, hint="tmp"):
        v = self.ev(n)
        return v if isinstance(v, Loc) else self.new(v, hint)

    def ev(self, n):
        k = n.get("kind")
        if k in SKIP:
            return self.ev(n["inner"][0])
        m = getattr(self, "x_" + (k or "None"), None)
        if m is None:
            raise Unsupported(f"expression {k}")
        return m(n)

    def x_IntegerLiteral(self, n):
        return int(n["value"])

    def x_FloatingLiteral(self, n):
        return Fraction(n["value"])

    def x_CXXBoolLiteralExpr(self, n):
        return bool(n["value"])

    def x_StringLiteral(self, n):
        import json
        return json.loads(n["value"]) if n["value"].startswith('"') else n["value"]

    def x_CharacterLiteral(self, n):
        return int(n["value"])

    def x_CXXNullPtrLiteralExpr(self, n):
        return Ptr(None)

    def x_GNUNullExpr(self, n):
        return Ptr(None)

    def x_MaterializeTemporaryExpr(self, n):
        return self.ev(n["inner"][0])

    def x_CXXThisExpr(self, n):
        return Ptr(self.frames[-1].this)

    def x_CXXDefaultInitExpr(self, n):
        raise Unsupported("default member initialiser expression")

    def x_ImplicitValueInitExpr(self, n):
        return self.zero(norm_type(n["type"]))

    def x_CXXScalarValueInitExpr(self, n):
        return self.zero(norm_type(n["type"]))

    def zero(self, t):
        if is_double(t):
            return Fraction(0)
        if strip_cv(t) == "bool":
            return False
        if int_type(t):
            return 0
        if t.rstrip().endswith("*"):
            return Ptr(None)
        return self.default(t)

    def x_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        i = d["id"]
        env = self.frames[-1].env if self.frames else {}
        if i in env:
            return env[i]
        if d["kind"] == "EnumConstantDecl":
            if i in self.P.enums:
                return self.P.enums[i][1]
        if d["kind"] == "VarDecl":
            if d.get("name") == "nullopt":
                return Opt(False)
            if d.get("name") in ("npos",):
                return (1 << 64) - 1
            gl = self.hooks.get("global:" + d.get("name", ""))
            if gl is not None:
                return gl(self)
            g = self.P.by_id.get(i)
            if g is None:
                for c in self.P.classes.values():
                    if d.get("name") in c.consts and c.consts[d["name"]]["id"] == i:
                        g = c.consts[d["name"]]
            if g is not None and g.get("inner"):
                init = [c for c in g["inner"] if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                if init:
                    return self.coerce(self.rv(init[-1]), norm_type(g["type"]))
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return ("fn", n)
        raise Unsupported(f"reference to {d['kind']} {d.get('name')}")

    def coerce(self, v, t):
        if is_double(t) and is_scalar(v):
            return to_real(v)
        return v

    def x_MemberExpr(self, n):
        base = n["inner"][0]
        name = self.P.renamed.get(n.get("referencedMemberDecl"), n["name"])
        if n.get("isArrow"):
            b = self.rv(base)
            if isinstance(b, Ptr):
                if b.loc is None:
                    self.safety("null pointer dereference", False, n)
                loc = b.loc
            elif isinstance(b, It):
                loc = self.deref_it(b, n)
            elif isinstance(b, Opaque):
                return self.opaque_member(b, name)
            elif isinstance(b, Loc):
                loc = b
            else:
                raise Unsupported("-> on " + type(b).__name__)
        else:
            loc = self.ev(base)
            if not isinstance(loc, Loc):
                if isinstance(loc, Rec) and name in loc.f:
                    v = loc.f[name]
                    return self.havoc_uninit(v) if isinstance(v, Uninit) else v
                if isinstance(loc, Opaque):
                    return self.opaque_member(loc, name)
                loc = self.new(loc)
        if loc.path and loc.path[-1][0] == "e" and name == "first":
            return loc.path[-1][1]
        # static constants are accessed like members sometimes
        return loc.f(name)

    def opaque_member(self, o, name):
        if o.info and name in o.info:
            return o.info[name]
        raise Unsupported(f"member {name} of opaque {o.name}")

    def deref_it(self, it, node=None):
        if it.kind == "rseq":
            return self.deref_it(It("seq", it.loc, sub(it.pos, 1)), node)
        if it.kind in ("rmap", "rset"):
            return self.deref_it(It(it.kind[1:], it.loc, it.pos), node)
        if it.kind == "map":
            self.safety("dereference of the end iterator", it.pos is not None, node)
            return Loc(it.loc.cell, it.loc.path + (("e", it.pos),))
        if it.kind == "set":
            self.safety("dereference of the end iterator", it.pos is not None, node)
            return it.pos
        s = self.read(it.loc)
        self.safety("dereference outside the sequence", and_(ge(it.pos, 0), lt(it.pos, s.size())), node)
        return Loc(it.loc.cell, it.loc.path + (("s", it.pos),))

    def x_ImplicitCastExpr(self, n):
        return self.cast(n)

    x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CStyleCastExpr = x_CXXConstCastExpr = x_ImplicitCastExpr

    def cast(self, n):
        ck = n.get("castKind")
        sub_ = n["inner"][0]
        t = norm_type(n["type"])
        if ck == "LValueToRValue":
            v = self.rv(sub_)
            if isinstance(v, BytePeek) and v.ctype is None:
                return self.peek(v.it, "unsigned char", n)
            return v
        if ck in PASS_CASTS:
            return self.ev(sub_)
        if ck == "IntegralCast":
            v = self.rv(sub_)
            it = int_type(t)
            if it is None:
                return v          # enumerations
            st = int_type(norm_type(sub_["type"]))
            if st and is_scalar(v) and isz(v) and not st[1] and it[0] >= st[0] and (not it[1] or it[0] > st[0]):
                return to_int(v)  # unsigned widening
            if st and it[0] < st[0]:
                return self.narrow(v, it)
            return self.wrap(v, it)
        if ck == "IntegralToFloating":
            return to_real(to_int(self.rv(sub_)))
        if ck == "FloatingToIntegral":
            v = to_real(self.rv(sub_))
            it = int_type(t)
            if not isz(v):
                q = abs(v.numerator) // v.denominator
                return self.wrap(q if v >= 0 else -q, it)
            f = z3.ToInt(v)
            if self.ctx.proves(v >= 0):
                r = simp(f)
            else:
                r = simp(z3.If(v >= 0, f, -z3.ToInt(-v)))
            return self.wrap(r, it)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return boolv(self.rv(sub_))
        if ck == "PointerToBoolean":
            v = self.rv(sub_)
            return not self.ptr_eq(v, Ptr(None))
        if ck in ("NullToPointer", "NullToMemberPointer"):
            return Ptr(None)
        if ck == "IntegralToPointer":
            return Ptr(None)
        raise Unsupported(f"cast {ck}")

    def x_CXXDynamicCastExpr(self, n):
        v = self.rv(n["inner"][0])
        t = norm_type(n["type"])
        if not isinstance(v, Ptr) or not t.rstrip().endswith("*"):
            raise Unsupported("dynamic_cast")
        if v.loc is None:
            return v
        x = self.read(v.loc)
        if not isinstance(x, Rec):
            raise Unsupported("dynamic_cast of " + type(x).__name__)
        c = clean_class(t.rstrip().rstrip("*").strip())
        return v if c in [k.name for k in self.P.mro(x.cls)] else Ptr(None)

    def x_CXXReinterpretCastExpr(self, n):
        t = norm_type(n["type"])
        sub_ = n["inner"][0]
        tt = strip_cv(t.replace("*", ""))
        e = sub_
        while e.get("kind") in SKIP or (e.get("kind") == "ImplicitCastExpr" and e.get("castKind") in ("NoOp",)):
            e = e["inner"][0]
        if e.get("kind") == "UnaryOperator" and e.get("opcode") == "&":
            x = self.ev(e["inner"][0])
            if isinstance(x, BytePeek):
                return BytePeek(x.it, tt)
            if isinstance(x, Loc) and tt in ("unsigned char", "char"):
                ct = strip_cv(norm_type(e["inner"][0]["type"]))
                return RawPtr(x, ct)
        raise Unsupported("reinterpret_cast")

    def x_UnaryExprOrTypeTraitExpr(self, n):
        if n.get("name") != "sizeof":
            raise Unsupported(n.get("name", "trait"))
        if "argType" in n:
            return sizeof(norm_type(n["argType"]))
        return sizeof(norm_type(n["inner"][0]["type"]))

    def x_ArraySubscriptExpr(self, n):
        raise Unsupported("array subscript")

    def x_UnaryOperator(self, n):
        op = n["opcode"]
        s = n["inner"][0]
        t = norm_type(n["type"])
        if op in ("++", "--"):
            loc = self.lv(s)
            v = self.read(loc)
            if isinstance(v, (It, Ptr)):
                new = self.it_move(v, 1 if op == "++" else -1, n)
            else:
                new = self.arith("+" if op == "++" else "-", v, 1, t, n)
            self.write(loc, new)
            return v if n.get("isPostfix") else loc
        if op == "-":
            v = self.rv(s)
            if is_int(v):
                return self.wrap(sub(0, v), int_type(t))
            return neg(v)
        if op == "+":
            return self.rv(s)
        if op == "!":
            return not_(boolv(self.rv(s)))
        if op == "*":
            v = self.rv(s)
            if isinstance(v, Ptr):
                if v.loc is None:
                    self.safety("null pointer dereference", False, n)
                return v.loc
            if isinstance(v, BytePeek):
                return self.peek(v.it, v.ctype, n)
            if isinstance(v, It):
                return self.deref_it(v, n)
            raise Unsupported("* on " + type(v).__name__)
        if op == "&":
            v = self.ev(s)
            if isinstance(v, Loc):
                return Ptr(v)
            if isinstance(v, Opaque):
                return v
            raise Unsupported("& of a temporary")
        raise Unsupported("unary " + op)

    def short(self, n, op):
        """Conjunctions of pure comparisons stay one formula; otherwise fork in the middle."""
        a = boolv(self.rv(n["inner"][0]))
        if op == "&&":
            if not self.ctx.branch(a):
                return False
            return boolv(self.rv(n["inner"][1]))
        if self.ctx.branch(a):
            return True
        return boolv(self.rv(n["inner"][1]))

    def x_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            v = self.rv(b)
            loc = self.lv(a)
            self.write(loc, self.coerce(v, norm_type(a["type"])))
            return loc
        if op in ("&&", "||"):
            return self.short(n, op)
        if op == ",":
            self.ev(a)
            return self.ev(b)
        if op in ("+", "-", "*") and int_type(norm_type(n["type"])) == (64, False):
            x, y = self.ring(a), self.ring(b)
        else:
            x, y = self.rv(a), self.rv(b)
        if isinstance(x, RawPtr) and op == "+":
            return RawPtr(x.loc, x.ctype, y)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, x, y)
        return self.arith(op, x, y, norm_type(n["type"]), n)

    def ring(self, n):
        """An operand of +, - or * modulo 2^64: reduced only where the result of the whole expression is used."""
        k = n.get("kind")
        if k == "ParenExpr":
            return self.ring(n["inner"][0])
        if k == "ImplicitCastExpr" and n.get("castKind") == "NoOp":
            return self.ring(n["inner"][0])
        if int_type(norm_type(n["type"])) == (64, False):
            if k == "BinaryOperator" and n["opcode"] in ("+", "-", "*"):
                x, y = self.ring(n["inner"][0]), self.ring(n["inner"][1])
                if is_int(x) and is_int(y):
                    return {"+": add, "-": sub, "*": mul}[n["opcode"]](x, y)
                return self.arith(n["opcode"], x, y, norm_type(n["type"]), n)
            if n.get("castKind") == "IntegralCast":
                s = n["inner"][0]
                if int_type(norm_type(s["type"])) and int_type(norm_type(s["type"]))[1]:
                    v = self.rv(s)
                    if is_scalar(v) and not is_bool(v):
                        return to_int(v)
        return self.rv(n)

    def x_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        ct = norm_type(n.get("computeResultType") or n["type"])
        y = self.ring(b) if op in ("+", "-", "*") and int_type(ct) == (64, False) else self.rv(b)
        loc = self.lv(a)
        x = self.read(loc)
        ct = norm_type(n.get("computeResultType") or n["type"])
        if is_double(ct):
            x, y = to_real(x), to_real(y)
        v = self.arith(op, x, y, ct, n)
        at = norm_type(a["type"])
        if is_real(v) and int_type(at):
            raise Unsupported("floating compound assignment to an integer")
        self.write(loc, v)
        return loc

    def x_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        return self.ev(a) if self.ctx.branch(boolv(self.rv(c))) else self.ev(b)

    def x_LambdaExpr(self, n):
        inner = n["inner"]
        rec = inner[0]
        fields = [c for c in rec["inner"] if c.get("kind") == "FieldDecl"]
        caps = {}
        this = self.frames[-1].this

        def find(e):
            if e.get("kind") == "DeclRefExpr":
                return e
            for c in e.get("inner", []):
                r = find(c)
                if r:
                    return r
            return None
        inits = [e for e in inner[1:] if e.get("kind") != "CompoundStmt"]
        for i, e in enumerate(inits):
            d = find(e)
            if d is None:
                continue
            did = d["referencedDecl"]["id"]
            ref = i < len(fields) and is_ref(norm_type(fields[i]["type"]))
            if ref:
                caps[did] = ("ref", self.frames[-1].env[did])
            else:
                v = self.rv(d)
                caps[did] = ("val", v)
        fn = [c for c in rec["inner"] if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"]
        if not fn:
            fn = [f for c in rec["inner"] if c.get("kind") == "FunctionTemplateDecl" for f in c.get("inner", [])
                  if f.get("kind") == "CXXMethodDecl" and f.get("name") == "operator()"][1:]
            fn = [f for f in fn if A.body(f)]
            if len(fn) != 1:
                raise Unsupported("generic lambda")
        return Clo(fn[0], caps, this)

    def call_closure(self, clo, args):
        fr = Frame(clo.node, clo.this, "lambda")
        for did, (k, v) in clo.caps.items():
            fr.env[did] = v if k == "ref" else self.new(v, "cap")
        return self.run_body(fr, clo.node, args)

    # ---- construction ------------------------------------------------------------------------------------------------
    def default(self, t):
        """Default-initialised value of a type (scalars are indeterminate)."""
        t0 = t
        t = strip_cv(t)
        if is_double(t) or t in INT:
            return Uninit(t)
        if t.endswith("*"):
            return Uninit(t)
        c = clean_class(t)
        h = self.hooks.get("default")
        if h is not None:
            r = h(self, t)
            if r is not NotImplemented:
                return r
        b = re.sub(r"^std::(__cxx11::)?", "", re.sub(r"<.*", "", t)).strip()
        if b in ("map",):
            return MapV()
        if b in ("set",):
            return SetV()
        if b in ("vector", "deque", "list"):
            if re.match(r"(std::)?vector<unsigned char", t):
                return BytesV()
            return Seq((), b)
        if t == "Bytes" or t == "rtbot::Bytes":
            return BytesV()
        if b in ("basic_string", "string"):
            return ""
        if b in ("unique_ptr", "shared_ptr"):
            return Ptr(None)
        if b == "optional":
            return Opt(False)
        if b == "function":
            return Ptr(None)
        if b == "pair":
            m = split_targs(t)
            return Rec("pair", {"first": self.zero(m[0]), "second": self.zero(m[1])})
        if c in ("PortMessage",):
            return Seq((), "vector")
        if c in ("OperatorMessage", "ProgramMessage"):
            return MapV()
        if c in self.P.classes:
            return self.raw_object(c)
        if c in ("iterator", "const_iterator") or b in ("_Rb_tree_iterator", "_Rb_tree_const_iterator"):
            return Uninit(t)
        if t.rsplit("::", 1)[-1] in self.P.enum_types:
            return Uninit("int")
        if jsonv.is_json_type(t):
            return JsonV()
        raise Unsupported(f"default value of {t0}")

    def raw_object(self, cls):
        f = {}
        for k, fd in self.P.all_fields(cls):
            f[fd["name"]] = Uninit(norm_type(fd["type"]))
        return Rec(cls, f)

    def find_ctor(self, cls, ctor_type, nargs):
        C = self.P.classes[cls]
        def nrm(s):
            return re.sub(r"\s+", "", s.replace("noexcept", ""))
        c = [k for k in C.ctors if nrm(k["type"]["qualType"]) == nrm(ctor_type)]
        if not c:
            c = [k for k in C.ctors if len(A.params(k)) == nargs and not k.get("isImplicit")]
        if not c:
            raise Unsupported(f"constructor of {cls}: {ctor_type}")
        return c[0]

    def construct_into(self, loc, cls, ctor, args, argnodes=None):
        """Run a constructor on the object at loc (already raw)."""
        self.ctx.sh.functions.add(f"{cls}::{cls}")
        ctor = self.P.outofline.get(ctor["id"], ctor)
        fr = Frame(ctor, loc, cls)
        self.bind_params(fr, ctor, args)
        self.frames.append(fr)
        try:
            inits = [c for c in ctor.get("inner", []) if c.get("kind") == "CXXCtorInitializer"]
            done = set()
            for i in inits:
                if "baseInit" in i:
                    bc = clean_class(norm_type(i["baseInit"]))
                    self.init_base(loc, bc, i["inner"][0])
                    done.add("base:" + bc)
            for b in self.P.classes[cls].bases:
                bc = clean_class(b)
                if "base:" + bc not in done and bc in self.P.classes:
                    self.default_ctor(loc, bc)
            byname = {self.P.renamed.get(i["anyInit"]["id"], i["anyInit"]["name"]): i for i in inits if "anyInit" in i}
            for fd in self.P.classes[cls].fields:
                nm = fd["name"]
                if nm in byname:
                    e = byname[nm]["inner"][0]
                    if e.get("kind") == "CXXDefaultInitExpr":
                        self.field_default(loc, fd)
                    else:
                        self.write(loc.f(nm), self.coerce(self.rv(e), norm_type(fd["type"])))
                else:
                    self.field_default(loc, fd)
            b = A.body(ctor)
            if b is not None:
                try:
                    self.ex(b)
                except ReturnEx:
                    pass
        finally:
            self.frames.pop()

    def field_default(self, loc, fd):
        init = [c for c in fd.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
        if init:
            self.write(loc.f(fd["name"]), self.coerce(self.rv(init[-1]), norm_type(fd["type"])))
            return
        t = norm_type(fd["type"])
        c = clean_class(t)
        if c in self.P.classes and not t.rstrip().endswith("*") and "<" not in t.split("rtbot::")[0]:
            self.write(loc.f(fd["name"]), self.raw_object(c))
            self.default_ctor(loc.f(fd["name"]), c)
        else:
            self.write(loc.f(fd["name"]), self.default(t))

    def default_ctor(self, loc, cls):
        C = self.P.classes[cls]
        for k in C.ctors:
            if not A.params(k) and A.body(k):
                return self.construct_into(loc, cls, k, [])
        for b in C.bases:
            bc = clean_class(b)
            if bc in self.P.classes:
                self.default_ctor(loc, bc)
        for fd in C.fields:
            self.field_default(loc, fd)

    def init_base(self, loc, bc, e):
        while e.get("kind") in SKIP:
            e = e["inner"][0]
        if e.get("kind") == "CXXConstructExpr":
            args = e.get("inner", [])
            if bc not in self.P.classes:
                return
            if not args:
                return self.default_ctor(loc, bc)
            ctor = self.find_ctor(bc, e["ctorType"]["qualType"], len(args))
            return self.construct_into(loc, bc, ctor, self.eval_args(ctor, args))
        raise Unsupported("base initialiser " + str(e.get("kind")))

    def make_object(self, cls, ctor_type, args_nodes):
        h = self.hooks.get("construct:" + cls)
        if h is not None:
            r = h(self, ctor_type, args_nodes)
            if r is not NotImplemented:
                return r
        loc = self.new(self.raw_object(cls), "obj")
        if not args_nodes:
            self.default_ctor(loc, cls)
        else:
            ctor = self.find_ctor(cls, ctor_type, len(args_nodes))
            ps = A.params(ctor)
            # copy / move
            if len(args_nodes) == 1 and clean_class(norm_type(ps[0]["type"])) == cls and is_ref(norm_type(ps[0]["type"])):
                v = self.rv(args_nodes[0])
                self.store.pop(loc.cell, None)
                return v
            self.construct_into(loc, cls, ctor, self.eval_args(ctor, args_nodes))
        return self.store.pop(loc.cell)

    def x_CXXConstructExpr(self, n):
        t = norm_type(n["type"])
        args = [a for a in n.get("inner", []) if a.get("kind") != "CXXDefaultArgExpr" or clean_class(t) in self.P.classes]
        c = clean_class(t)
        if c in self.P.classes:
            v = self.make_object(c, n.get("ctorType", {}).get("qualType", ""), args)
            if n.get("zeroing"):
                r = self.read(v) if isinstance(v, Loc) else v
                r = self.zeroed(r)
                if isinstance(v, Loc):
                    self.write(v, r)
                else:
                    v = r
            return v
        return self.std_construct(t, [a for a in args], n)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def zeroed(self, v):
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.zero(x.t) if isinstance(x, Uninit) else self.zeroed(x) for k, x in v.f.items()})
        return v

    def std_construct(self, t, args, n):
        b = re.sub(r"^std::(__cxx11::)?", "", re.sub(r"<.*", "", strip_cv(t))).strip()
        h = self.hooks.get("construct:" + b.rsplit("::", 1)[-1])
        if h is not None:
            r = h(self, t, args)
            if r is not NotImplemented:
                return r
        if not args:
            return self.default(t)
        if b in ("nlohmann::basic_json", "basic_json", "json_ref", "nlohmann::detail::json_ref"):
            return jsonv.construct(self, t, args, n)
        vals = [self.rv(a) for a in args]
        v = vals[0]
        if isinstance(v, JsonV) and len(vals) == 1:
            if b == "optional":
                return Opt(True, jsonv.get(self, v, split_targs(strip_cv(t))[0]))
            return jsonv.get(self, v, t)
        if b in ("istringstream", "basic_istringstream") and isinstance(v, str) and not isinstance(v, TaintStr):
            return Rec("istringstream", {"text": v, "pos": 0})
        if len(vals) == 1 and (not is_scalar(v) or b in ("optional", "function")):
            if b == "optional":
                return v if isinstance(v, Opt) else Opt(True, v)
            if b in ("unique_ptr", "shared_ptr", "function") and v is None:
                return Ptr(None)
            if b in ("vector",) and isinstance(v, tuple):
                return Seq([Elems(v)])
            if b in ("map",) and isinstance(v, tuple):
                return MapV({x.f["first"]: x.f["second"] for x in v})
            return v
        if b in ("basic_string", "string"):
            if isinstance(v, str):
                return v
            if isinstance(v, BytesIt):
                return self.bytes_string(v, vals[1], n)
        if b == "pair":
            m = split_targs(strip_cv(t))
            return Rec("pair", {"first": self.coerce(vals[0], m[0]), "second": self.coerce(vals[1], m[1])})
        if b == "vector" and len(vals) == 1 and is_int(v):
            el = split_targs(strip_cv(t))
            z = self.zero(el[0])
            if not isz(v):
                return Seq([Elems([z] * v)])
            return Seq([Sym(Base("const", lambda j: z), 0, v)])
        if b in ("vector", "deque", "set") and len(vals) >= 2 and isinstance(v, It):
            src = self.range_values(v, vals[1])
            if b == "set":
                return SetV(src)
            return Seq([Elems(src)], b) if not isinstance(src, Seq) else src
        if b == "vector" and len(vals) == 2 and is_int(v):
            if not isz(v):
                return Seq([Elems([vals[1]] * v)])
            x = vals[1]
            return Seq([Sym(Base("const", lambda j: x), 0, v)])
        raise Unsupported(f"construction of {t} from {[type(x).__name__ for x in vals]}")

    def range_values(self, a, b):
        c = self.read(a.loc)
        if a.kind in ("rset", "rmap"):
            ks = c.keys()[::-1]
            i = ks.index(a.pos) if a.pos is not None else len(ks)
            j = ks.index(b.pos) if b.pos is not None else len(ks)
            return [Rec("pair", {"first": k, "second": c.d[k]}) if a.kind == "rmap" else k for k in ks[i:j]]
        if a.kind == "rseq":
            if not (isinstance(c, Seq) and all(isinstance(g, Elems) for g in c.segs) and not isz(a.pos) and not isz(b.pos)):
                raise Unsupported("a symbolic range in reverse order")
            return [x for g in c.segs for x in g.xs][b.pos:a.pos][::-1]
        if a.kind in ("set", "map"):
            ks = c.keys()
            i = ks.index(a.pos) if a.pos is not None else len(ks)
            j = ks.index(b.pos) if b.pos is not None else len(ks)
            ks = ks[i:j]
            if a.kind == "map":
                return [Rec("pair", {"first": k, "second": c.d[k]}) for k in ks]
            return ks
        if eq(a.pos, 0) is True and (same(b.pos, c.size()) or self.ctx.proves(eq(b.pos, c.size()))):
            return c
        raise Unsupported("part of a sequence")

    def x_CXXStdInitializerListExpr(self, n):
        e = n["inner"][0]
        while e.get("kind") in SKIP or e.get("kind") == "MaterializeTemporaryExpr":
            e = e["inner"][0]
        if e.get("kind") == "InitListExpr":
            return tuple(self.rv(c) for c in e.get("inner", []))
        raise Unsupported("initializer_list")

    def x_InitListExpr(self, n):
        t = norm_type(n["type"])
        inner = n.get("inner", [])
        if is_double(t) or int_type(t):
            return self.coerce(self.rv(inner[0]), t) if inner else self.zero(t)
        c = clean_class(t)
        if c in self.P.classes:
            r = self.default(t)
            f = dict(r.f)
            for fd, e in zip(self.P.classes[c].fields, inner):
                f[fd["name"]] = self.coerce(self.rv(e), norm_type(fd["type"]))
            return Rec(c, f)
        if not inner:
            return self.default(t)
        raise Unsupported("initializer list of " + t)

    def x_CXXNewExpr(self, n):
        raise Unsupported("new")

    def x_CXXThrowExpr(self, n):
        raise CppThrow(str(n.get("_loc")))

    def x_CXXDefaultArgExpr(self, n):
        if n.get("inner"):
            return self.ev(n["inner"][0])
        raise Unsupported("default argument")

    # ---- calls --------------------------------------------------------------------------------------------------------
    def eval_args(self, fn, argnodes):
        out = []
        ps = A.params(fn)
        for i, a in enumerate(argnodes):
            pt = norm_type(ps[i]["type"]) if i < len(ps) else ""
            if a.get("kind") == "CXXDefaultArgExpr" and not a.get("inner"):
                out.append(self.default_arg(ps[i]))
                continue
            if is_ref(pt):
                out.append(self.lv(a))
            else:
                out.append(self.coerce(self.rv(a), pt))
        return out

    def default_arg(self, p):
        init = [c for c in p.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
        if init:
            return self.coerce(self.rv(init[-1]), norm_type(p["type"]))
        # the default was not instantiated: only the empty ones of this code base are known
        t = norm_type(p["type"])
        v = self.default(t)
        if isinstance(v, Uninit):
            raise Unsupported("default argument of " + p.get("name", "?"))
        return v

    def bind_params(self, fr, fn, args):
        ps = A.params(fn)
        args = list(args)
        while len(args) < len(ps):
            p = ps[len(args)]
            args.append(self.default_arg(p))
        for p, a in zip(ps, args):
            if isinstance(a, Loc):
                if is_ref(norm_type(p["type"])):
                    fr.env[p["id"]] = a
                    continue
                a = self.read(a)
            fr.env[p["id"]] = self.new(self.coerce(a, norm_type(p["type"])), p.get("name", "p"))

    def run_body(self, fr, fn, args):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth")
        self.bind_params(fr, fn, args)
        b = A.body(fn)
        if b is None:
            raise Unsupported(f"no body for {fn.get('name')}")
        self.frames.append(fr)
        rt = fn["type"]["qualType"].split("(")[0].strip()
        try:
            self.ex(b)
            res = None
        except ReturnEx as r:
            res = r.v
        finally:
            self.frames.pop()
            self.depth -= 1
        if isinstance(res, Loc) and not is_ref(rt) and not rt.startswith("auto"):
            res = self.read(res)
        if is_double(rt) and is_scalar(res):
            res = to_real(res)
        return res

    def invoke(self, cls_of_method, m, this, args):
        """Call a method of one of /repo's classes: through its contract when it has one, else its body."""
        m = self.P.outofline.get(m["id"], m)
        h = self.hooks.get(f"{cls_of_method}::{m['name']}") or self.hooks.get(m["name"])
        if h is not None:
            r = h(self, this, m, args)
            if r is not NotImplemented:
                return r
        self.ctx.sh.functions.add(f"{cls_of_method}::{m['name']}")
        return self.run_body(Frame(m, this, cls_of_method), m, args)

    def dyn_class(self, loc):
        v = self.read(loc)
        if isinstance(v, Rec):
            return v.cls
        return None

    def call_method(self, loc, name, args, sig=None, static_cls=None):
        """Virtual call by name from the harness."""
        cls = static_cls or self.dyn_class(loc)
        ms = self.P.find_methods(cls, name)
        ms = [x for x in ms if len(A.params(x[1])) >= len(args)]
        if sig:
            ms = [x for x in ms if re.sub(r"\s", "", sig) in re.sub(r"\s", "", x[1]["type"]["qualType"])] or ms
        if not ms:
            raise Unsupported(f"{cls} has no method {name}")
        k, m = ms[0]
        return self.invoke(k.name, m, loc, args)

    def x_CXXMemberCallExpr(self, n):
        me = n["inner"][0]
        while me.get("kind") in SKIP or me.get("kind") == "ImplicitCastExpr":
            me = me["inner"][0]
        if me.get("kind") != "MemberExpr":
            raise Unsupported("call through " + str(me.get("kind")))
        name = me["name"]
        argn = n["inner"][1:]
        base = me["inner"][0]
        # object
        if me.get("isArrow"):
            b = self.rv(base)
            if isinstance(b, Ptr):
                if b.loc is None:
                    self.safety("null pointer dereference", False, n)
                obj = b.loc
            elif isinstance(b, It):
                obj = self.deref_it(b, n)
            else:
                obj = b
        else:
            obj = self.ev(base)
        did = me.get("referencedMemberDecl")
        m = self.P.by_id.get(did)
        owner = self.P.method_of.get(did)
        val = self.read(obj) if isinstance(obj, Loc) else obj
        if isinstance(val, Opaque):
            return self.opaque_call(val, name, argn, n)
        if m is not None and owner is not None and not isinstance(val, (MapV, SetV, Seq, str)):
            loc = obj if isinstance(obj, Loc) else self.new(obj)
            if me.get("_qual"):
                k, mm = self.P.classes[owner], m
            else:
                dyn = self.dyn_class(loc) or owner
                sig = re.sub(r"^[^(]*", "", re.sub(r"\s*\b(override|noexcept)\b", "", m["type"]["qualType"]))
                k, mm = self.P.classes[owner], m
                if self.is_virtual(owner, name, sig):
                    for k2, m2 in self.P.find_methods(dyn, name):
                        s2 = re.sub(r"^[^(]*", "", re.sub(r"\s*\b(override|noexcept)\b", "", m2["type"]["qualType"]))
                        if s2 == sig:
                            k, mm = k2, m2
                            break
            return self.invoke(k.name, mm, loc, self.eval_args(mm, argn))
        return self.std_method(obj, val, name, argn, n)

    def is_virtual(self, cls, name, sig):
        for k in self.P.mro(cls):
            for m in k.methods:
                if m.get("name") == name and m.get("virtual"):
                    return True
        return False

    def opaque_call(self, o, name, argn, n):
        h = self.hooks.get("opaque:" + name)
        if h is None and name == "what" and o.name == "exception":
            return o.info["text"]
        if h is None:
            raise Unsupported(f"call of {name} on opaque {o.name}")
        return h(self, o, [self.ev(a) for a in argn], n)

    def key(self, k):
        if isinstance(k, JsonV) and k.kind == "str":
            k = k.v
        elif isinstance(k, JsonV):
            raise jsonv.error("type_error")
        if isinstance(k, TaintStr) or not isinstance(k, str):
            raise Unsupported("symbolic map key")
        return str(k)

    def std_method(self, obj, v, name, argn, n):
        loc = obj if isinstance(obj, Loc) else None
        if isinstance(v, MapV):
            return self.map_method(loc if loc else self.new(v), v, name, argn, n)
        if isinstance(v, SetV):
            return self.set_method(loc if loc else self.new(v), v, name, argn, n)
        if isinstance(v, Seq):
            return self.seq_method(loc if loc else self.new(v), v, name, argn, n)
        if isinstance(v, BytesV):
            return self.bytes_method(loc if loc else self.new(v), v, name, argn, n)
        if isinstance(v, str):
            if name in ("size", "length"):
                return len(v)
            if name == "empty":
                return v == ""
            if name in ("begin", "end", "cbegin", "cend"):
                return ("stritt", v, name.lstrip("c"))
            if name == "c_str":
                return v
            if name == "clear":
                self.write(loc, "")
                return None
            if name == "pop_back":
                self.write(loc, v[:-1])
                return None
            if name == "compare":
                o = self.rv(argn[0])
                return (v > o) - (v < o)
            if name in ("append", "push_back"):
                o = self.rv(argn[0])
                self.write(loc, v + (chr(o) if isinstance(o, int) else o))
                return loc
        if isinstance(v, Opt):
            if name == "has_value":
                return v.has
            if name == "operator bool":
                return v.has
            if name == "value":
                if self.ctx.branch(not_(v.has)):
                    self.safety("value() of an empty optional", False, n)
                return v.val
            if name == "value_or":
                d = self.rv(argn[0])
                return v.val if self.ctx.branch(v.has) else d
            if name == "reset":
                self.write(loc, Opt(False))
                return None
        if isinstance(v, Ptr):
            if name == "get":
                return v
            if name == "reset":
                self.write(loc, self.rv(argn[0]) if argn else Ptr(None))
                return None
            if name == "operator bool":
                return v.loc is not None
        if isinstance(v, JsonV):
            return jsonv.method(self, loc, v, name, argn, n)
        if isinstance(v, PM):
            if name == "empty":
                return eq(v.seq.size(), 0)
        if isinstance(v, Clo) and name in ("operator()",):
            return self.call_closure(v, [self.ev(a) for a in argn])
        h = self.hooks.get("std:" + type(v).__name__ + "." + name)
        if h:
            return h(self, loc, v, argn, n)
        raise Unsupported(f"{type(v).__name__}.{name}")

    def map_method(self, loc, v, name, argn, n):
        if name == "empty":
            return not v.d
        if name == "size":
            return len(v.d)
        if name in ("begin", "cbegin"):
            ks = v.keys()
            return It("map", loc, ks[0] if ks else None)
        if name in ("end", "cend"):
            return It("map", loc, None)
        if name in ("rbegin", "crbegin"):
            ks = v.keys()
            return It("rmap", loc, ks[-1] if ks else None)
        if name in ("rend", "crend"):
            return It("rmap", loc, None)
        if name == "clear":
            self.write(loc, MapV())
            return None
        if name == "swap":
            o = self.lv(argn[0])
            x = self.read(o)
            self.write(o, v)
            self.write(loc, x)
            return None
        if name == "insert" and len(argn) == 1:
            p = self.rv(argn[0])
            if isinstance(p, tuple) and len(p) == 2:
                p = Rec("pair", {"first": p[0], "second": p[1]})
            k = self.key(p.f["first"])
            if k not in v.d:
                d = dict(v.d)
                d[k] = p.f["second"]
                self.write(loc, MapV(d))
            return Rec("pair", {"first": It("map", loc, k), "second": k not in v.d})
        if name in ("emplace", "insert_or_assign", "try_emplace"):
            k = self.key(self.rv(argn[0]))
            val = self.rv(argn[1])
            fresh = k not in v.d
            if fresh or name == "insert_or_assign":
                v = self.read(loc)
                d = dict(v.d)
                d[k] = val
                self.write(loc, MapV(d))
            return Rec("pair", {"first": It("map", loc, k), "second": fresh})
        if name == "erase":
            a = self.rv(argn[0])
            if isinstance(a, It):
                if a.kind[0] == "r":
                    raise Unsupported("erase of a reverse iterator")
                self.safety("erase of the end iterator", a.pos is not None, n)
                ks = v.keys()
                i = ks.index(a.pos)
                k = a.pos
                nxt = ks[i + 1] if i + 1 < len(ks) else None
                d = dict(v.d)
                del d[k]
                self.write(loc, MapV(d))
                return It("map", loc, nxt)
            k = self.key(a)
            if k in v.d:
                d = dict(v.d)
                del d[k]
                self.write(loc, MapV(d))
                return 1
            return 0
        if name in ("count", "contains"):
            k = self.key(self.rv(argn[0]))
            r = k in v.d
            return r if name == "contains" else int(r)
        if name == "find":
            k = self.key(self.rv(argn[0]))
            return It("map", loc, k if k in v.d else None)
        if name == "at":
            k = self.key(self.rv(argn[0]))
            if k not in v.d:
                raise CppThrow(f"map::at({k})")
            return Loc(loc.cell, loc.path + (("m", k),))
        raise Unsupported("map." + name)

    def set_method(self, loc, v, name, argn, n):
        if name == "empty":
            return not v.s
        if name == "size":
            return len(v.s)
        if name in ("begin", "cbegin"):
            ks = v.keys()
            return It("set", loc, ks[0] if ks else None)
        if name in ("end", "cend"):
            return It("set", loc, None)
        if name in ("rbegin", "crbegin"):
            ks = v.keys()
            return It("rset", loc, ks[-1] if ks else None)
        if name in ("rend", "crend"):
            return It("rset", loc, None)
        if name == "clear":
            self.write(loc, SetV())
            return None
        if name in ("count", "contains"):
            r = self.key(self.rv(argn[0])) in v.s
            return r if name == "contains" else int(r)
        if name in ("insert", "emplace"):
            k = self.key(self.rv(argn[0]))
            fresh = k not in v.s
            self.write(loc, SetV(v.s | {k}))
            return Rec("pair", {"first": It("set", loc, k), "second": fresh})
        if name == "erase":
            a = self.rv(argn[0])
            if isinstance(a, It):
                if a.kind[0] == "r":
                    raise Unsupported("erase of a reverse iterator")
                self.safety("erase of the end iterator", a.pos is not None, n)
                ks = v.keys()
                i = ks.index(a.pos)
                self.write(loc, SetV(v.s - {a.pos}))
                return It("set", loc, ks[i + 1] if i + 1 < len(ks) else None)
            k = self.key(a)
            self.write(loc, SetV(v.s - {k}))
            return int(k in v.s)
        if name == "find":
            k = self.key(self.rv(argn[0]))
            return It("set", loc, k if k in v.s else None)
        raise Unsupported("set." + name)

    def seq_method(self, loc, v, name, argn, n):
        if name == "empty":
            return eq(v.size(), 0)
        if name in ("size", "length"):
            return v.size()
        if name == "push_back" or name == "emplace_back":
            x = self.rv(argn[0])
            v = self.read(loc)
            self.write(loc, self.seq_push(v, x))
            return None
        if name == "push_front":
            x = self.rv(argn[0])
            self.write(loc, Seq((Elems([x]),) + v.segs, v.kind))
            return None
        if name in ("front", "back"):
            self.safety(f"{name}() of an empty sequence", gt(v.size(), 0), n)
            i = 0 if name == "front" else sub(v.size(), 1)
            return Loc(loc.cell, loc.path + (("s", i),))
        if name in ("pop_front", "pop_back"):
            self.safety(f"{name}() of an empty sequence", gt(v.size(), 0), n)
            self.write(loc, self.seq_pop_front(v) if name == "pop_front" else self.seq_pop_back(v))
            return None
        if name == "at":
            i = self.rv(argn[0])
            self.safety("at() out of range", and_(ge(i, 0), lt(i, v.size())), n)
            return Loc(loc.cell, loc.path + (("s", i),))
        if name in ("begin", "cbegin"):
            return It("seq", loc, 0)
        if name in ("end", "cend"):
            return It("seq", loc, v.size())
        if name in ("rbegin", "crbegin"):
            return It("rseq", loc, v.size())
        if name in ("rend", "crend"):
            return It("rseq", loc, 0)
        if name == "clear":
            self.write(loc, Seq((), v.kind))
            return None
        if name in ("reserve", "shrink_to_fit"):
            for a in argn:
                self.rv(a)
            return None
        if name == "insert" and len(argn) == 3:
            pos, a, b = [self.rv(x) for x in argn]
            if isinstance(pos, It) and pos.kind == "seq" and (same(pos.pos, v.size()) or self.ctx.proves(eq(pos.pos, v.size()))):
                src = self.range_values(a, b)
                if not isinstance(src, Seq):
                    src = Seq([Elems(src)])
                self.write(loc, self.seq_concat(v, src))
                return None
        if name == "assign" and len(argn) == 2:
            a, b = [self.rv(x) for x in argn]
            src = self.range_values(a, b)
            self.write(loc, src if isinstance(src, Seq) else Seq([Elems(src)], v.kind))
            return None
        if name == "erase" and len(argn) == 1:
            it = self.rv(argn[0])
            if isinstance(it, It) and it.kind == "seq" and eq(it.pos, 0) is True:
                self.safety("erase of an empty sequence", gt(v.size(), 0), n)
                self.write(loc, self.seq_pop_front(v))
                return It("seq", loc, 0)
        if name == "resize" and len(argn) == 1:
            k = self.rv(argn[0])
            if not isz(k) and not isz(v.size()) and k <= v.size():
                for _ in range(v.size() - k):
                    v = self.seq_pop_back(v)
                self.write(loc, v)
                return None
        if name == "swap":
            o = self.lv(argn[0])
            x = self.read(o)
            self.write(o, v)
            self.write(loc, x)
            return None
        raise Unsupported("sequence." + name)

    # ---- bytes --------------------------------------------------------------------------------------------------------
    def bytes_method(self, loc, v, name, argn, n):
        if name in ("begin", "cbegin"):
            return BytesIt(v, 0, loc=loc)
        if name in ("end", "cend"):
            return BytesIt(v, len(v.ps), end=True, loc=loc)
        if name == "empty":
            return not v.ps
        if name == "reserve":
            return None
        if name == "insert" and len(argn) == 3:
            pos, a, b = [self.rv(x) for x in argn]
            if not (isinstance(pos, BytesIt) and pos.end):
                raise Unsupported("insert into the middle of a byte string")
            if self.bytes_append(loc, a, b):
                return None
        if name == "push_back":
            x = self.rv(argn[0])
            self.write(loc, BytesV(self.read(loc).ps + (("raw", "unsigned char", 1, x),)))
            return None
        if name == "size":
            return self.bytes_size(v)
        raise Unsupported("bytes." + name)

    def bytes_append(self, loc, a, b):
        """Append the range [a, b) of bytes; False when it is none of the known kinds."""
        v = self.read(loc)
        if isinstance(a, RawPtr):
            if not isinstance(b, RawPtr) or a.loc != b.loc or b.plus is None or isz(b.plus):
                raise Unsupported("bytes of an object")
            val = self.read(a.loc)
            if a.plus is not None:
                raise Unsupported("bytes of an object")
            if b.plus != sizeof(a.ctype):
                val = ("part", b.plus, val)
                new = ("raw", a.ctype, b.plus, Opaque(f"part{b.plus}of{sizeof(a.ctype)}"))
            else:
                new = ("raw", a.ctype, b.plus, val)
            self.write(loc, BytesV(v.ps + (new,)))
            return True
        if isinstance(a, tuple) and a[0] == "stritt" and isinstance(b, tuple) and b[0] == "stritt" and a[1] is b[1] and \
                a[2] == "begin" and b[2] == "end":
            self.write(loc, BytesV(v.ps + (("op" if isinstance(a[1], Opaque) else "str", a[1]),)))
            return True
        if isinstance(a, BytesIt) and isinstance(b, BytesIt) and a.i == 0 and b.end and a.sub == 0 and a.loc == b.loc:
            self.write(loc, BytesV(v.ps + a.bytes.ps))
            return True
        return False

    def piece_size(self, p):
        if p[0] == "raw":
            return p[2]
        if p[0] == "str":
            return len(p[1])
        if p[0] == "op":
            return p[1].info["size"]
        raise Unsupported("size of a piece")

    def bytes_size(self, v):
        n = 0
        for p in v.ps:
            if isinstance(p, Rep):
                k = 0
                for q in p.base.at(z3.Int("__j")):
                    k = add(k, self.piece_size(q))
                if isz(k):
                    raise Unsupported("size of repeated pieces")
                n = add(n, mul(p.n, k))
            else:
                n = add(n, self.piece_size(p))
        return n

    def bytes_norm(self, it):
        """Skip exhausted repetitions."""
        while it.i < len(it.bytes.ps) and isinstance(it.bytes.ps[it.i], Rep) and it.sub == 0:
            p = it.bytes.ps[it.i]
            if self.ctx.branch(lt(it.rep, p.n)):
                break
            it = BytesIt(it.bytes, it.i + 1, 0, 0, it.end, it.loc)
        return it

    def bytes_at_end(self, it):
        if it.end:
            return True
        it = self.bytes_norm(it)
        return it.i >= len(it.bytes.ps)

    def bytes_piece(self, it, node):
        it = self.bytes_norm(it)
        if it.i >= len(it.bytes.ps):
            self.safety("read past the end of the saved bytes", False, node)
        p = it.bytes.ps[it.i]
        if isinstance(p, Rep):
            return it, p.base.at(it.rep)[it.sub]
        return it, p

    def peek(self, it, ctype, node):
        it, p = self.bytes_piece(it, node)
        if p[0] != "raw" or p[2] != sizeof(ctype) or is_double(p[1]) != is_double(ctype) or \
                (strip_cv(p[1]) == "bool") != (ctype == "bool") or isinstance(p[3], Opaque):
            self.safety(f"the bytes read as {ctype} were not written as {ctype}", False, node)
        return p[3]

    def bytes_advance(self, it, n, node):
        while True:
            if not isz(n) and n == 0:
                return it
            it2, p = self.bytes_piece(it, node)
            sz = self.piece_size(p)
            if isz(sz) or isz(n):
                ok = same(sz, n) or self.ctx.proves(eq(sz, n))
                if not ok:
                    raise Unsupported("symbolic advance")
                return self.bytes_next(it2)
            if n < sz:
                self.safety("the position moves into the middle of a saved value", False, node)
            n -= sz
            it = self.bytes_next(it2)

    def bytes_next(self, it):
        p = it.bytes.ps[it.i]
        if isinstance(p, Rep):
            if it.sub + 1 < len(p.base.at(it.rep)):
                return BytesIt(it.bytes, it.i, it.rep, it.sub + 1, False, it.loc)
            return BytesIt(it.bytes, it.i, add(it.rep, 1), 0, False, it.loc)
        return BytesIt(it.bytes, it.i + 1, 0, 0, False, it.loc)

    def bytes_string(self, it, end, node):
        if not isinstance(end, BytesPlus) or not it.same(end.it):
            raise Unsupported("string from a byte range")
        if not isz(end.n) and end.n == 0:
            return ""
        it, p = self.bytes_piece(it, node)
        if p[0] != "str" or isz(end.n) or len(p[1]) != end.n:
            if p[0] == "op" and p[1].info.get("text") is not None and same(p[1].info["size"], end.n):
                return p[1].info["text"]
            self.safety("the bytes read as a string were not written as that string", False, node)
        return p[1]

    # ---- free functions and operators -----------------------------------------------------------------------------------
    def it_move(self, it, d, node=None):
        if not isinstance(it, It):
            raise Unsupported("++ on " + type(it).__name__)
        c = self.read(it.loc)
        if it.kind == "rseq":
            return It("rseq", it.loc, sub(it.pos, d))
        if it.kind in ("map", "set", "rmap", "rset"):
            ks = c.keys()
            if it.kind[0] == "r":
                ks = ks[::-1]
            if d == 1:
                self.safety("increment of the end iterator", it.pos is not None, node)
                if it.pos not in ks:
                    raise Unsupported("increment of an invalidated iterator")
                i = ks.index(it.pos) + 1
                return It(it.kind, it.loc, ks[i] if i < len(ks) else None)
            i = len(ks) if it.pos is None else ks.index(it.pos)
            self.safety("decrement of the begin iterator", i > 0, node)
            return It(it.kind, it.loc, ks[i - 1])
        return It("seq", it.loc, add(it.pos, d))

    def x_CXXOperatorCallExpr(self, n):
        f = n["inner"][0]
        while f.get("kind") in SKIP or f.get("kind") == "ImplicitCastExpr":
            f = f["inner"][0]
        name = f["referencedDecl"]["name"]
        argn = n["inner"][1:]
        op = name[len("operator"):]
        did = f["referencedDecl"]["id"]
        if op == "=":
            v = self.rv(argn[1])
            loc = self.lv(argn[0])
            old = self.store.get(loc.cell)
            cur = self.read(loc) if not isinstance(old, Uninit) else None
            if isinstance(cur, (Seq,)) and isinstance(v, tuple):
                v = Seq([Elems(v)], cur.kind)
            if isinstance(cur, MapV) and isinstance(v, tuple):
                v = MapV({x.f["first"]: x.f["second"] for x in v})
            if isinstance(v, Ptr) and isinstance(cur, Opt):
                v = Opt(False)
            if isinstance(cur, Opt) and not isinstance(v, Opt):
                v = Opt(True, v)
            if isinstance(cur, JsonV):
                v = jsonv.wrap(v)
            elif isinstance(v, JsonV) and cur is not None:
                v = jsonv.get(self, v, norm_type(argn[0]["type"]))
            h = self.hooks.get("assign")
            if h and h(self, loc, v):
                return loc
            own = self.P.by_id.get(did)
            if own is not None and not own.get("isImplicit") and self.P.method_of.get(did) and A.body(self.P.outofline.get(did, own)):
                return self.invoke(self.P.method_of[did], own, loc, [self.new(v, "rhs") if is_ref(norm_type(A.params(own)[0]["type"])) else v])
            self.write(loc, v)
            return loc
        if op == "()":
            o = self.rv(argn[0])
            if isinstance(o, Clo):
                return self.call_closure(o, [self.ev(a) for a in argn[1:]])
            if isinstance(o, Opaque) and self.hooks.get("opaque:()"):
                return self.hooks["opaque:()"](self, o, [self.rv(a) for a in argn[1:]], n)
            raise Unsupported("call of " + type(o).__name__)
        if op == "[]":
            base = self.ev(argn[0])
            v = self.read(base) if isinstance(base, Loc) else base
            i = self.rv(argn[1])
            if isinstance(v, MapV):
                loc = base if isinstance(base, Loc) else self.new(v)
                k = self.key(i)
                if k not in v.d:
                    d = dict(v.d)
                    ty = norm_type(n["type"])
                    d[k] = self.zero(ty)
                    self.write(loc, MapV(d))
                return Loc(loc.cell, loc.path + (("m", k),))
            if isinstance(v, Seq):
                loc = base if isinstance(base, Loc) else self.new(v)
                self.safety("operator[] out of range", and_(ge(i, 0), lt(i, v.size())), n)
                return Loc(loc.cell, loc.path + (("s", i),))
            if isinstance(v, JsonV):
                return jsonv.index(self, base, v, i, n)
            h = self.hooks.get("index:" + type(v).__name__)
            if h:
                return h(self, base, v, i, n)
            raise Unsupported("[] on " + type(v).__name__)
        if op in ("++", "--"):
            loc = self.lv(argn[0])
            v = self.read(loc)
            self.write(loc, self.bytes_advance(v, 1, n) if isinstance(v, BytesIt) and op == "++" else self.it_move(v, 1 if op == "++" else -1, n))
            return v if len(argn) > 1 else loc
        if op == "*" and len(argn) == 1:
            v = self.rv(argn[0])
            if isinstance(v, It):
                return self.deref_it(v, n)
            if isinstance(v, BytesIt):
                return BytePeek(v, None)
            if isinstance(v, Ptr):
                if v.loc is None:
                    self.safety("null pointer dereference", False, n)
                return v.loc
            if isinstance(v, Opt):
                self.safety("* of an empty optional", v.has, n)
                return v.val
            raise Unsupported("* on " + type(v).__name__)
        if op == "->":
            return self.rv(argn[0])
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, self.rv(argn[0]), self.rv(argn[1]))
        if op == "+":
            a, b = self.rv(argn[0]), self.rv(argn[1])
            if isinstance(a, str) or isinstance(b, str):
                return self.str_add(a, b)
            if isinstance(a, BytesIt):
                return BytesPlus(a, b)
            if isinstance(a, It) and a.kind == "seq":
                return It("seq", a.loc, add(a.pos, b))
        if op == "-":
            a, b = self.rv(argn[0]), self.rv(argn[1])
            if isinstance(a, It) and a.kind == "seq":
                return sub(a.pos, b.pos) if isinstance(b, It) else It("seq", a.loc, sub(a.pos, b))
        if op == "+=":
            loc = self.lv(argn[0])
            v = self.read(loc)
            b = self.rv(argn[1])
            if isinstance(v, BytesIt):
                self.write(loc, self.bytes_advance(v, b, n))
                return loc
            if isinstance(v, str):
                self.write(loc, self.str_add(v, b))
                return loc
            if isinstance(v, It) and v.kind == "seq":
                self.write(loc, It("seq", v.loc, add(v.pos, b)))
                return loc
        if op == "!":
            return not_(boolv(self.rv(argn[0])))
        if op == '""s':
            return self.rv(argn[0])
        if op == "<<" and "ostream" in norm_type(n["type"]):
            return Opaque("stream")          # what is printed does not matter
        h = self.hooks.get("operator" + op)
        if h:
            return h(self, argn, n)
        raise Unsupported("operator" + op)

    def str_add(self, a, b):
        if isinstance(a, int):
            a = chr(a)
        if isinstance(b, int):
            b = chr(b)
        if not isinstance(a, str) or not isinstance(b, str):
            raise Unsupported("string concatenation")
        r = a + b
        return TaintStr(r) if isinstance(a, TaintStr) or isinstance(b, TaintStr) else r

    def x_UserDefinedLiteral(self, n):
        return self.rv(n["inner"][1])

    def x_CallExpr(self, n):
        f = n["inner"][0]
        while f.get("kind") in SKIP or f.get("kind") == "ImplicitCastExpr":
            f = f["inner"][0]
        argn = n["inner"][1:]
        if f.get("kind") == "DeclRefExpr":
            d = f["referencedDecl"]
            name, did = d["name"], d["id"]
            m = self.P.by_id.get(did)
            if m is not None and self.P.method_of.get(did):   # static or friend member
                owner = self.P.method_of[did]
                return self.invoke(owner, m, self.frames[-1].this, self.eval_args(m, argn))
            h = self.hooks.get("fn:" + name)
            if h:
                r = h(self, argn, n)
                if r is not NotImplemented:
                    return r
            if m is not None and not A.body(m):      # declared here, defined elsewhere
                for x in self.P.functions.get(name, []):
                    if A.body(x) and x["type"]["qualType"] == m["type"]["qualType"]:
                        m = x
            if m is not None and A.body(m) and not m.get("_std"):
                self.ctx.sh.functions.add(name)
                return self.run_body(Frame(m, None, ""), m, self.eval_args(m, argn))
            return self.std_function(name, argn, n)
        if f.get("kind") == "MemberExpr":
            did = f.get("referencedMemberDecl")
            m = self.P.by_id.get(did)
            if m is not None:
                return self.invoke(self.P.method_of[did], m, self.frames[-1].this, self.eval_args(m, argn))
        raise Unsupported("call of " + str(f.get("kind")))

    def ufun(self, name, *args):
        f = z3.Function(name, *[z3.RealSort()] * (len(args) + 1))
        return f(*[Z(to_real(a)) for a in args])

    def std_function(self, name, argn, n):
        t = norm_type(n["type"])
        if name in ("move", "forward", "cref", "ref", "as_const"):
            return self.ev(argn[0])
        if name == 'operator""s':
            return self.rv(argn[0])
        if name == "parse" and jsonv.is_json_type(t):
            return jsonv.parse(self, self.rv(argn[0]), *[self.rv(a) for a in argn[1:] if a.get("kind") != "CXXDefaultArgExpr"])
        if name == "accept" and len(argn) >= 1:
            return jsonv.accept(self, self.rv(argn[0]), *[self.rv(a) for a in argn[1:] if a.get("kind") != "CXXDefaultArgExpr"])
        if name == "to_string":
            v = self.rv(argn[0])
            if isinstance(v, int) and not isinstance(v, bool):
                return str(v)
            if isinstance(v, bool):
                return str(int(v))
            return TaintStr("?")
        if name == "getline":
            st, dst = self.lv(argn[0]), self.lv(argn[1])
            x = self.read(st)
            d = self.rv(argn[2]) if len(argn) > 2 and argn[2].get("kind") != "CXXDefaultArgExpr" else 10
            if not isinstance(x, Rec) or x.cls != "istringstream" or not isinstance(d, int):
                raise Unsupported("getline")
            text, i = x.f["text"], x.f["pos"]
            if i <= len(text) and i >= 0 and text[i:] != "":
                j = text.find(chr(d), i)
                self.write(dst, text[i:j] if j >= 0 else text[i:])
                i = j + 1 if j >= 0 else -1
            else:
                # nothing left: the stream fails; the string is emptied the first time only
                if i >= 0:
                    self.write(dst, "")
                i = -1
            self.write(st, Rec("istringstream", {"text": text, "pos": i}))
            return st
        if name in ("pow", "powf", "__pow"):
            a, b = to_real(self.rv(argn[0])), self.rv(argn[1])
            b = to_real(b)
            if not isz(b) and b.denominator == 1 and 0 <= b <= 4:
                r = Fraction(1)
                for _ in range(int(b)):
                    r = mul(r, a)
                return r
            return self.ufun("pow", a, b)
        if name in ("sqrt", "cos", "sin", "exp", "log", "floor", "ceil", "tan", "cbrt", "round"):
            a = to_real(self.rv(argn[0]))
            if name == "floor" or name == "ceil":
                if isz(a):
                    return z3.ToReal(z3.ToInt(a)) if name == "floor" else -z3.ToReal(z3.ToInt(-a))
            return self.ufun(name, a)
        if name in ("abs", "fabs", "llabs", "labs"):
            a = self.rv(argn[0])
            if is_double(t):
                a = to_real(a)
            return a if self.ctx.branch(ge(a, 0)) else neg(a)
        if name in ("max", "min", "fmax", "fmin") and len(argn) == 2:
            a, b = self.rv(argn[0]), self.rv(argn[1])
            if name in ("max", "fmax"):
                return b if self.ctx.branch(lt(a, b)) else a
            return b if self.ctx.branch(lt(b, a)) else a
        if name in ("max", "min", "lowest", "infinity", "epsilon") and not argn:
            it = int_type(t)
            if it and name == "max":
                return (1 << (it[0] - 1 if it[1] else it[0])) - 1
            if it:
                return -(1 << (it[0] - 1)) if it[1] else 0
            raise Unsupported(f"numeric_limits::{name} of {t}")
        if name == "make_pair":
            return Rec("pair", {"first": self.rv(argn[0]), "second": self.rv(argn[1])})
        if name == "get" and len(argn) == 1:
            b = self.ev(argn[0])
            raise Unsupported("std::get")
        if name in ("make_unique", "make_shared"):
            inner = split_targs(strip_cv(t))[0]
            c = clean_class(inner)
            if c in self.P.classes:
                if argn and len(argn) == 1 and clean_class(norm_type(argn[0]["type"])) == c:
                    v = self.rv(argn[0])
                    return Ptr(self.new(v, "heap"))
                if argn and len(argn) == 1 and jsonv.is_json_type(norm_type(argn[0]["type"])):
                    return Ptr(self.new(jsonv.get(self, self.rv(argn[0]), inner), "heap"))
                loc = self.new(self.raw_object(c), "heap")
                if not argn:
                    # value initialisation
                    self.default_ctor(loc, c)
                    v = self.read(loc)
                    if isinstance(v, Rec) and any(isinstance(x, Uninit) for x in v.f.values()):
                        self.write(loc, Rec(v.cls, {k: (self.zero(x.t) if isinstance(x, Uninit) else x)
                                                    for k, x in v.f.items()}))
                else:
                    cand = [k for k in self.P.classes[c].ctors if len(A.params(k)) >= len(argn) and not k.get("isImplicit")]
                    if not cand:
                        raise Unsupported("make_unique<" + c + ">")
                    self.construct_into(loc, c, cand[0], self.eval_args(cand[0], argn))
                return Ptr(loc)
            raise Unsupported("make_unique<" + inner + ">")
        if name == "find" and len(argn) == 3:
            a, b, x = [self.rv(q) for q in argn]
            src = self.read(a.loc)
            if a.kind == "seq" and isinstance(src, Seq) and all(isinstance(g, Elems) for g in src.segs) and not isz(a.pos) and not isz(b.pos):
                xs = [y for g in src.segs for y in g.xs]
                for i in range(a.pos, b.pos):
                    if self.ctx.branch(self.compare("==", xs[i], x)):
                        return It("seq", a.loc, i)
                return It("seq", a.loc, b.pos)
        if name == "sort" and len(argn) == 2:
            return self.std_sort(*[self.rv(q) for q in argn])
        if name == "swap" and len(argn) == 2:
            a, b = self.lv(argn[0]), self.lv(argn[1])
            x, y = self.read(a), self.read(b)
            self.write(a, y)
            self.write(b, x)
            return None
        if name in ("next", "prev"):
            it = self.rv(argn[0])
            if len(argn) == 1 or argn[1].get("kind") == "CXXDefaultArgExpr":
                return self.it_move(it, 1 if name == "next" else -1, n)
        if name == "distance":
            a, b = self.rv(argn[0]), self.rv(argn[1])
            if a.kind == "seq":
                return sub(b.pos, a.pos)
        if name == "accumulate" and len(argn) == 3:
            a, b, z = [self.rv(q) for q in argn]
            src = self.range_values(a, b) if isinstance(a, It) and a.kind == "seq" and same(a.pos, 0) else None
            if isinstance(src, Seq):
                src = self.read(a.loc)
                tot = to_real(z) if is_double(t) else z
                for g in src.segs:
                    if isinstance(g, Elems):
                        for x in g.xs:
                            tot = add(tot, x)
                    else:
                        tot = add(tot, self.sum_of(lambda j, g=g: g.base.at(add(g.off, j)), g.n))
                return tot
        h = self.hooks.get("stdfn:" + name)
        if h:
            return h(self, argn, n)
        if name in algo.NAMES:
            return algo.run(self, name, argn, n)
        if name == "memcpy" and len(argn) == 3:
            return self.memcpy(argn, n)
        raise Unsupported(f"function {name}")

    def memcpy(self, argn, n):
        """memcpy(&x, &*it, sizeof(x)) of a plain x."""
        es = []
        for e in argn[:2]:
            while e.get("kind") in SKIP or (e.get("kind") == "ImplicitCastExpr" and e.get("castKind") in ("NoOp", "BitCast")):
                e = e["inner"][0]
            if e.get("kind") != "UnaryOperator" or e.get("opcode") != "&":
                raise Unsupported("memcpy")
            es.append(e["inner"][0])
        dst, src, k = self.ev(es[0]), self.ev(es[1]), self.rv(argn[2])
        t = strip_cv(norm_type(es[0]["type"]))
        if not isinstance(dst, Loc) or not isinstance(src, BytePeek) or src.ctype is not None or not (is_double(t) or t in INT) or k != sizeof(t):
            raise Unsupported("memcpy")
        self.write(dst, self.coerce(self.peek(src.it, t, n), t))
        return Ptr(dst)

    def std_sort(self, a, b):
        h = self.hooks.get("sort")
        if h:
            return h(self, a, b)
        s = self.read(a.loc)
        xs = [y for g in s.segs if isinstance(g, Elems) for y in g.xs]
        if any(isinstance(g, Sym) for g in s.segs):
            raise Unsupported("sort of a symbolic sequence")
        out = []
        for x in xs:      # insertion sort with forking comparisons: pairs by first, then second
            i = len(out)
            while i > 0 and self.ctx.branch(self.val_less(x, out[i - 1])):
                i -= 1
            out.insert(i, x)
        self.write(a.loc, Seq([Elems(out)], s.kind))

    def val_less(self, x, y):
        if isinstance(x, Rec) and x.cls == "pair":
            return or_(lt(x.f["first"], y.f["first"]),
                       and_(eq(x.f["first"], y.f["first"]), lt(x.f["second"], y.f["second"])))
        return self.compare("<", x, y)

    # ---- sums ---------------------------------------------------------------------------------------------------------
    def sum_of(self, g, n):
        return self.ctx.sh.sum_of(g, n)

    # ---- statements ------------------------------------------------------------------------------------------------------
    def ex(self, n):
        k = n.get("kind")
        m = getattr(self, "s_" + (k or "None"), None)
        if m is not None:
            return m(n)
        v = self.ev(n)
        return None

    def s_CompoundStmt(self, n):
        for c in n.get("inner", []):
            self.ex(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for c in n.get("inner", []):
            self.declare(c)

    def declare(self, c):
        self.declare_(c)
        if c.get("storageClass") == "static":
            self.statics[c["id"]] = self.frames[-1].env[c["id"]]

    def declare_(self, c):
        k = c.get("kind")
        env = self.frames[-1].env
        if k in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "CXXRecordDecl", "StaticAssertDecl", "EmptyDecl"):
            return
        if k == "DecompositionDecl":
            return self.decompose(c)
        if k != "VarDecl":
            raise Unsupported("declaration " + str(k))
        t = norm_type(c["type"])
        if c.get("storageClass") == "static":
            # initialised the first time only
            if c["id"] in self.statics:
                env[c["id"]] = self.statics[c["id"]]
                return
        init = [e for e in c.get("inner", []) if not e.get("kind", "").endswith(("Attr", "Comment"))]
        if not init:
            env[c["id"]] = self.new(self.default(t), c.get("name", "v"))
            return
        if is_ref(t):
            env[c["id"]] = self.lv(init[-1])
            return
        v = self.rv(init[-1])
        if isinstance(v, tuple) and len(v) and v[0] not in ("fn", "stritt"):
            v = Seq([Elems(v)])
        if isinstance(v, JsonV) and not jsonv.is_json_type(t) and t != "auto":
            v = jsonv.get(self, v, t)
        env[c["id"]] = self.new(self.coerce(v, t), c.get("name", "v"))

    def decompose(self, c):
        init = [e for e in c.get("inner", []) if e.get("kind") not in ("BindingDecl",)]
        binds = [e for e in c.get("inner", []) if e.get("kind") == "BindingDecl"]
        t = norm_type(c["type"])
        if not init:
            raise Unsupported("decomposition without initialiser")
        v = self.ev(init[0])
        self.bind_decomposition(binds, v, is_ref(t))

    def bind_decomposition(self, binds, v, ref):
        env = self.frames[-1].env
        if not isinstance(v, Loc) or not ref:
            if isinstance(v, Loc):
                v = self.read(v)
            v = self.new(v, "dec")
        val = self.read(v)
        if not isinstance(val, Rec):
            raise Unsupported("decomposition of " + type(val).__name__)
        names = ["first", "second"] if val.cls == "pair" else [f["name"] for f in self.P.classes[val.cls].fields] \
            if val.cls in self.P.classes else list(val.f)
        for b, nm in zip(binds, names):
            if v.path and v.path[-1][0] == "e" and nm == "first":
                env[b["id"]] = self.new(v.path[-1][1], "key")
            else:
                env[b["id"]] = v.f(nm)
            for h in b.get("inner", []):
                if h.get("kind") == "VarDecl":
                    env[h["id"]] = env[b["id"]]

    def s_ReturnStmt(self, n):
        inner = n.get("inner", [])
        raise ReturnEx(self.ev(inner[0]) if inner else None)

    def s_BreakStmt(self, n):
        raise BreakEx()

    def s_ContinueStmt(self, n):
        raise ContinueEx()

    def s_IfStmt(self, n):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.ex(inner.pop(0))
        if n.get("hasVar"):
            self.ex(inner.pop(0))
        c = self.ctx.branch(boolv(self.rv_cond(inner[0])))
        if c:
            self.ex(inner[1])
        elif len(inner) > 2:
            self.ex(inner[2])

    def rv_cond(self, n):
        v = self.rv(n)
        if isinstance(v, Ptr):
            return v.loc is not None
        if isinstance(v, Opt):
            return v.has
        return v

    def s_CXXTryStmt(self, n):
        snap = None
        try:
            self.ex(n["inner"][0])
        except CppThrow as e:
            c = self.handler(n, e)
            if c is None:
                raise
            body = [x for x in c.get("inner", []) if x.get("kind") == "CompoundStmt"][-1]
            for v in c.get("inner", []):
                if v.get("kind") == "VarDecl":
                    self.frames[-1].env[v["id"]] = self.new(Opaque("exception", {"text": getattr(e, "text", TaintStr("?"))}), "e")
            self.ex(body)

    def handler(self, n, e):
        """The handler of a try block that catches an error: those of the JSON library are told from the others."""
        for c in n["inner"][1:]:
            v = [x for x in c.get("inner", []) if x.get("kind") == "VarDecl"]
            if not v:
                return c
            t = strip_cv(norm_type(v[0]["type"])).rstrip("&").strip()
            t = re.sub(r"\bconst\b", "", t).strip().rsplit("::", 1)[-1]
            if t == "exception" and "detail" not in norm_type(v[0]["type"]):
                return c
            cls = getattr(e, "cls", None)
            if t in ("parse_error", "type_error", "out_of_range", "other_error"):
                if cls == t:
                    return c
                if cls is None and t == "out_of_range":
                    raise Unsupported("catch of " + t)
                continue
            if t == "exception":
                if cls:
                    return c
                continue
            raise Unsupported("catch of " + t)
        return None

    def s_SwitchStmt(self, n):
        raise Unsupported("switch")

    def one(self, node):
        """Execute a loop body: True = go on, exceptions leave."""
        try:
            self.ex(node)
        except ContinueEx:
            pass

    def s_WhileStmt(self, n):
        inner = n["inner"]
        if n.get("hasVar"):
            raise Unsupported("while with a declaration")
        self.loop(n, loops.Body(lambda: self.ctx.branch(boolv(self.rv_cond(inner[0]))),
                                lambda: self.one(inner[1]), None))

    def s_DoStmt(self, n):
        body, cond = n["inner"]
        self.loop(n, loops.Body(None, lambda: self.one(body),
                                lambda: self.ctx.branch(boolv(self.rv_cond(cond)))))

    def s_ForStmt(self, n):
        init, cv, cond, inc, body = n["inner"]
        if init.get("kind"):
            self.ex(init)

        def bd():
            self.one(body)
            if inc.get("kind"):
                self.ev(inc)
        self.loop(n, loops.Body((lambda: self.ctx.branch(boolv(self.rv_cond(cond)))) if cond.get("kind") else None,
                                bd, None))

    def s_CXXForRangeStmt(self, n):
        inner = n["inner"]
        rng = None
        for c in inner:
            if c.get("kind") == "DeclStmt" and c["inner"][0].get("name", "").startswith("__range"):
                rng = c["inner"][0]
        var = inner[-2]["inner"][0]
        body = inner[-1]
        init = [e for e in rng["inner"] if e.get("kind")][-1]
        r = self.ev(init)
        loc = r if isinstance(r, Loc) else self.new(r, "range")
        v = self.read(loc)
        vt = norm_type(var["type"])
        byref = is_ref(vt)
        isjson = isinstance(v, JsonV)
        if isjson:
            v = jsonv.elements(self, v)
            if isinstance(v, list):
                v = tuple(v)
            loc = self.new(v, "range")

        def bind(el):
            if var["kind"] == "DecompositionDecl":
                binds = [e for e in var.get("inner", []) if e.get("kind") == "BindingDecl"]
                self.bind_decomposition(binds, el, byref)
            elif isjson:
                x = jsonv.wrap(self.read(el) if isinstance(el, Loc) else el)
                self.frames[-1].env[var["id"]] = self.new(x if jsonv.is_json_type(vt) else jsonv.get(self, x, vt), "el")
            elif byref:
                self.frames[-1].env[var["id"]] = el if isinstance(el, Loc) else self.new(el, "el")
            else:
                x = self.read(el) if isinstance(el, Loc) else el
                self.frames[-1].env[var["id"]] = self.new(self.coerce(x, vt), var.get("name", "el"))
        if isinstance(v, MapV):
            for k in v.keys():
                if k not in self.read(loc).d:
                    raise Unsupported("map modified while iterated")
                bind(Loc(loc.cell, loc.path + (("e", k),)))
                try:
                    self.one(body)
                except BreakEx:
                    return
            return
        if isinstance(v, SetV):
            for k in v.keys():
                bind(k)
                try:
                    self.one(body)
                except BreakEx:
                    return
            return
        if isinstance(v, tuple):
            loc = self.new(Seq([Elems(v)]))
            v = self.read(loc)
        if isinstance(v, Seq):
            idx = self.new(0, "__idx")

            def body_():
                i = self.read(idx)
                bind(Loc(loc.cell, loc.path + (("s", i),)))
                self.one(body)
                self.write(idx, add(self.read(idx), 1))
            self.loop(n, loops.Body(lambda: self.ctx.branch(lt(self.read(idx), self.read(loc).size())), body_, None))
            return
        h = self.hooks.get("range:" + type(v).__name__)
        if h:
            for el in h(self, loc, v):
                bind(el)
                try:
                    self.one(body)
                except BreakEx:
                    return
            return
        raise Unsupported("range-for over " + type(v).__name__)

    def loop(self, node, iteration):
        loops.run(self, node, iteration)


def split_targs(t):
    i = t.index("<")
    d, cur, out = 0, "", []
    for ch in t[i + 1:]:
        if ch == "<":
            d += 1
        if ch == ">":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out
