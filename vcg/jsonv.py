"""JSON values (nlohmann::json), as far as the code uses them.  Objects hold their members by name (sorted), arrays hold a
sequence whose elements are JSON values or what converts to them.  Trusted: parsing a dumped value yields that value (numbers
and strings survive; no NaN or infinity), and the accessors behave as documented by the library."""
import json as pyjson
import re
from fractions import Fraction

import z3
import cxxast as A
from cxxast import Unsupported, clean_class, norm_type
from sym import *


class JsonV:
    __slots__ = ("kind", "v")

    def __init__(self, kind="null", v=None):
        self.kind, self.v = kind, v

    def same(self, o):
        if self.kind != o.kind:
            return False
        if self.kind == "obj":
            return sorted(self.v) == sorted(o.v) and all(same(self.v[k], o.v[k]) for k in self.v)
        return self.v is o.v or same(self.v, o.v)

    def __repr__(self):
        return f"json:{self.kind}({self.v})"

    # what loops need
    def loop_shape(self, appended, path):
        return ("json", self.kind)

    def loop_diff(self, b, path, out):
        if not self.same(b):
            raise Unsupported("JSON value changed by a loop")

    def loop_get(self, p):
        raise Unsupported("part of a JSON value in a loop")

    loop_set = loop_get

    def loop_subst(self, f):
        return JsonV(self.kind, {k: f(x) for k, x in self.v.items()} if self.kind == "obj" else f(self.v) if self.v is not None else None)

    def loop_scalars(self, f):
        for x in (self.v.values() if self.kind == "obj" else [self.v] if self.v is not None else []):
            f(x)


class TaintStr(str):
    """A string that depends on a symbolic number; only good for messages."""


class JText(TaintStr):
    """The text of a JSON value: the value is known, its characters are not."""
    json = None

    def __eq__(self, o):
        return isinstance(o, JText) and same(self.json, o.json)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


def text_for(j):
    t = JText("?")
    t.json = j
    return t


def is_json_type(t):
    t = re.sub(r"\bconst\b", "", t).strip().rstrip("&").strip()
    return bool(re.match(r"(nlohmann::)?(json_abi[\w:]*::)?(basic_json\b|json$|ordered_json$)", t)) or t in ("json", "nlohmann::json", "value_type")


def wrap(v):
    """The JSON value a C++ value converts to."""
    if isinstance(v, JsonV):
        return v
    if isinstance(v, JText):
        raise Unsupported("JSON text inside a JSON value")
    if isinstance(v, str):
        return JsonV("str", v)
    if is_scalar(v):
        return JsonV("bool" if is_bool(v) else "num", v)
    if isinstance(v, Seq):
        return JsonV("arr", v)
    if isinstance(v, MapV):
        return JsonV("obj", {k: wrap(x) for k, x in v.d.items()})
    if isinstance(v, SetV):
        return JsonV("arr", Seq([Elems(v.keys())]))
    if isinstance(v, Rec) and v.cls == "pair":
        return JsonV("arr", Seq([Elems([v.f["first"], v.f["second"]])]))
    if isinstance(v, Opaque):
        return JsonV("str", v)
    raise Unsupported("JSON from " + type(v).__name__)


def from_list(xs):
    """An initializer list: an object when every element is an array of two beginning with a string."""
    xs = [wrap(x) for x in xs]

    def pair(x):
        if x.kind != "arr" or not all(isinstance(g, Elems) for g in x.v.segs):
            return None
        e = [y for g in x.v.segs for y in g.xs]
        return e if len(e) == 2 and isinstance(e[0] if not isinstance(e[0], JsonV) else e[0].v, str) else None
    ps = [pair(x) for x in xs]
    if all(p is not None for p in ps):
        d = {}
        for k, x in ps:
            k = k.v if isinstance(k, JsonV) else k
            d.setdefault(str(k), wrap(x))
        return JsonV("obj", d)
    return JsonV("arr", Seq([Elems(xs)] if xs else []))


def from_python(x):
    if x is None:
        return JsonV()
    if isinstance(x, bool):
        return JsonV("bool", x)
    if isinstance(x, (int, Fraction)):
        return JsonV("num", x)
    if isinstance(x, str):
        return JsonV("str", x)
    if isinstance(x, list):
        return JsonV("arr", Seq([Elems([from_python(y) for y in x])] if x else []))
    return JsonV("obj", {k: from_python(y) for k, y in x.items()})


def error(kind):
    e = CppThrow("json::" + kind)
    e.cls = kind
    return e


def accept(m, v, comments=False):
    try:
        parse(m, v, Ptr(None), True, comments)
        return True
    except CppThrow:
        return False


def parse(m, v, callback=None, throwing=True, comments=False):
    """json::parse(text, callback, allow_exceptions, ignore_comments)"""
    if callback is not None and not (isinstance(callback, Ptr) and callback.loc is None):
        raise Unsupported("parsing with a callback")
    if throwing is not True or not isinstance(comments, bool):
        raise Unsupported("parsing without exceptions")
    if isinstance(v, JText):
        return v.json
    if isinstance(v, Opaque) and v.info and "json" in v.info:
        if comments and v.info.get("commented") is not None:
            return v.info["commented"]
        if v.info["json"] is None:
            raise error("parse_error")
        return v.info["json"]
    if comments and isinstance(v, str) and "/" in v:
        raise Unsupported("comments in a text")
    if isinstance(v, str) and not isinstance(v, TaintStr):
        try:
            return from_python(pyjson.loads(v, parse_float=Fraction))
        except ValueError:
            raise error("parse_error")
    raise Unsupported("parsing an unknown text")


def get(m, j, t):
    """j.get<T>() or the implicit conversion."""
    if not isinstance(j, JsonV):
        j = wrap(j)
    t = re.sub(r"\bconst\b", "", t).strip().rstrip("&").strip()
    x = re.search(r"get_impl<(.*)>\(", t)
    if x and t.startswith("decltype"):
        t = x.group(1).strip()
    b = re.sub(r"^std::(__cxx11::)?", "", re.sub(r"<.*", "", t)).strip()
    from exe import int_type, is_double
    if is_json_type(t):
        return j
    if b in ("basic_string", "string"):
        if j.kind != "str":
            raise error("type_error")
        return j.v
    if t == "bool":
        if j.kind != "bool":
            raise error("type_error")
        return j.v
    if is_double(t) or t == "float" or int_type(t):
        if j.kind not in ("num", "bool"):
            raise error("type_error")
        x = j.v
        if j.kind == "bool":
            x = ite(x, 1, 0) if isz(x) else int(x)
        if t == "float":
            return m.ufun("float32", to_real(x))
        if is_double(t):
            return to_real(x)
        if not is_int(x):
            return m.ctx.fresh("truncated", "int") if isz(x) else m.wrap(int(x), int_type(t))
        return m.narrow(x, int_type(t)) if int_type(t)[0] < 64 else m.wrap(x, int_type(t))
    if b in ("vector", "list", "deque"):
        from exe import split_targs
        el = split_targs(t)[0]
        if j.kind != "arr":
            raise error("type_error")
        segs = []
        for g in j.v.segs:
            if isinstance(g, Elems):
                segs.append(Elems([get(m, y, el) for y in g.xs]))
            else:
                y = g.base.at(0)
                if is_double(el) and not isinstance(y, JsonV) and is_scalar(y) and not is_int(y):
                    segs.append(g)
                else:
                    raise Unsupported(f"array of unknown length as {t}")
        return Seq(segs, b)
    if b == "map":
        from exe import split_targs
        el = split_targs(t)[1]
        if j.kind != "obj":
            raise error("type_error")
        return MapV({k: get(m, y, el) for k, y in j.v.items()})
    c = clean_class(t)
    if c in m.P.classes:
        loc = m.new(m.raw_object(c), "fromjson")
        m.default_ctor(loc, c)
        convert(m, "from_json", c, 1, [m.new(j, "json"), loc])
        return m.read(loc)
    raise Unsupported(f"JSON as {t}")


def convert(m, name, cls, pos, args):
    """to_json / from_json of a class of /repo."""
    for f in m.P.functions.get(name, []):
        ps = A.params(f)
        if len(ps) == 2 and A.body(f) and clean_class(norm_type(ps[pos]["type"])) == cls and "type-parameter" not in str(ps[pos]["type"]):
            t = norm_type(ps[pos]["type"])
            if "<" in t and "unsigned long" not in t and "uint64_t" not in t:
                continue
            m.ctx.sh.functions.add(f"{name}({cls})")
            from exe import Frame
            return m.run_body(Frame(f, None, ""), f, args)
    raise Unsupported(f"{name} of {cls} not found")


def construct(m, t, argn, n):
    """Construction of a basic_json or json_ref."""
    if not argn:
        return JsonV()
    a = [x for x in argn if x.get("kind") != "CXXDefaultArgExpr"]
    v = m.ev(a[0])
    if isinstance(v, Loc_()) :
        x = m.read(v)
    else:
        x = v
    if isinstance(x, tuple) and not (x and x[0] in ("fn", "stritt")):
        return from_list(x)
    if isinstance(x, Rec) and x.cls in m.P.classes:
        loc = v if isinstance(v, Loc_()) else m.new(x)
        out = m.new(JsonV(), "json")
        convert(m, "to_json", x.cls, 1, [out, loc])
        return m.read(out)
    return wrap(x)


def Loc_():
    from exe import Loc
    return Loc


def key_of(m, k):
    if isinstance(k, JsonV):
        k = k.v
    return m.key(k)


def index(m, base, v, i, n):
    """operator[]"""
    Loc = Loc_()
    loc = base if isinstance(base, Loc) else m.new(v, "json")
    if isinstance(i, (str, JsonV)):
        k = key_of(m, i)
        if v.kind == "null":
            v = JsonV("obj", {})
        if v.kind != "obj":
            raise error("type_error")
        if k not in v.v:
            if is_const(n):
                m.safety(f"member {k} of a JSON object that has none", False, n)
            m.write(loc, JsonV("obj", {**v.v, k: JsonV()}))
        return Loc(loc.cell, loc.path + (("j", k),))
    if v.kind != "arr":
        raise error("type_error")
    m.safety("element of a JSON array out of range", and_(ge(i, 0), lt(i, v.v.size())), n)
    return m.new(wrap(m.seq_at(v.v, i)), "json")


def is_const(n):
    f = n["inner"][0]
    while f.get("kind") != "DeclRefExpr":
        f = f["inner"][0]
    t = f["referencedDecl"].get("type", {}).get("qualType", "") or f["type"]["qualType"]
    return t.rstrip().endswith("const") or "const_reference" in t.split("(")[0]


def method(m, loc, v, name, argn, n):
    Loc = Loc_()
    args = [a for a in argn if a.get("kind") != "CXXDefaultArgExpr"]
    t = norm_type(n["type"])
    if name.startswith("operator ") or name == "get" and not args:
        return get(m, v, n["type"].get("desugaredQualType", n["type"]["qualType"]) if name == "get" else t)
    if name == "get_to":
        dst = m.lv(args[0])
        m.write(dst, get(m, v, norm_type(args[0]["type"])))
        return dst
    if name == "dump":
        return text_for(v)
    if name == "value":
        k = key_of(m, m.rv(args[0]))
        d = m.rv(args[1])
        if v.kind != "obj":
            raise error("type_error")
        if k not in v.v:
            return d
        return get(m, v.v[k], t)
    if name in ("contains", "count"):
        k = key_of(m, m.rv(args[0]))
        r = v.kind == "obj" and k in v.v
        return r if name == "contains" else int(r)
    if name == "at":
        i = m.rv(args[0])
        if isinstance(i, (str, JsonV)):
            k = key_of(m, i)
            if v.kind != "obj":
                raise error("type_error")
            if k not in v.v:
                raise error("out_of_range")
            loc = loc or m.new(v, "json")
            return Loc(loc.cell, loc.path + (("j", k),))
        if v.kind != "arr":
            raise error("type_error")
        if not m.ctx.branch(and_(ge(i, 0), lt(i, v.v.size()))):
            raise error("out_of_range")
        return m.new(wrap(m.seq_at(v.v, i)), "json")
    if name in ("size", "empty"):
        s = 0 if v.kind == "null" else len(v.v) if v.kind == "obj" else v.v.size() if v.kind == "arr" else 1
        return s if name == "size" else eq(s, 0)
    kinds = {"is_null": ("null",), "is_string": ("str",), "is_boolean": ("bool",), "is_number": ("num",), "is_array": ("arr",),
             "is_object": ("obj",), "is_structured": ("arr", "obj"), "is_primitive": ("null", "str", "bool", "num")}
    if name in kinds:
        return v.kind in kinds[name]
    if name == "push_back" or name == "emplace_back":
        x = wrap(m.rv(args[0]))
        if v.kind not in ("null", "arr"):
            raise error("type_error")
        m.write(loc, JsonV("arr", m.seq_push(v.v if v.kind == "arr" else Seq(), x)))
        return None
    raise Unsupported("json." + name)


def elements(m, v):
    """What a range-for over a JSON value visits: a sequence, or a list."""
    if v.kind == "arr":
        return v.v
    if v.kind == "obj":
        return [v.v[k] for k in sorted(v.v)]
    return [] if v.kind == "null" else [v]
