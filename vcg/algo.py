"""Algorithms of the standard library that take iterators, executed as the loops they stand for (and therefore cut like
any other loop where the range is symbolic).  Binary searches are the linear search they agree with on a sorted range."""
import loops
from cxxast import Unsupported
from sym import *
from sums import *


class Out:
    """std::back_inserter(container)"""
    def __init__(self, loc):
        self.loc = loc


NAMES = {"all_of", "any_of", "none_of", "find_if", "find_if_not", "count_if", "count", "for_each", "accumulate", "find",
         "max_element", "min_element", "transform", "copy", "copy_if", "inner_product", "back_inserter", "upper_bound",
         "lower_bound", "fill", "equal", "partition_point", "adjacent_find"}


def val(m, x):
    from exe import Loc
    return m.read(x) if isinstance(x, Loc) else x


def call(m, f, args, n):
    from exe import boolv
    if isinstance(f, Clo):
        return m.call_closure(f, args)
    if isinstance(f, Rec) and f.cls.split("<")[0].split("::")[-1] in STD_OPS:
        a, b = [val(m, x) for x in args]
        return STD_OPS[f.cls.split("<")[0].split("::")[-1]](m, a, b, n)
    if isinstance(f, Opaque) and m.hooks.get("opaque:()"):
        return m.hooks["opaque:()"](m, f, [val(m, x) for x in args], n)
    raise Unsupported("call of " + type(f).__name__)


STD_OPS = {"plus": lambda m, a, b, n: add(a, b), "multiplies": lambda m, a, b, n: mul(a, b), "minus": lambda m, a, b, n: sub(a, b),
           "less": lambda m, a, b, n: m.compare("<", a, b), "greater": lambda m, a, b, n: m.compare(">", a, b)}


def scan(m, n, its, end, step):
    """for (; its[0] != end; ++its...) step(elements); step returns True to stop."""
    from exe import boolv, BreakEx
    for it in its:
        if not isinstance(it, (It, Out)):
            raise Unsupported("algorithm over " + type(it).__name__)
    cells = [m.new(it, "__it") for it in its]

    def body():
        els = [m.deref_it(m.read(c), n) for c in cells]
        if step(*els):
            raise BreakEx()
        for c in cells:
            m.write(c, m.it_move(m.read(c), 1, n))
    m.loop(n, loops.Body(lambda: m.ctx.branch(boolv(m.compare("!=", m.read(cells[0]), end))), body, None))
    return m.read(cells[0])


def put(m, out, x, n):
    """*out++ = x"""
    o = m.read(out)
    if isinstance(o, Out):
        c = m.read(o.loc)
        if not isinstance(c, Seq):
            raise Unsupported("back_inserter of " + type(c).__name__)
        m.write(o.loc, m.seq_push(c, x))
        return
    loc = m.deref_it(o, n)
    m.write(loc, x)
    m.write(out, m.it_move(o, 1, n))


def run(m, name, argn, n):
    from exe import boolv, is_double, norm_type, to_real, BytesV
    a = [m.rv(q) for q in argn]
    t = norm_type(n["type"])

    def test(f, *els):
        return m.ctx.branch(boolv(val(m, call(m, f, list(els), n))))
    if name == "back_inserter":
        return Out(m.lv(argn[0]))
    if name in ("all_of", "any_of", "none_of"):
        res = m.new(name != "any_of", "res")

        def step(el):
            if test(a[2], el) == (name != "all_of"):
                m.write(res, name == "any_of")
                return True
        scan(m, n, [a[0]], a[1], step)
        return m.read(res)
    if name in ("find_if", "find_if_not", "partition_point"):
        return scan(m, n, [a[0]], a[1], lambda el: test(a[2], el) == (name == "find_if"))
    if name == "find":
        return scan(m, n, [a[0]], a[1], lambda el: m.ctx.branch(boolv(m.compare("==", val(m, el), a[2]))))
    if name == "upper_bound":
        if len(a) == 4:
            return scan(m, n, [a[0]], a[1], lambda el: test(a[3], argn[2] and m.new(a[2]), el))
        return scan(m, n, [a[0]], a[1], lambda el: m.ctx.branch(boolv(m.compare("<", a[2], val(m, el)))))
    if name == "lower_bound":
        if len(a) == 4:
            return scan(m, n, [a[0]], a[1], lambda el: not test(a[3], el, m.new(a[2])))
        return scan(m, n, [a[0]], a[1], lambda el: not m.ctx.branch(boolv(m.compare("<", val(m, el), a[2]))))
    if name in ("count_if", "count"):
        cnt = m.new(0, "count")

        def step(el):
            if test(a[2], el) if name == "count_if" else m.ctx.branch(boolv(m.compare("==", val(m, el), a[2]))):
                m.write(cnt, add(m.read(cnt), 1))
        scan(m, n, [a[0]], a[1], step)
        return m.read(cnt)
    if name == "for_each":
        def step(el):
            call(m, a[2], [el], n)
        scan(m, n, [a[0]], a[1], step)
        return a[2]
    if name in ("accumulate", "inner_product"):
        k = 2 if name == "accumulate" else 3
        acc = m.new(to_real(a[k]) if is_double(t) else a[k], "acc")

        def fit(x):
            x = val(m, x)
            return to_real(x) if is_double(t) else m.coerce(x, t)

        def step(*els):
            x = val(m, els[0])
            if name == "inner_product":
                x = mul(x, val(m, els[1])) if len(a) < 6 else val(m, call(m, a[5], list(els), n))
                m.write(acc, fit(add(m.read(acc), x) if len(a) < 5 else call(m, a[4], [m.read(acc), x], n)))
            elif len(a) > 3:
                m.write(acc, fit(call(m, a[3], [m.read(acc), els[0]], n)))
            else:
                m.write(acc, fit(add(m.read(acc), x)))
        scan(m, n, [a[0]] + ([a[2]] if name == "inner_product" else []), a[1], step)
        return m.read(acc)
    if name in ("max_element", "min_element"):
        best = m.new(a[0], "best")
        if m.ctx.branch(boolv(m.compare("==", a[0], a[1]))):
            return a[1]

        def less(x, y):
            return test(a[2], x, y) if len(a) > 2 else m.ctx.branch(boolv(m.compare("<", val(m, x), val(m, y))))
        cur = m.new(m.it_move(a[0], 1, n), "__it")

        def body():
            b, x = m.deref_it(m.read(best), n), m.deref_it(m.read(cur), n)
            if less(b, x) if name == "max_element" else less(x, b):
                m.write(best, m.read(cur))
            m.write(cur, m.it_move(m.read(cur), 1, n))
        m.loop(n, loops.Body(lambda: m.ctx.branch(boolv(m.compare("!=", m.read(cur), a[1]))), body, None))
        return m.read(best)
    if name == "copy":
        o = a[2]
        if isinstance(o, Out) and isinstance(m.read(o.loc), BytesV):
            if not m.bytes_append(o.loc, a[0], a[1]):
                raise Unsupported("copy into a byte string")
            return o
    if name == "transform" and len(a) == 4:
        out = m.new(a[2], "__out")

        def step(el):
            put(m, out, val(m, call(m, a[3], [el], n)), n)
        scan(m, n, [a[0]], a[1], step)
        return m.read(out)
    if name in ("copy", "copy_if"):
        out = m.new(a[2], "__out")

        def step(el):
            if name == "copy" or test(a[3], el):
                put(m, out, val(m, el), n)
        scan(m, n, [a[0]], a[1], step)
        return m.read(out)
    if name == "fill":
        def step(el):
            m.write(el, a[2])
        scan(m, n, [a[0]], a[1], step)
        return None
    if name == "equal" and len(a) == 3:
        res = m.new(True, "res")

        def step(x, y):
            if not m.ctx.branch(boolv(m.compare("==", val(m, x), val(m, y)))):
                m.write(res, False)
                return True
        scan(m, n, [a[0], a[2]], a[1], step)
        return m.read(res)
    raise Unsupported("function " + name)
