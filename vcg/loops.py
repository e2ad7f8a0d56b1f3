"""Loops.

A loop whose guard is decided at every step is unrolled.  Any other loop is cut at its head: the engine infers an
inductive invariant (closed forms of the modified locations after n rounds, plus candidate facts that survive a Houdini
pass), proves that one more round preserves it, and continues with n arbitrary.  Nothing is bounded in the second case.
"""
import itertools
import z3
import sym
from cxxast import Unsupported, Undecided
from sym import *

UNROLL = 80
PEEL = 3


class Body:
    def __init__(self, pre, body, post):
        self.pre, self.body, self.post = pre, body, post

    def round(self):
        """One round; False when the guard ends the loop."""
        if self.pre is not None and not self.pre():
            return False
        self.body()
        if self.post is not None and not self.post():
            return False
        return True


class Saved:
    def __init__(self, m):
        self.m = m
        self.ctx, self.store, self.frames = m.ctx, dict(m.store), [(f, dict(f.env)) for f in m.frames]
        self.ncell, self.depth, self.prefix = m.ncell, m.depth, m.cellprefix

    def restore(self, store=None):
        m = self.m
        m.ctx, m.store = self.ctx, dict(self.store if store is None else store)
        m.frames[:] = [f for f, _ in self.frames]
        for f, e in self.frames:
            f.env.clear()
            f.env.update(e)
        m.ncell, m.depth, m.cellprefix = self.ncell, self.depth, self.prefix


class PathR:
    def __init__(self, kind, store, pc, facts, exc=None):
        self.kind, self.store, self.pc, self.facts, self.exc = kind, store, pc, facts, exc


def trial(m, fn, prefix, store=None, extra=(), max_paths=200):
    """All outcomes of fn from the current state, without obligations and without effect."""
    from exe import ReturnEx, BreakEx, ContinueEx
    sv = Saved(m)
    base = m.ctx

    def go(ctx):
        sv.restore(store)
        m.ctx = ctx
        m.cellprefix = prefix + ":"
        ctx.quiet += 1
        exc = None
        n0, f0 = len(base.pc), len(base.facts)
        for e in extra:
            ctx.assume(e)
        n1 = len(ctx.pc)
        try:
            r = fn()
            kind = "cont" if r else "exit"
        except BreakEx:
            kind = "break"
        except ReturnEx as e:
            kind, exc = "return", e
        except CppThrow as e:
            kind, exc = "throw", e
        return PathR(kind, dict(m.store), ctx.pc[n1:], ctx.facts[f0:], exc)
    try:
        res = explore(base.sh, go, base, prefix, max_paths)
    finally:
        sv.restore()
    return [r for _, r in res]


def decided(m, fn, prefix):
    ps = trial(m, fn, prefix)
    return len(ps) <= 1 and all(not p.pc for p in ps)


def decs(ctx):
    return "".join(str(sym._dk(d)) for d in ctx.dec)


def run(m, node, body):
    from exe import BreakEx
    ctx = m.ctx
    ordn = next(ctx.loopn)
    key = f"{ctx.prefix}L{ordn}.{decs(ctx)}"
    rounds = 0
    forks = 0
    spec = m.hooks.get("invariant")
    if spec is not None and id(node) in ctx.sh.multi:
        import multi
        fr = m.frames[-1]
        return multi.run(m, node, body, f"{key}M", f"loop:{fr.cls}.{fr.fn.get('name', '?')}:{node.get('kind')}", spec)
    heads, cells = set(), list(m.store)
    while True:
        if spec is not None and rounds:
            h = control(m, cells, spec)
            if h in heads:
                # back in the same control state: not a counted scan, to be cut with the vocabulary of the contract
                ctx.sh.multi.add(id(node))
                raise sym.Restart()
            heads.add(h)
        replay = ctx.sh.loopcache.get((id(node), key, rounds, "mode", tuple(map(sym._dk, ctx.dec))))
        if replay is None:
            if body.pre is not None:
                ok = decided(m, body.pre, f"{key}g{rounds}.")
            elif body.post is not None and rounds:
                ok = True
            else:
                ok = True
            if ok and forks and rounds >= (6 if body.pre is None else 14):
                ok = False
            replay = "unroll" if ok else "cut"
            ctx.sh.loopcache[(id(node), key, rounds, "mode", tuple(map(sym._dk, ctx.dec)))] = replay
        if replay == "cut":
            break
        d0 = len(ctx.dec)
        try:
            if not body.round():
                return
        except BreakEx:
            return
        forks += any(isinstance(d, bool) for d in ctx.dec[d0:])
        rounds += 1
        if rounds > UNROLL:
            raise Undecided("loop unrolled more than %d times" % UNROLL)
    cut(m, node, body, f"{ctx.prefix}L{ordn}r{rounds}.{decs(ctx)}", 0)


def control(m, cells, spec):
    """Everything concrete in the current state; what the contract names as a window counts as one whatever it contains."""
    st = {c: m.store[c] for c in cells if c in m.store}
    for w in spec.windows(m, st):
        if w.read(m, st) is not None:
            st[w.cell] = setp(st[w.cell], w.path, Opaque("window"))
    return tuple((c, shape2(v)) for c, v in st.items())


def shape2(v):
    if is_scalar(v):
        return "n" if isz(v) else v
    if isinstance(v, Uninit):
        return "u"
    if isinstance(v, str):
        return str(v)
    if isinstance(v, Rec):
        return tuple((k, shape2(x)) for k, x in v.f.items())
    if isinstance(v, MapV):
        return tuple((k, shape2(x)) for k, x in sorted(v.d.items()))
    if isinstance(v, SetV):
        return tuple(v.keys())
    if isinstance(v, Seq):
        return tuple(tuple(shape2(x) for x in s.xs) if isinstance(s, Elems) else ("sym", id(s.base)) for s in v.segs)
    if isinstance(v, It):
        return (str(v.loc), "n" if isz(v.pos) else v.pos)
    if isinstance(v, Opt):
        return ("o", shape2(v.has), shape2(v.val) if v.val is not None else None)
    if isinstance(v, PM):
        return shape2(v.seq)
    if isinstance(v, tuple):
        return tuple(shape2(x) for x in v)
    return str(v) if not isinstance(v, (Ptr, Clo)) else type(v).__name__


# ---- leaves ---------------------------------------------------------------------------------------------------------
def shape(v, appended, path=()):
    """What has to be identical for two states to be the same control state."""
    if path in appended:
        return "APPEND"
    if is_scalar(v):
        return "b" if is_bool(v) else "n"
    if isinstance(v, Uninit):
        return "u"
    if isinstance(v, str):
        return ("s", str(v)) if type(v) is str else "taint"
    if isinstance(v, Rec):
        return (v.cls,) + tuple((k, shape(x, appended, path + (("f", k),))) for k, x in sorted(v.f.items()))
    if isinstance(v, MapV):
        return ("map",) + tuple((k, shape(x, appended, path + (("m", k),))) for k, x in sorted(v.d.items()))
    if isinstance(v, SetV):
        return ("set",) + tuple(v.keys())
    if isinstance(v, Seq):
        out = ["seq"]
        for i, s in enumerate(v.segs):
            if isinstance(s, Elems):
                out.append(tuple(shape(x, appended, path + (("seg", i), ("el", j))) for j, x in enumerate(s.xs)))
            else:
                out.append(("sym", id(s.base)))
        return tuple(out)
    if isinstance(v, Ptr):
        return ("ptr", str(v.loc))
    if isinstance(v, It):
        return ("it", v.kind, str(v.loc), "n" if is_scalar(v.pos) else str(v.pos))
    if isinstance(v, Opt):
        return ("opt", v.has if isinstance(v.has, bool) else "b",
                shape(v.val, appended, path + (("o",),)) if v.has is not False and v.val is not None else None)
    if isinstance(v, PM):
        return ("pm", shape(v.seq, appended, path + (("pm",),)))
    if isinstance(v, Opaque):
        return ("op", v.name)
    if isinstance(v, Clo):
        return ("clo", id(v.node))
    if isinstance(v, tuple):
        return ("tuple",) + tuple(shape(x, appended, path + (("t", i),)) for i, x in enumerate(v))
    if v is None:
        return None
    if hasattr(v, "loop_shape"):
        return v.loop_shape(appended, path)
    return (type(v).__name__, repr(v))


class Odd(Exception):
    pass


def leafdiff(a, b, path, out):
    """Collect the scalar leaves in which b differs from a, and the appends; Odd when the structure differs."""
    if a is b or same(a, b):
        return
    if is_scalar(a) and is_scalar(b):
        if is_bool(a) != is_bool(b):
            raise Odd()
        out.append(("leaf", path))
        return
    if isinstance(a, Uninit) and is_scalar(b):
        out.append(("leaf", path))
        return
    if isinstance(a, str) and isinstance(b, str) and type(a) is not str and type(b) is not str:
        return
    if type(a) is not type(b):
        raise Odd()
    if isinstance(a, Rec):
        if a.cls != b.cls or a.f.keys() != b.f.keys():
            raise Odd()
        for k in a.f:
            leafdiff(a.f[k], b.f[k], path + (("f", k),), out)
        return
    if isinstance(a, MapV):
        if a.d.keys() != b.d.keys():
            raise Odd()
        for k in a.d:
            leafdiff(a.d[k], b.d[k], path + (("m", k),), out)
        return
    if isinstance(a, Seq):
        if len(a.segs) == len(b.segs) and all(
                type(x) is type(y) and (len(x.xs) == len(y.xs) if isinstance(x, Elems) else x.base is y.base)
                for x, y in zip(a.segs, b.segs)):
            for i, (x, y) in enumerate(zip(a.segs, b.segs)):
                if isinstance(x, Elems):
                    for j, (p, q) in enumerate(zip(x.xs, y.xs)):
                        leafdiff(p, q, path + (("seg", i), ("el", j)), out)
                else:
                    if not same(x.off, y.off):
                        out.append(("leaf", path + (("seg", i), ("off",))))
                    if not same(x.n, y.n):
                        out.append(("leaf", path + (("seg", i), ("n",))))
            return
        tail = seq_suffix(a, b)
        if tail is None:
            raise Odd()
        out.append(("append", path))
        return
    if isinstance(a, Opt):
        if is_bool(a.has) and is_bool(b.has) and a.has is not False and b.has is not False:
            if not same(a.has, b.has):
                out.append(("leaf", path + (("has",),)))
            leafdiff(a.val, b.val, path + (("o",),), out)
            return
        raise Odd()
    if isinstance(a, PM):
        leafdiff(a.seq, b.seq, path + (("pm",),), out)
        return
    if isinstance(a, It) and a.kind == b.kind and a.loc == b.loc and is_scalar(a.pos) and is_scalar(b.pos):
        out.append(("leaf", path + (("pos",),)))
        return
    if hasattr(a, "loop_diff"):
        return a.loop_diff(b, path, out)
    raise Odd()


def seq_suffix(a, b):
    """b == a ++ tail, tail concrete: the elements of the tail."""
    if not isinstance(b, Seq):
        return None
    sa, sb = list(a.segs), list(b.segs)
    for i, x in enumerate(sa):
        if i >= len(sb):
            return None
        y = sb[i]
        if same(x, y):
            continue
        if i == len(sa) - 1 and isinstance(x, Elems) and isinstance(y, Elems) and len(y.xs) > len(x.xs) and \
                all(same(p, q) for p, q in zip(x.xs, y.xs)):
            if len(sb) != len(sa):
                return None
            return list(y.xs[len(x.xs):])
        return None
    tail = sb[len(sa):]
    out = []
    for t in tail:
        if not isinstance(t, Elems):
            return None
        out += t.xs
    return out


def getp(v, path):
    for p in path:
        k = p[0]
        if k == "f":
            v = v.f[p[1]]
        elif k == "m":
            v = v.d[p[1]]
        elif k == "seg":
            v = v.segs[p[1]]
        elif k == "el":
            v = v.xs[p[1]]
        elif k == "off":
            v = v.off
        elif k == "n":
            v = v.n
        elif k == "o":
            v = v.val
        elif k == "has":
            v = v.has
        elif k == "pm":
            v = v.seq
        elif k == "pos":
            v = v.pos
        else:
            v = v.loop_get(p)
    return v


def setp(v, path, x):
    if not path:
        return x
    p, rest = path[0], path[1:]
    k = p[0]
    if k == "f":
        f = dict(v.f)
        f[p[1]] = setp(v.f[p[1]], rest, x)
        return Rec(v.cls, f)
    if k == "m":
        d = dict(v.d)
        d[p[1]] = setp(v.d[p[1]], rest, x)
        return MapV(d)
    if k == "seg":
        segs = list(v.segs)
        segs[p[1]] = setp(segs[p[1]], rest, x)
        r = Seq((), v.kind)
        r.segs = tuple(segs)
        return r
    if k == "el":
        xs = list(v.xs)
        xs[p[1]] = setp(xs[p[1]], rest, x)
        return Elems(xs)
    if k == "off":
        return Sym(v.base, x, v.n)
    if k == "n":
        return Sym(v.base, v.off, x)
    if k == "o":
        return Opt(v.has, setp(v.val, rest, x))
    if k == "has":
        return Opt(x, v.val)
    if k == "pm":
        return PM(setp(v.seq, rest, x))
    if k == "pos":
        return It(v.kind, v.loc, x)
    return v.loop_set(p, rest, x)


def consts_of(e):
    if not isz(e):
        return {}
    seen, apps = {}, {}
    sym.subterms(e, seen, apps)
    return {str(x): x for x in apps.get("", {}).values()}


def sum_pairs(e, ps):
    """Finite sums are constants with a definition: the constants to put for those whose definition changes."""
    reg = sym.Shared.current.sums
    out = []
    for c in sorted(consts_of(e)):
        it = reg.items.get(c)
        if it is None:
            continue
        body, n = Z(it[4][0]), Z(it[4][1])
        names = consts_of(body) | consts_of(n)
        if not any(str(a) in names for a, _ in ps) and not any(x in reg.items for x in names):
            continue
        b2 = Z(subst(body, ps))
        n2 = subst(n, ps)
        if b2.eq(body) and Z(n2).eq(n):
            continue
        new = reg.make(lambda j, b2=b2: z3.substitute(b2, (z3.Int("__j"), Z(j))), n2)
        out.append((it[0], Z(to_real(new))))
    return out


def subst(e, pairs):
    if isz(e):
        ps = [(a, Z(to_real(b)) if is_real(a) else Z(b)) for a, b in pairs]
        ps = ps + sum_pairs(e, ps)
        return lift(z3.simplify(z3.substitute(e, *ps))) if ps else e
    if isinstance(e, Rec):
        return Rec(e.cls, {k: subst(x, pairs) for k, x in e.f.items()})
    if isinstance(e, Seq):
        return Seq([Elems([subst(x, pairs) for x in s.xs]) if isinstance(s, Elems)
                    else Sym(s.base, subst(s.off, pairs), subst(s.n, pairs)) for s in e.segs], e.kind)
    if isinstance(e, MapV):
        return MapV({k: subst(x, pairs) for k, x in e.d.items()})
    if isinstance(e, tuple):
        return tuple(subst(x, pairs) for x in e)
    if isinstance(e, PM):
        return PM(subst(e.seq, pairs))
    if isinstance(e, Opt):
        return Opt(subst(e.has, pairs), subst(e.val, pairs))
    if isinstance(e, It):
        return It(e.kind, e.loc, subst(e.pos, pairs))
    if hasattr(e, "loop_subst"):
        return e.loop_subst(lambda x: subst(x, pairs))
    return e


def scalars_in(e, out):
    if isz(e):
        out.append(e)
    elif isinstance(e, Rec):
        for x in e.f.values():
            scalars_in(x, out)
    elif isinstance(e, Seq):
        for s in e.segs:
            if isinstance(s, Elems):
                for x in s.xs:
                    scalars_in(x, out)
            else:
                scalars_in(s.off, out)
                scalars_in(s.n, out)
    elif isinstance(e, MapV):
        for x in e.d.values():
            scalars_in(x, out)
    elif isinstance(e, tuple):
        for x in e:
            scalars_in(x, out)
    elif isinstance(e, PM):
        scalars_in(e.seq, out)
    elif hasattr(e, "loop_scalars"):
        e.loop_scalars(lambda x: scalars_in(x, out))


class Cut:
    """The result of the analysis of one loop at one program point; valid for every replay of the path."""


def store_apply(store, leaves, values):
    st = dict(store)
    for (cell, path), v in zip(leaves, values):
        st[cell] = setp(st[cell], path, v)
    return st


def analyse(m, node, body, key):
    ctx = m.ctx
    S0 = dict(m.store)
    cells = list(S0)
    mod, app = {}, {}                 # (cell,path) -> havoc constant / (seq0, Base, count)
    n = z3.Int(f"n!{key}")
    extra = [n >= 0]
    tmpl = dict(S0)
    order = []
    for rnd in range(8):
        paths = trial(m, body.round, f"{key}d{rnd}.", tmpl, extra)
        conts = [p for p in paths if p.kind == "cont"]
        new, good, odd = [], [], []
        for p in conts:
            out = []
            try:
                for c in cells:
                    if c not in p.store:
                        continue
                    sub_out = []
                    leafdiff(tmpl[c], p.store[c], (), sub_out)
                    out += [(k, (c, pt)) for k, pt in sub_out]
            except Odd:
                odd.append(p)
                continue
            good.append(p)
            for k, lf in out:
                if k == "append":
                    if lf not in app:
                        new.append((k, lf))
                elif lf not in mod:
                    new.append((k, lf))
        if not new:
            break
        for k, lf in dict.fromkeys(new):
            c, pt = lf
            if k == "append":
                if any(a[0] == c and a[1] == pt[:len(a[1])] for a in app):
                    raise Undecided("nested appends in a loop")
                s0 = getp(S0[c], pt)
                h = f"app!{key}.{len(app)}"
                tail = None
                for p in good:
                    t = appended_tail(getp(tmpl[c], pt), getp(p.store[c], pt))
                    if t is not None:
                        tail = t
                app[lf] = AppendLeaf(h, s0, tail)
                tmpl[c] = setp(tmpl[c], pt, app[lf].generic(n))
            else:
                v = getp(tmpl[c], pt)
                b = None
                if isinstance(v, Uninit):
                    for p in good:
                        b = getp(p.store[c], pt)
                ref = v if b is None else b
                nm = f"h!{key}.{len(mod)}"
                h = z3.Bool(nm) if is_bool(ref) else z3.Real(nm) if is_real(ref) else z3.Int(nm)
                mod[lf] = h
                order.append(lf)
                tmpl[c] = setp(tmpl[c], pt, h)
                # assumed while the effect of a round is worked out only: preserved() proves the result
                if is_int(ref) and (pt and pt[-1][0] in ("n", "off", "pos") or
                                    (not isinstance(v, Uninit) and ctx.proves(ge(v, 0)))):
                    extra.append(h >= 0)
    else:
        raise Undecided("the modified locations of a loop do not stabilise")
    R = Cut()
    R.n, R.mod, R.app, R.order = n, mod, app, order
    R.conts, R.odd = good, odd
    R.exits = [p for p in paths if p.kind != "cont"]
    R.tmpl, R.S0 = tmpl, S0
    if not good:
        R.kind = "once"
        return R
    R.kind = "closed"
    # merge of the continuing paths; a second pass knows the counters found by the first one
    hv = {str(h): lf for lf, h in mod.items()}
    R.closed = {}          # leaf -> fn(n) value
    sub_ = []              # solved (havoc const, expr in n)
    todo = list(order)
    for pass_ in (0, 1):
        common = set.intersection(*[{x.get_id() for x in p.pc} for p in good])
        conds = [and_(*[x for x in p.pc if x.get_id() not in common]) for p in good]
        after = {}
        for lf in order:
            v = None
            for p, c in reversed(list(zip(good, conds))):
                x = getp(p.store[lf[0]], lf[1])
                v = x if v is None else ite(c, x, v)
            after[lf] = v
        solve(m, key, n, mod, hv, S0, after, R, sub_, todo, counters=(pass_ == 0 and len(good) > 1))
        if pass_ == 1 or not todo or not sub_ or len(good) == 1:
            if pass_ == 0 and todo and len(good) > 1:
                solve(m, key, n, mod, hv, S0, after, R, sub_, todo)
            break
        for h, val in sub_:
            c, pt = hv[str(h)]
            tmpl[c] = setp(tmpl[c], pt, val)
        try:
            paths = trial(m, body.round, f"{key}e.", tmpl, [n >= 0])
            g2, o2 = [], []
            for p in paths:
                if p.kind != "cont":
                    continue
                try:
                    for c in cells:
                        if c in p.store:
                            out = []
                            leafdiff(tmpl[c], p.store[c], (), out)
                            if any((k == "leaf" and (c, pt) not in mod) or (k == "append" and (c, pt) not in app) for k, pt in out):
                                raise Undecided("the modified locations of a loop do not stabilise")
                    g2.append(p)
                except Odd:
                    o2.append(p)
            if g2:
                good, R.conts, R.odd = g2, g2, o2
                R.exits = [p for p in paths if p.kind != "cont"]
        finally:
            pass
    R.facts, R.lemmas = [], []
    if todo:
        select(m, key, n, mod, hv, S0, after, R, sub_, todo)
    if todo:
        solve(m, key, n, mod, hv, S0, after, R, sub_, todo, guess=True)
    conds = [and_(*[x for x in p.pc if x.get_id() not in common]) for p in good]
    R.havoc = todo
    R.sub = sub_
    # contents of the appended parts
    for lf, a in app.items():
        tails = []
        for p in good:
            t = appended_tail(getp(tmpl[lf[0]], lf[1]), getp(p.store[lf[0]], lf[1]))
            if t is None or len(t) == 0:
                raise Undecided("a loop appends in some rounds only")
            tails.append(t)
        if len({len(t) for t in tails}) != 1:
            raise Undecided("a loop appends a varying number of elements")
        t = list(tails[-1])
        for q, c in list(zip(tails, conds))[-2::-1]:
            t = [x if same(x, y) else ite(c, x, y) for x, y in zip(q, t)]
        a.tail = [subst(x, sub_) for x in t]
        sc = []
        for x in a.tail:
            scalars_in(x, sc)
        names = set()
        for x in sc:
            names |= set(consts_of(x))
        a.pending = [k for k in names if k in hv] + [k for k in names if key in k and k not in hv and k != str(n)]
        if not a.pending:
            a.define(n)
    # what every earlier round is known to have satisfied
    R.cont = cont_formula(good, sub_, key, hv, n, mod, R)
    return R


def solve(m, key, n, mod, hv, S0, after, R, sub_, todo, counters=False, guess=False):
    """Closed forms after n rounds: assigned values, arithmetic progressions, sums."""
    progress = True
    while todo and progress:
        progress = False
        for lf in list(todo):
            h, x0, x1 = mod[lf], getp(S0[lf[0]], lf[1]), after[lf]
            x1s = subst(x1, sub_)
            cs = consts_of(x1s)
            others = [k for k in cs if k in hv and k != str(h)]
            bad = [k for k in cs if key in k and k not in hv and k != str(n)]
            if others or bad:
                continue
            if str(h) not in cs:
                if counters:
                    continue
                # assigned, or constant from the first round on
                prev = subst(x1s, [(n, n - 1)])
                if isinstance(x0, Uninit):
                    x0 = prev
                val = ite(n >= 1, prev, x0) if not same(prev, x0) else x0
            else:
                if is_bool(h) or isinstance(x0, Uninit):
                    continue
                d = delta(x1s, h)
                if d is None and counters and is_int(h):
                    d = unwrapped(x1s, h)
                if is_int(h) and (d is None or str(n) in consts_of(d)) and not counters:
                    val = kept_or_set(m, h, n, x0, x1s, guess)
                    if val is not None:
                        R.closed[lf] = val
                        sub_.append((h, val))
                        todo.remove(lf)
                        progress = True
                        continue
                if d is None:
                    continue
                if str(n) not in consts_of(d):
                    if counters and not is_int(h):
                        continue
                    val = add(x0, mul(to_real(n) if is_real(h) else n, d))
                else:
                    if is_int(h) or counters:
                        continue
                    val = add(to_real(x0), m.sum_of(lambda j, d=d: subst(d, [(n, j)]), n))
            R.closed[lf] = val
            sub_.append((h, val))
            todo.remove(lf)
            progress = True


def select(m, key, n, mod, hv, S0, after, R, sub_, todo):
    """Values kept or replaced together in a round under one condition C(values, n): those of the round W(n) that
    replaced them last. W is defined by recursion; that the values kept are the best of all rounds follows by
    induction from the lemmas below, which are obligations about C alone."""
    ctx = m.ctx
    groups = {}
    for lf in todo:
        h, x1 = mod[lf], subst(after[lf], sub_)
        if not isz(x1) or isinstance(getp(S0[lf[0]], lf[1]), Uninit):
            return
        r = kept(x1, h)
        if r is None:
            return
        c, e = r
        if any(k in hv for k in consts_of(e)) or any(key in k and k != str(n) for k in consts_of(e)):
            return
        groups.setdefault(c.get_id(), (c, {}))[1][lf] = e
    for c, es in groups.values():
        hs = {str(mod[lf]) for lf in es}
        cs = consts_of(c)
        if any(k in hv and k not in hs for k in cs) or any(key in k and k not in hv and k != str(n) for k in cs) \
                or not hs & set(cs):
            continue
        W = z3.Function(f"W!{key}.{len(R.facts)}", z3.IntSort(), z3.IntSort())
        J, L = z3.Int(f"wj!{key}"), z3.Int(f"wl!{key}")

        def at(env, i, c=c):
            """the condition for round i with the values env"""
            return z3.substitute(c, (n, Z(i)), *[(mod[lf], Z(to_real(v)) if is_real(mod[lf]) else Z(v)) for lf, v in env.items()])

        def of(i, es=es):
            return {lf: z3.substitute(Z(e), (n, Z(i))) for lf, e in es.items()}
        x0 = {lf: getp(S0[lf[0]], lf[1]) for lf in es}
        sym_ = {lf: mod[lf] for lf in es}

        def now(i, es=es, x0=x0, W=W):
            o = of(W(Z(i)))
            return {lf: z3.If(W(Z(i)) < 0, Z(to_real(x0[lf])) if is_real(mod[lf]) else Z(x0[lf]),
                              Z(to_real(o[lf])) if is_real(mod[lf]) else Z(o[lf])) for lf in es}
        R.facts.append(Fact(str(W), [str(W)], lambda t, W=W, at=at, now=now: z3.And(
            W(z3.IntVal(0)) == -1, z3.Implies(t >= 0, z3.And(W(t) >= -1, W(t) < t, W(t + 1) == z3.If(at(now(t), t), t, W(t)))),
            z3.Implies(t >= 1, W(t) == z3.If(at(now(t - 1), t - 1), t - 1, W(t - 1))))))
        rng = z3.And(0 <= J, J < n)
        strict = [z3.Implies(z3.And(rng, z3.Not(at(sym_, J)), at(sym_, n)), z3.Not(at(of(n), J))),
                  z3.Implies(z3.And(n >= 0, at(sym_, n)), z3.Not(at(of(n), n)))]
        first = [z3.Implies(z3.And(rng, z3.Not(at(sym_, J)), at(sym_, n)), at(of(J), n)),
                 z3.Implies(z3.And(0 <= J, J < n, at(x0, J), at(of(J), n)), at(x0, n))]
        loose = [z3.Implies(z3.And(0 <= J, 0 <= L, L < n, J < n, at(of(J), L), at(of(L), n)), at(of(J), n)),
                 z3.Implies(n >= 0, at(of(n), n)),
                 z3.Implies(z3.And(0 <= L, L < n, z3.Not(at(of(L), n))), at(of(n), L)),
                 z3.Implies(z3.And(rng, z3.Not(at(x0, J)), at(x0, n)), at(of(J), n))]
        j = z3.Int(f"wk!{key}")
        w = W(n)
        if all(ctx.proves(x) for x in strict):
            R.lemmas += strict
            R.facts.append(LoopFact(f"{W} best", j, n, z3.Not(at(now(n), j)), extra=[0, n - 1, w]))
            if all(ctx.proves(x) for x in first):
                R.lemmas += first
                R.facts.append(LoopFact(f"{W} first", j, w, at(of(j), w), extra=[0]))
                R.inv = getattr(R, "inv", []) + [z3.Implies(w >= 0, at(x0, w))]
        elif all(ctx.proves(x) for x in loose):
            R.lemmas += loose
            start = z3.Implies(z3.And(0 <= L, L < n, at(x0, L), at(of(L), n)), at(x0, n))
            if ctx.proves(start):
                R.lemmas.append(start)
                R.inv = getattr(R, "inv", []) + [z3.Implies(w >= 0, at(x0, w))]
            R.facts.append(LoopFact(f"{W} best", j, n, z3.If(w >= 0, at(of(j), w), z3.Not(at(x0, j))), extra=[0, n - 1, w]))
        nowv = now(n)
        for lf in es:
            R.closed[lf] = nowv[lf]
            sub_.append((mod[lf], nowv[lf]))
            todo.remove(lf)


def kept(x1, h):
    """x1 as If(c, e, h), or None"""
    conds, es = [], []

    def walk(e, pc):
        if e.eq(h):
            return
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            walk(e.arg(1), pc + [e.arg(0)])
            walk(e.arg(2), pc + [z3.Not(e.arg(0))])
            return
        conds.append(z3.And(pc) if len(pc) != 1 else pc[0])
        if not any(e.eq(x) for x in es):
            es.append(e)
    walk(Z(x1), [])
    if len(es) != 1 or str(h) in consts_of(es[0]) or not conds:
        return None
    return z3.simplify(z3.Or(conds) if len(conds) > 1 else conds[0]), es[0]


def unwrapped(x1, h):
    """A counter's step where it does not wrap around (a guess: the loop is analysed again with it, and proved)."""
    ds = []

    def walk(e):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            return walk(e.arg(1)) and walk(e.arg(2))
        d = simp(e - Z(h))
        ds.append(d if not isz(d) else d.as_long() if z3.is_int_value(d) else None)
        return ds[-1] is not None
    if not isz(x1) or not walk(x1):
        return None
    near = {d for d in ds if abs(d) < 1 << 31}
    return near.pop() if len(near) == 1 and all(abs(d) < 1 << 31 or abs(abs(d) - (1 << 64)) < 1 << 31 or
                                                abs(abs(d) - (1 << 32)) < 1 << 31 for d in ds) else None


def kept_or_set(m, h, n, x0, x1, guess):
    """Either left alone or set to e(n) in a round: e(n - 1) after n rounds, if that is also what it starts with."""
    leaves = []

    def walk(e):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            walk(e.arg(1))
            walk(e.arg(2))
        elif not e.eq(Z(h)) and not any(e.eq(x) for x in leaves):
            leaves.append(e)
    if not isz(x1):
        return None
    walk(x1)
    if len(leaves) != 1 or str(h) in consts_of(leaves[0]):
        return None
    val = subst(lift(leaves[0]), [(n, n - 1)])
    if not m.ctx.proves(eq(subst(val, [(n, z3.IntVal(0))]), x0)):
        return None
    if not guess and not m.ctx.proves(z3.Implies(n >= 0, Z(eq(subst(x1, [(h, val)]), leaves[0])))):
        return None
    return val


def cont_formula(good, sub_, key, hv, n, mod, R):
    solved = {str(h) for h, _ in sub_}
    ors = []
    for p in good:
        ands = []
        for c in p.pc:
            c2 = subst(c, sub_)
            cs = consts_of(c2)
            if any((k in hv and k not in solved) for k in cs):
                continue
            if any(key in k and k not in hv and k != str(n) for k in cs):
                continue
            ands.append(c2)
        ors.append(and_(*ands))
    return or_(*ors)


def delta(x1, h):
    d = simp_som(Z(x1) - h)
    if str(h) in consts_of(d):
        d = simp(d)
        if str(h) in consts_of(d):
            # linear in h with coefficient 1 inside an if-then-else
            d2 = push_minus(Z(x1), h)
            d = simp_som(d2) if isz(d2) else d2
            if str(h) in consts_of(d):
                return None
    return d


def push_minus(e, h):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        a, b = push_minus(e.arg(1), h), push_minus(e.arg(2), h)
        if str(h) in consts_of(e.arg(0)):
            return Z(e) - h
        return z3.If(e.arg(0), Z(a) if not isz(a) else a, Z(b) if not isz(b) else b)
    r = z3.simplify(e - h, som=True)
    return r


def appended_tail(a, b):
    if hasattr(a, "loop_suffix"):
        return a.loop_suffix(b)
    return seq_suffix(a, b)


class AppendLeaf:
    def __init__(self, name, s0, tail):
        self.name, self.s0, self.tail = name, s0, tail
        self.real = None
        self.pending = None
        self.isbytes = hasattr(s0, "loop_suffix")
        k = max(1, len(tail) if tail else 1)
        self.k = k
        self.base = Base(name, self.unknown)

    def unknown(self, i):
        raise Unsupported("a loop reads what it appended itself")

    def generic(self, n):
        if self.isbytes:
            return self.s0.loop_append(n, self.base)
        return Seq(self.s0.segs + (Sym(self.base, 0, mul(n, self.k)),), self.s0.kind)

    def define(self, n):
        t = self.tail
        if self.isbytes:
            self.real = Base(self.name + "=", lambda i: tuple(subst(x, [(n, Z(i))]) for x in t))
        elif self.k == 1:
            self.real = Base(self.name + "=", lambda i: subst(t[0], [(n, Z(i))]))
        else:
            raise Undecided("several elements appended per round")

    def value(self, n):
        if self.isbytes:
            return self.s0.loop_append(n, self.real)
        return Seq(self.s0.segs + (Sym(self.real, 0, n),), self.s0.kind)


def cut(m, node, body, key, peeled):
    from exe import BreakEx
    ctx = m.ctx
    fn = m.frames[-1].fn.get("name", "?") if m.frames else "?"
    cls = m.frames[-1].cls if m.frames else ""
    name = f"loop:{cls}.{fn}:{node.get('kind')}"
    ck = (id(node), key, "cut")
    R = ctx.sh.loopcache.get(ck)
    if R is None:
        hint = m.hooks.get("loop")
        R = None
        if hint is not None:
            R = hint(m, node, body, key, name)
        if R is None:
            R = analyse(m, node, body, key)
        ctx.sh.loopcache[ck] = R
    if callable(R):
        return R(m, node, body, key, name)
    if R.kind == "once":
        for i in range(PEEL + 1):
            if i == PEEL:
                raise Undecided(f"{name}: no invariant of a recognised form")
            try:
                if not body.round():
                    return
            except BreakEx:
                return
            if i == 0 and R.odd:
                return cut(m, node, body, f"{key}p{decs(ctx)}", peeled + 1) if peeled < PEEL else _fail(name)
        return
    n = R.n
    ctx.assume(n >= 0)
    havocfn = m.hooks.get("havoc")
    pend = [a for a in R.app.values() if a.pending]
    if R.havoc or pend:
        if havocfn is None:
            raise Undecided(f"{name}: no closed form for {[(c, p) for c, p in R.havoc][:3]}")
        if not havocfn(m, node, body, key, name, R):
            raise Undecided(f"{name}: no invariant found for {[(c, p) for c, p in R.havoc][:3]}")
    st = dict(m.store)
    for lf in R.order:
        v = R.closed[lf] if lf in R.closed else R.mod[lf]
        st[lf[0]] = setp(st[lf[0]], lf[1], v)
    for lf, a in R.app.items():
        st[lf[0]] = setp(st[lf[0]], lf[1], a.value(n))
    spec = m.hooks.get("invariant")
    entry = dict(m.store)
    m.store = norm_store(st)
    j = z3.Int(f"j!{key}")
    fact = None
    if R.cont is not True and R.cont is not False:
        fact = LoopFact(name, j, n, z3.substitute(Z(R.cont), (n, j)), extra=[0, n - 1])
    elif R.cont is False:
        ctx.assume(n == 0)
    names, forms = [], {}
    if spec is not None:
        # facts in the vocabulary of the contract that hold on entry and survive every round
        if not hasattr(R, "vocab"):
            R.vocab = vocabulary(m, R, spec, entry, body, key, fact)
        names = R.vocab
        forms0, forms = view_cands(m, spec, entry), view_cands(m, spec, m.store)
        for x in names:
            ctx.oblige(f"{name}: {x} (on entry)", forms0[x], "loop")
    if fact is not None:
        ctx.add_fact(fact)
    for x in names:
        ctx.assume(forms[x])
    for x in getattr(R, "lemmas", []):
        ctx.oblige(f"{name}: order of the values selected", x, "loop")
    for f in getattr(R, "facts", []):
        ctx.add_fact(f)
    for x in getattr(R, "inv", []):
        ctx.assume(x)
    head = dict(m.store)
    npc = len(ctx.pc)
    for i in range(PEEL + 1):
        try:
            if not body.round():
                if i == 0:
                    resolve(m, n, npc)
                return
        except BreakEx:
            return
        if i == 0:
            if is_head(R, head, m.store):
                if names:
                    forms2 = view_cands(m, spec, m.store)
                    for x in names:
                        ctx.oblige(f"{name}: {x} (preserved)", forms2[x], "loop")
                ctx.oblige(f"{name}:invariant is inductive", True, cat="loop")
                nf = len(ctx.sh.failed)
                preserved(m, name, R)
                if len(ctx.sh.failed) > nf:
                    # the closed forms were inferred from the code: a wrong one is the inference's fault
                    del ctx.sh.failed[nf:]
                    raise Undecided(f"{name}: no closed form that is preserved")
                if ctx.live:
                    termination(m, name, R, npc)
                raise PathEnd()
        elif i == PEEL:
            raise Undecided(f"{name}: more than {PEEL} rounds outside the invariant")


def preserved(m, name, R):
    """After one more round every closed form has the value it promises for n + 1."""
    from spec import eqv
    ctx, n = m.ctx, R.n
    for lf, v in R.closed.items():
        if lf[0] in m.store:
            eqv(m, f"{name}: value after n + 1 rounds", getp(m.store[lf[0]], lf[1]), subst(v, [(n, n + 1)]), "loop")
    for lf, a in R.app.items():
        if lf[0] not in m.store or a.pending:
            continue
        now = getp(m.store[lf[0]], lf[1])
        if same(now, a.value(simp(n + 1))):
            ctx.oblige(f"{name}: element appended by round n", True, "loop")
            continue
        t = appended_tail(a.value(n), now)
        want = a.real.fn(n)
        want = list(want) if a.isbytes or a.k != 1 else [want]
        ctx.oblige(f"{name}: number of elements appended", t is not None and len(t) == len(want), "loop")
        for x, y in zip(t or [], want):
            eqv(m, f"{name}: element appended by round n", x, y, "loop")


def view_cands(m, spec, st):
    import multi
    V = multi.View()
    for w in spec.windows(m, st):
        r = w.read(m, st)
        if r is not None:
            V.off[w.name], V.end[w.name], V.hist[w.name] = r[0], r[1], w.hist
    try:
        return spec.cands(m, V)
    except KeyError:
        return {}


def vocabulary(m, R, spec, entry, body, key, fact):
    """The largest inductive subset of the contract's candidate facts, given the closed forms."""
    import multi
    from exe import ReturnEx, BreakEx, ContinueEx
    base = m.ctx
    forms0 = view_cands(m, spec, entry)
    forms = view_cands(m, spec, m.store)
    names = [x for x in forms0 if x in forms and not same(forms0[x], forms[x])]
    names = multi.survivors(base, forms0, names)
    n = R.n
    for rnd in range(20):
        if not names:
            break
        alive = [names]

        def go():
            if fact is not None:
                m.ctx.add_fact(fact)
            try:
                if not body.round():
                    return False
            except (BreakEx, ReturnEx, CppThrow):
                return False
            f2 = view_cands(m, spec, m.store)
            alive[0] = multi.survivors(m.ctx, f2, [x for x in alive[0] if x in f2])
            return True
        trial(m, go, f"{key}v{rnd}.", m.store, [n >= 0] + [forms[x] for x in names])
        if alive[0] == names:
            break
        names = alive[0]
    return names


def norm_store(st):
    return st


def resolve(m, n, npc):
    """After a normal exit the number of rounds is often determined: use that value from here on."""
    ctx = m.ctx
    cands = {}
    for c in ctx.pc[npc:]:
        for r in ranks(c):
            if not depends_on(r, n):
                continue
            r0 = z3.simplify(z3.substitute(r, (n, z3.IntVal(0))))
            co = z3.simplify(z3.substitute(r, (n, z3.IntVal(1))) - r0)
            if not z3.is_int_value(co) or abs(co.as_long()) != 1:
                continue
            t = z3.simplify(-r0 if co.as_long() == 1 else r0)
            for d in (0, 1, -1):
                e = simp(t + d)
                cands[str(e)] = e
    for e in list(cands.values())[:6]:
        if ctx.proves(eq(n, e), 1000):
            ctx.assume(eq(n, e))
            m.store = {k: subst(v, [(n, Z(e))]) for k, v in m.store.items()}
            ctx.facts = [f.resolved(n, Z(e)) if isinstance(f, LoopFact) else f for f in ctx.facts]
            return


def depends_on(e, v):
    return str(v) in consts_of(e)


def _fail(name):
    raise Undecided(f"{name}: the loop changes its shape in every round")


def is_head(R, head, store):
    try:
        for c in R.S0:
            if c not in store:
                continue
            out = []
            leafdiff(head[c], store[c], (), out)
            for k, pt in out:
                if k == "leaf" and (c, pt) not in R.mod and not any(c == a[0] and pt[:len(a[1])] == a[1] for a in R.app):
                    return False
                if k == "append" and (c, pt) not in R.app:
                    return False
        return True
    except Odd:
        return False


def termination(m, name, R, npc):
    """A ranking expression taken from the guard: at least 0 while the loop goes on, and smaller after every round."""
    ctx, n = m.ctx, R.n
    cands = []
    for c in ctx.pc[npc:]:
        cands += ranks(c)
    for r in cands:
        r1 = subst(r, [(n, n + 1)])
        if consts_of(r) and any(str(h) in consts_of(r) for lf, h in R.mod.items()):
            continue
        d = simp(sub(r, r1))
        if d is False or d is True:
            continue
        if not isz(d):
            if d >= 1:
                ctx.oblige(f"{name}:terminates", True, cat="termination")
                return
            continue
        if ctx.proves(d >= 1, 1500):
            ctx.oblige(f"{name}:terminates", True, cat="termination")
            return
    if getattr(R, "ranked", False):
        ctx.oblige(f"{name}:terminates", True, cat="termination")
        return
    ctx.sh.unranked = getattr(ctx.sh, "unranked", set()) | {name}


def ranks(c):
    """Integer atoms x <= y, x < y of a formula, as y - x (bounded below when the atom holds)."""
    out = []
    if not isz(c):
        return out
    if z3.is_not(c):
        a = c.arg(0)
        k = a.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and a.arg(0).sort() == z3.IntSort():
            x, y = a.arg(0), a.arg(1)
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                out.append(z3.simplify(x - y))
            else:
                out.append(z3.simplify(y - x))
        elif z3.is_eq(a) and a.arg(0).sort() == z3.IntSort():
            out += [z3.simplify(a.arg(0) - a.arg(1)), z3.simplify(a.arg(1) - a.arg(0))]
        return out
    k = c.decl().kind()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT) and c.arg(0).sort() == z3.IntSort():
        out.append(z3.simplify(c.arg(1) - c.arg(0)))
    elif k in (z3.Z3_OP_GE, z3.Z3_OP_GT) and c.arg(0).sort() == z3.IntSort():
        out.append(z3.simplify(c.arg(0) - c.arg(1)))
    elif k == z3.Z3_OP_AND:
        for x in c.children():
            out += ranks(x)
    return out
