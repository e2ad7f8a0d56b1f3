"""Loops that come back to the same control point with unboundedly many contents (a restarting scan, for example).

The contract supplies a vocabulary: the buffers as windows of their histories and a list of candidate facts over the window
positions.  The loop is cut at its head; its control states (everything concrete: port names, iterators, flags) are enumerated,
the contents are arbitrary, and for each control state the largest inductive subset of the candidates is computed (Houdini).
The main path then continues from an arbitrary control state with exactly those facts; that they hold on entry and are
preserved by every round is what the obligations of category `loop` say."""
import z3
import sym
from cxxast import Unsupported, Undecided
from sym import *
import loops


class Again(Exception):
    pass


class Win:
    """A buffer that always is the window [off, end) of a history; `end` None: both ends may move, `empty` is the position
    to use for an empty sequence."""

    def __init__(self, name, cell, path, hist, end=None, kind="deque", empty=None):
        self.name, self.cell, self.path, self.hist, self.end, self.kind, self.empty = name, cell, path, hist, end, kind, empty

    def read(self, m, st):
        """-> (off, end) or None"""
        try:
            seq = loops.getp(st[self.cell], self.path)
        except (KeyError, IndexError, AttributeError):
            return None
        if self.end is not None:
            off = as_window(m, seq, self.hist, self.end)
            return None if off is None else (off, self.end)
        return as_window2(m, seq, self.hist, self.empty)


def as_window(m, seq, hist, end):
    """off such that seq == hist[off, end), or None."""
    r = as_window2(m, seq, hist, end)
    if r is None:
        return None
    if not same(r[1], end) and not m.ctx.proves(eq(r[1], end)):
        return None
    return r[0]


def as_window2(m, seq, hist, empty):
    ctx = m.ctx
    if not isinstance(seq, Seq):
        return None
    end = empty
    n = seq.size()
    if (not isz(n) and n == 0) or not seq.segs:
        return end, end
    off = None
    pos = 0
    for g in seq.segs:
        if isinstance(g, Sym):
            if g.base is not hist.base:
                return None
            o = simp(sub(g.off, pos))
            if off is None:
                off = o
            elif not same(off, o) and not ctx.proves(eq(off, o)):
                return None
        else:
            for i, x in enumerate(g.xs):
                idx = index_of(m, x, hist)
                if idx is None:
                    return None
                o = simp(sub(idx, add(pos, i)))
                if off is None:
                    off = o
                elif not same(off, o) and not ctx.proves(eq(off, o)):
                    return None
        pos = add(pos, g.n)
    return off, simp(add(off, pos))


def index_of(m, x, hist):
    """The index of a message in a history, read off its terms."""
    if not isinstance(x, Rec) or "time" not in x.f:
        return None
    t = x.f["time"]
    if isz(t) and z3.is_app(t) and t.decl().name() == hist.tf.name() and t.num_args() == 1:
        i = lift(t.arg(0))
        if same(x, hist.msg(i)) or m.ctx.proves(Z(x.f["value"]) == hist.v(i)):
            return i
    return None


def survivors(ctx, forms, names):
    names = [n for n in names if n in forms]
    out = []
    live = []
    for n in names:
        f = simp(forms[n])
        if f is True:
            out.append(n)
        elif f is not False:
            live.append(n)
    for _ in range(60):
        if not live:
            break
        goal = z3.Not(z3.And(*[Z(forms[n]) for n in live]))
        r, mod, dt, s = ctx.check([goal], 5000, want_model=True)
        if r == "unsat":
            out += live
            break
        if r == "sat":
            drop = [n for n in live if z3.is_false(mod.eval(Z(forms[n]), model_completion=True))]
            if not drop:
                r = "unknown"
            else:
                live = [n for n in live if n not in drop]
        if r == "unknown":
            out += [n for n in live if ctx.proves(Z(forms[n]), 3000)]
            break
    return [n for n in names if n in out]



class View:
    """What the candidates talk about: off[name], end[name], x[(cell, path)] -> term."""

    def __init__(self):
        self.off, self.end, self.x, self.hist = {}, {}, {}, {}


class State:
    def __init__(self, store, cands):
        self.store, self.cands = store, cands


class Machine2:
    """The analysis of one loop."""

    def __init__(self, m, node, body, key, name, spec):
        self.m, self.node, self.body, self.key, self.name, self.spec = m, node, body, key, name, spec
        self.S0 = dict(m.store)
        self.cells = list(self.S0)
        self.masked = {}
        self.keep = []
        self.states = {}
        self.nruns = 0

    # ---- abstraction of the current store
    def abstract(self):
        m = self.m
        st = {c: m.store[c] for c in self.cells if c in m.store}
        V = View()
        wins = {}
        V.wins = []
        for w in self.spec.windows(m, st):
            r = w.read(m, st)
            if r is None:
                if w.end is None:
                    continue
                raise Undecided(f"{self.name}: {w.name} is not a window of its history")
            V.off[w.name], V.end[w.name], V.hist[w.name] = r[0], r[1], w.hist
            wins[(w.cell, w.path)] = w.name
            V.wins.append(w)
        sig = []
        scal = {}
        for c in self.cells:
            if c in st:
                sig.append((c, self.sig(st[c], c, (), wins, scal)))
        for lf in self.masked:
            try:
                V.x[lf] = loops.getp(st[lf[0]], lf[1])
            except (KeyError, IndexError, AttributeError):
                pass
        return tuple(sig), st, V, scal

    def sig(self, v, c, path, wins, scal):
        if (c, path) in wins:
            return ("W", wins[(c, path)])
        if is_scalar(v) or isinstance(v, Uninit):
            if (c, path) in self.masked:
                return "?"
            if isinstance(v, Uninit):
                return "u"
            if isz(v):
                self.keep.append(v)
                scal[(c, path)] = v
                return ("z", v.get_id())
            scal[(c, path)] = v
            return ("c", v)
        r = lambda x, p: self.sig(x, c, path + (p,), wins, scal)
        if isinstance(v, str):
            return ("s", str(v)) if type(v) is str else "taint"
        if isinstance(v, Rec):
            return (v.cls,) + tuple((k, r(x, ("f", k))) for k, x in sorted(v.f.items()))
        if isinstance(v, MapV):
            return ("map",) + tuple((k, r(x, ("m", k))) for k, x in sorted(v.d.items()))
        if isinstance(v, SetV):
            return ("set",) + tuple(v.keys())
        if isinstance(v, Seq):
            out = ["seq"]
            for i, s in enumerate(v.segs):
                if isinstance(s, Elems):
                    out.append(tuple(self.sig(x, c, path + (("seg", i), ("el", j)), wins, scal) for j, x in enumerate(s.xs)))
                else:
                    out.append(("sym", id(s.base), self.sig(s.off, c, path + (("seg", i), ("off",)), wins, scal),
                                self.sig(s.n, c, path + (("seg", i), ("n",)), wins, scal)))
            return tuple(out)
        if isinstance(v, Ptr):
            return ("ptr", str(v.loc))
        if isinstance(v, It):
            if is_scalar(v.pos):
                return ("it", v.kind, str(v.loc), r(v.pos, ("pos",)))
            return ("it", v.kind, str(v.loc), str(v.pos))
        if isinstance(v, Opt):
            h = v.has if isinstance(v.has, bool) else r(v.has, ("has",))
            return ("opt", h, r(v.val, ("o",)) if v.has is not False and v.val is not None else None)
        if isinstance(v, PM):
            return ("pm", r(v.seq, ("pm",)))
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.sig(x, c, path + (("t", i),), wins, scal) for i, x in enumerate(v))
        if isinstance(v, Opaque):
            return ("op", v.name)
        if isinstance(v, Clo):
            return ("clo", id(v.node))
        if v is None:
            return None
        return (type(v).__name__, repr(v))

    @staticmethod
    def loose(sig):
        if isinstance(sig, tuple):
            if len(sig) == 2 and sig[0] in ("z", "c"):
                return "n" if not isinstance(sig[1], bool) else "b"
            return tuple(Machine2.loose(x) for x in sig)
        return "n" if sig in ("?", "u") else sig

    def find(self, sig, scal):
        if sig in self.states:
            return sig
        l = self.loose(sig)
        for s2, S in self.states.items():
            if self.loose(s2) == l:
                # some numbers differ: those of which at least one is symbolic become arbitrary
                new = [k for k in set(scal) | set(S.scal) if not same(scal.get(k, 0), S.scal.get(k, 0)) and
                       (isz(scal.get(k)) or isz(S.scal.get(k)) or k not in scal or k not in S.scal)]
                if new:
                    for k in new:
                        v = scal.get(k, S.scal.get(k))
                        nm = f"m!{self.key}.{len(self.masked)}"
                        self.masked[k] = z3.Bool(nm) if is_bool(v) else z3.Real(nm) if is_real(v) or is_real(S.scal.get(k)) else z3.Int(nm)
                    raise Again()
        return None

    # ---- a generic member of a control state
    def install(self, S):
        m = self.m
        st = dict(S.store)
        V = View()
        for w in S.wins:
            o = z3.Int(f"w!{self.key}.{w.name}")
            e = w.end if w.end is not None else z3.Int(f"we!{self.key}.{w.name}")
            st[w.cell] = loops.setp(st[w.cell], w.path, Seq([Sym(w.hist.base, o, simp(Z(e) - o))], w.kind))
            V.off[w.name], V.end[w.name], V.hist[w.name] = o, e, w.hist
        for lf, h in self.masked.items():
            try:
                cur = loops.getp(st[lf[0]], lf[1])
            except (KeyError, IndexError, AttributeError):
                continue
            if is_scalar(cur):
                st[lf[0]] = loops.setp(st[lf[0]], lf[1], h)
                V.x[lf] = h
        full = dict(m.store)
        full.update(st)
        m.store = full
        return V

    def cands(self, V):
        """name -> formula, in a fixed order"""
        out = {}
        for n, off in V.off.items():
            out[f"{n} within its window"] = z3.And(Z(off) >= 0, Z(off) <= Z(V.end[n]))
        out.update(self.spec.cands(self.m, V))
        return out

    def survivors(self, ctx, forms, names):
        return survivors(ctx, forms, names)

    # ---- Houdini
    def analyse(self):
        for attempt in range(12):
            try:
                return self.fix()
            except Again:
                self.states = {}
        raise Undecided(f"{self.name}: the modified locations do not stabilise")

    def fix(self):
        m = self.m
        base = m.ctx
        sv = loops.Saved(m)
        self.entry_store = dict(m.store)
        sig0, st0, V0, scal0 = self.abstract()
        f0 = self.cands(V0)
        S = State(st0, self.survivors(base, f0, list(f0)))
        S.scal, S.wins = scal0, V0.wins
        self.states[sig0] = S
        work = [sig0]
        while work:
            a = work.pop(0)
            A = self.states[a]
            self.nruns += 1
            if self.nruns > 400 or len(self.states) > 80:
                raise Undecided(f"{self.name}: too many control states")
            got = []

            def go(ctx):
                from exe import BreakEx, ReturnEx
                sv.restore()
                m.ctx = ctx
                m.cellprefix = f"{self.key}h{self.nruns}:"
                ctx.quiet += 1
                V = self.install(A)
                forms = self.cands(V)
                for n in A.cands:
                    ctx.assume(forms[n])
                try:
                    if not self.body.round():
                        return None
                except (BreakEx, ReturnEx, CppThrow):
                    return None
                if ctx.check([], 3000) == "unsat":
                    return None
                sig, st, V2, scal = self.abstract()
                s = self.find(sig, scal)
                f2 = self.cands(V2)
                keep = self.survivors(ctx, f2, self.states[s].cands if s is not None else list(f2))
                got.append((sig, st, scal, keep, V2.wins))
                return None
            try:
                explore(base.sh, go, base, f"{self.key}h{self.nruns}.", 200)
            finally:
                sv.restore()
            for sig, st, scal, keep, wins in got:
                if sig not in self.states:
                    s = self.find(sig, scal)
                    N = State(st, keep)
                    N.scal, N.wins = scal, wins
                    self.states[sig] = N
                    work.append(sig)
                else:
                    B = self.states[sig]
                    k2 = [n for n in B.cands if n in keep]
                    if len(k2) != len(B.cands):
                        B.cands = k2
                        if sig not in work:
                            work.append(sig)
        return self


def run(m, node, body, key, name, spec):
    from exe import BreakEx
    ctx = m.ctx
    ck = (id(node), key, "multi")
    if ck not in ctx.sh.loopcache:
        ctx.sh.loopcache[ck] = Machine2(m, node, body, key, name, spec).analyse()
    R = ctx.sh.loopcache[ck]
    R.m, R.body, R.spec = m, body, spec
    # entry
    sig0, st0, V0, scal0 = R.abstract()
    if sig0 not in R.states:
        s = R.find(sig0, scal0) if ctx.live else None
        if s is None:
            # the same control state under other term identities on a replay
            l = R.loose(sig0)
            s = next((x for x in R.states if R.loose(x) == l), None)
        if s is None:
            raise Undecided(f"{name}: unknown control state on entry")
        sig0 = s
    f0 = R.cands(V0)
    for n in R.states[sig0].cands:
        ctx.oblige(f"{name}: {n} (on entry)", f0[n], "loop")
    keys = list(R.states)
    A = R.states[keys[ctx.choose(len(keys))]]
    V = R.install(A)
    f = R.cands(V)
    for n in A.cands:
        ctx.assume(f[n])
    if ctx.check([], 3000) == "unsat":
        raise PathEnd()
    before, sigA = V, [k for k in keys if R.states[k] is A][0]
    try:
        if not body.round():
            return
    except BreakEx:
        return
    if ctx.check([], 3000) == "unsat":
        raise PathEnd()
    sig, st, V2, scal = R.abstract()
    if sig not in R.states:
        l = R.loose(sig)
        c = [x for x in R.states if R.loose(x) == l]
        if not c:
            raise Undecided(f"{name}: unknown control state after a round")
        sig = c[0]
    f2 = R.cands(V2)
    for n in R.states[sig].cands:
        ctx.oblige(f"{name}: {n} (preserved)", f2[n], "loop")
    if ctx.live:
        d = spec.decreases(m, before, V2, A.store, st)
        if d is not None and ctx.proves(d, 5000):
            ctx.oblige(f"{name}: terminates", True, "termination")
        else:
            ctx.sh.unranked = getattr(ctx.sh, "unranked", set()) | {name}
    raise PathEnd()


class LoopSpec:
    """Vocabulary supplied by a contract."""

    def windows(self, m, st):
        return []

    def cands(self, m, V):
        return {}

    def decreases(self, m, V, V2, st, st2):
        return None


def strings(st):
    return {c: str(v) for c, v in st.items() if isinstance(v, str)}


def positions(st):
    return {c: v for c, v in st.items() if isinstance(v, It) and v.kind in ("map", "set", "rmap", "rset")}


def leafname(cell, path):
    return "".join([str(cell).split("#")[0]] + ["." + str(p[1]) for p in path if len(p) > 1])


def advance(st, st2):
    """Every iterator over a map or set stays or moves on, and at least one moves on."""
    moved = False
    a, b = positions(st), positions(st2)
    for c in a:
        if c not in b or a[c].loc != b[c].loc:
            return False
        x, y = a[c].pos, b[c].pos
        if x == y:
            continue
        if x is None or (y is not None and not (isinstance(x, str) and isinstance(y, str) and x < y)):
            return False
        moved = True
    return moved
