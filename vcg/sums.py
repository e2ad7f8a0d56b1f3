"""Finite sums in a normal form: linear over the parts that depend on the index, prefix sums where the summand is a
fixed function of a shifted index, otherwise an atom with the usual lemmas (see SumReg)."""
from fractions import Fraction
import z3
import sym
from sym import *
from cxxast import Unsupported

J = z3.Int("__j")


def depends(e, v):
    seen, apps = {}, {}
    sym.subterms(e, seen, apps)
    return v.get_id() in seen


class Sums:
    """A per-task registry; `prefix` maps the text of a summand to its prefix-sum function."""

    def __init__(self, shared):
        self.sh = shared
        self.prefix = {}

    def sum(self, g, n):
        n = simp(n)
        if not isz(n) and n <= 0:
            return Fraction(0)
        if not isz(n) and n <= 8:
            t = Fraction(0)
            for j in range(n):
                t = add(t, to_real(g(j)))
            return t
        body = g(J)
        body = z3.simplify(Z(to_real(body)))
        atoms = {}
        try:
            num, den = ratnorm(body, atoms)
        except PolyFail:
            return self.sh.sums.make(g, n)
        id2 = {i: e for i, e in atoms.items()}

        def back(p):
            t = None
            for m, c in sorted(p.items(), key=lambda x: repr(x[0])):
                e = z3.RealVal(str(c))
                for i, a in enumerate(m):
                    x = Z(to_real(id2[a]))
                    e = x if i == 0 and c == 1 else e * x
                t = e if t is None else t + e
            return t if t is not None else z3.RealVal(0)
        dz = back(den)
        if depends(dz, J):
            return self.atom(body, n)
        total = Fraction(0)
        for m, c in num.items():
            dep = [a for a in m if depends(id2[a], J)]
            ind = [a for a in m if not depends(id2[a], J)]
            coef = Fraction(c)
            for a in ind:
                coef = mul(coef, to_real(id2[a]))
            if not dep:
                total = add(total, mul(coef, to_real(n)))
                continue
            mono = None
            for a in sorted(dep, key=lambda a: str(id2[a])):
                x = Z(to_real(id2[a]))
                mono = x if mono is None else mono * x
            total = add(total, mul(coef, self.atom(mono, n)))
        if den == {(): Fraction(1)}:
            return total
        return Z(to_real(total)) / dz

    def atom(self, mono, n):
        mono = z3.simplify(mono)
        seen, apps = {}, {}
        sym.subterms(mono, seen, apps)
        for f in sorted(x for x in apps if x):
            for x in apps[f].values():
                for ai in range(x.num_args()):
                    a = x.arg(ai)
                    if a.sort() != z3.IntSort() or not depends(a, J):
                        continue
                    a0 = z3.simplify(z3.substitute(a, (J, z3.IntVal(0))))
                    c = z3.simplify(z3.substitute(a, (J, z3.IntVal(1))) - a0)
                    if not z3.is_int_value(c) or abs(c.as_long()) != 1:
                        continue
                    s = c.as_long()
                    p = z3.simplify(z3.substitute(mono, (J, s * (J - a0))))
                    s2, ap2 = {}, {}
                    sym.subterms(p, s2, ap2)
                    if [q for q in ap2.get("", {}).values() if not q.eq(J)]:
                        continue
                    offs = []
                    for q in ap2:
                        if q:
                            for y in ap2[q].values():
                                for b in y.children():
                                    if b.sort() == z3.IntSort() and depends(b, J):
                                        d = z3.simplify(b - J)
                                        if z3.is_int_value(d):
                                            offs.append(d.as_long())
                    cm = min(offs) if offs else 0
                    if cm:
                        p = z3.simplify(z3.substitute(p, (J, J - cm)))
                    ps = self.psfun(p)
                    if s == 1:
                        lo = z3.simplify(a0 + cm)
                        return ps(z3.simplify(lo + Z(n))) - ps(lo)
                    hi = z3.simplify(a0 + 1 + cm)
                    return ps(hi) - ps(z3.simplify(hi - Z(n)))
        return self.sh.sums.make(lambda j: z3.substitute(mono, (J, Z(j))), n)

    def psfun(self, p):
        key = p.sexpr()
        if key not in self.prefix:
            for f, q in list(self.prefix.values()):
                sv = z3.Solver()
                sv.set("timeout", 500)
                sv.add(p != q)
                if sv.check() == z3.unsat:
                    self.prefix[key] = (f, q)
                    return f
            self.prefix[key] = (z3.Function(f"PS{len(self.prefix)}", z3.IntSort(), z3.RealSort()), p)
        return self.prefix[key][0]

    def facts(self):
        """PS(i+1) = PS(i) + p(i), PS(0) = 0 for every prefix sum made so far (called at query time)."""
        out = []
        for f, p in self.prefix.values():
            def inst(t, f=f, p=p):
                at = lambda i: z3.substitute(p, (J, i))
                return z3.And(f(t + 1) == f(t) + at(t), f(t) == f(t - 1) + at(t - 1), f(z3.IntVal(0)) == 0)
            out.append(Fact(str(f), [str(f)], inst))
        return out

    def unfold(self, es):
        """Rewrite PS(t+c) as PS(t) + p(t) + ... + p(t+c-1), t the smallest argument of its kind."""
        seen, apps = {}, {}
        for e in es:
            sym.subterms(e, seen, apps)
        pairs = []
        for f, p in {str(f): (f, p) for f, p in self.prefix.values()}.values():
            groups = []
            for x in apps.get(str(f), {}).values():
                for g in groups:
                    d = z3.simplify(x.arg(0) - g[0][1])
                    if z3.is_int_value(d):
                        g.append((d.as_long(), x.arg(0), x))
                        break
                else:
                    groups.append([(0, x.arg(0), x)])
            for g in groups:
                lo = min(g, key=lambda y: y[0])
                if max(y[0] for y in g) - lo[0] > 12:
                    continue
                for d, a, x in g:
                    r = f(lo[1])
                    for i in range(d - lo[0]):
                        r = r + z3.substitute(p, (J, z3.simplify(lo[1] + i)))
                    if d != lo[0]:
                        pairs.append((x, r))
        return [z3.simplify(z3.substitute(e, *pairs)) for e in es] if pairs else es
