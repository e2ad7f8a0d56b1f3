"""Executable reading of the properties: random scenarios with their expected outcome, run on the real code by the driver.

This is the replay side: it confirms what the verifier reports with a concrete history, stands in (labelled bounded) where a
task is outside the verifier's reach, and validates on every run that the contracts describe the code that runs."""
import json, math, random
from driver import dec, enc, num, parse_result


class Sc:
    """A scenario: command lines, each with what is expected of its output line."""

    def __init__(self, tag=""):
        self.cmds, self.exp, self.tag = [], [], tag

    def do(self, *w, exp=None):
        self.cmds.append(" ".join(str(x) for x in w))
        self.exp.append(exp)
        return len(self.cmds) - 1

    def ok(self, *w):
        return self.do(*w, exp=OK)

    def check(self, outs, note):
        for i, (c, e) in enumerate(zip(self.cmds, self.exp)):
            if i >= len(outs):
                return i, f"{note or 'no output'}"
            if e is None:
                continue
            r = e(outs[i], outs)
            if r is STOP:
                return None
            if r:
                return i, r
        if note:
            return len(outs), note
        return None


STOP = object()  # an expected error: what happens to the rest of the scenario is not specified


def OK(l, outs):
    return None if l.startswith("ok") else f"expected success, got: {dec(l)[:200] if l.startswith('err') else l[:200]}"


def ERR(l, outs):
    return None if l.startswith("err") else f"expected an error, got: {l[:200]}"


def NULL(l, outs):
    return None if l == "null" else f"expected a null result, got: {l[:200]}"


def is_(s):
    return lambda l, outs: None if l == s else f"expected: {s[:300]}   got: {l[:300]}"


def like(i):
    """Same output as command i."""
    return lambda l, outs: None if l == outs[i] else f"expected the same as command {i}: {outs[i][:300]}   got: {l[:300]}"


def close(a, b, scale=0.0):
    if a == b or (a != a and b != b):
        return True
    if math.isinf(a) or math.isinf(b) or a != a or b != b:
        return False
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b), scale)


def same_result(got, want, scale=0.0):
    if got is None:
        return False
    if set(got) != set(want):
        return False
    for k in want:
        if set(got[k]) != set(want[k]):
            return False
        for p in want[k]:
            g, w = got[k][p], want[k][p]
            if len(g) != len(w):
                return False
            for (t1, v1), (t2, v2) in zip(g, w):
                if t1 != t2 or not close(v1, v2, scale):
                    return False
    return True


def res(want, scale=0.0):
    """want: {id: {port: [(t, v)]}}"""
    want = {k: {p: [(int(t), float(v)) for t, v in ms] for p, ms in d.items() if ms} for k, d in want.items()}
    want = {k: d for k, d in want.items() if d}

    def f(l, outs):
        got = parse_result(l)
        if same_result(got, want, scale):
            return None
        return f"expected {want}   got {got if got is not None else dec(l)[:300]}"
    return f


def fv(xs):
    return ",".join(num(x) for x in xs) if xs else "-"


# ---- random material -----------------------------------------------------------------------------------------------
EXTRA = []      # numbers that occur in the sources or in the verifier's counterexamples


def add_numbers(xs):
    for x in xs:
        if x not in EXTRA and abs(x) < 2**62:
            EXTRA.append(x)


def harvest(repo):
    """The numeric literals of the code under test: special cases hide behind them."""
    import os, re
    for l in ("core", "std", "finance", "api"):
        for sub in ("include", "src"):
            for base, _, files in sorted(os.walk(os.path.join(repo, "libs", l, sub))):
                for f in sorted(files):
                    if not f.endswith((".h", ".hpp", ".cpp")):
                        continue
                    txt = open(os.path.join(base, f), errors="replace").read()
                    txt = re.sub(r"/\*.*?\*/", " ", txt, flags=re.S)
                    txt = re.sub(r"//[^\n]*", " ", txt)
                    txt = re.sub(r'"(?:[^"\\\n]|\\.)*"', " ", txt)
                    for x in re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*\.?\d*(?:[eE][-+]?\d+)?)", txt):
                        try:
                            x = x.replace("'", "")
                            v = int(x, 16) if x[:2] in ("0x", "0X") else float(x)
                            v = int(v) if v == int(v) else v
                        except (ValueError, OverflowError):
                            continue
                        if v not in (0, 1, 2, 0.5) and abs(v) < 2**62 and v not in EXTRA:
                            EXTRA.append(v)


def ints(lo, hi):
    return [int(x) for x in EXTRA if x == int(x) and lo <= x <= hi]


def val(r):
    c = r.random()
    if EXTRA and c < 0.06:
        return float(r.choice(EXTRA)) * r.choice([1, 1, 1, -1]) + r.choice([0, 0, 0, 1, -1, 0.125])
    c = r.random()
    if c < 0.5:
        return float(r.randint(-6, 6))
    if c < 0.9:
        return r.randint(-80, 80) / 8.0
    return float(r.randint(-2**30, 2**30))


def start(r):
    e = ints(0, 2**61)
    if e and r.random() < 0.1:
        return max(0, r.choice(e) - r.choice([0, 0, 1, 2, 5]))
    return r.choice([0, 0, 1, 1, 2, 5, 1000, 2**31 - 2, 2**32 - 3, 2**32 + 1, 1_600_000_000_000_000_000])


def times(r, n, lo=1, hi=5, t0=None):
    t = start(r) if t0 is None else t0
    out = []
    for _ in range(n):
        out.append(t)
        t += r.randint(lo, hi) if r.random() < 0.95 else r.choice([2**31, 2**32, 2**33 + 1] + ints(1, 2**40))
    return out


def interleave(r, lists, burst=True):
    """A random interleaving of several lists; sometimes in long runs."""
    lists = [list(l) for l in lists]
    out = []
    cur = 0
    while any(lists):
        live = [i for i, l in enumerate(lists) if l]
        if cur not in live or not burst or r.random() < 0.5:
            cur = r.choice(live)
        out.append(lists[cur].pop(0))
    return out


def subset_times(r, grid, p):
    return [t for t in grid if r.random() < p]


# ---- operator catalogue: parameters, json and ports -------------------------------------------------------------------
def coef(r, lo=1, hi=4):
    return [r.choice([0.5, -0.5, 0.25, 1.0, -1.0, 2.0, 0.0, 3.0]) for _ in range(r.randint(lo, hi))]


def pts(r, n=None):
    n = n or r.randint(2, 6)
    xs = r.sample(range(-10, 11), n)
    if r.random() < 0.3:
        xs = [x / 4.0 for x in xs]
    return [(float(x), val(r)) for x in xs]


def P_none(r):
    return [], {}


def P_value(r):
    v = r.choice([val(r), 0.0, 0.5, 1.5, 2.0, -1.0])
    return [num(v)], {"value": v}


def P_power(r):
    v = r.choice([0.0, 1.0, 2.0, 3.0, 0.5, -1.0])
    return [num(v)], {"value": v}


def P_n(lo, hi):
    def f(r):
        n = r.randint(lo, hi)
        if r.random() < 0.05:
            n = r.choice(ints(lo, 64) + [10, 16, 32])
        return [n], {"n": n}
    return f


def P_ports(lo, hi):
    def f(r):
        n = r.randint(lo, hi) if r.random() < 0.9 else r.choice([10, 11, 12])
        return [n], {"numPorts": n}
    return f


def P_coeff(lo, hi):
    def f(r):
        c = coef(r, lo, hi) if r.random() < 0.9 else coef(r, 10, 12)
        return [fv(c)], {"coeff": c}
    return f


def P_ar(r):
    c = [r.choice([0.5, -0.5, 0.25, 0.0, 1.0, -0.25]) for _ in range(r.randint(1, 5))]
    return [fv(c)], {"coeff": c}


def P_dt(r):
    d = r.choice([1, 1, 2, 3, 4, 7, 10])
    return [d], {"dt": d}


def P_interval(r):
    d = r.choice([1, 1, 2, 3, 4, 7, 10])
    return [d], {"interval": d}


def P_shift(r):
    dt, n = r.choice([0, 1, 2, 5, 100, 2**33]), r.choice([0, 1, 1, 2, -1, -3, 7])
    return [dt, n], {"dt": dt, "times": n}


def P_diff(r):
    b = r.random() < 0.5
    return [int(b)], {"useOldestTime": b}


def P_fun(r):
    p = pts(r)
    k = r.choice(["linear", "hermite"])
    return [fv([a for a, _ in p]), fv([b for _, b in p]), k], {"points": [list(x) for x in p], "interpolation": k}


PARAMS = {
    "Input": P_ports(1, 4), "Output": P_ports(1, 4), "Join": P_ports(2, 4), "Demultiplexer": P_ports(1, 3),
    "RelativeStrengthIndex": P_n(1, 4), "Add": P_value, "And": P_none, "AutoRegressive": P_ar, "Constant": P_value,
    "ConstantResampler": P_interval, "CosineResampler": P_dt, "HermiteResampler": P_dt, "Count": P_none,
    "CumulativeSum": P_none, "Difference": P_diff, "Division": P_none, "EqualTo": P_value,
    "FiniteImpulseResponse": P_coeff(1, 5), "Function": P_fun, "GreaterThan": P_value, "GreaterThanStream": P_none,
    "Identity": P_none, "LessThan": P_value, "LessThanStream": P_none, "Linear": P_coeff(2, 4), "Minus": P_none,
    "MovingAverage": P_n(1, 5), "Multiplication": P_none, "Or": P_none, "PeakDetector": P_n(1, 6), "Plus": P_none,
    "Power": P_power, "Scale": P_value, "StandardDeviation": P_n(2, 5), "TimeShift": P_shift, "Variable": P_value,
}
BINARY = ("Minus", "Plus", "Multiplication", "Division", "And", "Or", "GreaterThanStream", "LessThanStream")
SINGLE = ("Identity", "Add", "Scale", "Power", "Constant", "TimeShift", "GreaterThan", "LessThan", "EqualTo",
          "MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "PeakDetector", "Difference", "Count",
          "CumulativeSum", "AutoRegressive", "RelativeStrengthIndex", "ConstantResampler", "CosineResampler",
          "HermiteResampler", "Function")


def ports_of(ty, js):
    """(data ports, control ports, output ports) in natural order"""
    n = js.get("numPorts", 1)
    I = lambda k: [f"i{i}" for i in range(1, k + 1)]
    O = lambda k: [f"o{i}" for i in range(1, k + 1)]
    if ty in ("Input", "Output"):
        return I(n), [], O(n)
    if ty == "Join":
        return I(n), [], O(n)
    if ty == "Demultiplexer":
        return ["i1"], [f"c{i}" for i in range(1, n + 1)], O(n)
    if ty in BINARY:
        return I(2), [], ["o1"]
    if ty == "Linear":
        return I(len(js["coeff"])), [], ["o1"]
    if ty == "Variable":
        return ["i1"], ["c1"], ["o1"]
    return ["i1"], [], ["o1"]


def history(r, ty, js, length):
    """A well-formed history: [(control?, port, t, v)]"""
    din, cin, _ = ports_of(ty, js)
    if ty in ("Input", "Output"):
        h = []
        t = start(r)
        for _ in range(length):
            t += r.choice([0, 1, 1, 2, 3]) if r.random() < 0.8 else (-1 if t else 0)
            h.append((False, r.choice(din), t, val(r)))
        return h
    if ty == "Demultiplexer":
        n = max(1, length // (len(cin) + 1))
        ts = times(r, n)
        L = [[(False, "i1", t, val(r)) for t in ts]] + [[(True, c, t, float(r.randint(0, 1))) for t in ts] for c in cin]
        return interleave(r, L)
    if ty == "Variable":
        grid = times(r, length)
        L = [[(False, "i1", t, val(r)) for t in subset_times(r, grid, r.choice([0.3, 0.5, 0.8]))],
             [(True, "c1", t, 1.0) for t in subset_times(r, grid, r.choice([0.3, 0.5, 0.8]))]]
        return interleave(r, L)
    if len(din) > 1:
        grid = times(r, max(2, length // len(din)))
        p = r.choice([1.0, 0.9, 0.7, 0.5])
        return interleave(r, [[(False, d, t, val(r)) for t in subset_times(r, grid, p)] for d in din])
    hi = 5
    if ty.endswith("Resampler"):
        t = start(r)
        ts = []
        step = js.get("dt", js.get("interval", 1))
        for _ in range(length):
            ts.append(t)
            t += r.choice([1, 2, 3, step, step, 2 * step, 5 * step + 1, max(1, step - 1), step + 1])
        return [(False, "i1", t, val(r)) for t in ts]
    return [(False, "i1", t, val(r)) for t in times(r, length)]


# ---- reference semantics ------------------------------------------------------------------------------------------------
class Model:
    """step(control, port, t, v) -> {port: [(t, v)]}"""

    def __init__(self, ty, js):
        self.ty, self.js = ty, js
        self.h = []
        self.scale = 0.0
        din, cin, out = ports_of(ty, js)
        self.q = {p: [] for p in din}
        self.c = {p: [] for p in cin}
        self.last = {}
        self.din, self.cin, self.out = din, cin, out
        self.done = 0
        self.y = []
        self.answered = 0

    def step(self, control, port, t, v):
        ty, js = self.ty, self.js
        self.scale = max(self.scale, abs(v))
        if ty == "Input":
            if port not in self.last or t > self.last[port]:
                self.last[port] = t
                return {"o" + port[1:]: [(t, v)]}
            return {}
        if ty == "Output":
            return {"o" + port[1:]: [(t, v)]}
        if ty == "Join" or ty in BINARY or ty == "Linear":
            return self.join(port, t, v)
        if ty == "Demultiplexer":
            return self.demux(control, port, t, v)
        if ty == "Variable":
            return self.variable(control, t, v)
        self.h.append((t, v))
        f = getattr(self, "f_" + ty)
        o = f(self.h, t, v)
        if o is None:
            return {}
        if isinstance(o, tuple):
            o = [o]
        return {"o1": o}

    def join(self, port, t, v):
        self.q[port].append((t, v))
        if not all(any(x == t for x, _ in self.q[p]) for p in self.din):
            return {}
        vs = [next(y for x, y in self.q[p] if x == t) for p in self.din]
        ty = self.ty
        if ty == "Join":
            return {"o" + p[1:]: [(t, x)] for p, x in zip(self.din, vs)}
        if ty == "Linear":
            self.scale = max(self.scale, sum(abs(a * b) for a, b in zip(self.js["coeff"], vs)))
            return {"o1": [(t, sum(a * b for a, b in zip(self.js["coeff"], vs)))]}
        a, b = vs
        o = {"Minus": lambda: a - b, "Plus": lambda: a + b, "Multiplication": lambda: a * b,
             "Division": lambda: a / b if b != 0 else None, "And": lambda: float(a >= 0.5 and b >= 0.5),
             "Or": lambda: float(a >= 0.5 or b >= 0.5), "GreaterThanStream": lambda: a if a > b else None,
             "LessThanStream": lambda: a if a < b else None}[ty]()
        return {} if o is None else {"o1": [(t, o)]}

    def demux(self, control, port, t, v):
        (self.c if control else self.q)[port].append((t, v))
        d = self.q["i1"]
        out = {}
        while d:
            t0, v0 = d[0]
            for p in self.cin:
                self.c[p] = [x for x in self.c[p] if x[0] >= t0]
            if not all(self.c[p] and self.c[p][0][0] == t0 for p in self.cin):
                break
            for p in self.cin:
                if self.c[p].pop(0)[1] == 1:
                    out.setdefault("o" + p[1:], []).append((t0, v0))
            d.pop(0)
        return out

    def variable(self, control, t, v):
        if control:
            self.c["c1"].append(t)
        else:
            self.q["i1"].append((t, v))
        out = []
        defs = self.q["i1"]
        while self.answered < len(self.c["c1"]):
            q = self.c["c1"][self.answered]
            if not any(x >= q for x, _ in defs):
                break
            prev = [y for x, y in defs if x <= q]
            out.append((q, prev[-1] if prev else self.js["value"]))
            self.answered += 1
        return {"o1": out} if out else {}

    # single input
    def f_Identity(self, h, t, v):
        return t, v

    def f_Add(self, h, t, v):
        return t, v + self.js["value"]

    def f_Scale(self, h, t, v):
        return t, v * self.js["value"]

    def f_Power(self, h, t, v):
        c = self.js["value"]
        try:
            x = math.pow(v, c)
        except ValueError:
            x = float("inf") if v == 0 else float("nan")
        except OverflowError:
            x = float("-inf") if v < 0 and c % 2 == 1 else float("inf")
        return t, x

    def f_Constant(self, h, t, v):
        return t, self.js["value"]

    def f_TimeShift(self, h, t, v):
        return max(0, t + self.js["dt"] * self.js["times"]), v

    def f_GreaterThan(self, h, t, v):
        return (t, v) if v > self.js["value"] else None

    def f_LessThan(self, h, t, v):
        return (t, v) if v < self.js["value"] else None

    def f_EqualTo(self, h, t, v):
        return (t, v) if v == self.js["value"] else None

    def win(self, h, n):
        return h[-n:] if len(h) >= n else None

    def f_MovingAverage(self, h, t, v):
        n = self.js["n"]
        w = self.win(h, n)
        return w and (t, sum(x for _, x in w) / n)

    def f_StandardDeviation(self, h, t, v):
        n = self.js["n"]
        w = self.win(h, n)
        if not w:
            return None
        m = sum(x for _, x in w) / n
        # other ways of computing it lose half of the digits where the values hardly differ
        self.scale = max(self.scale, 100 * max(abs(x) for _, x in w))
        return t, math.sqrt(sum((x - m) ** 2 for _, x in w) / (n - 1))

    def f_FiniteImpulseResponse(self, h, t, v):
        c = self.js["coeff"]
        w = self.win(h, len(c))
        if w:
            self.scale = max(self.scale, sum(abs(c[k] * h[-1 - k][1]) for k in range(len(c))))
        return w and (t, sum(c[k] * h[-1 - k][1] for k in range(len(c))))

    def f_PeakDetector(self, h, t, v):
        n = self.js["n"]
        w = self.win(h, n)
        if not w:
            return None
        m = w[n // 2]
        return m if all(x <= m[1] for _, x in w) else None

    def f_Difference(self, h, t, v):
        if len(h) < 2:
            return None
        return (t if self.js["useOldestTime"] else h[-2][0], v - h[-2][1])

    def f_Count(self, h, t, v):
        return t, float(len(h))

    def f_CumulativeSum(self, h, t, v):
        return t, sum(x for _, x in h)

    def f_AutoRegressive(self, h, t, v):
        y = v
        for k, c in enumerate(self.js["coeff"]):
            if k < len(self.y):
                y += c * self.y[-1 - k]
                self.scale = max(self.scale, abs(c * self.y[-1 - k]))
        self.y.append(y)
        self.scale = max(self.scale, abs(y))
        return t, y

    def f_RelativeStrengthIndex(self, h, t, v):
        n = self.js["n"]
        d = [b[1] - a[1] for a, b in zip(h, h[1:])]
        if len(d) < n:
            return None
        g = sum(max(x, 0) for x in d[:n]) / n
        l = sum(max(-x, 0) for x in d[:n]) / n
        for x in d[n:]:
            g = (g * (n - 1) + max(x, 0)) / n
            l = (l * (n - 1) + max(-x, 0)) / n
        return t, (100 - 100 / (1 + g / l) if l > 0 else 100.0)

    def grid(self, a, b, dt):
        """grid points in (a, b]"""
        t0 = self.h[0][0]
        k = (a - t0) // dt + 1
        while t0 + k * dt <= b:
            if t0 + k * dt > a and k >= 1:
                yield t0 + k * dt
            k += 1

    def f_ConstantResampler(self, h, t, v):
        if len(h) < 2:
            return None
        out = [(g, v if g == t else h[-2][1]) for g in self.grid(h[-2][0], t, self.js["interval"])]
        return out or None

    def f_CosineResampler(self, h, t, v):
        if len(h) < 2:
            return None
        (ta, ya), (tb, yb) = h[-2], h[-1]
        out = []
        for g in self.grid(ta, tb, self.js["dt"]):
            w = (1 - math.cos(math.pi * (g - ta) / (tb - ta))) / 2
            out.append((g, ya * (1 - w) + yb * w))
        return out or None

    def f_HermiteResampler(self, h, t, v):
        if len(h) < 4:
            return None
        dt = self.js["dt"]
        if len(h) == 4:
            x = [a - h[0][0] for a, _ in h[:4]]
            y = [b for _, b in h[:4]]
            mean = (x[3] - x[0]) // 3
            n = 4
            den = n * sum(a * a for a in x) - sum(x) ** 2
            m = (n * sum(a * b for a, b in zip(x, y)) - sum(x) * sum(y)) / den
            b0 = (sum(a * a for a in x) * sum(y) - sum(a * b for a, b in zip(x, y)) * sum(x)) / den
            before = (None, b0 - m * mean)
            self.scale = max(self.scale, abs(b0), abs(m * mean))
            w = [before] + h[:4]
            segs = [(w[0], w[1], w[2], w[3]), tuple(h[:4])]
        else:
            segs = [tuple(h[-4:])]
        out = []
        for p, a, b, c in segs:
            for g in self.grid(a[0], b[0], dt):
                mu = (g - a[0]) / (b[0] - a[0])
                m0 = (b[1] - p[1]) / 2
                m1 = (c[1] - a[1]) / 2
                out.append((g, (2 * mu**3 - 3 * mu**2 + 1) * a[1] + (mu**3 - 2 * mu**2 + mu) * m0
                            + (mu**3 - mu**2) * m1 + (3 * mu**2 - 2 * mu**3) * b[1]))
        return out or None

    def f_Function(self, h, t, v):
        p = sorted((float(a), float(b)) for a, b in self.js["points"])
        n = len(p)
        i = max([k for k in range(n) if p[k][0] <= v], default=0)
        i = min(i, n - 2)
        (x1, y1), (x2, y2) = p[i], p[i + 1]
        # either segment may be used at a point they share: their magnitude is what the rounding is relative to
        self.scale = max([self.scale] + [abs(y) for _, y in p[max(i - 1, 0):i + 3]])
        if self.js.get("interpolation", "linear") == "linear":
            self.scale = max(self.scale, abs((v - x1) / (x2 - x1)) * (abs(y1) + abs(y2)))
            return t, y1 + (y2 - y1) * (v - x1) / (x2 - x1)

        def tan(k):
            a, b = (max(k - 1, 0), min(k + 1, n - 1))
            return (x2 - x1) * (p[b][1] - p[a][1]) / (p[b][0] - p[a][0])
        mu = (v - x1) / (x2 - x1)
        self.scale = max(self.scale, abs(mu) ** 3 * (abs(y1) + abs(y2) + abs(tan(i)) + abs(tan(i + 1))))
        return t, ((2 * mu**3 - 3 * mu**2 + 1) * y1 + (mu**3 - 2 * mu**2 + mu) * tan(i)
                   + (3 * mu**2 - 2 * mu**3) * y2 + (mu**3 - mu**2) * tan(i + 1))


def feed(s, op, ty, js, h, r, model=None, expect=True, blank=True):
    """Deliver a history step by step, expecting what the model says."""
    model = model or Model(ty, js)
    for c, p, t, v in h:
        e = model.step(c, p, t, v)
        name = p
        if blank and ty not in ("Join", "Linear") and ty not in BINARY and len(model.cin if c else model.din) == 1 and r.random() < 0.2:
            name = "-"
        s.do("stepc" if c else "step", op, name, t, num(v), exp=res({op: e}, model.scale) if expect else None)
    return model


def op_scenario(ty, length=(4, 24)):
    def gen(r):
        args, js = PARAMS[ty](r)
        s = Sc(ty)
        s.ok("new", ty, "x", *args)
        n = r.randint(*length)
        if r.random() < 0.03:
            n = r.randint(60, 400)
        n += js.get("n", 0) if js.get("n", 0) > 10 else 0
        feed(s, "x", ty, js, history(r, ty, js, n), r)
        return s
    return gen


def mix(*gens):
    def g(r):
        return r.choice(gens)(r)
    return g


def cycle(gens):
    gens = list(gens)
    state = {"i": 0}

    def g(r):
        state["i"] += 1
        return gens[state["i"] % len(gens)](r)
    return g


# ---- P01 ----------------------------------------------------------------------------------------------------------------
def g_input_batched(r):
    """Several ports delivered before one processing."""
    n = r.randint(2, 5)
    s = Sc("Input batches")
    s.ok("new", "Input", "x", n)
    m = Model("Input", {"numPorts": n})
    t = start(r)
    for _ in range(r.randint(3, 12)):
        out = {}
        for p in r.sample(m.din, r.randint(1, n)):
            tt = max(0, t + r.choice([-1, 0, 0, 1, 2]))
            v = val(r)
            s.ok("data", "x", p, tt, num(v))
            out.update(m.step(False, p, tt, v))
        s.do("exec", "x", exp=res({"x": out}))
        t += r.choice([0, 1, 3])
    return s


# ---- P02 ----------------------------------------------------------------------------------------------------------------
def fmt_state(ports, order=sorted):
    return "".join(f" {enc(p)}|{'inf' if n == 0 else n}|{sm:.17g}|" + ",".join(f"{t}@{v:.17g}" for t, v in w)
                   for p, (n, w, sm) in sorted(ports.items()))


def parse_state(l):
    if not l.startswith("st"):
        return None
    secs = l[2:].split(" ;")
    out = []
    for sec in secs[:2]:
        d = {}
        for w in sec.split():
            p, n, sm, ms = w.split("|")
            d[dec(p)] = (0 if n == "inf" else int(n), [(int(x.split("@")[0]), float(x.split("@")[1])) for x in ms.split(",") if x], float(sm))
        out.append(d)
    out.append(sorted(dec(w) for w in secs[2].split()) if len(secs) > 2 else [])
    return out


def state_is(data, ctrl, topro):
    want = [{p: (n, list(w), sum(v for _, v in w)) for p, (n, w) in d.items()} for d in (data, ctrl)]

    def f(l, outs):
        got = parse_state(l)
        if got is None:
            return f"no state: {l[:200]}"
        for g, w, k in zip(got, want, ("data", "control")):
            if set(g) != set(w):
                return f"{k} ports {sorted(g)} instead of {sorted(w)}"
            for p in w:
                if g[p][0] != w[p][0] or g[p][1] != w[p][1] or not close(g[p][2], w[p][2]):
                    return f"{k} port {p}: expected (max,messages,sum) {w[p]} got {g[p]}"
        if topro is not None and got[2] != sorted(topro):
            return f"to process {got[2]} instead of {sorted(topro)}"
        return None
    return f


def dy(r):
    return r.randint(-800, 800) / 8.0


def g_buffers(r):
    s = Sc("buffers")
    s.ok("new", "Probe", "x", 0)
    nd, nc = r.randint(1, 3), r.choice([0, 0, 1, 2])
    data = {f"d{i}": (r.choice([0, 1, 2, 3, 4, 5, 7]), []) for i in range(nd)}
    ctrl = {f"c{i}": (r.choice([0, 1, 2, 3]), []) for i in range(nc)}
    for p, (n, _) in data.items():
        s.ok("addin", "x", p, n)
    for p, (n, _) in ctrl.items():
        s.ok("addctl", "x", p, n)
    pend = set()
    t = start(r)
    for _ in range(r.randint(5, 30)):
        c = r.random()
        t += r.choice([0, 1, 2])
        v = dy(r)
        if c < 0.55:
            p = r.choice(list(data))
            n, w = data[p]
            w2 = w + [(t, v)]
            if n:
                w2 = w2[-n:]
            data[p] = (n, w2)
            pend.add(p)
            s.ok("data", "x", "-" if nd == 1 and r.random() < .3 else p, t, num(v))
        elif c < 0.65 and nc:
            p = r.choice(list(ctrl))
            n, w = ctrl[p]
            w2 = w + [(t, v)]
            if n:
                w2 = w2[-n:]
            ctrl[p] = (n, w2)
            s.ok("ctrl", "x", "-" if nc == 1 and r.random() < .3 else p, t, num(v))
        elif c < 0.73:
            bad = r.choice(["nope", "d9", "c0" if r.random() < .5 else "o1"])
            if bad in data:
                bad = "nope"
            s.do("data", "x", bad, t, num(v), exp=ERR)
            s.do("ctrl", "x", r.choice(["nope", "d0"]), t, num(v), exp=ERR)
            s.do("getters", "x", "nope", exp=ERR)
            s.do("state", "x", exp=state_is(data, ctrl, None))
        if c < 0.5 or r.random() < 0.4:
            s.do("trace")
            s.do("exec", "x", exp=is_("R"))
            ready = sorted(p for p in pend if data[p][0] and len(data[p][1]) == data[p][0])
            pend = set()

            def chk(l, outs, ready=ready, snap={p: list(data[p][1]) for p in ready}):
                ev = [e.strip() for e in l[1:].split(" ; ") if e.strip()]
                pd = [e for e in ev if e.startswith("pd")]
                if not ready:
                    return None if not pd else f"computed although no window is full: {pd}"
                if len(pd) != 1:
                    return f"expected one computation on {ready}, got {pd}"
                got = {}
                for w in pd[0].split()[2:]:
                    p, sm, ms, first, last = w.split("|")
                    pm = lambda x: [(int(a), float(b)) for a, b in (y.split("@") for y in x.split(",") if y)]
                    got[dec(p)] = (float(sm), pm(ms), pm(first)[0], pm(last)[0])
                if sorted(got) != ready:
                    return f"computed on {sorted(got)} instead of {ready}"
                for p in ready:
                    w = snap[p]
                    if got[p][1] != w or not close(got[p][0], sum(v for _, v in w)) or got[p][2] != w[0] or got[p][3] != w[-1]:
                        return f"port {p}: saw {got[p]} instead of {w} with sum {sum(v for _, v in w)}"
                return None
            s.do("trace", exp=chk)
            s.do("state", "x", exp=state_is(data, ctrl, None))
        if r.random() < 0.2:
            p = r.choice(list(data))
            n, w = data[p]

            def g(l, outs, n=n, w=list(w)):
                f = l.split()
                if f[0] != "g" or not close(float(f[1]), sum(v for _, v in w)) or f[2] != str(len(w)) or f[3] != ("inf" if n == 0 else str(n)):
                    return f"getters: {l[:200]} for {w}"
                pm = [(int(a), float(b)) for a, b in (y.split("@") for y in f[4:])]
                return None if pm == ([w[0], w[-1]] + w if w else []) else f"getters: {l[:200]} for {w}"
            s.do("getters", "x", p, exp=g)
    return s


# ---- P03/P04: arrival order ------------------------------------------------------------------------------------------------
def g_join_sparse(ty):
    """Few common times, long waits, gaps that force several rounds of catching up."""
    def gen(r):
        if ty == "Join":
            n = r.choice([2, 3, 3, 4, 5])
            args, js = [n], {"numPorts": n}
        elif ty == "Linear":
            c = coef(r, 2, 4)
            args, js, n = [fv(c)], {"coeff": c}, len(c)
        else:
            args, js, n = [], {}, 2
        s = Sc(ty)
        s.ok("new", ty, "x", *args)
        ln = r.randint(3, 9)
        t0 = start(r)
        small = (lambda: float(r.choice([0, 0, 1, 2, -1]))) if r.random() < 0.5 else (lambda: r.choice([val(r), 0.5, 0.25, 0.0]))
        lists = []
        for k in range(n):
            p = r.choice([0.35, 0.6, 0.9])
            lists.append([(False, f"i{k+1}", t0 + t, small()) for t in range(ln * 2) if r.random() < p])
        feed(s, "x", ty, js, interleave(r, lists), r)
        # same streams, other order: same emissions (the model already says so)
        return s
    return gen


def g_join_bad(r):
    s = Sc("Join ports")
    s.do("new", "Join", "y", r.choice([0, 1]), exp=ERR)
    s.ok("new", "Join", "x", 3)
    s.do("data", "x", r.choice(["i4", "o1", "-"]), 1, 1.0, exp=ERR)
    s.do("state", "x", exp=state_is({f"i{k}": (0, []) for k in (1, 2, 3)}, {}, []))
    return s


# ---- P05 ------------------------------------------------------------------------------------------------------------------
def g_demux_old(r):
    n = r.randint(1, 3)
    js = {"numPorts": n}
    s = Sc("Demultiplexer with stale controls")
    s.ok("new", "Demultiplexer", "x", n)
    ts = times(r, r.randint(2, 6), 2, 5)
    L = [[(False, "i1", t, val(r)) for t in ts]]
    for c in range(1, n + 1):
        l = []
        for t in ts:
            if r.random() < 0.4 and t > 0:
                l.append((True, f"c{c}", t - 1, float(r.randint(0, 1))))
            l.append((True, f"c{c}", t, float(r.randint(0, 1))))
        L.append(l)
    # a stale control may only be in front while a younger message waits or nothing waits: deliver each round completely
    h = []
    for t in ts:
        round_ = [[x for x in l if x[2] in (t, t - 1)] for l in L]
        h += interleave(r, round_)
    if any(b[2] - a[2] < 2 for a, b in zip(L[0], L[0][1:])):
        h = [x for x in h if x[2] in ts]
    feed(s, "x", "Demultiplexer", js, h, r)
    return s


def g_demux_err(r):
    n = r.randint(1, 3)
    s = Sc("Demultiplexer mismatch")
    s.ok("new", "Demultiplexer", "x", n)
    t = start(r) + 5
    bad = r.randint(1, n)
    later = r.random() < 0.5
    v = r.choice([0.5, 2.0, -1.0]) if not later else float(r.randint(0, 1))
    tb = t + 1 if later else t
    if r.random() < 0.5:
        s.do("step", "x", "i1", t, 3.0, exp=res({}))
        s.do("stepc", "x", f"c{bad}", tb, num(v), exp=ERR)
    else:
        s.do("stepc", "x", f"c{bad}", tb, num(v), exp=res({}))
        s.do("step", "x", "i1", t, 3.0, exp=ERR)
    return s


def g_variable(r):
    v = val(r)
    s = Sc("Variable")
    s.ok("new", "Variable", "x", num(v))
    L = r.randint(2, 12)
    t0 = start(r)
    p, q = r.choice([0.2, 0.5, 0.9]), r.choice([0.2, 0.5, 0.9])
    D = [(False, "i1", t0 + t, val(r)) for t in range(L) if r.random() < p]
    Q = [(True, "c1", t0 + t, val(r)) for t in range(L) if r.random() < q]
    h = r.choice([interleave(r, [D, Q]), Q + D, D + Q])
    feed(s, "x", "Variable", {"value": v}, h, r)
    return s


def g_variable_default(r):
    s = Sc("Variable default")
    s.ok("new", "VariableD", "x")
    h = history(r, "Variable", {}, 8)
    feed(s, "x", "Variable", {"value": 0.0}, h, r)
    return s


# ---- P08, P10 extras ----------------------------------------------------------------------------------------------------------
def g_zero_dt(r):
    s = Sc("interval 0")
    for ty in ("ConstantResampler", "CosineResampler", "HermiteResampler"):
        s.do("new", ty, "x", 0, exp=ERR)
    return s


def g_peak_ties(r):
    n = r.randint(1, 6)
    s = Sc("PeakDetector ties")
    s.ok("new", "PeakDetector", "x", n)
    h = [(False, "i1", t, float(r.randint(0, 2))) for t in times(r, r.randint(n, 3 * n + 3))]
    feed(s, "x", "PeakDetector", {"n": n}, h, r)
    return s


def g_rsi_flat(r):
    n = r.randint(1, 4)
    s = Sc("RSI flat or one-sided")
    s.ok("new", "RelativeStrengthIndex", "x", n)
    k = r.choice([0, 1])
    v, h = 0.0, []
    for t in times(r, r.randint(n, 3 * n + 4)):
        h.append((False, "i1", t, v))
        v += r.choice([0, k, k, 1 if k else 0])
    feed(s, "x", "RelativeStrengthIndex", {"n": n}, h, r)
    return s


def g_resample_boundary(r):
    ty = r.choice(["ConstantResampler", "CosineResampler", "HermiteResampler"])
    d = r.choice([1, 2, 3, 5, 10])
    s = Sc(ty + " around the grid")
    s.ok("new", ty, "x", d)
    t = start(r)
    h = []
    for _ in range(r.randint(3, 12)):
        h.append((False, "i1", t, val(r)))
        t += r.choice([d, d, 2 * d, 1, d + 1, max(1, d - 1), 3 * d + 1])
    feed(s, "x", ty, {"dt": d, "interval": d}, h, r)
    return s


def g_function(r):
    p = pts(r)
    k = r.choice(["linear", "hermite"])
    s = Sc("Function " + k)
    if k == "linear" and r.random() < 0.3:
        s.ok("new", "Function", "x", fv([a for a, _ in p]), fv([b for _, b in p]))
    else:
        s.ok("new", "Function", "x", fv([a for a, _ in p]), fv([b for _, b in p]), k)
    js = {"points": p, "interpolation": k}
    xs = [a for a, _ in p] + [a + r.choice([.25, .5, -.25]) for a, _ in p] + [-20.0, 20.0, val(r)]
    r.shuffle(xs)
    h = [(False, "i1", t, x) for t, x in zip(times(r, len(xs)), xs)]
    feed(s, "x", "Function", js, h, r)
    return s


def g_function_bad(r):
    s = Sc("Function rejects")
    s.do("new", "Function", "x", "1.0", "2.0", "linear", exp=ERR)
    s.do("new", "Function", "x", "-", "-", "linear", exp=ERR)
    s.do("new", "Function", "x", "1.0,2.0", "2.0,3.0", "cubic", exp=ERR)
    return s


# ---- P12 ------------------------------------------------------------------------------------------------------------------------
def g_snapshot(ty):
    def gen(r):
        args, js = PARAMS[ty](r)
        s = Sc("snapshot " + ty)
        for x in ("a", "b", "c"):
            if x != "b":
                s.ok("new", ty, x, *args)
        h = history(r, ty, js, r.randint(4, 24))
        cut = r.randint(0, len(h))
        for c, p, t, v in h[:cut]:
            i = s.do("stepc" if c else "step", "c", p, t, num(v))
            s.do("stepc" if c else "step", "a", p, t, num(v), exp=rename_like(i, "c", "a"))
        half = None
        if cut < len(h) and r.random() < 0.25:
            half = h[cut]
            c, p, t, v = half
            for x in ("a", "c"):
                s.do("ctrl" if c else "data", x, p, t, num(v))
            cut += 1
        sn = s.do("snap", "a", "s", exp=lambda l, o: None if l.endswith(" same") else f"collect changes what it saves: {l[:100]}")
        s.ok("new", ty, "b", *args)
        if r.random() < 0.3:
            i = s.do("state", "b")
        s.do("back", "b", "s", exp=lambda l, o, sn=sn: None if l.split()[:2] == o[sn].split()[:2] else f"restore consumed {l} of {o[sn]}")
        st = s.do("state", "a")
        s.do("state", "b", exp=like(st))
        s.do("state", "c", exp=like(st))
        if half:
            for x in ("a", "b", "c"):
                i = s.do("execc" if half[0] else "exec", x)
                if x == "a":
                    ia = i
                else:
                    s.exp[i] = rename_like(ia, "a", x)
        for c, p, t, v in h[cut:]:
            i = s.do("stepc" if c else "step", "a", p, t, num(v))
            for x in ("b", "c"):
                s.do("stepc" if c else "step", x, p, t, num(v), exp=rename_like(i, "a", x))
        # and the saved form of both is the same afterwards
        ia = s.do("hex", "a")
        s.do("hex", "b", exp=like(ia))
        return s
    return gen


def rename_like(i, a, b):
    def f(l, outs):
        x, y = parse_result(outs[i]), parse_result(l)
        if x is None or y is None:
            if outs[i].split()[:1] == l.split()[:1]:
                return None
            return f"command {i} gave {dec(outs[i])[:200]}, this {dec(l)[:200]}"
        x = {(b if k == a else k): v for k, v in x.items()}
        if x == y or same_bits(x, y):
            return None
        return f"expected {x} (what {a} did) got {y}"
    return f


def same_bits(x, y):
    return repr(x) == repr(y)


# ---- graphs (P13, P14, P16, P18) -----------------------------------------------------------------------------------------------
def random_graph(r, size=None, entry_ports=None, types=None):
    """ops: [(id, type, args, json)], conns: [(from, fromPort, to, toPort)], a DAG from an Input (or other) entry."""
    size = size or r.randint(1, 7)
    types = types or [t for t in PARAMS if t not in ("Input",)]
    names = ["in", "x", "a1", "b2", "zz", "op10", "op2", "m", "Q", "0z", "out", "Aa"]
    r.shuffle(names)
    n0 = entry_ports or r.randint(1, 3)
    ops = [(names[0], "Input", [n0], {"numPorts": n0})]
    conns = []
    outs = [(names[0], p) for p in ports_of("Input", {"numPorts": n0})[2]]
    for k in range(1, size + 1):
        ty = r.choice(types)
        args, js = PARAMS[ty](r)
        if ty in ("Join", "Demultiplexer", "Output") and js["numPorts"] > 4:
            js = {"numPorts": 2}
            args = [2]
        if ty == "Linear" and len(js["coeff"]) > 4:
            js = {"coeff": [1.0, 2.0]}
            args = [fv(js["coeff"])]
        din, cin, out = ports_of(ty, js)
        for p in din + cin:
            if r.random() < 0.93:
                src = r.choice(outs[-4:]) if r.random() < 0.7 else r.choice(outs)
                conns.append((src[0], src[1], names[k], p))
        ops.append((names[k], ty, args, js))
        outs += [(names[k], p) for p in out]
    return ops, conns


def graph_json(r, ops, conns, entry=None, output=None, shuffle=True, blank=True):
    P = {i: ports_of(t, js) for i, t, _, js in ops}
    o = [dict(type=t, id=i, **js) for i, t, _, js in ops]
    cs = []
    for a, pa, b, pb in conns:
        d = {"from": a, "to": b}
        if not (blank and len(P[a][2]) == 1 and r.random() < 0.5):
            d["fromPort"] = pa
        if not (blank and len(P[b][0]) == 1 and not P[b][1] and r.random() < 0.5):
            d["toPort"] = pb
        cs.append(d)
    if shuffle:
        r.shuffle(o)
    j = {"operators": o, "connections": cs}
    if entry is not None:
        j["entryOperator"] = entry
    if output is not None:
        j["output"] = output
    return json.dumps(j, indent=r.choice([None, 1]))


def wire(s, ops, conns, prefix=""):
    for i, t, a, _ in ops:
        s.ok("new", t, prefix + i, *a)
    for a, pa, b, pb in conns:
        s.ok("conn", prefix + a, pa, prefix + b, pb)


def entry_feed(r, n, length):
    """Messages for an Input with n ports, grouped: [[(port, t, v)]] one group per receive call, port order inside is by name"""
    t = r.choice([0, 1, 5, 1000])
    out = []
    for _ in range(length):
        g = []
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            t += r.choice([0, 1, 1, 1, 2, 3])
            ports = [f"i{k}" for k in range(1, n + 1)]
            for p in (ports if r.random() < 0.6 else r.sample(ports, 1)):
                g.append((p, t, r.choice([val(r), 0.0, 1.0, 1.0, 0.0])))
        out.append(g)
    return out


def merge(a, b):
    for k, d in b.items():
        e = a.setdefault(k, {})
        for p, ms in d.items():
            e.setdefault(p, []).extend(ms)
    return a


def direct_steps(s, op, group):
    """What a program does with a message map: port by port in name order, message by message; -> command indices"""
    idx = []
    for p in sorted({p for p, _, _ in group}):
        for q, t, v in group:
            if q == p:
                idx.append(s.do("step", op, p, t, num(v)))
    return idx


def merged_like(idx, filt=None, decode=None):
    def f(l, outs):
        want = {}
        bad = False
        for i in idx:
            x = parse_result(outs[i])
            if x is None:
                bad = True
                break
            merge(want, x)
        if bad:
            return STOP if l.startswith("err") else f"the wired operators raise {dec(outs[i])[:200]}, the program gave {l[:200]}"
        if filt:
            want = {k: {p: want[k][p] for p in ps if p in want[k]} for k, ps in filt.items() if k in want}
            want = {k: d for k, d in want.items() if d}
        got = decode(l) if decode else parse_result(l)
        if decode:  # JSON has no infinities
            want = {k: {p: [(t, v if math.isfinite(v) else float("nan")) for t, v in ms] for p, ms in d.items()} for k, d in want.items()}
        if got is not None and repr_sorted(got) == repr_sorted(want):
            return None
        return f"expected {want}   got {got if got is not None else dec(l)[:300]}"
    return f


def repr_sorted(d):
    return {k: {p: repr(v) for p, v in e.items()} for k, e in d.items()}


def json_result(l):
    if not l.startswith("ok "):
        return None
    try:
        j = json.loads(dec(l[3:]))
    except ValueError:
        return None
    if j is None:
        return {}
    try:
        return {k: {p: [(m["time"], float("nan") if m["value"] is None else float(m["value"])) for m in ms] for p, ms in d.items()}
                for k, d in j.items()}
    except (TypeError, AttributeError, KeyError):
        return None


def random_filter(r, ops):
    f = {}
    for i, t, _, js in ops:
        if r.random() < 0.6:
            o = ports_of(t, js)[2]
            f[i] = r.sample(o, r.randint(1, len(o)))
            if r.random() < 0.2:
                f[i].append("nosuchport")
            if r.random() < 0.2:
                f[i].append(r.choice(f[i]))
    if r.random() < 0.2:
        f["nosuchop"] = ["o1"]
    return f


def g_program(r):
    """P16: Program::receive and receiveDebug against the same operators wired directly."""
    ops, conns = random_graph(r)
    s = Sc("program")
    wire(s, ops, conns)
    filt = r.choice([None, {}, random_filter(r, ops), random_filter(r, ops)])
    text = graph_json(r, ops, conns, ops[0][0], filt)
    s.ok("prog", "P", enc(text))
    s.ok("prog", "D", enc(text))
    s.do("pentry", "P", exp=lambda l, o: None if l.split(" ;")[0] == "ok " + enc(ops[0][0]) else f"entry operator: {l}")
    via_f = r.random() < 0.5
    if via_f:
        s.ok("fprog", "F", enc(text))
        s.ok("fprog", "G", enc(text))
    n = ops[0][3]["numPorts"]
    for g in entry_feed(r, n, r.randint(2, 8)):
        idx = direct_steps(s, ops[0][0], g)
        w = " ".join(f"{p} {t} {num(v)}" for p, t, v in g)
        s.do("pdebug", "D", w, exp=merged_like(idx))
        s.do("precv", "P", w, exp=merged_like(idx, filt or None))
        if via_f:
            s.do("fmapn", "F", w, exp=merged_like(idx, filt or None)) if r.random() < .5 else \
                s.do("fmap", "F", w, exp=merged_like(idx, filt or None, json_result))
            s.do("fmapd", "G", w, exp=merged_like(idx, None, json_result))
    return s


def g_program_entry(r):
    """An entry operator other than Input."""
    ty = r.choice([t for t in SINGLE if not t.endswith("Resampler")])
    args, js = PARAMS[ty](r)
    s = Sc("program entry")
    s.ok("new", ty, "e", *args)
    s.ok("new", "Output", "o", 1)
    s.ok("conn", "e", "o1", "o", "i1")
    text = graph_json(r, [("e", ty, args, js), ("o", "Output", [1], {"numPorts": 1})], [("e", "o1", "o", "i1")], "e", None)
    s.ok("prog", "P", enc(text))
    for _, p, t, v in history(r, ty, js, 6):
        i = s.do("step", "e", p, t, num(v))
        s.do("precv", "P", p, t, num(v), exp=merged_like([i]))
    return s


def g_program_bad(r):
    s = Sc("program rejects")
    inp = {"type": "Input", "id": "in", "numPorts": 1}
    ok = {"operators": [inp], "connections": [], "entryOperator": "in"}
    k = r.randint(0, 4)
    j = json.loads(json.dumps(ok))
    if k == 0:
        del j["entryOperator"]
    elif k == 1:
        j["entryOperator"] = "nope"
    elif k == 2:
        j["operators"].append({"type": "Variable", "id": "v", "value": 0})
        j["entryOperator"] = "v"
    elif k == 3:
        j["operators"].append({"type": "Output", "id": "o", "numPorts": 1})
        j["connections"].append({"from": "in", "to": "o", "fromPort": "o7", "toPort": "i1"})
    else:
        j["operators"].append({"type": "NoSuchType", "id": "o"})
    s.do("prog", "P", enc(json.dumps(j)), exp=ERR)
    s.ok("prog", "Q", enc(json.dumps(ok)))
    return s


def g_program_snapshot(r):
    """P13"""
    if r.random() < 0.25:
        ops, conns, text, n, _ = pipeline_program(r)
        entry = "in"
    else:
        ops, conns = random_graph(r)
        text = graph_json(r, ops, conns, ops[0][0], r.choice([None, random_filter(r, ops)]))
        n = ops[0][3]["numPorts"]
        entry = ops[0][0]
    s = Sc("program snapshot")
    s.ok("prog", "A", enc(text))
    s.ok("prog", "C", enc(text))
    fd = entry_feed(r, n, r.randint(2, 10))
    cut = r.randint(0, len(fd))
    for g in fd[:cut]:
        w = " ".join(f"{p} {t} {num(v)}" for p, t, v in g)
        i = s.do("pdebug", "C", w)
        s.do("pdebug", "A", w, exp=like(i))
    i = s.do("pser", "A", exp=saved_form(text, [o[0] for o in ops]))
    s.do("pser", "A", exp=like(i))
    s.ok("pfrom", "B", "A")
    s.do("pser", "B", exp=like(i))
    it = s.do("ptext", "A")
    s.do("ptext", "B", exp=like(it))
    ie = s.do("pentry", "A")
    s.do("pentry", "B", exp=like(ie))
    for g in fd[cut:]:
        w = " ".join(f"{p} {t} {num(v)}" for p, t, v in g)
        i = s.do("pdebug", "A", w)
        s.do("pdebug", "B", w, exp=like(i))
        s.do("pdebug", "C", w, exp=like(i))
    i = s.do("pser", "A")
    s.do("pser", "B", exp=like(i))
    return s


def saved_form(text, ids):
    """The saved bytes start with the length and the text of the program, and then name the operators in order."""
    def f(l, outs):
        if not l.startswith("ok "):
            return f"serialize: {dec(l)[:200]}"
        b = bytes.fromhex(l[3:])
        t = text.encode()
        if b[:8] != len(t).to_bytes(8, "little") or b[8:8 + len(t)] != t:
            return f"the saved form does not start with the program text: {b[:60]!r}"
        pos = 8 + len(t)
        for i in sorted(ids, key=lambda x: x.encode()):
            k = len(i.encode()).to_bytes(8, "little") + i.encode()
            q = b.find(k, pos)
            if q < 0 or (i == sorted(ids, key=lambda x: x.encode())[0] and q != pos):
                return f"operator {i} is missing in the saved form"
            pos = q + len(k)
        return None
    return f


def g_factory_snapshot(r):
    """Snapshot through the bindings."""
    ops, conns = random_graph(r, r.randint(1, 4))
    text = graph_json(r, ops, conns, ops[0][0], None)
    n = ops[0][3]["numPorts"]
    s = Sc("factory snapshot")
    s.ok("fprog", "A", enc(text))
    fd = entry_feed(r, n, r.randint(2, 6))
    cut = r.randint(0, len(fd))
    for g in fd[:cut]:
        s.do("fmapn", "A", " ".join(f"{p} {t} {num(v)}" for p, t, v in g))
    i = s.do("fser", "A", exp=saved_form(text, [o[0] for o in ops]))
    s.ok("fbytes", "B", "A")
    s.do("fbytes", "B", "A", exp=ERR)
    s.do("fser", "B", exp=like(i))
    for g in fd[cut:]:
        w = " ".join(f"{p} {t} {num(v)}" for p, t, v in g)
        i = s.do("fmapn", "A", w)
        s.do("fmapn", "B", w, exp=like(i))
    s.do("fser", "nope", exp=ERR)
    return s


# P14: probes
class Net:
    """The contract of emission, executed on probes."""

    def __init__(self):
        self.out, self.conn, self.mode, self.data, self.ctrl, self.buf = {}, {}, {}, {}, {}, {}
        self.ev = []

    def add(self, i, mode, data, ctrl, outs):
        self.mode[i], self.data[i], self.ctrl[i], self.out[i] = mode, list(data), list(ctrl), sorted(outs)
        self.conn[i] = []
        self.buf[i] = {p: [] for p in list(data) + list(ctrl)}
        self.pend = getattr(self, "pend", {})
        self.pend[i] = set()

    def emit1(self, i, m, ports):
        r = {}
        for p in ports or self.out[i]:
            merge(r, {i: {p: [m]}})
            cs = [(b, q) for (pa, b, q) in self.conn[i] if pa == p]
            for b, q in cs:
                if q in self.data[b]:
                    self.ev.append(("rd", b, q, m))
                    self.buf[b][q] = [m]
                    self.pend[b].add(q)
                else:
                    self.ev.append(("rc", b, q, m))
                    self.buf[b][q] = [m]
            for b, q in cs:
                if q in self.data[b]:
                    self.ev.append(("xd", b))
                    ps = sorted(self.pend[b])
                    self.pend[b] = set()
                    if ps:
                        self.ev.append(("pd", b))
                        merge(r, self.emito(b, self.result(b, ps)))
                else:
                    self.ev.append(("xc", b))
                    self.ev.append(("pc", b))
                    merge(r, self.emito(b, self.result(b, [c for c in sorted(self.ctrl[b]) if self.buf[b][c]])))
        return r

    def result(self, b, ps):
        om = {}
        if self.mode[b]:
            for p in ps:
                for o in self.out[b]:
                    om.setdefault(o, []).append(self.buf[b][p][-1])
                    if self.mode[b] == 2:
                        break
        return om

    def emitp(self, i, ms, ports):
        r = {}
        for m in ms:
            merge(r, self.emit1(i, m, ports))
        return r

    def emito(self, i, om):
        r = {}
        for p in sorted(om):
            merge(r, self.emitp(i, om[p], [p]))
        return r


def g_emission(r):
    s = Sc("emission")
    net = Net()
    ids = ["n0", "b", "a", "n10", "n2"][:r.randint(2, 5)]
    for k, i in enumerate(ids):
        d = [f"d{j}" for j in range(r.randint(1, 2))]
        c = [f"c{j}" for j in range(r.choice([0, 0, 1]))]
        o = r.sample(["o1", "o2", "out", "a", "o10"], r.randint(1, 3))
        mode = r.choice([0, 1, 1, 2]) if k else 0
        net.add(i, mode, d, c, o)
        s.ok("new", "Probe", i, mode)
        for p in d:
            s.ok("addin", i, p, 1)
        for p in c:
            s.ok("addctl", i, p, 1)
        for p in o:
            s.ok("addout", i, p)
    for k in range(len(ids) - 1):
        for _ in range(r.randint(0, 4)):
            b = r.choice(ids[k + 1:])
            p = r.choice(net.out[ids[k]])
            q = r.choice(net.data[b] + net.ctrl[b])
            net.conn[ids[k]].append((p, b, q))
            s.ok(r.choice(["conn", "connp"]), ids[k], p, b, q)
    t = 1
    for _ in range(r.randint(1, 4)):
        net.ev = []
        s.do("trace")
        i = ids[0]
        c = r.random()
        if c < 0.35:
            m = (t, dy(r))
            ports = r.choice([[], r.sample(net.out[i], r.randint(1, len(net.out[i])))])
            want = net.emit1(i, m, ports)
            s.do("emitm", i, m[0], num(m[1]), *ports, exp=res(want))
        elif c < 0.6:
            ms = [(t + k, dy(r)) for k in range(r.randint(0, 3))]
            ports = r.choice([[], r.sample(net.out[i], r.randint(1, len(net.out[i])))])
            want = net.emitp(i, ms, ports)
            s.do("emitp", i, *ports, ":", *[x for m in ms for x in (m[0], num(m[1]))], exp=res(want))
        else:
            om = {p: [(t + k, dy(r)) for k in range(r.randint(1, 3))] for p in r.sample(net.out[i], r.randint(1, len(net.out[i])))}
            want = net.emito(i, om)
            s.do("emito", i, *[x for p in om for m in om[p] for x in (p, m[0], num(m[1]))], exp=res(want))
        want_ev = list(net.ev)

        def chk(l, outs, want_ev=want_ev):
            got = []
            for e in l[1:].split(" ; "):
                w = e.split()
                if not w:
                    continue
                if w[0] in ("rd", "rc"):
                    a, b = w[3].split("@")
                    got.append((w[0], dec(w[1]), dec(w[2]), (int(a), float(b))))
                else:
                    got.append((w[0], dec(w[1])))
            return None if got == want_ev else f"expected events {want_ev} got {got}"
        s.do("trace", exp=chk)
        t += 3
    s.do("emito", ids[0], "nosuchport", t, 1.0, exp=ERR)
    return s


# P15
def g_connect(r):
    s = Sc("connect")
    ids = ["p", "q", "r"]
    D, C, O = {}, {}, {}
    for i in ids:
        D[i] = r.sample(["i1", "i2", "x"], r.choice([0, 1, 1, 2]))
        C[i] = [c for c in r.sample(["c1", "y"], r.choice([0, 0, 1, 2]))]
        O[i] = r.sample(["o1", "o2", "z"], r.choice([0, 1, 1, 2]))
        s.ok("new", "Probe", i, 0)
        for p in D[i]:
            s.ok("addin", i, p, 1)
        for p in C[i]:
            s.ok("addctl", i, p, 1)
        for p in O[i]:
            s.ok("addout", i, p)
            if r.random() < .3:
                s.ok("addout", i, p)
        s.do("addin", i, "%", 1, exp=ERR)
        s.do("addctl", i, "%", 1, exp=ERR)
        if D[i] + C[i]:
            p = r.choice(D[i] + C[i])
            s.do("addin", i, p, 2, exp=ERR)
            s.do("addctl", i, p, 2, exp=ERR)
        want = "P" + "".join(" " + x for x in sorted(D[i])) + " ;" + "".join(" " + x for x in sorted(C[i])) + " ;" + \
            "".join(" " + x for x in sorted(O[i])) + f" ; {len(D[i])} {len(C[i])} {len(O[i])}"
        s.do("ports", i, exp=is_(want))
    links = []
    for _ in range(r.randint(1, 7)):
        a, b = r.choice(ids), r.choice(ids)
        if a == b:
            continue
        p = r.choice(O[a] + ["-", "-", "nope", "o9"])
        q = r.choice(D[b] + C[b] + ["-", "-", "nope"])
        rp = p if p != "-" else (O[a][0] if len(O[a]) == 1 else None)
        rq = q if q != "-" else (D[b][0] if len(D[b]) == 1 and not C[b] else None)
        cmd = r.choice(["conn", "connp"])
        if rp is None or rq is None:
            s.do(cmd, a, p, b, q, exp=ERR)
        elif rp not in O[a] or rq not in D[b] + C[b]:
            s.do(cmd, a, p, b, q, exp=NULL)
        else:
            s.ok(cmd, a, p, b, q)
            links.append((a, rp, b, rq))
    # observe the links by emitting on every port
    for a in ids:
        for p in O[a]:
            s.do("trace")
            s.do("emitm", a, 7, 1.5, p, exp=res({a: {p: [(7, 1.5)]}}))
            want = [("rd" if q in D[b] else "rc", b, q) for (x, y, b, q) in links if x == a and y == p]

            def chk(l, outs, want=want):
                got = [tuple(dec(x) for x in e.split()[:3]) for e in l[1:].split(" ; ") if e.split() and e.split()[0] in ("rd", "rc")]
                return None if got == want else f"expected deliveries {want} got {got}"
            s.do("trace", exp=chk)
    return s


# P17
def g_buffers_api(r):
    s = Sc("program buffers")
    progs = {}
    for i in r.sample(["p1", "p2", "a b", "z"], r.randint(1, 3)):
        ops, conns = random_graph(r, r.randint(1, 3))
        filt = r.choice([None, random_filter(r, ops)])
        text = graph_json(r, ops, conns, ops[0][0], filt)
        s.do("fprog", enc(i), enc(text), exp=lambda l, o: None if l == "ok %" else f"createProgram: {dec(l)[:200]}")
        s.ok("prog", "D" + i.replace(" ", "_"), enc(text))
        progs[i] = (ops[0][3]["numPorts"], "D" + i.replace(" ", "_"), filt)
        s.do("fentry", enc(i), exp=is_("ok " + enc(ops[0][0])))
        s.do("fports", enc(i), exp=lambda l, o, n=ops[0][3]["numPorts"]: None if l.startswith("ok ") and json.loads(dec(l[3:])) == sorted(f"i{k+1}" for k in range(n)) else f"entry ports {l}")
        s.do("ffilter", enc(i), exp=lambda l, o, f=filt: None if l.startswith("ok ") and (json.loads(dec(l[3:])) or {}) == (f or {}) else f"output filter {dec(l)}")
    buf = {i: [] for i in progs}
    t = 1
    for _ in range(r.randint(4, 20)):
        c = r.random()
        i = r.choice(list(progs)) if progs else None
        if i is None:
            break
        n, d, filt = progs[i]
        if c < 0.6:
            t += r.choice([0, 1, 1, 2])
            p, v = f"i{r.randint(1, n)}", val(r)
            s.do("fbuf", enc(i), p, t, num(v), exp=is_("ok 1"))
            buf[i].append((p, t, v))
        elif c < 0.85:
            dbg = r.random() < 0.5
            w = " ".join(f"{p} {t_} {num(v)}" for p, t_, v in buf[i])
            batch = r.random() < 0.4
            if batch:
                extra = []
                for _ in range(r.randint(0, 3)):
                    t += 1
                    extra.append((f"i{r.randint(1, n)}", t, val(r)))
                w = " ".join(f"{p} {t_} {num(v)}" for p, t_, v in buf[i] + extra)
            k = s.do("pdebug" if dbg else "precv", d, w)
            if batch:
                s.do("fbatchd" if dbg else "fbatch", enc(i), " ".join(f"{p} {t_} {num(v)}" for p, t_, v in extra),
                     exp=merged_like([k], None, json_result))
            else:
                s.do("fprocd" if dbg else "fproc", enc(i), exp=merged_like([k], None, json_result))
            buf[i] = []
            if r.random() < 0.4:
                s.do("fproc", enc(i), exp=lambda l, o: None if json_result(l) == {} else f"processing an empty buffer gave {dec(l)[:200]}")
        elif c < 0.93:
            for cmd in ("fproc", "fprocd", "fentry", "fports", "ffilter"):
                s.do(cmd, "nosuch", exp=ERR)
            s.do("fbuf", "nosuch", "i1", t, 1.0, exp=ERR)
            s.do("fdel", "nosuch", exp=is_("ok 0"))
        elif len(progs) > 1 and not buf[i]:
            s.do("fdel", enc(i), exp=is_("ok 1"))
            s.do("fdel", enc(i), exp=is_("ok 0"))
            s.do("fproc", enc(i), exp=ERR)
            s.do("fbuf", enc(i), "i1", t, 1.0, exp=ERR)
            del progs[i]
            del buf[i]
    return s


# P18
def inner_graph(r, size=None):
    """A graph for the inside of a pipeline: no input port fed twice, some ports left open."""
    types = list(PARAMS) + ["Demultiplexer", "Variable", "Variable"]
    ops, conns = random_graph(r, size or r.randint(1, 4), types=types)
    for i, t, _, js in ops:      # the data port of an operator with control ports left open
        if t in ("Demultiplexer", "Variable") and r.random() < .3:
            conns = [c for c in conns if c[2:] != (i, "i1")]
    used_in = {(b, q) for _, _, b, q in conns}
    used_out = {(a, p) for a, p, _, _ in conns}
    ins = sorted(f"{i}:{p}" for i, t, _, js in ops for p in ports_of(t, js)[0] if (i, p) not in used_in)
    outs = sorted(f"{i}:{p}" for i, t, _, js in ops for p in ports_of(t, js)[2] if (i, p) not in used_out)
    return ops, conns, ins, outs


def g_pipeline(r):
    ops, conns, ins, outs = inner_graph(r)
    s = Sc("pipeline")
    wire(s, ops, conns, "d.")
    text = graph_json(r, ops, conns, blank=False)
    # a port omitted in the JSON is only known by name to the pipeline when it is the only one: keep names
    if r.random() < 0.5:
        s.ok("newpipe", "pl", enc(text))
    else:
        s.ok("readop", "pl", enc(json.dumps({"type": "Pipeline", "id": "pl", "prog": json.loads(text)})))
    s.do("ports", "pl", exp=lambda l, o: None if l.startswith("P") and set(l.split(" ;")[0].split()[1:]) == {f"i{k+1}" for k in range(len(ins))}
         and set(l.split(" ;")[2].split()) == {f"o{k+1}" for k in range(len(outs))} else f"ports {l} for inputs {ins} outputs {outs}")
    s.ok("new", "Output", "after", max(1, len(outs)))
    for k in range(len(outs)):
        s.ok("conn", "pl", f"o{k+1}", "after", f"i{k+1}")
    snap = r.random() < 0.3
    t = start(r) % 1000
    for step in range(r.randint(2, 14)):
        if snap and step == 3:
            sn = s.do("snap", "pl", "s", exp=lambda l, o: None if l.endswith(" same") else f"collect changes what it saves {l}")
            s.ok("newpipe", "pl", enc(text))
            s.do("back", "pl", "s", exp=lambda l, o, sn=sn: None if l.split()[:2] == o[sn].split()[:2] else f"restore consumed {l} of {o[sn]}")
            for k in range(len(outs)):
                s.ok("conn", "pl", f"o{k+1}", "after", f"i{k+1}")
        t += r.choice([0, 1, 1, 2])
        k = r.randrange(len(ins))
        op, port = ins[k].split(":")
        v = val(r)
        i = s.do("step", "d." + op, port, t, num(v))
        s.do("step", "pl", "-" if len(ins) == 1 and r.random() < .5 else f"i{k+1}", t, num(v), exp=pipe_like(i, outs))
    return s


def pipe_like(i, outs, strip="d.", name="pl", after="after"):
    def f(l, o):
        x, y = parse_result(o[i]), parse_result(l)
        if x is None:
            return None if y is None else f"the wired operators raise {dec(o[i])[:200]}, the pipeline gave {l[:200]}"
        if y is None:
            return f"{dec(l)[:300]}"
        want, wa = {}, {}
        for k, q in enumerate(outs):
            op, port = q.split(":")
            ms = x.get(strip + op, {}).get(port)
            if ms:
                want[f"o{k+1}"] = ms
                wa[f"o{k+1}"] = ms
        w = {}
        if want:
            w = {name: want, after: wa}
        return None if repr_sorted(y) == repr_sorted(w) else f"expected {w} got {y}"
    return f


def pipeline_program(r):
    ops, conns, ins, outs = inner_graph(r)
    inner = graph_json(r, ops, conns, blank=False)
    n = len(ins)
    o = [{"type": "Input", "id": "in", "numPorts": n}, {"type": "Pipeline", "id": "pl", "prog": json.loads(inner)}]
    cs = [{"from": "in", "to": "pl", "fromPort": f"o{k+1}", "toPort": f"i{k+1}"} for k in range(n)]
    text = json.dumps({"operators": o, "connections": cs, "entryOperator": "in"})
    return [("in",), ("pl",)], cs, text, n, None


COMPOSABLE = ("Add", "AutoRegressive", "Constant", "CosineResampler", "HermiteResampler", "Count", "CumulativeSum", "Difference",
              "EqualTo", "GreaterThan", "LessThan", "Identity", "MovingAverage", "FiniteImpulseResponse", "PeakDetector",
              "StandardDeviation", "Power", "Scale", "TimeShift")
COMPOSABLE2 = ("Division", "Minus", "Linear", "Join", "Variable", "Demultiplexer")


def g_composite(r):
    n = r.randint(1, 3)
    s = Sc("composite")
    ops = [("in", "Input", [n], {"numPorts": n})]
    conns = []
    outs = [("in", f"o{k+1}") for k in range(n)]
    for k in range(r.randint(1, 4)):
        ty = r.choice(COMPOSABLE + COMPOSABLE2)
        args, js = PARAMS[ty](r)
        if js.get("numPorts", 0) > 4:
            args, js = [2], {"numPorts": 2}
        if ty == "Linear":
            js = {"coeff": [1.0, 2.0]}
            args = [fv(js["coeff"])]
        i = f"k{k}"
        din, cin, out = ports_of(ty, js)
        ops.append((i, ty, args, js))
        for p in din + cin:
            a = r.choice(outs)
            conns.append((a[0], a[1], i, p))
        outs += [(i, p) for p in out]
    m = r.randint(1, 2)
    ops.append(("zout", "Output", [m], {"numPorts": m}))
    for k in range(m):
        a = r.choice(outs)
        conns.append((a[0], a[1], "zout", f"i{k+1}"))
    # directly wired, same ids in another world: prefix d.
    wire(s, ops, conns, "d.")

    def make(name):
        s.ok("new", "Composite", name)
        for i, ty, args, _ in ops:
            s.ok("cmp", name, ty, i, *args)
        for a, pa, b, pb in conns:
            s.ok("cmp", name, "conn", a, b, pa, pb)
    make("k")
    s.ok("new", "Output", "after", m)
    s.ok("new", "Output", "d.after", m)
    for k in range(m):
        s.ok("conn", "k", f"o{k+1}", "after", f"i{k+1}")
        s.ok("conn", "d.zout", f"o{k+1}", "d.after", f"i{k+1}")
    t = 1
    snap = r.random() < 0.4
    for step in range(r.randint(2, 14)):
        if snap and step == 3:
            sn = s.do("snap", "k", "s", exp=lambda l, o: None if l.endswith(" same") else f"collect changes what it saves {l}")
            make("k")
            s.do("back", "k", "s", exp=lambda l, o, sn=sn: None if l.split()[:2] == o[sn].split()[:2] else f"restore consumed {l} of {o[sn]}")
            for k in range(m):
                s.ok("conn", "k", f"o{k+1}", "after", f"i{k+1}")
        t += r.choice([0, 1, 1, 2])
        p, v = f"i{r.randint(1, n)}", r.choice([val(r), 0.0, 1.0])
        i = s.do("step", "d.in", p, t, num(v))
        s.do("step", "k", p, t, num(v), exp=strip_like(i, "d."))
    return s


def strip_like(i, pre):
    def f(l, o):
        x, y = parse_result(o[i]), parse_result(l)
        if x is None:
            return None if y is None else f"the wired operators raise {dec(o[i])[:200]}, the composite gave {l[:200]}"
        x = {k[len(pre):] if k.startswith(pre) else k: v for k, v in x.items()}
        return None if y is not None and repr_sorted(x) == repr_sorted(y) else f"expected {x} got {y if y is not None else dec(l)[:200]}"
    return f


# P19
DEFAULTS = {"Input": ("numPorts", 1), "Output": ("numPorts", 1), "Variable": ("value", 0.0), "Demultiplexer": ("numPorts", 1), "Join": ("numPorts", 2),
            "Difference": ("useOldestTime", True), "Function": ("interpolation", "linear")}
KEYS = {"CosineResampler": "dt", "HermiteResampler": "dt", "ConstantResampler": "interval"}


def same_json(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same_json(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same_json(x, y) for x, y in zip(a, b))
    return a == b


def json_params(r, ty):
    args, js = PARAMS[ty](r)
    js = dict(js)
    if "value" in js:
        js["value"] = r.choice([js["value"], 2.7, -0.1, 1e-3, 123456.789, 3.0, 0.0])
        args = [num(js["value"])]
    if "dt" in js and ty != "TimeShift":
        js["dt"] = r.choice([1, 2, 7, 2**31, 2**33 + 5])
        args = [js["dt"]]
    if "interval" in js:
        js["interval"] = r.choice([1, 2, 7, 2**31, 2**33 + 5])
        args = [js["interval"]]
    if "coeff" in js:
        js["coeff"] = [r.choice([x, x + 0.1, x / 3]) for x in js["coeff"]]
        args = [fv(js["coeff"])]
    if "points" in js:
        js["points"] = sorted([a, b + 0.1] for a, b in js["points"])
        args = [fv([a for a, _ in js["points"]]), fv([b for _, b in js["points"]]), js["interpolation"]]
    return args, js


def g_json(ty):
    def gen(r):
        args, js = json_params(r, ty)
        s = Sc("json " + ty)
        i = r.choice(["x", "an id", "id:1"])
        full = dict(type=ty, id=i, **js)
        drop = dict(full)
        if ty in DEFAULTS and r.random() < 0.4:
            k, d = DEFAULTS[ty]
            drop.pop(k)
            full[k] = d
        if ty == "TimeShift" and r.random() < 0.4:
            for k, d in (("dt", 1), ("times", 1)):
                if r.random() < 0.6:
                    drop.pop(k)
                    full[k] = d

        def same_op(l, o):
            if not l.startswith("ok "):
                return f"writeOp: {dec(l)[:200]}"
            got = json.loads(dec(l[3:]))
            return None if same_json(got, full) else f"expected {full} got {got}"
        s.do("readop", "a", enc(json.dumps(drop)), exp=is_(f"ok {enc(ty)} {enc(i)}"))
        w = s.do("writeop", "a", exp=same_op)
        # read back what was written (the writer's own text), write again
        s.do("readop", "b", enc(json.dumps(full)), exp=is_(f"ok {enc(ty)} {enc(i)}"))
        s.do("writeop", "b", exp=same_op)
        # an operator built natively is written the same way
        if drop == full:
            s.ok("new", ty, "n", *args)
            s.do("writeop", "n", exp=lambda l, o: None if l.startswith("ok ") and same_json(dict(json.loads(dec(l[3:])), id=i), full) else f"expected {full} got {dec(l)[:300]}")
        # and behaves according to its parameters
        j2 = {k: v for k, v in full.items() if k not in ("type", "id")}
        m = Model(ty, j2)
        big = j2.get("dt", j2.get("interval", 1))
        if big <= 100 or ty == "TimeShift":
            for c, p, t, v in history(r, ty, j2, r.randint(3, 12)):
                e = m.step(c, p, t, v)
                for x in ("a", "b"):
                    s.do("stepc" if c else "step", x, p, t, num(v), exp=res({i: e}, m.scale))
        return s
    return gen


def g_json_pipeline(r):
    ops, conns, ins, outs = inner_graph(r, r.randint(1, 3))
    text = graph_json(r, ops, conns, blank=False)
    full = {"type": "Pipeline", "id": "pl", "prog": json.loads(text)}
    s = Sc("json Pipeline")
    s.do("readop", "a", enc(json.dumps(full)), exp=is_("ok Pipeline pl"))

    def same_op(l, o):
        got = json.loads(dec(l[3:])) if l.startswith("ok ") else None
        return None if got is not None and same_json(got, full) else f"expected {full} got {dec(l)[:300]}"
    s.do("writeop", "a", exp=same_op)
    return s


def g_json_types(r):
    want = sorted(list(PARAMS) + ["Pipeline"])
    s = Sc("json types")
    s.do("types", exp=lambda l, o: None if set(want) <= set(l.split()[1:]) else f"missing types {set(want) - set(l.split()[1:])}")
    s.do("readop", "a", enc(json.dumps({"type": "Nope", "id": "x"})), exp=ERR)
    return s


def noerr(l, outs):
    return None if not l.startswith("err") else f"error raised on a well-formed history: {dec(l)[:200]}"


def g_safety(ty):
    """P20: any well-formed history, only asked not to fail (the driver is built with checked containers and ASan)."""
    def gen(r):
        args, js = PARAMS[ty](r)
        s = Sc("safety " + ty)
        s.ok("new", ty, "x", *args)
        for c, p, t, v in history(r, ty, js, r.randint(4, 40)):
            s.do("stepc" if c else "step", "x", p, t, num(v), exp=noerr)
        return s
    return gen


def g_safety_base(r):
    s = g_buffers(r)
    s.exp = [ERR if e is ERR else noerr for e in s.exp]
    return s


def _cyc(types, f):
    return cycle([f(t) for t in types])


# P21
def verdict_is(valid):
    def chk(l, o):
        try:
            j = json.loads(dec(l[3:]))
        except ValueError:
            return f"not JSON: {l[:200]}"
        if not isinstance(j, dict) or j.get("valid") is not valid:
            return f"expected valid={valid} got {j}"
        if not valid and not (isinstance(j.get("error"), str) and j["error"]):
            return f"no reason in {j}"
    return chk


def bad_text(r):
    inp = {"type": "Input", "id": "in", "numPorts": 1}
    j = {"operators": [inp, {"type": "Add", "id": "a", "value": 1}], "connections": [{"from": "in", "to": "a"}], "entryOperator": "in"}
    k = r.randint(0, 10)
    if k == 0:
        del j[r.choice(["operators", "connections", "entryOperator"])]
    elif k == 9:
        t = json.dumps(j)
        return r.choice(["/* the program */" + t, t + "//\n", t.replace(", ", ", /*x*/ ", 1), t + "#"])
    elif k == 10:
        t = json.dumps(j)
        return r.choice([t.replace("}]", "},]", 1), t + t, "", "null", t.replace('"in"', "'in'", 1), "[" + t + "]"])
    elif k == 1:
        j["entryOperator"] = 3
    elif k == 2:
        j["operators"][1]["type"] = "NoSuchType"
    elif k == 3:
        del j["operators"][1]["value"]
    elif k == 4:
        j["operators"][1]["value"] = "one"
    elif k == 5:
        del j["connections"][0]["to"]
    elif k == 6:
        return json.dumps(j)[:-1]
    elif k == 7:
        j["connections"] = {}
    else:
        del j["operators"][0]["id"]
    return json.dumps(j)


def g_schema(r):
    """The answers of the bindings to good and bad texts (under the schema of the shim)."""
    s = Sc("schema")
    for _ in range(r.randint(1, 4)):
        s.do("fvalid", enc(bad_text(r)), exp=verdict_is(False))
        i = r.choice(["A", "B"])
        s.do("fprog", i, enc(bad_text(r)), exp=verdict_is(False))
        s.do("fports", i, exp=ERR)
        s.do("fbuf", i, "i1", 1, 1.0, exp=ERR)
    ops, conns = random_graph(r, r.randint(1, 3))
    text = graph_json(r, ops, conns, ops[0][0], None)
    s.do("fvalid", enc(text), exp=verdict_is(True))
    s.do("fprog", "A", enc(text), exp=lambda l, o: None if l == "ok %" else f"createProgram: {dec(l)[:200]}")
    s.do("fentry", "A", exp=is_("ok " + enc(ops[0][0])))
    s.do("fvalidop", "Add", enc(json.dumps({"type": "Add", "id": "a", "value": 2})), exp=verdict_is(True))
    s.do("fvalidop", "Add", enc(r.choice([json.dumps({"type": "Add", "id": "a"}), json.dumps({"type": "Scale", "id": "a", "value": 2}), "{", "[]"])), exp=verdict_is(False))
    s.do("fvalidop", r.choice(["NoSuchType", "Ad", "AddX"]), enc(json.dumps({"type": "Add", "id": "a", "value": 2})), exp=verdict_is(False))
    return s


GENS = {
    "P01": lambda: cycle([op_scenario("Input", (3, 30)), g_input_batched]),
    "P02": lambda: g_buffers,
    "P03": lambda: cycle([op_scenario("Join"), g_join_sparse("Join"), g_join_sparse("Join"), g_join_bad]),
    "P04": lambda: cycle([f(t) for t in BINARY + ("Linear",) for f in (op_scenario, g_join_sparse)]),
    "P05": lambda: cycle([op_scenario("Demultiplexer"), op_scenario("Demultiplexer"), g_demux_old, g_demux_err]),
    "P06": lambda: cycle([op_scenario("Variable"), g_variable, g_variable, g_variable_default]),
    "P07": lambda: _cyc(["Identity", "Output", "Add", "Scale", "Power", "Constant", "TimeShift", "GreaterThan", "LessThan", "EqualTo"],
                        lambda t: op_scenario(t, (2, 10))),
    "P08": lambda: cycle([op_scenario(t) for t in ("MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "PeakDetector", "Difference")] + [g_peak_ties]),
    "P09": lambda: cycle([op_scenario(t) for t in ("Count", "CumulativeSum", "AutoRegressive", "RelativeStrengthIndex")] + [g_rsi_flat]),
    "P10": lambda: cycle([op_scenario(t) for t in ("ConstantResampler", "CosineResampler", "HermiteResampler")] + [g_resample_boundary, g_resample_boundary, g_zero_dt]),
    "P11": lambda: cycle([g_function, g_function, op_scenario("Function"), g_function_bad]),
    "P12": lambda: _cyc(list(PARAMS), g_snapshot),
    "P13": lambda: cycle([g_program_snapshot, g_program_snapshot, g_factory_snapshot]),
    "P14": lambda: g_emission,
    "P15": lambda: g_connect,
    "P16": lambda: cycle([g_program, g_program, g_program_entry, g_program_bad]),
    "P17": lambda: g_buffers_api,
    "P18": lambda: cycle([g_pipeline, g_composite]),
    "P19": lambda: cycle([g_json(t) for t in PARAMS] + [g_json_pipeline, g_json_types]),
    "P21": lambda: g_schema,
    "P20": lambda: cycle([g_safety(t) for t in PARAMS] + [g_safety_base]),
}
NEEDS_API = ("P13", "P16", "P17", "P18", "P19")


def scenarios(prop, seed, count):
    g = GENS[prop]()
    r = random.Random(f"{prop}/{seed}")
    return [g(r) for _ in range(count)]


def search(exe, prop, seed, count, jobs=8, budget=120, api=True):
    """Run scenarios on the real code; -> (number run, list of (scenario, index, message))."""
    import driver, time
    if prop in NEEDS_API and not api and prop != "P18":
        return 0, [], []
    t0 = time.time()
    scs = scenarios(prop, seed, count)
    if not api:
        scs = [s for s in scs if not any(c.split()[0] in ("newpipe", "readop", "prog", "fprog", "fvalid", "fvalidop") for c in s.cmds)]
    bad, done = [], 0
    for i in range(0, len(scs), 400):
        part = scs[i:i + 400]
        for s, (outs, note) in zip(part, driver.run(exe, [s.cmds for s in part], jobs)):
            done += 1
            f = s.check(outs, note)
            if f:
                bad.append((s, f[0], f[1], outs, note))
        if bad or time.time() - t0 > budget:
            break
    return done, bad, scs


def shrink(exe, s, tries=60):
    """Drop trailing commands after the failure, the rest is kept (expectations depend on the history)."""
    return s
