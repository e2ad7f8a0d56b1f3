"""Builds the scenario driver from /repo's current sources and runs scenarios on it (the replay side of the checks)."""
import hashlib, os, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(ROOT, ".cache", "driver")
CXX = "g++"
FLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
LIBS = ("core", "std", "finance", "api")


def includes(repo):
    r = ["-I" + os.path.join(ROOT, "driver", "shim")]
    for l in LIBS:
        r += ["-I" + os.path.join(repo, "libs", l, "include")]
    for l in ("core", "api"):
        r += ["-I" + os.path.join(repo, "libs", l, "include", "rtbot")]
    return r


def key(repo):
    h = hashlib.sha256()
    fs = [os.path.join(ROOT, "driver", "driver.cpp")]
    for d in [os.path.join(ROOT, "driver", "shim")] + [os.path.join(repo, "libs", l, s) for l in LIBS for s in ("include", "src")]:
        for base, _, files in sorted(os.walk(d)):
            fs += [os.path.join(base, f) for f in sorted(files) if f.endswith((".h", ".hpp", ".cpp"))]
    for f in fs:
        h.update(f.replace(repo, "").encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(fp.read())
    h.update(" ".join(FLAGS).encode())
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def build(repo=None):
    """-> (path of the driver, has the api).  The api part needs FactoryOp & co. to compile; without it the operators alone
    are driven."""
    repo = repo or REPO
    k = key(repo)
    d = os.path.join(CACHE, k)
    for name, api in (("driver", True), ("driver-core", False)):
        if os.path.exists(os.path.join(d, name)):
            return os.path.join(d, name), api
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=CACHE, prefix="b")
    src = [os.path.join(ROOT, "driver", "driver.cpp")]
    apisrc = [os.path.join(repo, "libs", "api", "src", f) for f in sorted(os.listdir(os.path.join(repo, "libs", "api", "src")))
              if f.endswith(".cpp")] if os.path.isdir(os.path.join(repo, "libs", "api", "src")) else []

    def cc(s, extra, tag):
        o = os.path.join(tmp, tag + os.path.basename(s) + ".o")
        p = subprocess.run([CXX] + FLAGS + extra + includes(repo) + ["-c", s, "-o", o], capture_output=True, text=True, timeout=600)
        return o, p

    err = ""
    for name, api in (("driver", True), ("driver-core", False)):
        srcs = src + (apisrc if api else [])
        with ThreadPoolExecutor(8) as ex:
            r = list(ex.map(lambda s: cc(s, ["-DWITH_API"] if api else [], name), srcs))
        bad = [p for _, p in r if p.returncode]
        if not bad:
            out = os.path.join(tmp, name)
            p = subprocess.run([CXX, "-fsanitize=address"] + [o for o, _ in r] + ["-o", out], capture_output=True, text=True)
            if p.returncode == 0:
                for o, _ in r:
                    os.unlink(o)
                os.makedirs(d, exist_ok=True)
                os.replace(out, os.path.join(d, name))
                subprocess.run(["/bin/rm", "-rf", tmp])
                return os.path.join(d, name), api
            bad = [p]
        err = bad[0].stderr[-3000:]
    subprocess.run(["/bin/rm", "-rf", tmp])
    raise BuildError(err)


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=4000",
           LC_ALL="C")


def run_batch(exe, scs, timeout):
    """Run scenarios (lists of command lines); -> list of (outputs, note); note is None or what ended the process there."""
    res = [None] * len(scs)
    i = 0
    while i < len(scs):
        text = "".join(f"S {j}\n" + "".join(c + "\n" for c in scs[j]) for j in range(i, len(scs)))
        try:
            p = subprocess.run([exe], input=text, capture_output=True, text=True, timeout=timeout, env=ENV, errors="replace")
            out, rc, err = p.stdout, p.returncode, p.stderr
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, (bytes, type(None))) else e.stdout
            rc, err = "timeout", f"no answer within {timeout} s"
        lines = out.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        cur = None
        for l in lines:
            if l.startswith("S ") and l[2:].isdigit():
                cur = int(l[2:])
                res[cur] = ([], None)
            elif cur is not None:
                res[cur][0].append(l)
        if rc == 0:
            break
        # everything up to the last scenario seen is complete, that one ended the process
        last = cur if cur is not None else i
        note = f"process ended with {rc}: " + " ".join(err.split("\n")[:4])[:600]
        if rc == "timeout" and len(scs) - i > 1:
            # find out whether it was this scenario: alone, it must end quickly
            alone = run_batch(exe, [scs[last]], min(timeout, 20))
            res[last] = alone[0]
        else:
            got = res[last][0] if res[last] else []
            res[last] = (got, note)
        i = last + 1
    return [r if r is not None else ([], "not run") for r in res]


def run(exe, scs, jobs=8, timeout=120):
    if not scs:
        return []
    n = max(1, min(jobs, (len(scs) + 9) // 10))
    parts = [list(range(i, len(scs), n)) for i in range(n)]
    res = [None] * len(scs)

    def go(idx):
        for j, r in zip(idx, run_batch(exe, [scs[j] for j in idx], timeout)):
            res[j] = r
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(go, parts))
    return res


def enc(s):
    r = "".join(c if 32 < ord(c) < 127 and c not in "%|=,;" else "".join("%%%02x" % b for b in c.encode()) for c in s)
    return r or "%"


def dec(s):
    if s in ("%", "-"):
        return ""
    b = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "%":
            b.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            b += s[i].encode()
            i += 1
    return b.decode(errors="replace")


def num(v):
    return repr(float(v))


def parse_msgs(s):
    if not s:
        return []
    return [(int(a), float(b)) for a, b in (x.split("@") for x in s.split(","))]


def parse_result(line):
    """'R id|port|t@v,.. ...' -> {id: {port: [(t, v)]}}; None when it is something else."""
    w = line.split()
    if not w or w[0] != "R":
        return None
    r = {}
    for x in w[1:]:
        f = x.split("|")
        d = r.setdefault(dec(f[0]), {})
        if len(f) == 3:
            d[dec(f[1])] = parse_msgs(f[2])
    return r
