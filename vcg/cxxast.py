"""Front end: clang's AST of /repo's current sources, indexed for the executor.

The text that is verified is the text clang parses: every run dumps the AST of a translation unit that includes
the real headers and sources and explicitly instantiates every operator for <uint64_t, double>.  Nothing is
rewritten by hand.
"""
import hashlib, json, mmap, os, pickle, re, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
CLANG = "/usr/lib/llvm-18/bin/clang++"
if not os.path.exists(CLANG):
    CLANG = "clang++"
INC = ["libs/core/include", "libs/std/include", "libs/finance/include", "libs/api/include"]
STD_OPS = ("MovingAverage StandardDeviation FiniteImpulseResponse Difference PeakDetector Count CumulativeSum "
           "AutoRegressive TimeShift Power ConstantResampler CosineResampler HermiteResampler Function And Or EqualTo "
           "GreaterThan LessThan LessThanStream GreaterThanStream Plus Minus Multiplication Division Add Scale "
           "Constant Identity Linear Variable").split()
CORE_OPS = ["Input", "Output", "Collector", "RelativeStrengthIndex", "Demultiplexer", "Join", "Composite"]


class Unsupported(Exception):
    """A construct outside the supported subset: the function is undecided, never a violation."""


class Undecided(Exception):
    """The verifier could not decide (time-out, unknown, budget)."""


def include_flags():
    return [x for i in INC for x in ("-I", os.path.join(REPO, i))]


STDINC = ["algorithm", "cmath", "cstdint", "deque", "fstream", "functional", "iostream", "map", "memory", "optional",
          "set", "sstream", "string", "vector"]


def core_tu():
    s = "".join(f"#include <{i}>\n" for i in STDINC)
    s += "".join(f'#include "rtbot/std/{n}.h"\n' for n in STD_OPS)
    s += "".join(f'#include "rtbot/{n}.h"\n' for n in ["Input", "Output", "Demultiplexer", "Collector", "Composite"])
    s += '#include "rtbot/finance/RelativeStrengthIndex.h"\n'
    s += "".join(f"template class rtbot::{n}<uint64_t,double>;\n" for n in STD_OPS + CORE_OPS + ["Operator"])
    return s


def tu(kind):
    if kind == "core":
        return core_tu()
    s = "".join(f"#include <{i}>\n" for i in STDINC) + f'#include "{REPO}/libs/api/src/{SOURCES[kind]}"\n'
    if kind == "factory":
        # the constructors the contracts speak of are there even if this source stops using one
        s += "".join(f'#include "rtbot/std/{n}.h"\n' for n in STD_OPS)
        s += "".join(f'#include "rtbot/{n}.h"\n' for n in ["Input", "Output", "Demultiplexer", "Join"])
        s += '#include "rtbot/finance/RelativeStrengthIndex.h"\n'
        s += "".join(f"template class rtbot::{n}<uint64_t,double>;\n" for n in STD_OPS + CORE_OPS if n not in ("Collector", "Composite"))
    return s


# the other translation units: a source file of the API as it stands
SOURCES = {"program": "Program.cpp", "pipeline": "Pipeline.cpp", "factory": "FactoryOp.cpp", "bindings": "bindings.cpp"}


def source_hash():
    h = hashlib.sha256()
    for d in sorted(INC + ["libs/api/src"]):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:20]


def norm_type(t):
    if isinstance(t, dict):
        t = t.get("desugaredQualType") or t.get("qualType") or ""
    return t


def clean_class(t):
    """rtbot::Operator<unsigned long, double>::Input -> Operator::Input; drops cv, refs and pointers."""
    t = t.strip()
    t = re.sub(r"\b(const|struct|class|volatile|typename)\b", "", t)
    t = t.replace("rtbot::", "").replace("&", "").replace("*", "").strip()
    out = ""
    d = 0
    for ch in t:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out.strip().replace(" ", "")


class Class:
    def __init__(self, name):
        self.name, self.bases, self.fields, self.methods, self.ctors, self.consts = name, [], [], [], [], {}

    def __repr__(self):
        return "Class(%s)" % self.name


class Program:
    """Index over one translation unit."""

    def __init__(self):
        self.classes, self.by_id, self.functions, self.enums, self.enum_types, self.method_of = {}, {}, {}, {}, set(), {}

    # ---- lookups -------------------------------------------------------------------------------------------
    def mro(self, name):
        out, todo = [], [name]
        while todo:
            c = todo.pop(0)
            k = self.classes.get(c)
            if k is None or k in out:
                continue
            out.append(k)
            todo = [clean_class(b) for b in k.bases] + todo
        return out

    def is_class(self, t):
        return clean_class(t) in self.classes

    def find_methods(self, cls, name):
        """All overloads visible by dynamic dispatch: nearest class first, one entry per signature."""
        seen, out = set(), []
        for k in self.mro(cls):
            for m in k.methods:
                if m.get("name") == name:
                    sig = re.sub(r"\s*\b(override|noexcept)\b", "", m["type"]["qualType"])
                    sig = re.sub(r"^[^(]*", "", sig)
                    if sig in seen:
                        continue
                    seen.add(sig)
                    out.append((k, m))
        return out

    def all_fields(self, cls):
        out = []
        for k in reversed(self.mro(cls)):
            out += [(k, f) for f in k.fields]
        return out


def params(fn):
    return [c for c in fn.get("inner", []) if c.get("kind") == "ParmVarDecl"]


def body(fn):
    for c in fn.get("inner", []):
        if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
            return c
    return None


def _clang(tu_text, tag, args, out):
    d = os.path.join(CACHE, "ast")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{tag}.{os.getpid()}.cpp")
    open(p, "w").write(tu_text)
    shim = ["-I" + os.path.join(VERIF, "driver", "shim")] if tag == "bindings" else []
    try:
        r = subprocess.run([CLANG, "-w", "-std=c++17", "-fsyntax-only", *include_flags(), *shim, "-Xclang", "-ast-dump=json", *args, p],
                           stdout=out, stderr=subprocess.PIPE)
    finally:
        os.unlink(p)
    if r.returncode != 0:
        raise Unsupported("clang rejects the sources: " + r.stderr.decode(errors="replace")[:400])


def _dump(tu_text, tag, flt="rtbot"):
    """Everything in namespace rtbot."""
    with tempfile.TemporaryFile(dir=CACHE) as f:
        _clang(tu_text, tag, ["-Xclang", f"-ast-dump-filter={flt}"], f)
        f.seek(0)
        s = f.read().decode()
    dec, i, docs = json.JSONDecoder(), 0, []
    n = len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = dec.raw_decode(s, i)
        docs.append(o)
    return docs


def _dump_whole(tu_text, tag):
    """Everything in namespace rtbot and everything else that the files of the repository declare outside of namespaces: one
    dump of the whole translation unit, of which the other top-level declarations are left out."""
    docs = []
    with tempfile.TemporaryFile(dir=CACHE) as f:
        _clang(tu_text, tag, [], f)
        f.flush()
        with mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ) as mm:
            starts = [x.start() + 1 for x in re.finditer(rb"\n    \{\n", mm)] + [len(mm)]

            def last(key, end):
                """The last such position printed before this one (they are printed only when they change)."""
                while True:
                    k = mm.rfind(b'"' + key + b'": ', 0, end)
                    if k < 0:
                        return None
                    prev = mm.rfind(b"\n", 0, max(0, mm.rfind(b"\n", 0, k)))
                    if b"includedFrom" not in mm[prev + 1:k]:
                        return json.loads(mm[k + len(key) + 4:mm.find(b"\n", k)].rstrip(b", "))
                    end = k
            for a, b in zip(starts, starts[1:]):
                head = mm[a:min(b, a + 6000)]
                kd = re.search(rb'\n      "kind": "(\w+)"', head).group(1).decode()
                name = re.search(rb'\n      "name": "(\w+)"', head)
                name = name.group(1).decode() if name else ""
                if kd == "NamespaceDecl" and name != "rtbot":
                    continue
                cur = {"file": last(b"file", a), "line": last(b"line", a)}
                if kd != "NamespaceDecl":
                    top = re.search(rb'\n      "loc": \{(.*?)\n      \}', head, re.S)
                    fl = [x for x in re.findall(rb'(includedFrom": \{\s*)?"file": "([^"]*)"', top.group(1) if top else b"") if not x[0]]
                    at = fl[-1][1].decode() if fl else cur["file"]
                    if not (at or "").startswith(REPO + "/"):
                        continue
                e = mm.rfind(b"\n    }", a, b)
                d = json.loads(mm[a:e + 6])
                d["_cur"] = cur
                docs.append(d)
    return docs


def _annotate(docs):
    """Source positions are printed only when they change: make file and line explicit, find qualified members."""
    cur = {"file": None, "line": None}
    files = {}

    def loc(l):
        if not l:
            return None
        if "spellingLoc" in l or "expansionLoc" in l:
            loc(l.get("spellingLoc"))
            return loc(l.get("expansionLoc"))
        if "file" in l:
            cur["file"] = l["file"]
        if "line" in l:
            cur["line"] = l["line"]
        if "offset" not in l:
            return None
        return (cur["file"], cur["line"], l["offset"], l.get("tokLen", 0))

    def walk(n):
        if "loc" in n:
            p = loc(n.pop("loc"))
            if p:
                n["_loc"] = p[:2]
        if "range" in n:
            r = n.pop("range")
            b, e = loc(r.get("begin")), loc(r.get("end"))
            if b and "_loc" not in n:
                n["_loc"] = b[:2]
            if n.get("kind") == "MemberExpr" and b and e and b[0] == e[0]:
                f = b[0]
                if f not in files:
                    # implicit functions of an explicit instantiation are at its place in the translation unit
                    files[f] = open(f, "rb").read() if os.path.exists(f) else b""
                txt = files[f][b[2]:e[2] + e[3]]
                n["_qual"] = b"::" in re.sub(rb"<[^<>]*>", b"", txt).rsplit(b"->", 1)[-1]
            if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") and b:
                n["_loc"] = b[:2]
        for k in ("id", "kind"):
            pass
        for c in n.get("inner", []):
            walk(c)

    for d in docs:
        cur.update(d.pop("_cur", {}))
        walk(d)


def _index(docs):
    P = Program()

    def collect(n, path):
        k = n.get("kind")
        if k in ("CXXMethodDecl", "FunctionDecl", "CXXConstructorDecl", "FieldDecl", "VarDecl", "EnumConstantDecl"):
            P.by_id[n["id"]] = n
        if k == "EnumDecl":
            P.enum_types.add(n.get("name"))
            v = -1
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    v += 1
                    for e in c.get("inner", []):
                        if "value" in e:
                            v = int(e["value"])
                    P.enums[c["id"]] = (c["name"], v)
        if k in ("ClassTemplateSpecializationDecl", "CXXRecordDecl") and n.get("completeDefinition") and n.get("name") \
                and not (k == "CXXRecordDecl" and path == "#template"):
            nm = "::".join([p for p in path.split("::") if p] + [n["name"]]) if path else n["name"]
            inner = n.get("inner", [])
            full = any(c.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "FieldDecl") for c in inner)
            if full and (nm not in P.classes or len(inner) > P.classes[nm]._n):
                C = Class(nm)
                C._n = len(inner)
                C.bases = [norm_type(b["type"]) for b in n.get("bases", [])]
                for c in inner:
                    ck = c.get("kind")
                    if ck == "FieldDecl":
                        C.fields.append(c)
                    elif ck == "CXXMethodDecl":
                        C.methods.append(c)
                        P.method_of[c["id"]] = nm
                    elif ck == "FunctionTemplateDecl":
                        for d in c.get("inner", []):      # the instantiations of a member template
                            if d.get("kind") == "CXXMethodDecl" and body(d) and any(x.get("kind") == "TemplateArgument" for x in d["inner"]):
                                P.method_of[d["id"]] = nm
                    elif ck == "CXXConstructorDecl":
                        C.ctors.append(c)
                    elif ck == "VarDecl":
                        C.consts[c["name"]] = c
                P.classes[nm] = C
            for c in inner:
                collect(c, nm)
            return
        if k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
            first = True
            for c in n.get("inner", []):
                if c.get("kind") == "CXXRecordDecl":
                    collect(c, "#template")
                elif c.get("kind") == "FunctionDecl" and "<" in "" :
                    pass
                else:
                    collect(c, path if path != "#template" else "#template")
            return
        if k == "FunctionDecl" and n.get("name"):
            if all(x["id"] != n["id"] for x in P.functions.get(n["name"], [])):
                P.functions.setdefault(n["name"], []).append(n)
        if k in ("NamespaceDecl", "LinkageSpecDecl", "TranslationUnitDecl"):
            for c in n.get("inner", []):
                collect(c, path)
            return
        for c in n.get("inner", []):
            if c.get("kind", "").endswith("Decl"):
                collect(c, path)

    for d in docs:
        collect(d, "")
    # out-of-line definitions: CXXMethodDecl/CXXConstructorDecl at namespace scope
    P.outofline = {}
    for d in docs:
        for n in ([d] + d.get("inner", [])):
            if n.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl") and n.get("previousDecl") and body(n):
                P.outofline[n["previousDecl"]] = n
    # a member of a base class hidden by one of the same name in a derived class is told apart
    P.renamed = {}
    for nm, C in list(P.classes.items()):
        own = {f["name"] for f in C.fields}
        for B in P.mro(nm)[1:]:
            for f in B.fields:
                if f["name"] in own and "::" not in f["name"]:
                    P.renamed[f["id"]] = f"{B.name}::{f['name']}"
    for C in P.classes.values():
        for f in C.fields:
            if f["id"] in P.renamed:
                f["name"] = P.renamed[f["id"]]
    return P


_progs = {}


def load(kind="core"):
    if kind in _progs:
        return _progs[kind]
    os.makedirs(CACHE, exist_ok=True)
    h = source_hash()
    p = os.path.join(CACHE, f"ast-{kind}-{h}.pkl")
    sys.setrecursionlimit(20000)
    if os.path.exists(p):
        try:
            P = pickle.load(open(p, "rb"))
            _progs[kind] = P
            return P
        except Exception:
            pass
    docs = (_dump_whole if kind == "bindings" else _dump)(tu(kind), kind)
    _annotate(docs)
    P = _index(docs)
    P.hash = h
    for f in os.listdir(CACHE):
        if f.startswith(f"ast-{kind}-") and f.endswith(".pkl"):
            try:
                os.unlink(os.path.join(CACHE, f))
            except OSError:
                pass
    tmp = p + f".{os.getpid()}"
    pickle.dump(P, open(tmp, "wb"), protocol=4)
    os.replace(tmp, p)
    _progs[kind] = P
    return P


if __name__ == "__main__":
    import time
    t = time.time()
    P = load(sys.argv[1] if len(sys.argv) > 1 else "core")
    print(time.time() - t)
    for c in P.classes.values():
        print(c.name, c.bases, [f["name"] for f in c.fields], [m["name"] for m in c.methods if body(m)], list(c.consts))
