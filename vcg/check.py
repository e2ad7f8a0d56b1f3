"""Decides one property:  check.py P07 [--tier quick|thorough] [--seed N]      check.py --replay FILE

Every run parses /repo's current sources, generates the verification conditions of the contracts registered for the property
and discharges them with Z3; the driver (the real code, compiled) replays what fails and validates the contracts."""
import argparse, json, multiprocessing as mp, os, re, sys, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

TIERS = {
    #            proof budget, per task, per query ms, scenarios, search budget, scenarios and budget when something failed
    "quick": dict(proof=450, task=300, again=100, ms=8000, n=3000, search=60, n2=40000, search2=150),
    "thorough": dict(proof=560, task=520, again=200, ms=20000, n=60000, search=420, n2=60000, search2=200),
}
JOBS = 8


# ---- tasks in worker processes -------------------------------------------------------------------------------------------
def worker(conn, name, fn, lim, variant=0):
    import cxxast, sym
    if variant:
        import z3
        z3.set_param("smt.random_seed", 17 * variant)
    r = dict(name=name, status="ok", why="", obl={}, failed=[], functions=[], assumptions=[], trusted=[], unranked=[],
             queries=0, solver_s=0.0)
    t0 = time.time()
    sh = sym.Shared(name, timeout_ms=lim["ms"], budget_s=lim["task"])
    sh.only_safety = lim.get("only_safety", False)
    try:
        P = cxxast.load(getattr(fn, "kind", "core"))
        fn(sh, P)
    except (cxxast.Unsupported, cxxast.Undecided) as e:
        r["status"], r["why"] = type(e).__name__, str(e)[:500]
    except (AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError, RecursionError, RuntimeError, z3_error()) as e:
        # the engine does not know this shape of code: undecided, never an alarm
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r["status"], r["why"] = "Unsupported", f"{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})"[:500]
    r["obl"] = {k: {x: v[x] for x in ("cat", "n", "discharged", "failed", "undecided")} for k, v in sh.obl.items()}
    for f in sh.failed:
        m = f.get("model")
        r["failed"].append(dict(name=f["name"], cat=f["cat"], status=f["status"], note=str(f.get("note", ""))[:500],
                                cond=f["cond"][:2000], pc=f.get("pc", []), model=str(m)[:4000] if m is not None else None))
    r["functions"], r["assumptions"] = sorted(sh.functions), sorted(sh.assumptions)
    r["trusted"], r["unranked"] = sorted(sh.trusted), sorted(map(str, sh.unranked))
    r["queries"], r["solver_s"], r["unknown"] = sym.STATS["queries"], sym.STATS["time"], sym.STATS["unknown"]
    r["wall_s"] = time.time() - t0
    conn.send(r)
    conn.close()


def z3_error():
    import z3
    return z3.Z3Exception


def run_tasks(tasks, lim):
    ctx = mp.get_context("fork")
    todo, live, out, again = list(tasks), {}, [], set()
    end = time.time() + lim["proof"]
    while todo or live:
        while todo and len(live) < JOBS and time.time() < end:
            name, fn = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, name, fn, lim))
            p.start()
            b.close()
            live[name, 0] = (p, a, time.time())
        if not todo and len(live) < JOBS and time.time() < end:
            # a solver call can hang past its time limit: a second attempt with another seed, the first answer counts
            slow = [n for (n, k), (_, _, t) in live.items() if k == 0 and time.time() > t + lim["again"] and (n, 1) not in live]
            for name in slow[:JOBS - len(live)]:
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=worker, args=(b, name, dict(tasks)[name], lim, 1))
                p.start()
                b.close()
                live[name, 1] = (p, a, time.time())
        if time.time() >= end:
            for name, fn in todo:
                out.append(lost(name, "not started: proof budget used up"))
            todo = []
        for key in list(live):
            if key not in live:
                continue
            name, p, a, t = key[0], *live[key]
            got = None
            if a.poll(0.01):
                try:
                    got = a.recv()
                except (EOFError, OSError):
                    got = lost(name, "the worker ended without an answer")
            elif not p.is_alive():
                try:
                    got = a.recv() if a.poll(0.2) else lost(name, "the worker ended without an answer")
                except (EOFError, OSError):
                    got = lost(name, "the worker ended without an answer")
            elif time.time() > min(end, t + lim["task"] + 20):
                p.kill()
                got = lost(name, "time limit of the task")
            if got is not None and got["why"].startswith("the worker ended") and name not in again:
                again.add(name)
                if (name, 1 - key[1]) not in live:
                    todo.insert(0, (name, dict(tasks)[name]))
                a.close()
                del live[key]
                continue
            if got is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                del live[key]
                other = live.get((name, 1 - key[1]))
                if other and got["status"] == "ok":
                    other[0].kill()
                    other[0].join(5)
                    other[1].close()
                    del live[name, 1 - key[1]]
                elif other:
                    continue
                out.append(got)
        time.sleep(0.02)
    order = {n: i for i, (n, _) in enumerate(tasks)}
    out.sort(key=lambda r: order[r["name"]])
    return out


def lost(name, why):
    return dict(name=name, status="Undecided", why=why, obl={}, failed=[], functions=[], assumptions=[], trusted=[],
                unranked=[], queries=0, solver_s=0.0, unknown=0, wall_s=0.0)


# ---- the driver ------------------------------------------------------------------------------------------------------------
class Driver(threading.Thread):
    """Builds the driver and runs the scenarios of the property beside the proof."""

    def __init__(self, prop, seed, lim):
        super().__init__(daemon=True)
        self.prop, self.seed, self.lim = prop, seed, lim
        self.exe, self.api, self.err = None, False, None
        self.done, self.bad, self.scs = 0, [], []

    def run(self):
        import driver, oracle
        try:
            self.exe, self.api = driver.build()
        except Exception as e:
            self.err = f"{type(e).__name__}: {e}"
            return
        try:
            oracle.harvest(driver.REPO)
            self.done, self.bad, self.scs = oracle.search(self.exe, self.prop, self.seed, self.lim["n"], JOBS, self.lim["search"], self.api)
        except Exception as e:
            self.err = f"{type(e).__name__}: {e} {traceback.format_exc()[-800:]}"

    def more(self, numbers):
        """A deeper search after a failed obligation, with the numbers of the verifier's models among the values."""
        import oracle
        if not self.exe or self.err:
            return []
        oracle.add_numbers(numbers)
        try:
            d, bad, scs = oracle.search(self.exe, self.prop, self.seed + 7919, self.lim["n2"], JOBS, self.lim["search2"], self.api)
        except Exception as e:
            self.err = f"{type(e).__name__}: {e}"
            return []
        self.done += d
        self.scs += scs[:d]
        return bad


def confirmed(exe, b):
    """A failing scenario has to fail again when it is run alone."""
    import driver
    s = b[0]
    outs, note = driver.run(exe, [s.cmds], 1, 60)[0]
    return s.check(outs, note), outs, note


# ---- known findings ---------------------------------------------------------------------------------------------------------
def known(prop):
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) tag=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# ---- main --------------------------------------------------------------------------------------------------------------------
def write_replay(prop, tag, lines):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{tag}.txt")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    return os.path.relpath(p, ROOT)


def obligation_lines(fails):
    L = []
    for task, f in fails:
        L += [f"obligation: {task}: {f['name']} [{f['cat']}] {f['status']} {f['note']}",
              f"  to prove: {f['cond']}"]
        for c in f["pc"] or []:
            L.append(f"  under: {c}")
        if f["model"]:
            L.append(f"  counterexample of the verifier: {f['model']}")
    return L


def numbers_of(fails):
    r = set()
    for _, f in fails:
        for src in (f["model"] or "", f["cond"]):
            for x in re.findall(r"-?\d+(?:/\d+)?", src):
                try:
                    a, _, b = x.partition("/")
                    r.add(int(a) / int(b) if b else int(a))
                except (ValueError, ZeroDivisionError, OverflowError):
                    pass
            if len(r) > 200:
                break
    return sorted(r, key=lambda x: (abs(x), x))[:200]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-driver", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    if a.replay:
        return replay(a.replay)
    tier = a.tier if a.tier in TIERS else "quick"
    lim = dict(TIERS[tier], only_safety=a.prop == "P20")
    t0 = time.time()
    import cxxast, registry
    prop = a.prop
    drv = Driver(prop, a.seed, lim)
    if not a.no_driver:
        drv.start()
    front = None
    results = []
    if not a.no_proof:
        try:
            for k in sorted({getattr(fn, "kind", "core") for _, fn in registry.tasks(prop)}):
                cxxast.load(k)
        except Exception as e:
            front = f"{type(e).__name__}: {e}"[:1500]
        if front is None:
            results = run_tasks(registry.tasks(prop), lim)
    if not a.no_driver:
        drv.join(700)
        if drv.is_alive():
            drv.err = drv.err or "the scenario search did not end in time"
    fails = [(r["name"], f) for r in results for f in r["failed"] if f["status"] == "failed" and registry.decisive(prop, r["name"], f)]
    soft = [(r["name"], f) for r in results for f in r["failed"] if not (f["status"] == "failed" and registry.decisive(prop, r["name"], f))]
    open_ = [r for r in results if r["status"] != "ok" or not sum(o["n"] for o in r["obl"].values())]
    bad = list(drv.bad) if not drv.is_alive() else []
    if not bad and (fails or soft or open_ or front) and not a.no_driver and not drv.is_alive():
        bad = drv.more(numbers_of(fails))
    kf = known(prop)
    shown, real = set(), []
    for b in bad:
        f, outs, note = confirmed(drv.exe, b)
        if not f:
            continue
        hit = [k for k in kf if b[0].tag == k[0]]
        if hit:
            shown.add(hit[0])
            continue
        real.append((b[0], f[0], f[1], outs, note))
        if len(real) >= 3:
            break
    status = 0
    lines = []
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k[1]}")
    if real:
        s, i, msg, outs, note = real[0]
        L = [f"property {prop}: the real code fails this scenario (check.py --replay runs it again)", f"scenario {s.tag}",
             f"failing command {i}: {s.cmds[i] if i < len(s.cmds) else 'end of the scenario'}", f"what: {msg}", "---"]
        L += s.cmds
        L += ["---", "outputs of the real code:"] + [f"{j}: {o}" for j, o in enumerate(outs)]
        L += ["--- obligations that fail on this source:"] + obligation_lines(fails)
        p = write_replay(prop, "scenario", L)
        print(f"{s.tag}: command {i} {s.cmds[i] if i < len(s.cmds) else ''}: {msg[:1500]}")
        for t, f in fails[:5]:
            print(f"failed obligation: {t}: {f['name']} [{f['cat']}]")
        print(f"VIOLATION property={prop} replay={p}")
        status = 1
    elif fails:
        L = [f"property {prop}: the verifier does not accept these obligations on the current source; no failing scenario was found "
             f"among {drv.done}"] + obligation_lines(fails)
        p = write_replay(prop, "obligations", L)
        for t, f in fails[:5]:
            print(f"failed obligation: {t}: {f['name']} [{f['cat']}] {f['note']}")
        print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
        status = 1
    total = sum(o["n"] for r in results for o in r["obl"].values())
    disch = sum(o["discharged"] for r in results for o in r["obl"].values())
    bounded = [f"{r['name']}: {r['status']}: {r['why'] or 'no obligation was generated'}" for r in open_] + \
              [f"{t}: obligation {f['name']} [{f['cat']}] {f['status']}" for t, f in soft]
    if front:
        bounded.append(f"the front end does not accept the source: {front[:300]}")
    bounded += [f"{n}: {w}" for n, w in registry.BOUNDED.get(prop, [])]
    if not results and not drv.done:
        print(f"nothing could be decided for {prop}: {front} {drv.err}")
        return 2
    proved = total > 0 and disch > 0
    tags = {}
    nontrivial = set()
    for s in drv.scs[:drv.done]:
        tags[s.tag] = tags.get(s.tag, 0) + 1
        if sum(1 for e in s.exp if e is not None) >= 2:
            nontrivial.add(hash(tuple(s.cmds)))
    cov = dict(
        obligations=total, discharged=disch,
        checker_cmd=f"python3-vt vcg/check.py {prop} --tier {tier} --seed {a.seed}",
        trusted_base=registry.TRUSTED + sorted({x for r in results for x in r["trusted"]}),
        back_end="Z3 " + z3_version() + " (and exact rational-function normalisation for polynomial identities)",
        solver_queries=sum(r["queries"] for r in results), solver_time_s=round(sum(r["solver_s"] for r in results), 2),
        functions_under_contract=sorted({f for r in results for f in r["functions"]}),
        tasks=[dict(task=r["name"], status=r["status"] if r["status"] != "ok" or r not in open_ else "empty",
                    obligations=sum(o["n"] for o in r["obl"].values()), discharged=sum(o["discharged"] for o in r["obl"].values()),
                    wall_s=round(r["wall_s"], 2)) for r in results],
        termination_not_ranked=sorted({u for r in results for u in r["unranked"]}),
        bounded_stand_ins=bounded,
        evaluations=drv.done, distinct_nontrivial=len(nontrivial),
        rule="scenarios drawn at random from the generators of the property (vcg/oracle.py) and run on the compiled real code; "
             "non-trivial: distinct and at least two outputs compared with the expected ones",
        scenario_kinds=tags, samples=[drv.scs[0].cmds[:30]] if drv.scs else [],
        driver=drv.err or ("with the api" if drv.api else "operators only"))
    ev = dict(property=prop, tier=tier, seed=a.seed, level=registry.LEVEL.get(prop, "proof") if proved else "exploration",
              coverage=cov, assumptions=registry.ASSUMPTIONS + sorted({x for r in results for x in r["assumptions"]}),
              wall_s=round(time.time() - t0, 2), violations=1 if status else 0)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", f"{prop}.json"))
    print(f"{prop}: {disch}/{total} obligations in {len(results)} tasks, {len(bounded)} bounded, {drv.done} scenarios"
          f"{' (' + drv.err[:200] + ')' if drv.err else ''}, {time.time() - t0:.0f} s")
    if a.v:
        for b in bounded:
            print("   bounded:", b)
        for r in results:
            print(f"   {r['name']:40} {r['status']} {sum(o['n'] for o in r['obl'].values())} {r['wall_s']:.1f}s {r['why']}")
    sys.stdout.flush()
    return status


def z3_version():
    import z3
    return z3.get_version_string()


def setup():
    import cxxast, driver
    for k in ["core", *cxxast.SOURCES]:
        try:
            cxxast.load(k)
        except Exception as e:
            print(f"{k}: {e}")
    try:
        print(driver.build())
    except driver.BuildError as e:
        print(e)
    return 0


def replay(p):
    import driver
    txt = open(p).read().split("\n---\n")
    if len(txt) < 2:
        print(open(p).read())
        return 0
    exe, _ = driver.build()
    outs, note = driver.run(exe, [txt[1].split("\n")], 1, 60)[0]
    print(txt[0])
    for c, o in zip(txt[1].split("\n"), outs):
        print(f"{c}\n    -> {o}")
    if note:
        print(note)
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
