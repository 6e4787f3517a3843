"""Runs one property check: generate, search, shrink, replay, report, evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, sys, time, traceback
from . import build, driver

ROOT = build.ROOT
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SHRINK_RUNS = 600
SHRINK_SECONDS = 40


class Violation(Exception):
    pass


class StopAll(BaseException):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _one(mod, case, env, notes):
    env.notes = notes
    if not env.session:
        env.asked = []
    try:
        mod.check(case, env)
        return None
    except Violation as e:
        return str(e) or "violated"
    except (driver.InfraError, OSError, MemoryError, build.BuildError):
        raise
    except Exception as e:  # output of the code under test that made no sense
        return "output could not be interpreted: %s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc()[-1500:])


def run_case(mod, case, env, notes=None):
    """None if the property held on this case, else the reason it did not."""
    notes = notes if notes is not None else {}
    if not is_chain(case):
        return _one(mod, case, env, notes)
    for attempt in range(3):
        parts, why = [], None
        env.begin()
        try:
            for i, c in enumerate(case["chain"]):
                parts.append({})
                why = _one(mod, c, env, parts[-1])
                if why is not None:
                    why = "case %d of %d in one process: %s" % (i + 1, len(case["chain"]), why)
                    break
        except driver.InfraError:
            if attempt == 2:
                raise
            for d in env.drv.values():
                d.close()
            continue
        finally:
            env.end()
        break
    for p in parts:
        for k, v in p.items():
            notes[k] = notes.get(k, 0) + v
    notes["several cases in one process"] = 1
    notes["\0parts"] = parts
    return why


def is_chain(case):
    return isinstance(case, dict) and set(case) == {"chain"}


def chainable(mod):
    return any(not d.startswith("calcj") for d in mod.DRIVERS) and getattr(mod, "CHAIN", True)


def chained(mod, base):
    """Mostly single cases; the rest are several that share a process, so that what one
    leaves behind in the library meets the next."""
    import hypothesis.strategies as st

    @st.composite
    def s(draw):
        if draw(st.integers(0, 3)) < 3:
            return draw(base)
        parts = [draw(base) for _ in range(draw(st.integers(2, 3)))]
        if draw(st.booleans()):
            parts.append(parts[0])
        return {"chain": parts}
    return s()


def nontrivial(mod, case, notes):
    parts = notes.pop("\0parts", None)
    if parts is None:
        return mod.nontrivial(case, notes)
    return any(mod.nontrivial(c, p) for c, p in zip(case["chain"], parts))


def shorten(mod, case, fails, minimise):
    """A chain without the cases it does not need; then the module's own steps."""
    i = 0
    while is_chain(case) and i < len(case["chain"]):
        rest = case["chain"][:i] + case["chain"][i + 1:]
        less = rest[0] if len(rest) == 1 else {"chain": rest}
        if fails(less):
            case, i = less, 0
        else:
            i += 1
    return case if is_chain(case) or minimise is None else minimise(case, fails)


def note(env, label):
    env.notes[label] = env.notes.get(label, 0) + 1


def _worker(modname, exes, tier, wid, nworkers, seed, n, fixed, stop, conn):
    mod = importlib.import_module(modname)
    env = driver.Env(exes)
    st = {"evaluations": 0, "hashes": set(), "labels": {}, "samples": [], "fail": None,
          "fail_reason": None, "error": None, "discarded": 0}
    shrink = {"since": None, "runs": 0}

    def evaluate(case):
        if stop.is_set() and st["fail"] is None:
            raise StopAll()
        c = canon(case)
        notes = {}
        why = run_case(mod, case, env, notes)
        nt = nontrivial(mod, case, notes)
        if st["fail"] is None:
            st["evaluations"] += 1
            for k in notes:
                st["labels"][k] = st["labels"].get(k, 0) + 1
            if nt:
                h = hashlib.sha1(c.encode()).digest()[:10]
                if h not in st["hashes"]:
                    st["hashes"].add(h)
                    k = len(st["hashes"])
                    if len(st["samples"]) < 2 or (k & (k - 1)) == 0:
                        st["samples"].append(case)
                        if len(st["samples"]) > 3:
                            st["samples"].pop(1)
        if why is not None:
            if st["fail"] is None or len(c) <= len(canon(st["fail"])):
                st["fail"], st["fail_reason"] = case, why
            if shrink["since"] is None:
                shrink["since"] = time.monotonic()
                stop.set()
        if shrink["since"] is not None:
            shrink["runs"] += 1
            if shrink["runs"] > SHRINK_RUNS or time.monotonic() - shrink["since"] > SHRINK_SECONDS:
                raise StopAll()
        return why

    try:
        try:
            for case in fixed[wid::nworkers]:
                if evaluate(case) is not None:
                    raise StopAll()
            if n > 0:
                import hypothesis as hy
                strat = mod.strategy(tier)
                if chainable(mod):
                    strat = chained(mod, strat)

                @hy.seed(seed * 1009 + wid)
                @hy.settings(max_examples=n, database=None, deadline=None,
                             suppress_health_check=list(hy.HealthCheck),
                             phases=(hy.Phase.generate, hy.Phase.shrink),
                             report_multiple_bugs=False, verbosity=hy.Verbosity.quiet)
                @hy.given(strat)
                def t(case):
                    why = evaluate(case)
                    if why is not None:
                        raise AssertionError("violation")

                try:
                    t()
                except AssertionError:
                    if st["fail"] is None:
                        raise
        except StopAll:
            pass
    except BaseException as e:
        if st["fail"] is None:
            st["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
            stop.set()
    finally:
        env.close()
    conn.send(st)
    conn.close()


def load_known(pid):
    """Open findings: lines 'open: property=<id> case=<sha1 of canonical case> text'."""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("open: property=%s " % pid):
                rest = l.strip().split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out[key] = text
    return out


def write_evidence(pid, ev):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    t = os.path.join(d, pid + ".json.tmp")
    with open(t, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.rename(t, os.path.join(d, pid + ".json"))


def main(pid, tier, seed, replay=None, scale=1.0):
    t0 = time.time()
    modname = "vf.checks." + pid.lower()
    mod = importlib.import_module(modname)
    try:
        exes = {d: build.driver(d) for d in mod.DRIVERS}
    except build.BuildError as e:
        print("ERROR property=%s build failed: %s" % (pid, e), file=sys.stderr)
        return 2
    t_build = time.time() - t0

    if replay:
        case = json.load(open(replay))["case"]
        env = driver.Env(exes)
        try:
            why = run_case(mod, case, env)
        finally:
            env.close()
        if why:
            print("replay fails:\n" + why)
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        print("replay passes")
        return 0

    os.environ["VERIF_SEED"] = str(seed)
    fixed = list(mod.fixed(tier)) if hasattr(mod, "fixed") else []
    n = int(mod.N[tier] * scale)
    nw = WORKERS
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    procs = []
    for w in range(nw):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(modname, exes, tier, w, nw, seed,
                                              (n + nw - 1) // nw if n else 0, fixed, stop, b))
        p.start()
        b.close()
        procs.append((p, a))
    sts = []
    for p, a in procs:
        try:
            sts.append(a.recv())
        except EOFError:
            sts.append({"evaluations": 0, "hashes": set(), "labels": {}, "samples": [],
                        "fail": None, "fail_reason": None, "error": "worker died"})
        p.join()
    fails = [(s["fail"], s["fail_reason"]) for s in sts if s["fail"] is not None]
    errors = [s["error"] for s in sts if s["error"]]
    hashes, labels, samples = set(), {}, []
    for s in sts:
        hashes |= s["hashes"]
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += s["samples"][:1]
    samples = samples[:4]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in sts),
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": [x if len(canon(x)) < 6000 else {"truncated": canon(x)[:6000]} for x in samples],
            "class_counts": dict(sorted(labels.items())),
            "enumerated_cases": len(fixed),
            "workers": nw,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": 0.0, "violations": 0,
    }
    rc = 0
    confirmed = None
    fails.sort(key=lambda f: len(canon(f[0])))
    env = driver.Env(exes)
    try:
        for case, why in fails:
            hits = 0
            for _ in range(3):
                w = run_case(mod, case, env)
                if w is not None:
                    hits += 1
                    why = w
            if hits == 3:
                if hasattr(mod, "minimise") or is_chain(case):
                    stop_at = time.monotonic() + SHRINK_SECONDS
                    case = shorten(mod, case, lambda c: time.monotonic() < stop_at and
                                   run_case(mod, c, env) is not None, getattr(mod, "minimise", None))
                    why = run_case(mod, case, env) or why
                confirmed = (case, why)
                break
            print("note: a failing case did not replay (%d of 3):\n%s" % (hits, why), file=sys.stderr)
    finally:
        env.close()
    if confirmed is not None:
        case, why = confirmed
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(canon(case).encode()).hexdigest()[:12]
        path = os.path.join(d, "%s-%s.json" % (pid, h))
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "case": case, "why": why}, f, indent=1)
            f.write("\n")
        known = load_known(pid)
        if "case=" + h in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known["case=" + h]))
        else:
            print("property %s is violated:\n%s" % (pid, why))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            ev["violations"] = 1
            rc = 1
    if errors and rc == 0:
        print("ERROR property=%s: %s" % (pid, errors[0]), file=sys.stderr)
        rc = 2
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["coverage"]["build_s"] = round(t_build, 2)
    write_evidence(pid, ev)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs -> %s" % (
        pid, tier, seed, ev["coverage"]["evaluations"], len(hashes), t_build, time.time() - t0,
        {0: "held", 1: "VIOLATED", 2: "ERROR"}[rc]))
    if os.environ.get("VERIF_LABELS"):
        print(json.dumps(ev["coverage"]["class_counts"], indent=1))
    return rc
