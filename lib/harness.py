"""
Property-based testing harness.

A *property* is decided by one or more *oracles*.  An oracle is

  - a Hypothesis strategy that generates plain JSON data (the *case*), and
  - a function case -> None that builds the real objects from the case, drives
    the code in /repo and raises on disagreement with its reference.

Because a case is plain JSON, the shrunk failing case *is* the replay file.
Nothing here draws random numbers outside Hypothesis, whose seed is VERIF_SEED.
"""
import argparse, hashlib, importlib, io, json, os, pickle, signal, sys, tempfile
import time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import hypothesis
except ImportError:
    sys.path.append(SITE)
    try:
        import hypothesis
    except ImportError:
        import glob
        for w in sorted(glob.glob("/opt/veriftools/wheels/*.whl")):
            if os.path.basename(w).split("-")[0] in ("hypothesis", "sortedcontainers", "attrs"):
                sys.path.append(w)
        import hypothesis
from hypothesis import strategies as st, settings, given, HealthCheck, Phase

if REPO not in sys.path:
    sys.path.insert(0, REPO)

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class Violation(Exception):
    """The code under test disagrees with the oracle."""


class HarnessError(Exception):
    """Something is wrong with the check itself."""


def fail(message, **details):
    if details:
        message += " | " + ", ".join(f"{k}={_short(v)}" for k, v in details.items())
    raise Violation(message)


def require(condition, message, **details):
    if not condition:
        fail(message, **details)


def _short(value, n=400):
    s = repr(value).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "…"


class Context:
    """Per-case recorder: what kind of case it was."""

    def __init__(self):
        self.events = {}
        self.trivial = True

    def event(self, name):
        self.events[name] = self.events.get(name, 0) + 1

    def nontrivial(self, flag=True):
        if flag:
            self.trivial = False


class Oracle:
    def __init__(self, prop, name, strategy, func, quick, thorough, rule, shards):
        self.shards = shards
        self.prop, self.name, self.strategy, self.func = prop, name, strategy, func
        self.quick, self.thorough, self.rule = quick, thorough, rule


ORACLES = {}          # property -> list of Oracle
MODULES = {}          # property -> module name (filled from INDEX)


def oracle(prop, name, strategy, quick, thorough, rule, shards=1):
    """Decorator registering func(case, ctx) as an oracle of property `prop`."""

    def wrap(func):
        nonlocal quick, shards
        if func.__module__.split(".")[-1] not in ("arrays", "geometry", "svg"):
            quick, shards = 3 * quick, max(shards, min(4, -(-3 * quick // 500)))
        ORACLES.setdefault(prop, []).append(
            Oracle(prop, name, strategy, func, quick, thorough, rule, shards))
        return func
    return wrap


# --------------------------------------------------------------------------
def canonical(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def digest(text):
    return hashlib.sha1(text.encode()).hexdigest()[:16]


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for frame in tb:
        if frame.filename.startswith(REPO + "/"):
            where = f" at {os.path.relpath(frame.filename, REPO)}:{frame.lineno}"
    if isinstance(exc, Violation):
        return str(exc)
    return f"{type(exc).__name__}: {exc}{where}"


INFRASTRUCTURE = (HarnessError, KeyboardInterrupt, SystemExit)
CPU_LIMIT = 25.0              # processor seconds for a case; the slowest ones take about 1 s
MEMORY_LIMIT = 6 << 30        # address space of a worker


class Endless(BaseException):
    """A case that does not end."""


def _endless(*_):
    raise Endless()


def bounded():
    """ Limits of a worker process """

    import ctypes, resource
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)        # ends with its parent
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    except Exception:
        pass


def run_case(orc, case):
    """Run one case. Returns (ctx, None) or (ctx, message)."""

    from lib import common
    ctx = Context()
    common.reset()
    signal.signal(signal.SIGPROF, _endless)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 1)
    try:
        try:
            orc.func(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except INFRASTRUCTURE:
        raise
    except Endless as exc:
        ctx.endless = True
        return ctx, describe(exc).replace("Endless: ", f"no answer after {CPU_LIMIT:g} s")
    except MemoryError as exc:
        ctx.endless = True
        return ctx, "memory exhausted: " + describe(exc)
    except OSError as exc:
        if exc.errno in (28, 12, 24, 11):      # ENOSPC, ENOMEM, EMFILE, EAGAIN
            raise HarnessError(str(exc))
        return ctx, describe(exc)
    except Exception as exc:
        return ctx, describe(exc)
    finally:
        common.cleanup()
    return ctx, None


def explore(orc, budget_s, shard=0, shards=1):
    """Search one oracle's input space. Returns a result dict."""

    from lib import common
    n = orc.quick if TIER == "quick" else orc.thorough
    n = max(1, int(n * SCALE)) // shards + 1 if SCALE != 1 else -(-n // shards)
    result = dict(name=orc.name, rule=orc.rule, planned=n, evaluations=0,
                  distinct_nontrivial=0, samples=[], events={}, violation=None,
                  truncated=False, slowest_s=0.0)
    seen = set()
    start = time.time()
    best = {}

    def body(case):
        now = time.time()
        if best and now - best["t"] > SHRINK_S:
            return                              # stop shrinking
        if not best and now - start > budget_s:
            result["truncated"] = True          # inconclusive remainder
            return
        text = canonical(case)
        case = json.loads(text)
        cpu = time.process_time()
        ctx, message = run_case(orc, case)
        result["slowest_s"] = max(result["slowest_s"], round(time.process_time() - cpu, 3))
        if message is not None:
            key = (len(text), text)
            if not best:
                best.update(t=now, key=key, case=case, message=message)
                if getattr(ctx, "endless", False):
                    best["t"] = 0                   # reproducing it takes too long to shrink
            elif key < best["key"]:
                best.update(key=key, case=case, message=message)
            raise Violation(message)
        if best:
            return
        result["evaluations"] += 1
        for k, v in ctx.events.items():
            result["events"][k] = result["events"].get(k, 0) + v
        if not ctx.trivial:
            h = digest(text)
            if h not in seen:
                seen.add(h)
                # keep a few of various sizes
                if len(result["samples"]) < 3 or (len(text) < 1500 and
                   len(seen) in (10, 50, 200)):
                    result["samples"].append(json.loads(text))

    test = given(orc.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None,
                    report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed(SEED + 7919 * shard)(test)
    stdout, sys.stdout = sys.stdout, io.StringIO()
    try:
        test()
    except INFRASTRUCTURE:
        raise
    except BaseException as exc:
        if not best:
            raise HarnessError("generator failure: " + describe(exc) + "\n"
                               + traceback.format_exc())
    finally:
        sys.stdout = stdout
    if best:
        # The minimal case must fail on its own, in a clean state.
        ctx, message = run_case(orc, best["case"])
        if message is None:
            ctx, message = run_case(orc, best["case"])
        if message is None:
            # Not reproducible in isolation in this process: still a violation
            # of the code, but flag it.
            message = best["message"] + " (only after other cases)"
        result["violation"] = dict(case=best["case"], message=message)
    result["distinct_nontrivial"] = seen
    result["wall_s"] = round(time.time() - start, 2)
    return result


SHRINK_S = float(os.environ.get("VERIF_SHRINK", "45"))
# for tools/mutate.py only: a part of the search, ended by the first violation
SCALE = float(os.environ.get("VERIF_SCALE", "1"))


def merge(parts):
    """ Join the results of the shards of each oracle """

    results = {}
    for p in parts:
        r = results.get(p["name"])
        if r is None:
            results[p["name"]] = p
            continue
        r["planned"] += p["planned"]
        r["evaluations"] += p["evaluations"]
        r["distinct_nontrivial"] |= p["distinct_nontrivial"]
        r["wall_s"] = max(r["wall_s"], p["wall_s"])
        r["slowest_s"] = max(r["slowest_s"], p["slowest_s"])
        r["truncated"] = r["truncated"] or p["truncated"]
        for k, v in p["events"].items():
            r["events"][k] = r["events"].get(k, 0) + v
        found = [v for v in (r["violation"], p["violation"]) if v]
        r["violation"] = min(found, key=lambda v: len(canonical(v["case"])), default=None)
    for r in results.values():
        r["distinct_nontrivial"] = len(r["distinct_nontrivial"])
    return list(results.values())


def in_child(func):
    """Run func() in a forked child, returning its pickled result."""

    fd, path = tempfile.mkstemp(prefix="verif-")
    os.close(fd)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            bounded()
            try:
                value = ("ok", func())
            except BaseException as exc:
                value = ("error", describe(exc) + "\n" + traceback.format_exc())
            with open(path, "wb") as f:
                pickle.dump(value, f)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(code)
    return pid, path


def collect(pid, path):
    _, status = os.waitpid(pid, 0)
    try:
        with open(path, "rb") as f:
            return pickle.load(f)
    except Exception:
        return ("error", f"worker ended with status {status}")
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass


# --------------------------------------------------------------------------
def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.json")
    try:
        with open(path) as f:
            entries = json.load(f)["findings"]
    except FileNotFoundError:
        return []
    return [e for e in entries if e["property"] == prop]


def write_replay(prop, orc_name, case, message):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-{orc_name}-{digest(canonical(case))}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, oracle=orc_name, case=case, message=message,
                       seed=SEED, tier=TIER), f, indent=1, sort_keys=True)
    return path


def load_property(prop):
    from checks import INDEX
    if prop not in INDEX:
        raise HarnessError(f"unknown property {prop}")
    for module in INDEX[prop]["modules"]:
        importlib.import_module("checks." + module)
    return INDEX[prop]


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--oracle")
    parser.add_argument("-v", action="store_true")
    args = parser.parse_args(argv)
    sys.stdout.reconfigure(errors="backslashreplace")
    try:
        return run(args)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("CHECK-ERROR property=%s" % args.property)
        return 2


def run(args):
    prop = args.property
    t0 = time.time()
    from lib import common
    common.assert_repo()
    index = load_property(prop)
    oracles = [o for o in ORACLES[prop] if not args.oracle or o.name == args.oracle]
    if not oracles:
        raise HarnessError("no such oracle")

    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        orc = [o for o in ORACLES[prop] if o.name == data["oracle"]][0]
        ctx, message = run_case(orc, data["case"])
        if message is None:
            print(f"replay passes: property={prop} oracle={orc.name}")
            return 0
        print(f"{prop}/{orc.name}: {message}")
        print(f"VIOLATION property={prop} replay={args.replay}")
        return 1

    # 1. Listed findings: witness cases, re-run against the real code.
    findings = known_findings(prop)
    known_lines = []
    for entry in findings:
        orc = [o for o in ORACLES[prop] if o.name == entry["oracle"]][0]
        status, value = collect(*in_child(lambda: run_case(orc, entry["case"])[1]))
        if status != "ok":
            raise HarnessError(value)
        if value is not None:
            known_lines.append(f"KNOWN-FINDING: property={prop} {entry['what']}")

    # 2. Search, one forked worker per oracle.
    budget = 240.0 if TIER == "quick" else 3000.0
    pending, parts = [], []
    for orc in oracles:
        shards = orc.shards
        if TIER == "thorough":
            shards = max(shards, 6 // len(oracles))
        pending += [(orc, i, shards) for i in range(shards)]
    running = []
    width = max(1, min(len(pending), (os.cpu_count() or 2) - 1, 7))
    while pending or running:
        while pending and len(running) < width:
            orc, i, shards = pending.pop(0)
            running.append((orc, in_child(lambda: explore(orc, budget, i, shards))))
        orc, handle = running.pop(0)
        status, value = collect(*handle)
        if status != "ok":
            for _, (pid, path) in running:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            raise HarnessError(f"{orc.name}: {value}")
        parts.append(value)
        if SCALE != 1 and value["violation"]:
            for _, (pid, path) in running:
                os.kill(pid, signal.SIGKILL)
                collect(pid, path)
            break
    results = merge(parts)

    violations = []
    for r in results:
        if args.v:
            print(f"  {r['name']}: {r['evaluations']} cases, "
                  f"{r['distinct_nontrivial']} distinct non-trivial, "
                  f"{r['wall_s']}s {json.dumps(r['events'], sort_keys=True)}"
                  + (" TRUNCATED" if r["truncated"] else ""))
        if r["violation"]:
            v = r["violation"]
            violations.append((r["name"], v["message"],
                               write_replay(prop, r["name"], v["case"], v["message"])))

    evidence = dict(
        property=prop, tier=TIER, seed=SEED, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            distinct_nontrivial=sum(r["distinct_nontrivial"] for r in results),
            rule="; ".join(f"[{r['name']}] {r['rule']}" for r in results),
            samples=[dict(oracle=r["name"], case=c) for r in results
                     for c in r["samples"][:4]],
            oracles=[dict(name=r["name"], planned=r["planned"],
                          evaluations=r["evaluations"],
                          distinct_nontrivial=r["distinct_nontrivial"],
                          classes=r["events"], wall_s=r["wall_s"],
                          slowest_case_s=r["slowest_s"],
                          truncated_by_time=r["truncated"]) for r in results],
            known_findings_confirmed=len(known_lines)),
        assumptions=index.get("assumptions", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for line in known_lines:
        print(line)
    for name, message, path in violations:
        print(f"{prop}/{name}: {message}")
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop}: {evidence['coverage']['evaluations']} cases, "
          f"{evidence['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{len(violations)} violation(s), {evidence['wall_s']}s")
    return 1 if violations else 0
