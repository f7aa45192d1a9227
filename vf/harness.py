"""Runner for generated-input checks: generation, shrinking, replay, evidence.

A property module defines PROP = Prop(id, subs=[Sub(...)]).  Each Sub has a
Hypothesis strategy that produces a plain JSON value (the *case*) and a
function fn(case, ctx) that runs the real code on the case and raises Violation
if an oracle disagrees.  A case is self-contained: replaying it needs neither
Hypothesis nor a seed.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class Violation(Exception):
    """The property does not hold on this case."""


class Inconclusive(Exception):
    """This case decides nothing (solver gave up, case outside the domain)."""


class _Abort(BaseException):
    """Stop the current search (time spent), keeping what was found."""


class Hang(BaseException):
    pass


class Ctx:
    def __init__(self):
        self.labels = collections.Counter()
        self.nontrivial = True

    def label(self, *names):
        for n in names:
            self.labels[str(n)] += 1

    def trivial(self, why="trivial"):
        self.nontrivial = False
        self.labels["trivial:" + why] += 1


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, rule="",
                 chunk=None, hang=60, hang_violates=True, confirm=None, max_inconclusive=0.5):
        self.max_inconclusive = max_inconclusive
        self.name = name
        self.strategy = strategy  # zero-argument callable -> SearchStrategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else 12 * quick
        self.rule = rule
        self.chunk = chunk
        self.hang = hang
        self.hang_violates = hang_violates
        self.confirm = confirm


class Prop:
    def __init__(self, id, subs, assumptions=()):
        self.id = id
        self.subs = subs
        self.assumptions = list(assumptions)

    def sub(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise KeyError(f"{self.id} has no sub-check {name}")


def dumps(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def _in_repo(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if os.path.abspath(f).startswith(SRC + os.sep):
            return True
        tb = tb.tb_next
    return False


def _api_broken(e):
    """A documented call or attribute of the package is missing or has the wrong signature."""
    import rigeo
    m = str(e)
    if isinstance(e, TypeError) and ("unexpected keyword argument" in m or "positional argument" in m):
        f = m.split("(")[0].split(".")[0].strip()
        return hasattr(rigeo, f) or "." in m.split("(")[0]
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        mod = getattr(o, "__name__", None) if isinstance(o, type(sys)) else type(o).__module__
        return isinstance(mod, str) and mod.split(".")[0] == "rigeo"
    return False


def _on_alarm(signum, frame):
    raise Hang()


def evaluate(sub, case):
    """Run one case. Returns (status, message, ctx)."""
    import cvxpy.error
    ctx = Ctx()
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.hang)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sub.fn(case, ctx)
        return "ok", None, ctx
    except Violation as e:
        return "violation", str(e), ctx
    except Inconclusive as e:
        return "inconclusive", str(e), ctx
    except cvxpy.error.SolverError as e:
        return "inconclusive", f"SolverError {e}", ctx
    except Hang:
        if sub.hang_violates:
            return "violation", f"no answer within {sub.hang} s (such a case takes milliseconds)", ctx
        return "inconclusive", "time", ctx
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        if isinstance(e, RuntimeError) and "Use the GMP exact arithmetic" in str(e):
            # the floating-point double description library reports that it gave up (KNOWN_FINDINGS.txt)
            return "inconclusive", "double description library gave up", ctx
        if _in_repo(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if os.path.abspath(f.filename).startswith(SRC + os.sep)][-1]
            msg = f"{type(e).__name__}: {e} raised at {os.path.relpath(loc.filename, REPO)}:{loc.name} on a valid input"
            return "violation", msg[:600], ctx
        if _api_broken(e):
            return "violation", f"{type(e).__name__}: {e} (public interface does not work as documented)"[:600], ctx
        return "error", traceback.format_exc(), ctx
    except SystemExit as e:
        return "violation", f"SystemExit: {e} on a valid input", ctx
    except BaseException as e:
        if type(e).__name__ == "PanicException":
            # the solver (Rust) crashed; it would otherwise take the worker process with it
            return "inconclusive", "solver panicked", ctx
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def evaluate_confirmed(sub, case):
    status, msg, ctx = evaluate(sub, case)
    if status == "violation" and sub.confirm is not None:
        again = [evaluate(sub, c)[0] for c in sub.confirm(case)]
        bad = sum(a in ("violation", "error") for a in again)
        if again and bad * 2 < len(again):
            return "inconclusive", f"not confirmed on neighbouring cases ({bad}/{len(again)}): {msg}", ctx
    return status, msg, ctx


def _seed_for(seed, prop, sub, chunk):
    h = hashlib.sha256(f"{seed}/{prop}/{sub}/{chunk}".encode()).digest()
    return int.from_bytes(h[:7], "big")


_PROP = None


def run_chunk(task):
    """Search one chunk of one sub-check. Runs in a worker process."""
    sub_name, chunk, n, seed, t_end = task
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sub = _PROP.sub(sub_name)
    out = {"sub": sub_name, "chunk": chunk, "evaluations": 0, "nontrivial": set(),
           "labels": collections.Counter(), "inconclusive": collections.Counter(),
           "samples": [], "undecided": [], "violation": None, "error": None, "truncated": False, "asked": n,
           "cpu": 0.0}
    best = {}
    t0 = time.time()
    shrink_cap = 45.0
    # every search starts with the simplest case: judge it in the first chunk only
    skip = [chunk > 0]

    def one(case):
        now = time.time()
        if skip[0]:
            skip[0] = False
            return
        if best:
            if now - best["t0"] > shrink_cap:
                raise _Abort()
        elif now > t_end:
            out["truncated"] = True
            raise _Abort()
        key = dumps(case)
        status, msg, ctx = evaluate_confirmed(sub, json.loads(key))
        if not best:
            out["evaluations"] += 1
            out["labels"].update(ctx.labels)
            if status == "inconclusive":
                out["inconclusive"][msg[:80]] += 1
                if len(out["undecided"]) < 2:
                    out["undecided"].append((case, msg))
            elif ctx.nontrivial:
                out["nontrivial"].add(hashlib.sha1(key.encode()).digest()[:8])
                if len(out["samples"]) < 3 and len(key) < 3000:
                    out["samples"].append(case)
        if status == "error":
            out["error"] = f"sub={sub_name} case={key[:2000]}\n{msg}"
            raise _Abort()
        if status == "violation":
            if not best:
                best["t0"] = now
            if "case" not in best or len(key) <= len(best["key"]):
                best.update(case=case, key=key, msg=msg)
            raise Violation(msg)

    test = given(sub.strategy())(one)
    test = settings(
        max_examples=n + skip[0], database=None, deadline=None, print_blob=False,
        report_multiple_bugs=False, derandomize=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
    )(test)
    test = hypothesis.seed(_seed_for(seed, _PROP.id, sub_name, chunk))(test)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            test()
    except _Abort:
        pass
    except Violation:
        pass
    except Exception as e:
        if not best and not out["error"]:
            out["error"] = f"sub={sub_name} generation: " + traceback.format_exc()
    if best:
        out["violation"] = {"case": best["case"], "message": best["msg"]}
    out["cpu"] = time.time() - t0
    return out


def load_lines(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [l.strip() for l in f if l.strip() and not l.lstrip().startswith("#")]


def known_findings(prop_id):
    """Lines: known: property=ID sub=NAME case={json} what=text"""
    out = []
    for line in load_lines(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        if not line.startswith("known:"):
            continue
        head, what = line[len("known:"):].split(" what=", 1)
        head, case = head.split(" case=", 1)
        kv = dict(x.split("=", 1) for x in head.split())
        if kv["property"] == prop_id:
            out.append((kv["sub"], json.loads(case), what))
    return out


def write_replay(prop_id, sub, case, message, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = f"{prop_id}-{sub}-{hashlib.sha1(dumps(case).encode()).hexdigest()[:10]}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": prop_id, "sub": sub, "case": case, "message": message,
                   "seed": seed, "tier": tier}, f, indent=1)
    return path


def run_property(prop, tier, seed, budget, only=None, scale=1.0, procs=None):
    global _PROP
    _PROP = prop
    t0 = time.time()
    violations = []
    errors = []
    notes = []
    subs = [s for s in prop.subs if only is None or s.name in only]
    known_keys = set()

    # 1. recorded findings: announce, never alarm
    for sub_name, case, what in known_findings(prop.id):
        known_keys.add((sub_name, dumps(case)))
        if only is not None and sub_name not in only:
            continue
        status, msg, _ = evaluate(prop.sub(sub_name), case)
        if status == "violation":
            print(f"KNOWN-FINDING: property={prop.id} {what}", flush=True)
        elif status == "error":
            errors.append(msg)
        else:
            notes.append(f"known finding no longer fails: {what}")

    # 2. regression cases (shrunk failures of repaired defects, boundary cases)
    n_reg = 0
    for line in load_lines(os.path.join(VERIF, "regress", prop.id + ".jsonl")):
        r = json.loads(line)
        if only is not None and r["sub"] not in only:
            continue
        n_reg += 1
        status, msg, _ = evaluate(prop.sub(r["sub"]), r["case"])
        if status == "violation":
            violations.append((r["sub"], r["case"], msg))
        elif status == "error":
            errors.append(msg)

    # 3. generated cases
    agg = {s.name: {"evaluations": 0, "nontrivial": set(), "labels": collections.Counter(),
                    "inconclusive": collections.Counter(), "samples": [], "undecided": [], "truncated": False,
                    "asked": 0, "cpu": 0.0} for s in subs}
    procs = procs or min(8, os.cpu_count() or 1)
    if not violations and not errors:
        tasks = []
        t_end = t0 + budget
        for s in subs:
            n = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
            ch = s.chunk or max(1, -(-n // procs))
            ch = min(ch, 4000)
            k = -(-n // ch)
            for i in range(k):
                tasks.append((i / k, s.name, i, min(ch, n - i * ch)))
        tasks.sort(key=lambda t: t[0])
        tasks = [(name, i, n, seed, t_end) for _, name, i, n in tasks]
        mp = multiprocessing.get_context("fork")
        sys.stdout.flush()
        with mp.Pool(procs, maxtasksperchild=None) as pool:
            for r in pool.imap_unordered(run_chunk, tasks, chunksize=1):
                a = agg[r["sub"]]
                for k in ("evaluations", "asked", "cpu"):
                    a[k] += r[k]
                a["nontrivial"] |= r["nontrivial"]
                a["labels"].update(r["labels"])
                a["inconclusive"].update(r["inconclusive"])
                a["truncated"] |= r["truncated"]
                a["undecided"].extend(r["undecided"])
                if len(a["samples"]) < 3:
                    a["samples"].extend(r["samples"][:3 - len(a["samples"])])
                if r["error"]:
                    errors.append(r["error"])
                if r["violation"]:
                    v = r["violation"]
                    if (r["sub"], dumps(v["case"])) in known_keys:
                        continue
                    violations.append((r["sub"], v["case"], v["message"]))
                if violations or errors:
                    pool.terminate()
                    break

    # a query that hardly ever answers is broken too
    if not violations and not errors:
        for n, a in agg.items():
            k = sum(a["inconclusive"].values())
            if a["evaluations"] >= 20 and k > prop.sub(n).max_inconclusive * a["evaluations"]:
                case, msg = a["undecided"][0]
                violations.append((n, case, f"no answer on {k} of {a['evaluations']} cases ({msg[:200]})"))

    # 4. report
    vlines = []
    for sub_name, case, msg in violations:
        path = write_replay(prop.id, sub_name, case, msg, seed, tier)
        print(f"  {prop.id}/{sub_name}: {msg}")
        print(f"  case: {dumps(case)[:1500]}")
        vlines.append(f"VIOLATION property={prop.id} replay={path}")
    for e in errors:
        print("CHECK ERROR", e, file=sys.stderr)
    for n in notes:
        print("note:", n)

    evals = sum(a["evaluations"] for a in agg.values())
    distinct = sum(len(a["nontrivial"]) for a in agg.values())
    wall = time.time() - t0
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": " | ".join(f"{s.name}: {s.rule}" for s in subs),
            "samples": [{"sub": n, "case": c} for n, a in agg.items() for c in a["samples"][:2]]
                       or [{"sub": v[0], "case": v[1]} for v in violations],
            "regression_cases_replayed": n_reg,
            "per_sub": {n: {
                "requested": a["asked"], "evaluations": a["evaluations"],
                "distinct_nontrivial": len(a["nontrivial"]),
                "inconclusive": dict(a["inconclusive"].most_common(8)),
                "inconclusive_total": sum(a["inconclusive"].values()),
                "labels": dict(a["labels"].most_common(40)),
                "stopped_by_time_budget": a["truncated"],
                "cpu_s": round(a["cpu"], 2)} for n, a in agg.items()},
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if errors and not violations:
        return 2, ev
    for l in vlines:
        print(l)
    if not violations:
        inc = sum(sum(a["inconclusive"].values()) for a in agg.values())
        print(f"{prop.id}: {evals} cases, {distinct} distinct non-trivial, {inc} inconclusive, "
              f"{n_reg} regression cases, {wall:.1f} s: held")
    sys.stdout.flush()
    return (1 if violations else 0), ev


def replay(path):
    with open(path) as f:
        r = json.load(f)
    from . import props
    prop = props.load(r["property"])
    status, msg, _ = evaluate(prop.sub(r["sub"]), r["case"])
    print(f"{r['property']}/{r['sub']}: {status} {msg or ''}")
    if status == "inconclusive" and r["message"].startswith("no answer on"):
        status = "violation"
    if status == "violation":
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 0 if status in ("ok", "inconclusive") else 2
