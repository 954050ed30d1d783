"""Runner: generates cases from a seed, executes them on the real code in worker
processes, collects what the monitors observed, writes evidence, reports violations.

A case is a JSON document (`spec`) which entirely determines an execution, so that
every violation can be replayed with `python -m estmon <PROP> --replay FILE`.
"""
import gc
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ESTMON_REPO", "/repo")

CASE_CPU_S = 60  # CPU seconds after which a case is declared not to terminate
CASE_WALL_S = 240  # wall clock watchdog: inconclusive, never a violation


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, f"[{key}] {msg}")
        self.key = key
        self.msg = msg


class Inconclusive(Exception):
    pass


class LibraryError(Exception):
    """The library raised in a reference execution."""

    def __init__(self, name, text):
        Exception.__init__(self, text)
        self.name = name


class CpuBudget(BaseException):
    pass


class WallBudget(BaseException):
    pass


class Monitor:
    """What the oracles of one property saw during one case."""

    def __init__(self, prop):
        self.prop = prop
        self.events = Counter()
        self.trace = hashlib.sha1()
        self.nontrivial = False

    def ev(self, name, n=1):
        self.events[name] += n

    def sig(self, *parts):
        """Feed the observed trace signature (distinct behaviours are counted)."""
        self.trace.update(repr(parts).encode())

    def ok(self, cond, key, msg, *args):
        """One judged assertion."""
        self.events["judged:" + key] += 1
        if not cond:
            raise Violation(key, msg % args if args else msg)

    def fail(self, key, msg, *args):
        raise Violation(key, msg % args if args else msg)

    def near(self, got, want, tol, key, msg, *args):
        self.events["judged:" + key] += 1
        good = (
            isinstance(got, (int, float))
            and got == got
            and abs(got - float(want)) <= tol
        )
        if not good:
            text = msg % args if args else msg
            raise Violation(key, f"{text}: got {got!r}, expected {float(want)!r} +-{tol}")


def _in_estrade(tb):
    """Is the code which raised inside the code under test (or below it)?"""
    inside = False
    root = os.path.join(os.path.realpath(REPO), "estrade") + os.sep
    for frame, _ in traceback.walk_tb(tb):
        path = os.path.realpath(frame.f_code.co_filename)
        if path.startswith(root):
            inside = True
        elif path.startswith(VERIF + os.sep):
            inside = False
    return inside


def run_case(mod, spec, cpu_s=CASE_CPU_S):
    """Execute a case. Returns (monitor, violation or None, harness error or None)."""
    mon = Monitor(mod.PROP)

    def on_cpu(*_):
        raise CpuBudget()

    def on_wall(*_):
        raise WallBudget()

    signal.signal(signal.SIGVTALRM, on_cpu)
    signal.signal(signal.SIGALRM, on_wall)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu_s)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S)
    try:
        mod.run(spec, mon)
        return mon, None, None
    except Violation as v:
        return mon, v, None
    except CpuBudget:
        return mon, Violation(
            "no_termination", f"the case did not end within {cpu_s} s of CPU time"
        ), None
    except (WallBudget, Inconclusive):
        return mon, None, "inconclusive: " + traceback.format_exc(limit=-4)
    except LibraryError as e:
        return mon, Violation("exception:" + e.name, "a valid use of the library raised\n" + str(e)), None
    except MemoryError:
        return mon, Violation("memory", "the case exhausted 3 GB of memory"), None
    except BaseException as e:  # noqa
        if _in_estrade(e.__traceback__):
            return mon, Violation(
                "exception:" + type(e).__name__,
                "a valid use of the library raised\n" + traceback.format_exc(limit=-6),
            ), None
        if isinstance(e, (OSError, KeyboardInterrupt, SystemExit)) or "start new thread" in str(e):
            return mon, None, traceback.format_exc()
        # a well formed case never makes an oracle raise on a conforming library: what
        # was observed is not of the kind the interface promises (None, wrong type, ...)
        return mon, Violation(
            "unusable_observation:" + type(e).__name__,
            "an observed value is unusable\n" + traceback.format_exc(limit=-6),
        ), None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def case_list(mod, tier, seed):
    """Deterministic list of (template, index)."""
    out = []
    for template, quick, thorough in mod.TEMPLATES:
        n = quick if tier == "quick" else thorough
        out += [(template, i) for i in range(n)]
    rng = random.Random(f"order:{mod.PROP}:{seed}:{tier}")
    rng.shuffle(out)
    return out


def make_spec(mod, template, index, seed):
    rng = random.Random(f"{mod.PROP}:{template}:{seed}:{index}")
    spec = mod.gen(template, rng)
    spec["template"] = template
    # the spec a monitor executes is exactly the one a replay file contains
    return json.loads(json.dumps(spec))


def _worker(mod, cases, seed, deadline, conn):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(1000)
    if hasattr(mod, "FRESH"):
        from estmon import fresh

        fresh.start()
    gc.collect()
    gc.freeze()
    events = Counter()
    done = nontrivial = 0
    sigs = set()
    templates = Counter()
    violations = []
    errors = []
    samples = []
    for template, index in cases:
        if time.time() > deadline or len(violations) >= 3 or len(errors) >= 3:
            break
        try:
            spec = make_spec(mod, template, index, seed)
        except Exception:
            errors.append(f"generator {template}/{index}: " + traceback.format_exc())
            continue
        mon, violation, error = run_case(mod, spec)
        done += 1
        templates[template] += 1
        events.update(mon.events)
        if mon.nontrivial:
            nontrivial += 1
            sigs.add(mon.trace.hexdigest()[:16])
            if len(samples) < 1 and len(json.dumps(spec)) < 6000:
                samples.append({"case": f"{template}/{index}", "spec": spec,
                                "observed": dict(mon.events)})
        if violation:
            violations.append((template, index, violation.key, str(violation), spec))
        if error:
            errors.append(f"case {template}/{index}: {error}")
    conn.send((done, nontrivial, sigs, dict(events), dict(templates), violations, errors, samples))
    conn.close()


def shrink(mod, spec, key, budget_s=15.0):
    """Greedy reduction of the lists the module declares shrinkable (same key kept)."""
    if key == "no_termination":
        return spec  # each attempt would cost the whole allowance of a case
    end = time.time() + budget_s
    paths = getattr(mod, "SHRINK", ())

    def still(s):
        _, v, _ = run_case(mod, json.loads(json.dumps(s)), cpu_s=budget_s)
        return v is not None and v.key == key

    for path in paths:
        items = spec.get(path)
        if not isinstance(items, list):
            continue
        size = max(1, len(items) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(spec[path]) and time.time() < end:
                cand = dict(spec)
                cand[path] = spec[path][:i] + spec[path][i + size:]
                if still(cand):
                    spec = cand
                else:
                    i += size
            size //= 2
    return spec


def load_known():
    """Findings recorded but not repaired: {(property, key): text}."""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    head, _, text = line[7:].partition(" | ")
                    fields = dict(p.split("=", 1) for p in head.split())
                    known[(fields["property"], fields["key"])] = text
    return known


def run_property(mod, tier, seed, procs=None, scale=1.0):
    t0 = time.time()
    procs = procs or min(8, os.cpu_count() or 1)
    cap = 420 if tier == "quick" else 780
    deadline = t0 + cap
    cases = case_list(mod, tier, seed)
    if scale != 1.0:
        cases = cases[: max(procs, int(len(cases) * scale))]
    ctx = multiprocessing.get_context("fork")
    workers = []
    for w in range(procs):
        part = cases[w::procs]
        if not part:
            continue
        rx, tx = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(mod, part, seed, deadline, tx))
        p.start()
        tx.close()
        workers.append((p, rx))
    done = nontrivial = 0
    sigs = set()
    events = Counter()
    templates = Counter()
    violations, errors, samples = [], [], []
    for p, rx in workers:
        try:
            r = rx.recv()
        except EOFError:
            p.join()
            errors.append(f"a worker died (exit code {p.exitcode})")
            continue
        done += r[0]
        nontrivial += r[1]
        sigs |= r[2]
        events.update(r[3])
        templates.update(r[4])
        violations += r[5]
        errors += r[6]
        samples += r[7]
    for p, _ in workers:
        p.join(5)
        if p.is_alive():
            p.kill()

    known = load_known()
    fresh = {}
    hit_known = {}
    for v in sorted(violations, key=lambda v: len(json.dumps(v[4]))):
        if (mod.PROP, v[2]) in known:
            hit_known.setdefault(v[2], v)
        else:
            fresh.setdefault(v[2], v)

    status = 0
    for (prop, key), text in known.items():
        if prop == mod.PROP:
            print(f"KNOWN-FINDING: property={prop} {text}")
    out = []
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    for key, (template, index, _, msg, spec) in list(fresh.items())[:3]:
        os.makedirs(replay_dir, exist_ok=True)
        small = shrink(mod, spec, key)
        safe = "".join(c if c.isalnum() else "_" for c in key)[:60]
        path = os.path.join(replay_dir, f"{mod.PROP}_{safe}.json")
        with open(path, "w") as f:
            json.dump({"property": mod.PROP, "key": key, "message": msg,
                       "case": f"{template}/{index}", "seed": seed, "spec": small}, f, indent=1)
        print(f"--- {mod.PROP} case {template}/{index}: {msg}")
        print(f"VIOLATION property={mod.PROP} replay={path}")
        out.append({"key": key, "message": msg, "replay": path})
        status = 1
    judged = sum(n for k, n in events.items() if k.startswith("judged:"))
    required = getattr(mod, "REQUIRED", ())
    missing = [k for k in required if not events.get(k)]
    evidence = {
        "property": mod.PROP,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:2],
            "planned_cases": len(cases),
            "nontrivial_cases": nontrivial,
            "cases_per_template": dict(sorted(templates.items())),
            "oracle_judgements": judged,
            "observed_events": dict(sorted(events.items())),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{mod.PROP}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for e in errors[:3]:
        print("HARNESS: " + e, file=sys.stderr)
    if status == 0 and (errors or missing or not judged or not sigs):
        print(f"INCONCLUSIVE property={mod.PROP} errors={len(errors)} "
              f"unreached={missing} judged={judged}", file=sys.stderr)
        status = 2
    if status == 0:
        print(f"OK property={mod.PROP} tier={tier} seed={seed} cases={done} "
              f"distinct={len(sigs)} judged={judged} wall={evidence['wall_s']}s")
    return status


def main(argv):
    import argparse
    import importlib

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--case")
    a = ap.parse_args(argv)
    mod = importlib.import_module("estmon.props." + a.prop.lower())
    tier = "thorough" if a.tier == "thorough" else "quick"
    if a.replay or a.case:
        if a.replay:
            with open(a.replay) as f:
                spec = json.load(f)["spec"]
        else:
            template, index = a.case.split("/")
            spec = make_spec(mod, template, int(index), a.seed)
        mon, violation, error = run_case(mod, spec)
        print(dict(mon.events))
        if error:
            print(error)
            return 2
        if violation:
            print(violation)
            print(f"VIOLATION property={mod.PROP} replay={a.replay or a.case}")
            return 1
        return 0
    return run_property(mod, tier, a.seed, a.procs, a.scale)
