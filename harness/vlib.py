"""Monitor library: case scheduling, oracles, verdicts, evidence.

A scenario drives the real package with generated inputs (one case) and reports what it observed to
the monitor.  Verdicts: violated (exit 1, VIOLATION line and replay file), held on what was observed
(exit 0), inconclusive (exit 2: a shard died, ran out of time, or an oracle was not reached often
enough).
"""
import collections
import hashlib
import json
import os
import random
import re
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCENARIOS = collections.OrderedDict()      # property -> [(name, fn, quick, thorough)]
RULES, REQUIRED, ASSUME = {}, {}, {}
MAX_VIOLATIONS = 5


def scenario(prop, quick, thorough):
    def deco(fn):
        SCENARIOS.setdefault(prop, []).append((fn.__name__, fn, quick, thorough))
        return fn
    return deco


def rule(prop, text, required=None, assume=()):
    """required: {oracle name: minimal number of times it must have been evaluated (quick tier)}."""
    RULES[prop] = text
    REQUIRED[prop] = dict(required or {})
    ASSUME[prop] = list(assume)


class Violation(Exception):
    pass


class Inconclusive(Exception):
    pass


class Hang(BaseException):
    """A case that did not come back within CASE_LIMIT seconds (cases take seconds at most)."""


# Cheap properties run more cases than their scenarios say.
QUICK_FACTOR = {"C01": 3, "C02": 2, "C03": 3, "C04": 2, "C05": 4, "C07": 3, "C08": 3, "C10": 4, "C14": 2, "C15": 6, "C16": 6, "C19": 4, "C20": 3, "C21": 4, "C22": 3, "C23": 8, "C26": 5}
CASE_LIMIT = {"quick": 240, "thorough": 220}


def _on_alarm(signum, frame):
    raise Hang()


class Monitor:
    def __init__(self, prop, known):
        self.prop = prop
        self.oracles = collections.Counter()     # evaluations of each oracle
        self.maxdev = {}                         # largest deviation seen by each numeric oracle
        self.margin = {}                         # largest share of its tolerance used by each numeric oracle
        self.events = collections.Counter()      # things seen (kinds of inputs, branches, ...)
        self.digests = set()
        self.samples = []
        self.per_scenario = collections.Counter()
        self.evaluations = 0
        self.violations = []
        self.known_seen = {}
        self.known_keys = known
        self.longest = {}                        # slowest case of each scenario, seconds
        self.skipped = 0
        self._desc = None

    # ---- describing the case
    def case(self, nontrivial=True, **desc):
        """Declare what this case is; arrays enter the digest."""
        self._desc = {k: _short(v) for k, v in desc.items()}
        h = hashlib.sha256()
        h.update(self._scen.encode())
        for k in sorted(desc):
            h.update(k.encode())
            _feed(h, desc[k])
        if nontrivial:
            self.digests.add(h.hexdigest()[:20])
        if len(self.samples) < 3 or (self._idx % 97 == 0 and len(self.samples) < 6):
            self.samples.append(dict(self._desc, scenario=self._scen, index=self._idx))

    def event(self, *names):
        for n in names:
            self.events[str(n)] += 1

    # ---- oracles
    def fail(self, oracle, msg, **details):
        raise Violation(json.dumps({"oracle": oracle, "message": msg,
                                    "details": {k: _short(v, 400) for k, v in details.items()},
                                    "case": self._desc}))

    def ok(self, cond, oracle, msg="", **details):
        self.oracles[oracle] += 1
        if not cond:
            self.fail(oracle, msg or "condition is false", **details)

    def close(self, actual, expected, oracle, tol=1e-7, msg="", **details):
        self.oracles[oracle] += 1
        a = _dense(actual)
        e = _dense(expected)
        if a.shape != e.shape:
            self.fail(oracle, "%s shape %s instead of %s" % (msg, a.shape, e.shape), **details)
        if a.size == 0:
            return
        d = np.abs(a - e).max()
        if not d <= tol:
            self.fail(oracle, "%s deviates by %.3g (tolerance %.1g)" % (msg, d, tol),
                      actual=a, expected=e, **details)
        if d > self.maxdev.get(oracle, -1):
            self.maxdev[oracle] = float(d)
        self.margin[oracle] = max(self.margin.get(oracle, 0.), float(d / tol) if tol else 0.)

    def raises(self, fn, oracle, msg="", **details):
        """fn must refuse its arguments with some exception."""
        self.oracles[oracle] += 1
        try:
            r = fn()
        except Exception:           # noqa
            return
        self.fail(oracle, (msg or "accepted") + ": no exception was raised", returned=_short(r),
                  **details)

    def known(self, key, msg, **details):
        """A violation whose mechanism matches a listed finding."""
        if key in self.known_keys:
            self.known_seen.setdefault(key, msg)
        else:
            self.fail("unlisted:" + key, msg, **details)


def _dense(a):
    if hasattr(a, "todense"):
        a = a.todense()
    a = np.asarray(a)
    if a.dtype == object:
        a = np.array([_dense(x) for x in a.ravel()]).reshape(a.shape)
    return a.astype(complex)


def _short(v, n=160):
    if isinstance(v, np.ndarray):
        v = np.array2string(v, precision=4, threshold=64, max_line_width=10000).replace("\n", "")
    if isinstance(v, (int, float, bool, str, type(None))):
        return v if not isinstance(v, str) else v[:n]
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    return re.sub(r"\s+", " ", str(v))[:n]


def _feed(h, v):
    if isinstance(v, np.ndarray):
        h.update(str(v.shape).encode())
        h.update(np.round(np.asarray(v, dtype=complex), 9).tobytes())
    elif isinstance(v, (list, tuple)):
        for x in v:
            _feed(h, x)
    else:
        h.update(repr(v).encode())


# ---------------------------------------------------------------------------------------------


def known_findings(prop):
    keys = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3).strip()
    return keys


def case_seed(seed, prop, name, idx):
    h = hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, name, idx)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_case(mon, prop, name, fn, idx, seed):
    """Returns None or a violation record."""
    s = case_seed(seed, prop, name, idx)
    np.random.seed(s % (2 ** 32))
    random.seed(s)
    mon._scen, mon._idx, mon._desc = name, idx, None
    mon.evaluations += 1
    mon.per_scenario[name] += 1
    t0 = time.time()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_LIMIT.get(os.environ.get("VERIF_TIER", "quick"), 240))
    rec = None
    try:
        fn(mon, np.random.default_rng(s), idx)
    except Violation as e:
        rec = json.loads(str(e))
    except Hang:
        rec = {"oracle": "termination", "message": "the operation did not return within %d s" % (time.time() - t0),
               "details": {"traceback": traceback.format_exc()[-3000:]}, "case": mon._desc}
    except (Inconclusive, MemoryError, OSError):
        raise
    except Exception as e:      # a crash of the operation under test on valid input
        rec = {"oracle": "exception", "message": "%s: %s" % (type(e).__name__, str(e)[:300]),
               "details": {"traceback": traceback.format_exc()[-3000:]}, "case": mon._desc}
    else:
        return None
    finally:
        signal.alarm(0)
        took = time.time() - t0
        if took > mon.longest.get(name, 0):
            mon.longest[name] = round(took, 3)
    rec.update(property=prop, scenario=name, index=idx, seed=seed)
    return rec


def _shard(prop, tier, seed, shard, nshards, known, conn, deadline):
    os.setpgid(0, 0)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    mon = Monitor(prop, known)
    err = None
    stopped = False
    try:
        jobs = []
        for name, fn, q, t in SCENARIOS[prop]:
            jobs += [(name, fn, i) for i in range(q * QUICK_FACTOR.get(prop, 1) if tier == "quick" else max(t, q * QUICK_FACTOR.get(prop, 1)))]
        for j, (name, fn, i) in enumerate(jobs):
            if j % nshards != shard:
                continue
            if time.time() > deadline:
                stopped = True
                mon.skipped += 1
                continue
            rec = run_case(mon, prop, name, fn, i, seed)
            if rec is not None:
                rec["tier"] = tier
                mon.violations.append(rec)
                if len(mon.violations) >= MAX_VIOLATIONS or rec["oracle"] == "termination":
                    break
    except BaseException:       # noqa
        err = traceback.format_exc()
    state = {k: v for k, v in vars(mon).items() if not k.startswith("_")}
    conn.send((state, err, stopped))
    conn.close()
    try:
        import multiprocess
        for p in multiprocess.active_children():
            p.terminate()
    except Exception:           # noqa
        pass


def run(prop, tier, seed, nshards, limit):
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    t0 = time.time()
    known = known_findings(prop)
    shards = []
    for s in range(nshards):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_shard, args=(prop, tier, seed, s, nshards, known, w, t0 + limit),
                        daemon=False)
        p.start()
        w.close()
        shards.append((p, r))
    total = Monitor(prop, known)
    errors, stopped = [], False
    for p, r in shards:
        left = t0 + limit + CASE_LIMIT.get(tier, 240) + 20 - time.time()
        try:
            if not r.poll(max(left, 1)):
                errors.append("a shard did not finish in time")
                continue
            state, err, st = r.recv()
        except EOFError:
            errors.append("a shard died")
            continue
        stopped = stopped or st
        if err:
            errors.append(err)
        for c in ("oracles", "events", "per_scenario"):
            getattr(total, c).update(state[c])
        total.evaluations += state["evaluations"]
        total.skipped += state["skipped"]
        total.digests |= state["digests"]
        total.samples += state["samples"]
        total.violations += state["violations"]
        for k, v in state["known_seen"].items():
            total.known_seen.setdefault(k, v)
        for k, v in state["longest"].items():
            total.longest[k] = max(v, total.longest.get(k, 0))
        for k, v in state["maxdev"].items():
            total.maxdev[k] = max(v, total.maxdev.get(k, -1))
        for k, v in state["margin"].items():
            total.margin[k] = max(v, total.margin.get(k, 0.))
    for p, r in shards:
        p.join(5)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.join(5)
    wall = time.time() - t0
    # ---- evidence
    cov = {"evaluations": total.evaluations, "distinct_nontrivial": len(total.digests),
           "rule": RULES[prop], "samples": total.samples[:8],
           "cases_per_scenario": dict(total.per_scenario),
           "oracle_evaluations": dict(total.oracles),
           "largest_deviation_accepted": {k: float("%.3g" % v) for k, v in total.maxdev.items()},
           "largest_share_of_tolerance": {k: float("%.2g" % v) for k, v in total.margin.items()},
           "events_observed": dict(sorted(total.events.items())),
           "slowest_case_s": dict(total.longest),
           "known_findings_observed": sorted(total.known_seen),
           "cases_not_run_for_time": total.skipped}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUME[prop], "wall_s": round(wall, 2),
          "violations": len(total.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    # ---- verdict
    for k, msg in sorted(total.known_seen.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k], k))
    if total.violations:
        for v in total.violations[:MAX_VIOLATIONS]:
            path = write_replay(v)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s/%d %s: %s" % (v["scenario"], v["index"], v["oracle"], v["message"][:300]))
        return 1
    missing = {k: (total.oracles.get(k, 0), n) for k, n in REQUIRED[prop].items()
               if total.oracles.get(k, 0) < n}
    if errors or missing:
        for e in errors:
            print("INCONCLUSIVE property=%s %s" % (prop, e))
        if missing:
            print("INCONCLUSIVE property=%s oracles evaluated too seldom: %s" % (prop, missing))
        return 2
    print("HELD property=%s on %d executions (%d distinct non-trivial), %d oracle evaluations, "
          "%.1f s%s" % (prop, total.evaluations, len(total.digests), sum(total.oracles.values()),
                        wall, ", stopped at the time limit" if stopped else ""))
    return 0


def write_replay(v):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d-seed%d.json" % (v["property"], v["scenario"], v["index"],
                                                     v["seed"]))
    with open(path, "w") as f:
        json.dump(v, f, indent=1, default=str)
    return path


def replay(path):
    v = json.load(open(path))
    prop = v["property"]
    mon = Monitor(prop, known_findings(prop))
    fn = next(f for n, f, _, _ in SCENARIOS[prop] if n == v["scenario"])
    rec = run_case(mon, prop, v["scenario"], fn, v["index"], v["seed"])
    if rec is None:
        print("replay: no violation (case %s)" % (mon._desc,))
        return 0
    print(json.dumps(rec, indent=1, default=str))
    print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(path)))
    return 1
