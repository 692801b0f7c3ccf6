"""Harness shared by every check: sets the process up to import the code under
test from the repository, drives workloads in parallel, collects what the
monitors observed, and turns it into a verdict and an evidence file.

Verdicts: exit 0 held on everything observed, exit 1 violation, exit 2 no
verdict (harness error, watchdog, or a deciding monitor that saw nothing)."""
import contextlib
import errno
import hashlib
import io
import json
import logging
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.path.realpath(os.environ.get("HV_REPO", "/repo"))
SHIM = os.path.join(VERIF, "lib", "shim")


def setup_path(ext_dir=None):
    sys.dont_write_bytecode = True
    for p in (REPO, SHIM, ext_dir):
        if p:
            if p in sys.path:
                sys.path.remove(p)
            sys.path.insert(0, p)
    os.environ.setdefault("MPLBACKEND", "Agg")
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import hyperstatic
    got = os.path.dirname(os.path.realpath(hyperstatic.__file__))
    assert got == os.path.join(REPO, "hyperstatic"), got


class Violation(Exception):
    """the oracle `oracle` refuted the property on this execution"""

    def __init__(self, oracle, detail):
        super().__init__("%s: %s" % (oracle, detail))
        self.oracle = oracle
        self.detail = detail


class Skip(Exception):
    """the generated case is outside the property's domain; not counted"""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Monitor:
    """what one worker's monitors observed"""

    def __init__(self):
        self.counts = {}      # oracle/event name -> times evaluated/observed
        self.keys = set()     # distinct non-trivial cases, by hash
        self.samples = []
        self.known = {}       # known-finding key -> [count, example]
        self.maxerr = {}      # oracle -> largest (error / tolerance) seen
        self.case = None
        self.tmpdirs = []

    # -- bookkeeping
    def event(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def distinct(self, *key):
        self.keys.add(hashlib.sha1(repr(jsonable(key)).encode()).hexdigest()[:16])

    def describe(self, **kw):
        self.case = kw

    def tmp(self):
        d = tempfile.mkdtemp(prefix="hv_", dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)
        self.tmpdirs.append(d)
        return d

    def clean(self):
        for d in self.tmpdirs:
            shutil.rmtree(d, ignore_errors=True)
        self.tmpdirs = []

    # -- oracles
    def true(self, oracle, cond, detail=""):
        self.event("oracle:" + oracle)
        if not cond:
            raise Violation(oracle, detail() if callable(detail) else detail)

    def same(self, oracle, got, want, detail=""):
        self.event("oracle:" + oracle)
        if not (got == want):
            raise Violation(oracle, "got %r, expected %r %s" % (got, want, detail))

    def close(self, oracle, got, want, tol, scale=None, detail=""):
        """|got-want| <= tol*scale, entrywise; scale defaults to max|want|"""
        self.event("oracle:" + oracle)
        try:
            got = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            raise Violation(oracle, "not numeric: %r %s" % (got, detail))
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            raise Violation(oracle, "shape %r, expected %r %s" % (got.shape, want.shape, detail))
        if scale is None:
            scale = np.max(np.abs(want)) if want.size else 1.0
        scale = np.asarray(scale, dtype=float)
        err = np.abs(got - want)
        if not np.all(np.isfinite(got)):
            raise Violation(oracle, "not finite: %s %s" % (np.array2string(got, threshold=30), detail))
        lim = tol * scale
        bad = ~(err <= lim)
        if np.any(bad):
            k = int(np.argmax(np.where(bad, err, -1)))
            ix = np.unravel_index(k, got.shape) if got.shape else ()
            raise Violation(oracle, "at %s got %.12g, expected %.12g (tolerance %.3g) %s" % (
                tuple(int(i) for i in ix), got[ix], want[ix], float(np.broadcast_to(lim, got.shape)[ix]), detail))
        with np.errstate(all="ignore"):
            r = err / lim
        r = float(np.max(np.where(np.isfinite(r), r, 0))) if got.size else 0.0
        if r > self.maxerr.get(oracle, 0.0):
            self.maxerr[oracle] = r

    def known_finding(self, key, example):
        """the observed deviation is exactly the recorded defect `key`"""
        if key in self.known:
            self.known[key][0] += 1
        else:
            self.known[key] = [1, str(example)]


def _in_repo(tb):
    """does the traceback pass through the code under test?"""
    root = os.path.join(REPO, "hyperstatic") + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


class CaseTimeout(BaseException):
    """not an Exception, which the code under test might catch and answer with None"""


_LATE = []


def _alarm(*a):
    _LATE.append(True)
    raise CaseTimeout()


CRASHES = {-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL}
_MODULE = None
_PARAM = None


def run_case(module, kind, index, seed, mon, timeout=None):
    """returns None, ('violation', oracle, detail), ('harness', text) or ('timeout',)"""
    func = module.KINDS[kind][0]
    kid = sorted(module.KINDS).index(kind)
    pid = int(module.PROP[1:])
    rng = np.random.default_rng([seed, pid, kid, index])
    mon.case = None
    del _LATE[:]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout or getattr(module, "TIMEOUT", 120))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            func(rng, mon)
        mon.event("executions")
        mon.event("executions:" + kind)
        return None
    except Skip:
        mon.event("skipped")
        return None
    except Violation as e:
        mon.event("executions")
        return ("timeout",) if _LATE else ("violation", e.oracle, e.detail)
    except (CaseTimeout, subprocess.TimeoutExpired):
        return ("timeout",)
    except Exception as e:
        if _LATE:
            return ("timeout",)
        text = "".join(traceback.format_exception(e))
        if isinstance(e, MemoryError) or isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EDQUOT):
            return ("harness", text)
        mon.event("executions")
        if _in_repo(e.__traceback__):
            return ("violation", "unexpected-exception", text[-2500:])
        return ("violation", "result-unusable", text[-2500:])
    finally:
        signal.alarm(0)
        mon.clean()


def _work(task, here=None):
    kind, start, stop, seed = task
    mon = Monitor()
    out = []
    for i in range(start, stop):
        if here is not None:
            here[1] = i
        r = run_case(_MODULE, kind, i, seed, mon)
        if mon.case is not None and len(mon.samples) < 1 and r is None:
            mon.samples.append({"kind": kind, "index": i, "case": jsonable(mon.case)})
        if r is not None:
            out.append((kind, i, r, jsonable(mon.case)))
            if len(out) >= 3:
                break
    return mon.counts, mon.keys, mon.samples, mon.known, mon.maxerr, out


def _worker(tasks, nxt, conn, here):
    """takes the next task until none is left; `here` tells the parent which case is running, should the process die in it"""
    while True:
        with nxt.get_lock():
            q = nxt.value
            nxt.value += 1
        if q >= len(tasks):
            break
        t = tasks[q]
        here[0] = sorted(_MODULE.KINDS).index(t[0])
        conn.send(_work(t, here))
    conn.send(None)
    conn.close()
    os._exit(0)


def _run_all(tasks, jobs, deadline, stop_after):
    """yields ('result', r), ('died', kind, index, exitcode) or ('late',)"""
    ctx = mp.get_context("fork")
    procs = {}
    nxt = ctx.Value("q", 0)
    for k in range(min(jobs, len(tasks))):
        r, w = ctx.Pipe(duplex=False)
        here = ctx.Array("q", [0, -1], lock=False)
        p = ctx.Process(target=_worker, args=(tasks, nxt, w, here), daemon=True)
        p.start()
        w.close()
        procs[r] = (p, here)
    try:
        while procs:
            left = deadline - time.time()
            ready = multiprocessing.connection.wait(list(procs), timeout=max(0.0, left)) if left > 0 else []
            if not ready:
                yield ("late",)
                return
            for c in ready:
                p, here = procs[c]
                try:
                    r = c.recv()
                except EOFError:
                    p.join()
                    del procs[c]
                    yield ("died", sorted(_MODULE.KINDS)[here[0]], int(here[1]), p.exitcode)
                    continue
                if r is None:
                    p.join()
                    del procs[c]
                else:
                    yield ("result", r)
            if stop_after():
                return
    finally:
        for p, _ in procs.values():
            p.kill()
            p.join()


def load_known():
    """known findings by property: {property: {key: text}}; 'fixed' entries suppress nothing"""
    path = os.path.join(VERIF, "known_findings.json")
    res = {}
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f)["findings"]:
                res.setdefault(e["property"], {})[e["key"]] = e["what"]
    return res


def main(module, tier, seed, jobs=None, only=None, scale=1.0):
    t0 = time.time()
    global _MODULE
    _MODULE = module
    prop = module.PROP
    if hasattr(module, "prepare"):
        module.prepare(tier)          # builds, sets the path up
    else:
        setup_path()
    if hasattr(module, "imports"):
        module.imports()
    jobs = jobs or int(os.environ.get("HV_JOBS", "0")) or min(8, os.cpu_count() or 1)
    tasks = []
    for kind, spec in module.KINDS.items():
        if only and kind != only:
            continue
        n = spec[1] if tier == "quick" else spec[2]
        n = max(1, int(n * scale))
        chunk = max(1, min(-(-n // (jobs * 4)), 50))
        for s in range(0, n, chunk):
            tasks.append((kind, s, min(n, s + chunk), seed))
    total = Monitor()
    problems = []
    limit = 780 if tier == "quick" else float(os.environ.get("HV_LIMIT", "3300"))
    stopped = False
    for msg in _run_all(tasks, jobs, t0 + limit, lambda: len([p for p in problems if p[2][0] == "violation"]) >= 12):
        if msg[0] == "late":
            stopped = True
        elif msg[0] == "died":
            _, kind, i, code = msg
            if code in CRASHES:
                problems.append((kind, i, ("violation", "process-crash", "the process died with %s" % signal.Signals(-code).name), None))
            else:
                problems.append((kind, i, ("harness", "a worker ended with exit code %r" % code), None))
        else:
            counts, keys, samples, known, maxerr, out = msg[1]
            for k, v in counts.items():
                total.event(k, v)
            total.keys |= keys
            total.samples += samples
            for k, (n, ex) in known.items():
                if k in total.known:
                    total.known[k][0] += n
                else:
                    total.known[k] = [n, ex]
            for k, v in maxerr.items():
                total.maxerr[k] = max(total.maxerr.get(k, 0.0), v)
            problems += out
    viol, harness, timeouts = [], [], []
    for kind, i, r, case in problems:
        {"violation": viol, "harness": harness, "timeout": timeouts}[r[0]].append((kind, i, r, case))
    # known findings observed but not listed are violations
    listed = load_known().get(prop, {})
    for k, (n, ex) in sorted(total.known.items()):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s [%s, seen in %d executions]" % (prop, listed[k], k, n))
        else:
            viol.append(("known", 0, ("violation", "unlisted-finding", "%s: %s" % (k, ex)), None))
    missing = [k for k in getattr(module, "MUST_SEE", []) if not total.counts.get(k)]
    coverage = {
        "evaluations": total.counts.get("executions", 0),
        "distinct_nontrivial": len(total.keys),
        "rule": module.RULE,
        "samples": sorted(total.samples, key=lambda s: (s["kind"], s["index"]))[:6],
        "observed": {k: v for k, v in sorted(total.counts.items())},
        "worst_error_over_tolerance": {k: float("%.3g" % v) for k, v in sorted(total.maxerr.items())},
    }
    if total.known:
        coverage["known_findings_seen"] = {k: v[0] for k, v in total.known.items()}
    if hasattr(module, "extra_coverage"):
        coverage.update(module.extra_coverage())
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "assumptions": getattr(module, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    evdir = os.environ.get("HV_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if viol:
        rdir = os.environ.get("HV_REPLAYS", os.path.join(VERIF, "replays"))
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for kind, i, r, case in sorted(viol, key=lambda v: (v[0], v[1])):
            if (kind, r[1]) in seen:
                continue
            seen.add((kind, r[1]))
            path = os.path.join(rdir, "%s-%s-%d-%d.json" % (prop, kind, seed, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "kind": kind, "index": i, "seed": seed, "tier": tier, "oracle": r[1],
                           "detail": r[2], "case": case}, f, indent=1, ensure_ascii=False)
            print("  [%s #%d] %s: %s" % (kind, i, r[1], r[2][-1500:]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if harness or timeouts or stopped or missing:
        for h in harness[:2]:
            print("HARNESS-ERROR %s #%d\n%s" % (h[0], h[1], h[2][1]))
        if timeouts:
            print("INCONCLUSIVE: %d executions hit the per-case watchdog, first %s #%d" % (len(timeouts), timeouts[0][0], timeouts[0][1]))
        if stopped:
            print("INCONCLUSIVE: watchdog stopped the run after %.0f s" % (time.time() - t0))
        if missing:
            print("INCONCLUSIVE: never observed %s" % ", ".join(missing))
        return 2
    print("OK property=%s tier=%s seed=%d executions=%d distinct=%d oracles=%d wall=%.1fs" % (
        prop, tier, seed, coverage["evaluations"], coverage["distinct_nontrivial"],
        sum(v for k, v in total.counts.items() if k.startswith("oracle:")), time.time() - t0))
    return 0
