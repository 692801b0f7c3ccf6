"""C14: the compiled element kernels are memory-safe, complete, deterministic and equal to their formulation."""
import ctypes
import importlib
import json
import os
import subprocess
import sys
import concurrent.futures
import numpy as np
from hv import core, ext, shellref as S
from hv.core import Skip, Violation

PROP = "C14"
RULE = ("the six compiled kernels, rebuilt from the tree, called on random elements (ordinary, far from the origin, tiny and huge, degenerate) with poisoned heap "
        "memory and interleaved calls, and again in a build with AddressSanitizer and UndefinedBehaviorSanitizer in a process of its own; non-trivial: every call "
        "on a proper element; distinct by arguments")
NAMES = {"metaT9": (3, 6, False), "metaDKT": (3, 9, True), "metaGQ12": (4, 12, True), "metaDKQ": (4, 12, True), "metaTMQb": (4, 12, True), "metaTMQs": (4, 12, True)}
MUST_SEE = ["oracle:equals-formulation", "oracle:every-entry-written", "oracle:repeatable", "oracle:earlier-result-untouched", "oracle:no-sanitizer-report", "oracle:symmetric",
            "oracle:integers-as-floats", "oracle:wrong-arguments-raise", "oracle:symbolic-formulation", "sanitized calls"] + ["kernel:" + k for k in NAMES]
ASSUMPTIONS = ["gcc AddressSanitizer and UndefinedBehaviorSanitizer see what instrumented kernel code does; numpy and the interpreter are not instrumented",
               "formulations re-derived in numpy; the recorded defects of T9, DKQ and GQ12 count as formulation here (they are decided under C13 and C17)"]
SAN = None


def prepare(tier):
    global SAN
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(ext.build), ex.submit(ext.build, True)
        core.setup_path(a.result())
        SAN = b.result()
    for e in NAMES:
        assert "hv_ext_" in importlib.import_module(e).__file__


def reference(name):
    """the formulations that count: published, and as recorded"""
    return {"metaT9": [lambda E, mu, t, a, b, X: S.t9(E, mu, t, X, True), lambda E, mu, t, a, b, X: S.t9(E, mu, t, X, False)],
            "metaDKT": [S.dkt],
            "metaGQ12": [lambda *p: S.gq12(*p, False), lambda *p: S.gq12(*p, True)],
            "metaDKQ": [lambda *p: S.dkq(*p, True), lambda *p: S.dkq(*p, False)],
            "metaTMQb": [S.tmqb], "metaTMQs": [S.tmqs]}[name]


def args(rng, name, far=True):
    n, size, nat = NAMES[name]
    while True:
        X = np.array([[-1.0, -1], [1, -1], [1, 1], [-1, 1]])[:n] * [1, 10 ** rng.uniform(-0.7, 0.7)] + rng.uniform(-0.3, 0.3, size=(n, 2))
        a = rng.uniform(0, 2 * np.pi)
        X = X @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])
        e = np.roll(X, -1, axis=0) - X
        f = np.roll(e, -1, axis=0)
        if np.all(e[:, 0] * f[:, 1] - e[:, 1] * f[:, 0] > 0.15 * np.linalg.norm(e, axis=1) * np.linalg.norm(f, axis=1)):
            break
    L = 10 ** rng.uniform(-2, 2)
    X = np.roll(X, int(rng.integers(n)), axis=0) * L
    if far and rng.random() < 0.3:
        X = X + rng.normal(size=2) * L * 20
    E, mu, t = 10 ** rng.uniform(0, 11), rng.choice([0.0, rng.uniform(0, 0.49)]), L * 10 ** rng.uniform(-3, 0)
    xi, eta = rng.uniform(0, 1, 2) if n == 3 else rng.uniform(-1, 1, 2)
    if n == 3 and xi + eta > 1:
        xi, eta = 1 - xi, 1 - eta
    if rng.random() < 0.15:
        xi, eta = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)][int(rng.integers(3))]
    if name == "metaT9":
        E = 10 ** rng.uniform(0, 11)
    return float(E), float(mu), float(t), float(xi), float(eta), X


def call(name, E, mu, t, xi, eta, X):
    nat = (xi, eta) if NAMES[name][2] else ()
    return importlib.import_module(name).autofunc_c(E, mu, t, *nat, *[float(v) for v in np.asarray(X).ravel()])


def pick(rng):
    return sorted(NAMES)[int(rng.integers(6))]


def formulation(rng, m):
    name = pick(rng)
    p = args(rng, name)
    m.describe(kernel=name, arguments=list(p[:5]) + [p[5].tolist()])
    K = call(name, *p)
    n, size, nat = NAMES[name]
    m.same("shape", K.shape, (size, size))
    refs = [f(*p) for f in reference(name)]
    m.event("oracle:equals-formulation")
    far = 1 + np.max(np.abs(p[5])) / np.max(np.abs(p[5] - p[5][0]))
    ok = False
    worst = None
    for R in refs:
        g = np.sqrt(np.abs(np.diag(R)))
        lim = 1e-9 * far**2 * np.outer(g, g) + 1e-11 * far**2 * np.max(np.abs(R)) * 1e-3
        e = np.abs(K - R)
        if np.all(e <= lim):
            ok = True
            break
        if worst is None:
            k = np.unravel_index(int(np.nanargmax(np.where(np.isfinite(e), e / (lim + 1e-300), np.inf))), e.shape)
            worst = "entry %s is %.12g, formulation gives %.12g" % (tuple(int(v) for v in k), K[k], R[k])
    if not ok:
        raise Violation("equals-formulation", "%s: %s" % (name, worst))
    g = np.sqrt(np.abs(np.diag(K)))
    m.true("symmetric", np.all(np.abs(K - K.T) <= 1e-10 * far**2 * np.outer(g, g) + 1e-13 * far**2 * np.max(np.abs(K))), name)
    m.event("kernel:" + name)
    m.distinct(name, p[:5], p[5].tolist())


LIBC = ctypes.CDLL(None)
LIBC.malloc.restype = ctypes.c_void_p
LIBC.malloc.argtypes = [ctypes.c_size_t]
LIBC.free.argtypes = [ctypes.c_void_p]


def poison(size, value):
    """leave freed blocks of this size, filled with a value, where the next allocations are served from: both the C heap's and numpy's free lists"""
    blocks = [LIBC.malloc(size) for _ in range(20)]
    pat = np.full(size // 8, value)
    for b in blocks:
        ctypes.memmove(b, pat.ctypes.data, size)
    arrays = [np.full((int(round((size // 8)**0.5)),) * 2, value) for _ in range(20)]
    del arrays
    for b in blocks:
        LIBC.free(b)


def memory(rng, m):
    name = pick(rng)
    n, size, nat = NAMES[name]
    p = args(rng, name)
    m.describe(kernel=name, arguments=list(p[:5]) + [p[5].tolist()])
    res = []
    for v in (np.nan, 1.25e77, -3.5):
        poison(size * size * 8, v)
        res.append(call(name, *p))
    m.true("every-entry-written", np.all(np.isfinite(res[0])), lambda: "%s left entries %s to what the memory held before" % (name, np.argwhere(~np.isfinite(res[0]))[:5].tolist()))
    for r in res[1:]:
        m.true("every-entry-written", np.array_equal(res[0], r), lambda: "%s: entries %s depend on what the memory held before" % (name, np.argwhere(res[0] != r)[:5].tolist()))
    # repeatable whatever is called between; earlier results stay
    keep = res[0].copy()
    for _ in range(int(rng.integers(1, 6))):
        q = pick(rng)
        call(q, *args(rng, q))
    again = call(name, *p)
    m.true("repeatable", np.array_equal(again, keep), lambda: "%s: a later call with the same arguments differs at %s" % (name, np.argwhere(again != keep)[:5].tolist()))
    m.true("earlier-result-untouched", np.array_equal(res[0], keep) and not np.shares_memory(again, res[0]), name)
    again[:] = 7
    m.true("earlier-result-untouched", np.array_equal(call(name, *p), keep), "writing to a result changes later calls of %s" % name)
    m.event("kernel:" + name)
    # integers mean the same as floats
    base = [[-2, -1], [3, -2], [2, 3], [-1, 2]][:n]
    ints = [int(rng.integers(1, 100)), 0, int(rng.integers(1, 5))] + ([0, 0] if nat else []) + [v for q in base for v in q]
    f = importlib.import_module(name).autofunc_c
    m.true("integers-as-floats", np.array_equal(f(*ints), f(*[float(v) for v in ints])), name)
    for bad in ((), ints[:-1], ints + [1], ["x"] * len(ints), [None] * len(ints)):
        try:
            f(*bad)
            raised = False
        except TypeError:
            raised = True
        m.true("wrong-arguments-raise", raised, "%s accepted %r" % (name, bad))
    m.distinct(name, p[:5], p[5].tolist())


def walk(rng, m):
    """one argument changed at a time, then the same calls in another order: no call may remember another"""
    name = pick(rng)
    n, size, nat = NAMES[name]
    p = args(rng, name)
    m.describe(kernel=name, arguments=list(p[:5]) + [p[5].tolist()])
    steps, seen = [], []
    p = [*p[:5], *p[5].ravel()]
    L = np.max(np.abs(np.ptp(np.reshape(p[5:], (-1, 2)), axis=0)))
    for k in [int(v) for v in rng.permutation(len(p))]:
        steps.append(list(p))
        q = list(p)
        if not nat and k in (3, 4):
            continue
        small = rng.random() < 0.3
        if k in (0, 2):
            q[k] *= 1 + (1e-12 if small else rng.uniform(0.1, 2))
        elif k < 5:
            q[k] = q[k] + 1e-12 if small else float(rng.uniform(0, 0.45))
        else:
            q[k] += L * (1e-12 if small else 0.02 * rng.normal())
        steps.append(q)
        if rng.random() < 0.5:
            p = q
    do = lambda q: call(name, *q[:5], np.reshape(q[5:], (-1, 2)))
    seen = [do(q) for q in steps]
    other = str(rng.choice(sorted(NAMES)))
    for k in [int(v) for v in rng.permutation(len(steps))]:
        if rng.random() < 0.3:
            call(other, *args(rng, other))
        m.true("repeatable", np.array_equal(do(steps[k]), seen[k]), lambda: "%s: the same arguments gave other numbers when asked in another order: %r" % (name, steps[k]))
    f = reference(name)
    for q, K in zip(steps, seen):
        refs = [r(*q[:5], np.reshape(q[5:], (-1, 2))) for r in f]
        far = 1 + np.max(np.abs(q[5:])) / L
        e = min(float(np.max(np.abs(K - R)) / np.max(np.abs(R))) for R in refs)
        m.true("equals-formulation", e < 1e-7 * far ** 2, lambda: "%s after a call that differs in one argument: off by %g of the largest entry, arguments %r" % (name, e, q))
    m.event("kernel:" + name)
    m.distinct(name, steps)


def sanitized(rng, m):
    seed, calls = int(rng.integers(2**31)), 300
    m.describe(seed=seed, calls=calls)
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    ub = subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
    out = os.path.join(m.tmp(), "report")
    env = dict(os.environ, LD_PRELOAD=lib + " " + ub, PYTHONMALLOC="malloc", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:log_path=" + out,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:halt_on_error=1:exitcode=99:log_path=" + out)
    r = subprocess.run([sys.executable, os.path.join(core.VERIF, "checks", "c14_san.py"), SAN, str(seed), str(calls)], env=env, capture_output=True, text=True, timeout=400)
    rep = ""
    d = os.path.dirname(out)
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), errors="replace") as h:
            rep += h.read()
    m.event("oracle:no-sanitizer-report")
    if "ERROR: AddressSanitizer" in rep or "runtime error" in rep or "runtime error" in r.stderr:
        raise Violation("no-sanitizer-report", (rep + r.stderr)[:2500])
    if r.returncode < 0 and r.returncode in core.CRASHES:
        raise Violation("process-crash", "signal %d\n%s" % (-r.returncode, r.stderr[-1500:]))
    if "ACCEPTED" in r.stdout:
        raise Violation("wrong-arguments-raise", r.stdout[:500])
    if r.returncode or "DONE" not in r.stdout:
        if "AssertionError" in r.stderr or "metaT9" in r.stderr:
            raise Violation("sanitized-run", r.stderr[-1500:])
        raise OSError(12, "sanitized driver: exit %d\n%s\n%s" % (r.returncode, rep[-1500:], r.stderr[-1500:]))
    c = json.loads(r.stdout.split("DONE ")[1])
    m.event("sanitized calls", sum(v for k, v in c.items() if k in NAMES))
    for k in NAMES:
        m.true("sanitized-run", c.get(k) == calls, "%s: %r" % (k, c))
    m.distinct(seed)


FORMULA = [("metaT9", "membranes.T9", ("BDB", "BDB_")), ("metaDKT", "plates.metaDKT", ("BDB", "BDB_")), ("metaGQ12", "membranes.GQ12", ("BDB_", "BDB")),
           ("metaDKQ", "plates.metaDKQ", ("BDB", "BDB_")), ("metaTMQb", "plates.TMQ", ("BDBb",)), ("metaTMQs", "plates.TMQ", ("BCBs",))]


def symbolic(k):
    def run(rng, m):
        """the symbolic formulation in the sources is what the compiled kernel computes"""
        import sympy
        name, mod, cands = FORMULA[k]
        f = importlib.import_module("hyperstatic.core.fe_model.meta." + mod)
        E, mu, t, xi, eta, X = args(rng, name, far=False)
        vals = dict(E=E, mu=mu, t=t, xi=xi, eta=eta, **{"%s%d" % (c, i + 1): X[i, j] for i in range(len(X)) for j, c in enumerate("xy")})
        K = call(name, E, mu, t, xi, eta, X)
        n = len(K)
        entries = [(i, j) for i in range(n) for j in range(i, n)] + [tuple(int(v) for v in rng.integers(n, size=2)) for _ in range(12)]
        best = None
        for c in cands:
            M = getattr(f, c, None)
            if M is None:
                continue
            M = sympy.Matrix(M)
            if M.shape != K.shape or {s.name for s in M.free_symbols} - set(vals):
                continue
            sub = {s: sympy.Float(vals[s.name], 17) for s in M.free_symbols}
            e = max(abs(float(M[i, j].xreplace(sub).evalf()) - K[i, j]) for i, j in entries) / float(np.max(np.abs(K)))
            best = e if best is None else min(best, e)
        m.describe(kernel=name, arguments=[E, mu, t, xi, eta, X.tolist()], error=best)
        if best is None:
            raise Skip()          # the formulation is kept under another name
        m.true("symbolic-formulation", best < 1e-9, "%s differs from the symbolic matrix it was generated from by %g of its largest entry" % (name, best))
        m.event("symbolic:" + name)
        m.distinct(name, vals)
    return run


KINDS = {"formulation": (formulation, 2000, 60000), "memory": (memory, 800, 20000), "walk": (walk, 150, 6000), "sanitized": (sanitized, 8, 80)}
KINDS.update({"symbolic" + FORMULA[k][0][4:]: (symbolic(k), 1, 4) for k in range(6)})
TIMEOUT = 500
