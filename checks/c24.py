"""C24: time histories."""
import os
import numpy as np
from scipy.linalg import expm, eigh
from hv import gen, ref
from hv.core import Skip
from checks.c01 import draw
from checks.c09 import rot_only

PROP = "C24"
RULE = ("random frames with mass in every free direction under load patterns that follow random, harmonic, impulsive and ramped curves of different lengths, integrated "
        "with steps below the stability limit; non-trivial: something moves; distinct by structure, curves, step and damping")
MUST_SEE = ["hundreds of steps", "oracle:equation-of-motion", "oracle:starts-at-rest", "oracle:one-row-per-step", "oracle:read-back", "oracle:end-forces-of-the-step", "oracle:reactions-of-the-step",
            "oracle:curve-samples", "oracle:exact-solution", "oracle:settles-to-static", "oracle:decay-by-damping-ratio", "oracle:energy-kept-without-damping", "oracle:linear-in-loads",
            "oracle:later-loads-change-nothing-before", "oracle:later-loads-same-later", "oracle:other-cases-change-nothing", "executions:equation", "executions:physics", "executions:laws",
            "undamped", "damped", "several curves", "curves of different lengths", "member loads", "case restraints", "free directions not six"]
ASSUMPTIONS = ["central differences with Rayleigh damping whose ratio at periods of 1 s and 2 s is the case's; the state before the start is rest or that of the first load",
               "curves are sampled once per step of the case; as many steps as the shortest curve has samples", "mass in every free direction, steps below the stability limit",
               "reference: stiffness, masses and loads of lib/hv/ref.py"]


def imports():
    import hyperstatic.core, hyperstatic.core.fe_solver.dynamic, hyperstatic.core.fe_post.node, hyperstatic.core.fe_post.beam


class Sys:
    """matrices over the free directions of one case; released ends eliminated"""

    def __init__(self, spec, case):
        self.spec, self.case = spec, case
        self.frame = f = ref.Frame(spec)
        K = f.K()
        self.a, self.b = np.arange(f.n), np.arange(f.n, f.ntot)
        self.Kbb, self.Kba = K[np.ix_(self.b, self.b)], K[np.ix_(self.b, self.a)]
        self.Kaa = K[np.ix_(self.a, self.a)]
        if len(self.b):
            self.Kaa = self.Kaa - self.Kba.T @ np.linalg.solve(self.Kbb, self.Kba)
        self.fix = f.fixed(case)
        self.free = np.setdiff1d(self.a, self.fix)
        self.M = f.M_lumped()[np.ix_(self.free, self.free)]
        self.K = self.Kaa[np.ix_(self.free, self.free)]

    def full(self, u):
        out = np.zeros(self.frame.n)
        out[self.free] = u
        return out

    def loads(self, factors):
        f = self.frame.case_f(dict(self.case, patterns=factors))
        g = f[:self.frame.n].copy()
        if len(self.b):
            g -= self.Kba.T @ np.linalg.solve(self.Kbb, f[self.b])
        return f, g

    def everything(self, u, f):
        """released ends too, at forces `f` over all unknowns"""
        x = self.full(u)
        return np.r_[x, np.linalg.solve(self.Kbb, f[self.b] - self.Kba @ x)] if len(self.b) else x

    def periods(self):
        w2 = eigh(self.K, self.M, eigvals_only=True)
        if not w2[0] > 0:
            raise Skip()
        return 2 * np.pi / np.sqrt(w2)[::-1]      # ascending

    def damping(self, xi):
        wi, wj = np.pi, 2 * np.pi           # periods of 2 s and 1 s
        return 2 * xi * wi * wj / (wi + wj) * self.M + 2 * xi / (wi + wj) * self.K


def fresh(rng, m, alike=(0.5, 2), tame=False, **kw):
    """a frame that has mass in every free direction, such that none of its periods is far from the others"""
    for _ in range(40):
        spec, frame = draw(rng, m, ncases=2, npatterns=int(rng.integers(1, 4)), nmax=int(rng.integers(2, 6)), masses=True, case_rest=0.3, rotations=0.2, wide="metres",
                           names=bool(rng.random() < 0.3), **kw)
        if rng.random() < 0.5:
            rot_only(spec)
        case = spec["cases"][list(spec["cases"])[0]]
        T = float(10 ** rng.uniform(-0.5, 0.5))
        K = ref.Frame(spec).K()
        d = np.diag(K)[:frame.n] * (T / 2 / np.pi) ** 2 * rng.uniform(*alike, frame.n)
        spec["mass"] = {n: [float(x) for x in d[6 * k:6 * k + 6]] for k, n in enumerate(frame.names)}
        if tame or rng.random() < 0.5:
            for b in spec["beams"]:
                b["rho"] = float(1e-4 * np.min(d[d > 0]) / (b["A"] * spec["L"]))
        s = Sys(spec, case)
        # (members give rotations the mass 1e-12 at either end)
        if not len(s.free) or np.any(np.diag(s.M) <= 1e-4) or s.frame.blur > 1e-13:
            continue
        dg = 1 / np.sqrt(np.diag(s.K))
        if np.linalg.cond(s.K * np.outer(dg, dg)) > 1e6:
            continue
        m.event("free directions %s six" % ("are" if len(s.free) == 6 else "not"))
        if case["rest"]:
            m.event("case restraints")
        return spec, case, s
    raise Skip()


def curve(rng, m, n, dt):
    k = np.arange(n)
    kind = int(rng.integers(7))
    if kind == 6:
        from hyperstatic.common.curve import Curve
        A, w, phi = float(rng.uniform(-3, 3)), float(2 * np.pi / dt / rng.uniform(4, 80)), float(rng.uniform(-10, 10))
        which = ["sin", "cos"][int(rng.integers(2))]
        got = getattr(Curve, which)("c", A, w, phi, dt, n)
        y = A * getattr(np, which)(w * k * dt + phi)
        m.close("curve-samples", got.to_array(), [k * dt, y], 1e-10, np.array([[n * dt], [abs(A)]]) * np.ones(n), "%s %g %g %g" % (which, A, w, phi))
        m.same("curve-samples", (got.name, np.array_equal([got.x, got.y], got.to_array())), ("c", True))
        return got.to_array()
    if kind == 0:
        y = rng.normal(size=n)
    elif kind == 1:
        y = np.sin(2 * np.pi * k / rng.uniform(4, 60) + rng.uniform(0, 6))
    elif kind == 2:
        y = np.where(k == rng.integers(0, max(1, n // 2)), 1.0, 0.0)
    elif kind == 3:
        y = np.minimum(k / rng.integers(1, n + 1), 1.0)
    elif kind == 4:
        y = np.ones(n)
    else:
        y = np.cumsum(rng.normal(size=n)) * (rng.random(n) < 0.7)
    y = y * float(rng.choice([1.0, rng.uniform(-3, 3)]))
    if rng.random() < 0.3:
        y[0] = 0.0
    if rng.random() < 0.2:
        y[n - int(rng.integers(n)):] = 0.0
    if kind == 4 and rng.random() < 0.5:
        return np.vstack([np.arange(n), np.ones(n)]).astype(int)
    return np.vstack([k * dt, y])


def history(name, case, pats, curves, dt, xi, rng=None):
    from hyperstatic.core.fe_model.load.loadcase import TimeHistoryCase
    lc = TimeHistoryCase(name)
    for p, factor in case["patterns"].items():
        lc.add_pattern(pats[p], factor, curves[p])
    for n, r in case["rest"].items():
        gen.spell(rng or np.random.default_rng(1), lc.set_nodal_restraint, n, *r)
    lc.use_direct_time_integration(dt, xi)
    return lc


def run(spec, cases, path, which=None, before=(), rng=None):
    """`cases`: (name, case, curves, dt, xi); rows of each"""
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_solver.dynamic import TimeHistorySolver
    pats = gen.build_patterns(spec)
    lcs = [history(n, c, pats, cv, dt, xi, rng) for n, c, cv, dt, xi in cases]
    asb = Assembly(gen.build_model(spec), list(before) + lcs)
    asb.save(path, "w.asb")
    out = {}
    kept = TimeHistorySolver(path, "w.asb") if rng is not None and rng.random() < 0.6 else None
    for n in which or [c[0] for c in cases]:
        (kept or TimeHistorySolver(path, "w.asb")).solve(n)
        out[n] = np.load(os.path.join(path, n + ".d.npy"))
    return out


def equation(rng, m):
    from hyperstatic.core.fe_post.node import NodeResultResolver
    from hyperstatic.core.fe_post.beam import BeamResultResolver
    spec, case, s = fresh(rng, m, alike=(0.3, 30) if rng.random() < 0.5 else (0.5, 2), releases=0.1)
    T = s.periods()
    dt = float(T[0] / np.pi * rng.uniform(0.05, 0.9))
    xi = float(rng.choice([0.0, rng.uniform(0.001, 0.1), rng.uniform(0.1, 0.9)], p=[0.2, 0.6, 0.2]))
    n = int(rng.choice([1, 2, rng.integers(3, 12), rng.integers(12, 60), rng.integers(60, 200), rng.integers(270, 1100)], p=[0.03, 0.03, 0.39, 0.48, 0.05, 0.02]))
    curves = {p: curve(rng, m, n + (int(rng.integers(0, 5)) if rng.random() < 0.4 else 0), dt) for p in case["patterns"]}
    n = min(c.shape[1] for c in curves.values())
    m.describe(spec=spec, case=case, curves=curves, dt=dt, xi=xi)
    keep = {p: c.copy() for p, c in curves.items()}
    path = m.tmp()
    other = [(str(c), spec["cases"][c], {p: curve(rng, m, 4, dt) for p in spec["cases"][c]["patterns"]}, dt, xi) for c in list(spec["cases"])[1:]]
    mine = ("history", case, curves, dt, xi)
    u = run(spec, [mine] + other if rng.random() < 0.5 else other + [mine], path, ["history"], rng=rng)["history"]
    m.same("one-row-per-step", u.shape, (n + 1, len(s.free)), "%d samples" % n)
    m.true("starts-at-rest", np.all(u[0] == 0), "%r" % u[0])
    m.same("curves-untouched", all(np.array_equal(keep[p], curves[p]) for p in keep), True)
    C = s.damping(xi)
    F = [s.loads({p: factor * curves[p][1, k] for p, factor in case["patterns"].items()}) for k in range(n)]
    tol = 1e-9 + 300 * s.frame.blur
    for k in range(n):
        f = F[k][1][s.free]
        befores = [u[k - 1]] if k else [np.zeros(len(f)), dt * dt / 2 * np.linalg.solve(s.M, f)]
        rs = []
        for was in befores:
            terms = [s.M @ (u[k + 1] - 2 * u[k] + was) / dt ** 2, C @ (u[k + 1] - was) / (2 * dt), s.K @ u[k], -f]
            lim = (np.abs(s.M) @ (np.abs(u[k + 1]) + 2 * np.abs(u[k]) + np.abs(was)) / dt ** 2 + np.abs(C) @ (np.abs(u[k + 1]) + np.abs(was)) / (2 * dt)
                   + np.abs(s.K) @ np.abs(u[k]) + np.abs(f))
            lim = lim + 1e-3 * (np.linalg.norm(lim / (1e-300 + np.diag(s.K))) * np.diag(s.K)) + 1e-300
            lim = lim + 4e-12 * len(spec["beams"]) / tol * (np.abs(u[k + 1]) + 2 * np.abs(u[k]) + np.abs(was)) / dt ** 2
            rs.append((sum(terms), lim))
        r, lim = min(rs, key=lambda x: np.max(np.abs(x[0]) / x[1]))
        m.close("equation-of-motion", r, np.zeros(len(f)), tol, lim, "step %d of %d" % (k, n))
    m.event("steps", n)
    if n > 256:
        m.event("hundreds of steps")
    res, bres = NodeResultResolver(path, "w.asb"), BeamResultResolver(path, "w.asb")
    for k in {0, n - 1, n, int(rng.integers(n + 1)), int(rng.integers(n + 1))}:
        d = np.hstack([res.resolve_nodal_displacement(q, "history", k + 1) for q in s.frame.names])
        m.close("read-back", d, s.full(u[k]), 1e-14, None, "step %d" % k)
        if k == n:
            continue        # no load is defined beyond the last sample of every curve
        f, g = F[k]
        x = s.everything(u[k], f)
        now = dict(case, patterns={p: factor * curves[p][1, k] for p, factor in case["patterns"].items()})
        for b in s.frame.geo:
            G = s.frame.geo[b]
            e = s.frame.end_force(now, b, x)
            lim = np.abs(G["k"]) @ np.abs(s.frame.gather(b) @ x) + np.abs(s.frame.case_member_f(now, b))
            lim = np.linalg.norm(lim.reshape(2, 2, 3), axis=(0, 2)).repeat(3)
            lim = np.r_[lim, lim] + np.linalg.norm(lim) * 1e-3 + 1e-300
            m.close("end-forces-of-the-step", bres.resolve_beam_end_force(b, "history", k + 1), e, 1e-8 + 1e4 * s.frame.blur, lim, "%s step %d" % (b, k))
        if xi == 0 and s.fix:
            r = s.Kaa @ s.full(u[k]) - g
            lim = np.abs(s.Kaa) @ np.abs(s.full(u[k])) + np.abs(g)
            lim = lim + np.linalg.norm(lim) * 1e-3 + 1e-300
            got = np.hstack([res.resolve_nodal_reaction(q, "history", k + 1) for q in s.frame.names])
            m.close("reactions-of-the-step", got[s.fix], r[s.fix], 1e-8 + 1e4 * s.frame.blur, lim[s.fix], "step %d" % k)
    if rng.random() < 0.3:
        q = s.frame.names[int(rng.integers(len(s.frame.names)))]
        at = 6 * s.frame.id[q] + np.arange(6)
        for k in range(n + 1):
            m.close("read-back", res.resolve_nodal_displacement(q, "history", k + 1), s.full(u[k])[at], 1e-14, None, "%s step %d" % (q, k))
    m.event("damped" if xi else "undamped")
    if len(curves) > 1:
        m.event("several curves")
        if len({c.shape[1] for c in curves.values()}) > 1:
            m.event("curves of different lengths")
    if any(spec["patterns"][p]["dist"] or spec["patterns"][p]["conc"] for p in case["patterns"]):
        m.event("member loads")
    if np.any(u):
        m.distinct(spec["nodes"], spec["beams"], case, {p: c.tolist() for p, c in curves.items()}, dt, xi)


def exact(s, C, F, dt):
    """displacements at the steps under loads that run linearly between the samples"""
    n = len(s.free)
    S = np.diag(1 / np.sqrt(np.diag(s.M)))          # unit masses
    M, K, C = S @ s.M @ S, S @ s.K @ S, S @ C @ S
    Mi = np.linalg.inv(M)
    A = np.zeros((4 * n, 4 * n))                    # state: displacement, velocity, load, its slope
    A[:n, n:2 * n] = np.eye(n)
    A[n:2 * n, :n], A[n:2 * n, n:2 * n], A[n:2 * n, 2 * n:3 * n] = -Mi @ K, -Mi @ C, Mi
    A[2 * n:3 * n, 3 * n:] = np.eye(n)
    P = expm(A * dt)
    x = np.zeros(2 * n)
    out = [x[:n].copy()]
    for f, g in zip(F[:-1], F[1:]):
        x = (P @ np.r_[x, S @ f, S @ (g - f) / dt])[:2 * n]
        out.append(x[:n].copy())
    return np.array(out) @ S


def physics(rng, m):
    kind = ["exact", "static", "decay", "energy"][int(rng.integers(4))]
    spec, case, s = fresh(rng, m, tame=True)
    if kind == "decay":
        # one free direction only, of a period of 1 s or 2 s
        n = s.frame.names
        k = int(rng.choice(s.free))
        q = s.frame.K()
        if s.frame.ntot > s.frame.n:
            raise Skip()
        want = float(rng.choice([1.0, 2.0]))
        case = dict(case, rest={n[j]: [6 * j + c != k for c in range(6)] for j in range(len(n))})
        if k % 6 < 3:
            for b in spec["beams"]:
                b["rho"] = 0.0 if rng.random() < 0.5 else float(1e-9 * q[k, k] / (b["A"] * spec["L"]))
        spec["mass"] = {n[k // 6]: [float(q[k, k] * (want / 2 / np.pi) ** 2)] * 6}
        spec["patterns"] = {"push": dict(nodal={n[k // 6]: [float(c == k % 6) for c in range(6)]}, dist={}, conc={})}
        case["patterns"] = {"push": float(q[k, k])}
        spec["cases"] = {"one": case}
        s = Sys(spec, case)
    T = s.periods()
    if T[-1] / T[0] > 20:
        raise Skip()
    loads = lambda curves, n: np.array([s.loads({p: factor * curves[p][1, k] for p, factor in case["patterns"].items()})[1][s.free] for k in range(n)])
    go = lambda curves, dt, xi: run(spec, [("h", case, curves, dt, xi)], m.tmp())["h"]
    full = lambda n, dt, y: {p: np.vstack([np.arange(n) * dt, y]) for p in case["patterns"]}
    if kind == "exact":
        dt = float(T[0] / 40)
        n = int(min(3 * T[-1] / dt, 700))
        t = np.arange(n) * dt
        curves = {p: np.vstack([t, np.sin(2 * np.pi * t / (T[0] * rng.uniform(1, 5))) * float(rng.uniform(0.5, 2))]) for p in case["patterns"]}
        xi = float(rng.uniform(0, 0.3))
        m.describe(spec=spec, case=case, curves=curves, dt=dt, xi=xi)
        u = go(curves, dt, xi)
        F = loads(curves, n)
        e = exact(s, s.damping(xi), F, dt)
        big = np.sqrt(np.max(np.sum((e * np.sqrt(np.diag(s.M))) ** 2, axis=1)))
        m.close("exact-solution", (u[:n] - e) * np.sqrt(np.diag(s.M)), np.zeros_like(e), 0.06, big + 1e-300, "%d steps" % n)
    elif kind == "static":
        xi = float(rng.uniform(0.4, 0.9))
        C = s.damping(xi)
        w2, V = eigh(s.K, s.M)
        rate = np.min([c / 2 if c * c < 4 * w else c / 2 - np.sqrt(c * c / 4 - w) for c, w in zip(np.diag(V.T @ C @ V), w2)])
        dt = float(T[0] / np.pi * rng.uniform(0.2, 0.6))
        ramp, hold = 1.5 * T[-1], 9 / rate
        n = int((ramp + hold) / dt)
        if n > 2500:
            raise Skip()
        t = np.arange(n) * dt
        curves = full(n, dt, np.minimum(t / ramp, 1.0))
        m.describe(spec=spec, case=case, ramp=ramp, n=n, dt=dt, xi=xi)
        u = go(curves, dt, xi)
        want = np.linalg.solve(s.K, loads(curves, n)[-1])
        w = np.sqrt(np.diag(s.M))
        m.close("settles-to-static", u[-1] * w, want * w, 0.01, np.linalg.norm(want * w) + 1e-300, "%d steps" % n)
    elif kind == "decay":
        xi = float(rng.uniform(0.005, 0.25))
        dt = float(want / rng.uniform(200, 300))
        n = int(4.5 * want / dt)
        y = np.zeros(n)
        y[0] = 1.0
        m.describe(spec=spec, case=case, n=n, dt=dt, xi=xi, period=want)
        u = go(full(n, dt, y), dt, xi)[:, 0]
        c = np.nonzero((u[:-1] < 0) & (u[1:] >= 0) | (u[:-1] > 0) & (u[1:] <= 0))[0]
        at = c - u[c] / (u[c + 1] - u[c])
        wd = np.sqrt(1 - xi * xi)
        m.close("natural-period", np.diff(at) * dt, np.full(len(at) - 1, want / 2 / wd), 0.01, want / 2)
        peaks = [np.max(np.abs(u[a:b + 1])) for a, b in zip(c[:-1], c[1:])]
        m.true("decay-observed", len(peaks) >= 5, "%d peaks" % len(peaks))
        got = np.log(np.array(peaks[:-1]) / peaks[1:])
        m.close("decay-by-damping-ratio", got, np.full(len(got), np.pi * xi / wd), 0.004, 1.0, "xi %g, period %g" % (xi, want))
    else:
        dt = float(T[0] / np.pi * rng.uniform(0.1, 0.9))
        n = int(rng.integers(60, 200))
        k0 = int(rng.integers(1, 20))
        y = np.where(np.arange(n) < k0, rng.normal(size=n), 0.0)
        m.describe(spec=spec, case=case, n=n, dt=dt, y=y)
        u = go(full(n, dt, y), dt, 0.0)
        v = (u[k0 + 1:] - u[k0:-1]) / dt
        E = [0.5 * a @ s.M @ a + 0.5 * p @ s.K @ q for a, p, q in zip(v, u[k0:-1], u[k0 + 1:])]
        big = max(0.5 * a @ s.M @ a + 0.5 * np.abs(p @ s.K @ q) for a, p, q in zip(v, u[k0:-1], u[k0 + 1:]))
        m.close("energy-kept-without-damping", E, np.full(len(E), E[0]), 1e-6, big + 1e-300, "%d steps" % n)
    m.event("histories:" + kind)
    if np.any(u):
        m.distinct(spec["nodes"], spec["beams"], case, dt, kind)


def laws(rng, m):
    from hyperstatic.core.fe_model.load.loadcase import StaticCase
    spec, case, s = fresh(rng, m)
    T = s.periods()
    dt = float(T[0] / np.pi * rng.uniform(0.1, 0.8))
    xi = float(rng.choice([0.0, rng.uniform(0.01, 0.4)]))
    n = int(rng.integers(6, 30))
    cv = lambda: {p: curve(rng, m, n, dt) for p in case["patterns"]}
    A, B = cv(), cv()
    ab = {p: np.vstack([A[p][0], A[p][1] * 2.0 - B[p][1] * 0.5]) for p in A}
    k = int(rng.integers(1, n))
    shift = {p: np.vstack([np.arange(n + k) * dt, np.r_[np.zeros(k), A[p][1]]]) for p in A}
    late = {p: np.vstack([A[p][0], np.r_[A[p][1][:k], B[p][1][k:]]]) for p in A}
    scaled = dict(case, patterns={p: v * -3.0 for p, v in case["patterns"].items()})
    m.describe(spec=spec, case=case, A=A, B=B, k=k, dt=dt, xi=xi)
    cases = [("a", case, A, dt, xi), ("b", case, B, dt, xi), ("ab", case, ab, dt, xi), ("shift", case, shift, dt, xi), ("late", case, late, dt, xi), ("scaled", scaled, A, dt, xi)]
    # the same under another damping, or otherwise held
    cases.append(("damp", case, A, dt, xi + float(rng.uniform(0.05, 0.4))))
    rest = dict(case["rest"] or spec["rest"])
    for q in rest:
        rest[q] = [True] * 6
    q = spec["nodes"][int(rng.integers(len(spec["nodes"])))][0]
    rest[q] = [bool(v) for v in np.roll(rest.get(q, [True] + [False] * 5), int(rng.integers(6)))]
    cases.append(("held", dict(case, rest=rest), A, dt, xi))
    cases = [cases[int(q)] for q in rng.permutation(len(cases))]
    u = run(spec, cases, m.tmp(), rng=rng)
    w = np.sqrt(np.diag(s.M))
    size = max(np.max(np.abs(u[c[0]] * w)) for c in cases if c[0] != "held") + 1e-300
    m.close("linear-in-loads", (u["ab"] - 2 * u["a"] + 0.5 * u["b"]) * w, np.zeros_like(u["a"]), 1e-8, size, "sum")
    m.close("linear-in-loads", (u["scaled"] + 3 * u["a"]) * w, np.zeros_like(u["a"]), 1e-8, size, "factor")
    m.close("later-loads-change-nothing-before", u["late"][:k + 1], u["a"][:k + 1], 1e-13, np.max(np.abs(u["a"]), axis=0) + 1e-300, "from step %d" % k)
    m.close("later-loads-same-later", u["shift"][k:] * w, u["a"] * w, 1e-9, size, "by %d" % k)
    m.true("later-loads-same-later", not np.any(u["shift"][:k]), "moves before it is loaded")
    # alone, after a static solution in the same folder
    path = m.tmp()
    if rng.random() < 0.5:
        gen.solve_core(spec, path, list(spec["cases"])[0])
    st = StaticCase("st")
    st.set_nodal_restraint(spec["nodes"][0][0], *[True] * 6)
    for one in [("a", "damp", "held")[int(q)] for q in rng.permutation(3)[:2]]:
        alone = run(spec, [c for c in cases if c[0] == one], path, before=[st] if rng.random() < 0.5 else [])[one]
        m.same("other-cases-change-nothing", alone.shape, u[one].shape, one)
        m.close("other-cases-change-nothing", alone, u[one], 1e-12, np.max(np.abs(u[one]), axis=0) + 1e-300, one)
    if np.any(u["a"]):
        m.distinct(spec["nodes"], spec["beams"], case, {p: c.tolist() for p, c in A.items()}, dt, xi)


KINDS = {"equation": (equation, 800, 6400), "physics": (physics, 320, 2560), "laws": (laws, 240, 1920)}
