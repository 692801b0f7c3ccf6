"""C01: static displacements are the exact frame solution."""
import os
import numpy as np
from hv import gen, ref

PROP = "C01"
RULE = ("random space frames (2-8 nodes, lattice or free geometry, vertical and inclined members, simple and sectioned beams, "
        "rolled axes, partial supports, nodal + trapezoidal + point member loads, several patterns and factors) and buildings of up to 120 nodes, built and solved "
        "through the core classes or the Api facade; non-trivial: at least one free DOF moves; distinct by full spec")
MUST_SEE = ["oracle:displacement-equals-reference", "oracle:equilibrium-residual", "executions:core", "executions:api", "executions:chain", "executions:tower", "executions:large",
            "oracle:each-part-for-itself", "parts that hardly move"]
ASSUMPTIONS = ["reference frame solver of lib/hv/ref.py", "tolerance 1e-9 plus 1e-13 times the scaled condition number, frames above 1e7 are skipped",
               "default direct solver"]
CONDMAX = 1e7


def imports():
    import hyperstatic.core, hyperstatic.core.fe_solver.static


def compare(m, spec, frame, cname, d, what):
    case = spec["cases"][cname]
    K = frame.K()
    u, sc, cond = frame.solve(case, K)
    tol = 1e-9 + 1e-13 * cond
    floor = np.max(np.abs(u)) * 1e-300 + 1e-300
    m.close("displacement-equals-reference", d, u[:frame.n], tol, sc[:frame.n] + floor, what)
    fix = frame.fixed(case)
    m.true("restrained-dof-exactly-zero", np.all(d[fix] == 0), "a restrained DOF moved: %r" % d[fix])
    if frame.ntot == frame.n:
        f = frame.case_f(case)
        free = np.setdiff1d(np.arange(frame.n), fix)
        r = (K @ d - f)[free]
        lim = (np.abs(K) @ np.abs(d) + np.abs(f))[free]
        m.close("equilibrium-residual", r, np.zeros(len(r)), 1e-8, np.max(lim) * 0 + lim + 1e-3 * np.linalg.norm(lim) + 1e-300, what)
    if np.any(u):
        m.distinct(spec["nodes"], spec["beams"], spec["patterns"], case)
    return u


def well_posed(spec):
    frame = ref.Frame(spec)
    K = frame.K()
    for c in spec["cases"].values():
        u, sc, cond = frame.solve(c, K)
        if u is None or cond > CONDMAX:
            return None
    return frame


def draw(rng, m, names=False, **kw):
    from hv.core import Skip
    for _ in range(30):
        spec = gen.frame(rng, **kw)
        if names:
            spec = gen.relabel(rng, spec)
        frame = well_posed(spec)
        if frame is not None:
            return spec, frame
        m.event("redrawn: unstable or ill-conditioned")
    raise Skip()


def core(rng, m):
    spec, frame = draw(rng, m, names=True, rotations=0.25, ncases=2)
    m.describe(spec=spec)
    path = m.tmp()
    gen.assemble(spec, path)
    for c in spec["cases"]:
        d = gen.solve_core(spec, path, c, asb=False)
        m.same("stored-shape", d.shape, (1, frame.n))
        compare(m, spec, frame, c, d[0], "case " + c)
    m.event("beams", len(spec["beams"]))


def api(rng, m):
    spec, frame = draw(rng, m, names=True, ncases=2)
    m.describe(spec=spec)
    path = os.path.join(m.tmp(), "work")
    a = gen.build_api(spec, path, m)
    m.same("assemble-reports-success", a.assemble(), True)
    for c in spec["cases"]:
        m.same("solve-reports-success", a.solve_static(c), True)
        alld = a.result_get_all_nodal_displacement(c)
        m.same("all-nodes-reported", sorted(alld), sorted(frame.names))
        d = np.hstack([a.result_get_nodal_displacement(n, c) for n in frame.names])
        compare(m, spec, frame, c, d, "case " + c)
        m.same("bulk-equals-single", [list(alld[n]) for n in frame.names], d.reshape(-1, 6).tolist())


def chain(rng, m):
    """long members split in many elements, all in a line or a polygon: larger systems"""
    from hv.core import Skip
    n = int(rng.integers(8, 25))
    base = gen.frame(rng, nmax=2, loads=False, ncases=0, rotations=0)
    b0 = base["beams"][0]
    L = base["L"]
    names = ["k%d" % i for i in rng.permutation(n)]
    p = np.zeros(3)
    pts = [p]
    for _ in range(n - 1):
        step = rng.normal(size=3)
        step /= np.linalg.norm(step)
        p = p + step * L * rng.uniform(0.5, 1.5)
        pts.append(p)
    spec = dict(nodes=[(names[i], [float(v) for v in pts[i]]) for i in range(n)], beams=[], rest={}, patterns={}, cases={}, L=L)
    perm = rng.permutation(n)
    spec["nodes"] = [spec["nodes"][i] for i in perm]
    for i in range(n - 1):
        i1, i2 = (i, i + 1) if rng.random() < 0.5 else (i + 1, i)
        spec["beams"].append(dict(b0, name="b%d" % i, i=names[i1], j=names[i2], kind="simple" if rng.random() < 0.5 else "general"))
    spec["rest"] = {names[0]: [True] * 6, names[-1]: [bool(v) for v in rng.random(6) < 0.7], names[n // 2]: [bool(v) for v in rng.random(6) < 0.5]}
    for k in range(2):
        spec["patterns"]["p%d" % k] = gen.pattern(rng, spec, b0["E"], b0["A"], L)
    spec["cases"]["c"] = dict(patterns={"p0": 1.0, "p1": float(rng.normal())}, rest={})
    frame = well_posed(spec)
    if frame is None:
        raise Skip()
    m.describe(spec=spec)
    path = m.tmp()
    d = gen.solve_core(spec, path, "c")
    compare(m, spec, frame, "c", d[0], "chain of %d" % n)
    m.event("beams", len(spec["beams"]))



def line(rng, k):
    """members in a line along an axis: stretching, twisting and bending either way have nothing to do with one another"""
    n = int(rng.integers(2, 7))
    axis, sign = int(rng.integers(3)), float(rng.choice([-1, 1]))
    L = float(10 ** rng.uniform(-0.5, 1))
    x = np.cumsum(rng.uniform(0.5, 1.5, n)) * L
    order = rng.permutation(n)
    spec = dict(nodes=[("%s%d" % (k, int(i)), [float(v) for v in np.eye(3)[axis] * x[i] * sign]) for i in order], beams=[], rest={}, patterns={}, cases={}, L=L)
    A = float(L * L * 10 ** rng.uniform(-3, -1.5))
    r = rng.uniform(0.03, 0.15, 2) ** 2 * L * L
    for i in rng.permutation(n - 1):
        spec["beams"].append(dict(name="%sb%d" % (k, int(i)), i="%s%d" % (k, int(i)), j="%s%d" % (k, int(i) + 1), kind="simple" if rng.random() < 0.5 else "general",
                                  E=float(10 ** rng.uniform(4, 11)), mu=0.3, A=A, I2=float(A * r[0]), I3=float(A * r[1]), J=float(A * r.sum() * 0.5), rho=7850.0, rot=0.0, rel=[False] * 12))
    spec["rest"] = {k + "0": [True] * 6}
    if n > 2 and rng.random() < 0.5:
        spec["rest"]["%s%d" % (k, n - 1)] = [bool(v) for v in rng.random(6) < 0.4]
    return spec, axis


def apart(rng, m):
    """a model of pieces that do not meet, under loads of any size: each answers for itself, however little it moves beside the others"""
    from hv.core import Skip
    pieces = []
    for k in range(int(rng.integers(1, 4))):
        q = "pqr"[k]
        size = float(10 ** rng.uniform(-16, 0))
        if k == 0 or rng.random() < 0.5:
            # the same line three or four times, each time under what loads one block of it
            spec, axis = line(rng, q)
            local = {"stretching": [axis], "twisting": [3 + axis], "bending one way": None, "bending the other": None}
            a, b = [v for v in range(3) if v != axis]
            local["bending one way"], local["bending the other"] = [a, 3 + b], [b, 3 + a]
            loads = {}
            for name, dofs in local.items():
                f = size * 10 ** rng.uniform(-12, 4) * spec["beams"][0]["E"] * spec["beams"][0]["A"] * 1e-3
                loads[name] = {n: [float(f * rng.normal() * (spec["L"] if v >= 3 else 1)) if v in dofs else 0.0 for v in range(6)] for n, _ in spec["nodes"]
                               if n != q + "0" and rng.random() < 0.6}
            pieces.append((spec, local, loads))
        else:
            spec = gen.frame(rng, nmax=4, loads=False, ncases=0, wide=False)
            ren = {n: q + n for n, _ in spec["nodes"]}
            spec = dict(spec, nodes=[(ren[n], x) for n, x in spec["nodes"]], rest={ren[n]: v for n, v in spec["rest"].items()},
                        beams=[dict(b, name=q + b["name"], i=ren[b["i"]], j=ren[b["j"]]) for b in spec["beams"]])
            f = size * spec["beams"][0]["E"] * spec["beams"][0]["A"] * 1e-3
            pieces.append((spec, {"all": list(range(6))}, {"all": {n: [float(v) for v in f * rng.normal(size=6) * np.r_[1, 1, 1, np.ones(3) * spec["L"]]] for n, _ in spec["nodes"]}}))
    whole = dict(nodes=[], beams=[], rest={}, patterns={}, cases={"c": dict(patterns={}, rest={})}, L=max(s["L"] for s, _, _ in pieces))
    for spec, _, loads in pieces:
        whole["nodes"] += spec["nodes"]
        whole["beams"] += spec["beams"]
        whole["rest"].update(spec["rest"])
        for v in loads.values():
            p = "P%d" % len(whole["patterns"])
            whole["patterns"][p] = dict(nodal=v, dist={}, conc={})
            whole["cases"]["c"]["patterns"][p] = 1.0
    for part in ("nodes", "beams"):
        whole[part] = [whole[part][int(v)] for v in rng.permutation(len(whole[part]))]
    m.describe(spec=whole)
    path = os.path.join(m.tmp(), "w")
    wants = []
    for spec, local, loads in pieces:
        for name, dofs in local.items():
            frame = ref.Frame(dict(spec, patterns={"x": dict(nodal=loads[name], dist={}, conc={})}))
            u, sc, cond = frame.solve(dict(patterns={"x": 1.0}, rest={}))
            if u is None or cond > CONDMAX:
                raise Skip()
            wants.append((frame, name, dofs, u, sc, 1e-9 + 1e-13 * cond))
    if rng.random() < 0.5:
        d = gen.solve_core(whole, path, "c")[0]
    else:
        a = gen.build_api(whole, path, m)
        m.same("assemble-reports-success", a.assemble(), True)
        m.same("solve-reports-success", a.solve_static("c"), True)
        d = np.hstack([a.result_get_nodal_displacement(n, "c") for n, _ in whole["nodes"]])
    at = {n: k for k, (n, _) in enumerate(whole["nodes"])}
    most = np.max(np.abs(d))
    for frame, name, dofs, u, sc, tol in wants:
        got = np.array([d[6 * at[n] + v] for n in frame.names for v in dofs])
        q = [6 * k + v for k in range(len(frame.names)) for v in dofs]
        m.close("each-part-for-itself", got, u[q], tol, sc[q] + 1e-300, name)
        if 0 < np.max(np.abs(u[q])) < 1e-9 * most:
            m.event("parts that hardly move")
    m.distinct(whole)


def large(rng, m):
    """buildings of several thousand freedoms"""
    tower(rng, m, gen.tower(rng, (340, 520), 3, 1, sides=((4, 9), (4, 9), (5, 12))))


def tower(rng, m, spec=None):
    """buildings of up to a hundred nodes under a dozen load patterns"""
    from hv.core import Skip
    spec = gen.tower(rng) if spec is None else spec
    through_api = bool(rng.random() < 0.5)
    frame = well_posed(spec)
    if frame is None:
        raise Skip()
    m.describe(spec=spec, api=through_api)
    path = os.path.join(m.tmp(), "work")
    if through_api:
        a = gen.build_api(spec, path, m)
        m.same("assemble-reports-success", a.assemble(), True)
    else:
        gen.assemble(spec, path)
    for c in spec["cases"]:
        if through_api:
            m.same("solve-reports-success", a.solve_static(c), True)
            d = np.hstack([a.result_get_nodal_displacement(n, c) for n in frame.names])
        else:
            d = gen.solve_core(spec, path, c, asb=False)[0]
        compare(m, spec, frame, c, d, "case " + c)
    m.event("beams", len(spec["beams"]))
    m.event("nodes of towers", len(spec["nodes"]))


KINDS = {"large": (large, 4, 32), "core": (core, 1600, 12800), "api": (api, 1200, 9600), "chain": (chain, 240, 1920), "tower": (tower, 64, 512), "apart": (apart, 300, 2400)}
