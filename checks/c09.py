"""C09: mass matrix and vibration modes."""
import os
import numpy as np
from hv import gen, ref
from hv.core import Skip
from checks.c01 import draw

PROP = "C09"
RULE = ("random frames with member and nodal masses, supports on the model or on the modal case, solved for their lowest modes through the core "
        "classes or the Api; non-trivial: at least one mode found; distinct by spec and number of modes")
MUST_SEE = ["oracle:frequencies-equal-reference", "oracle:mode-residual", "oracle:mass-orthonormal", "oracle:ascending", "oracle:total-mass", "oracle:mass-matrix",
            "oracle:period-frequency-consistent", "oracle:stiffness-scales-frequency", "oracle:mass-scales-frequency", "executions:core", "executions:api", "executions:tower",
            "several modes", "released to slide", "one solver for several supports", "equal frequencies", "nodal masses", "case restraints"]
ASSUMPTIONS = ["reference: stiffness of lib/hv/ref.py, half of each member's mass at either end plus nodal masses, dense eigensolver",
               "number of modes below the number of free translations that carry mass"]


def imports():
    import hyperstatic.core, hyperstatic.core.fe_solver.dynamic, hyperstatic.core.fe_post.structure, hyperstatic.core.fe_post.node


def rot_only(spec):
    for b in spec["beams"]:
        if any(b["rel"]):
            r = [False] * 12
            for k in (4, 5, 10, 11):
                r[k] = bool(b["rel"][k])
            r[int(np.argmax(b["rel"])) % 2 + 4] = True
            b["rel"] = r if gen.release_stable(r) else [False] * 12
    return spec


def fresh(rng, m, tower=False, **kw):
    """frame whose modes under the only case are determined; the case's supports are the modal case's"""
    for _ in range(30):
        if tower:
            spec = gen.tower(rng, (20, 60), 1, 1, masses=True)
        else:
            spec, frame = draw(rng, m, ncases=1, masses=True, case_rest=0.3, rotations=0.2, wide="metres", **kw)
        alike = not tower and rng.random() < 0.2
        if alike:
            twins(rng, spec)
        if rng.random() < 0.5:
            rot_only(spec)
        frame = ref.Frame(spec)
        case = spec["cases"]["case0"]
        u, sc, cond = frame.solve(dict(case, patterns={}), frame.K())
        if not cond < 1e7:
            continue
        fix = frame.fixed(case)
        M = np.zeros((frame.ntot, frame.ntot))
        M[:frame.n, :frame.n] = frame.M_lumped()
        free = np.setdiff1d(np.arange(frame.ntot), fix)
        nm = sum(1 for k in free if k < frame.n and k % 6 < 3)
        if nm < (60 if tower else 2):
            continue
        L = np.linalg.cholesky(frame.K()[np.ix_(free, free)])
        Mf = M[np.ix_(free, free)]
        X = np.linalg.solve(L, np.linalg.solve(L, Mf).T)
        w = np.linalg.eigvalsh((X + X.T) / 2)[::-1]
        k = int(rng.integers(8, 16) if rng.random() < 0.7 else rng.integers(16, 49)) if tower else int(rng.integers(1, min(nm - 1, 6) + 1))
        if w[k - 1] <= 0 or w[0] / w[k - 1] > 1e6:
            continue
        if np.any(spec.get("mass")):
            m.event("nodal masses")
        if any(any(b["rel"][q] for q in (0, 1, 2, 6, 7, 8)) for b in spec["beams"]):
            m.event("released to slide")
        if case["rest"]:
            m.event("case restraints")
        if np.any(np.diff(-w[:k]) < 1e-9 * w[:k - 1]):
            m.event("equal frequencies")
        return spec, frame, case, M, free, 1 / w[:k], k
    raise Skip()


def twins(rng, spec):
    """a mast as stiff one way as the other, with the same mass in all directions: its bending modes come in pairs"""
    d = rng.normal(size=3) if rng.random() < 0.6 else np.eye(3)[int(rng.integers(3))]
    d = d / np.linalg.norm(d) * spec["L"]
    s = np.cumsum(rng.uniform(0.5, 1.5, len(spec["nodes"])))
    spec["nodes"] = [(n, [float(x) for x in s[k] * d]) for k, (n, _) in enumerate(spec["nodes"])]
    names = [n for n, _ in spec["nodes"]]
    b = spec["beams"][0]
    more = {w: b[w] for w in b if w not in ("name", "i", "j")}
    more.update(I3=b["I2"], rot=0.0, rel=[False] * 12)
    spec["beams"] = [dict(more, name="m%d" % k, **dict(zip("ij", names[k:k + 2][::1 if rng.random() < 0.5 else -1]))) for k in range(len(names) - 1)]
    spec["rest"] = {names[0]: [True] * 6}
    c = spec["cases"]["case0"]
    c["rest"] = {names[0 if rng.random() < 0.5 else -1]: [True] * 6} if c["rest"] else {}
    spec["mass"] = {n: [v[0]] * 3 + [v[3]] * 3 for n, v in spec.get("mass", {}).items()}
    for q in spec["patterns"].values():
        q["dist"], q["conc"] = {}, {}


def judge(m, frame, M, free, w2, k, got_w2, got_modes, what):
    """`got_modes` rows over all DOFs of the nodes"""
    m.same("mode-count", (np.shape(got_w2), len(got_modes)), ((k,), k), what)
    tol = (2e-6 if np.any(np.diff(w2) < 1e-6 * w2[1:]) else 1e-7) + 1e-11 * w2 / w2[0] + 300 * frame.blur
    m.close("frequencies-equal-reference", got_w2, w2, tol, w2, what)
    m.true("ascending", np.all(np.diff(got_w2) >= -1e-7 * w2[1:]), "%r" % (got_w2,))
    Phi = np.array(got_modes)
    fix = np.setdiff1d(np.arange(frame.n), free)
    m.true("restrained-dof-exactly-zero", np.all(Phi[:, fix] == 0), what)
    Mn = M[:frame.n, :frame.n]
    G = Phi @ Mn @ Phi.T
    m.close("mass-orthonormal", G, np.eye(k), 1e-6, 1.0, what)
    # released ends follow the nodes
    K = frame.K()
    if frame.ntot > frame.n:
        a, b = np.arange(frame.n), np.arange(frame.n, frame.ntot)
        K = K[np.ix_(a, a)] - K[np.ix_(a, b)] @ np.linalg.solve(K[np.ix_(b, b)], K[np.ix_(b, a)])
    fr = free[free < frame.n]
    for j in range(k):
        kp, mp = K @ Phi[j], Mn @ Phi[j]
        r = (kp - w2[j] * mp)[fr]
        lim = (np.abs(K) @ np.abs(Phi[j]) + w2[j] * np.abs(mp))[fr]
        m.close("mode-residual", r, np.zeros(len(r)), 1e-5, lim + 1e-3 * np.linalg.norm(lim), "%s mode %d" % (what, j))
    if k > 1:
        m.event("several modes")
    m.event("modes", k)


def tower(rng, m):
    core(rng, m, True)


def modal(name, rest, k):
    from hyperstatic.core.fe_model.load.loadcase import ModalCase
    lc = ModalCase(name, k)
    for n, r in rest.items():
        lc.set_nodal_restraint(n, *r)
    return lc


def elsewhere(rng, spec, frame, case):
    """as many supports, at other places"""
    rest = case["rest"] or spec["rest"]
    p = [frame.names[int(k)] for k in rng.permutation(len(frame.names))]
    rest = {p[frame.names.index(n)]: r for n, r in rest.items()}
    u, sc, cond = frame.solve(dict(case, rest=rest, patterns={}), frame.K())
    return rest if cond < 1e7 else None


def core(rng, m, big=False):
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_model.load.loadcase import ModalCase
    from hyperstatic.core.fe_solver.dynamic import ModalSolver
    from hyperstatic.core.fe_post.structure import StructureResultResolver
    from hyperstatic.core.fe_post.node import NodeResultResolver
    spec, frame, case, M, free, w2, k = fresh(rng, m, tower=big, releases=0.2)
    m.describe(spec=spec, n_modes=k)
    model = gen.build_model(spec)
    lc = ModalCase("modes", k)
    for n, r in case["rest"].items():
        gen.spell(rng, lc.set_nodal_restraint, n, *r)
    path = m.tmp()
    others = list(gen.build_cases(spec, gen.build_patterns(spec)).values())
    turned = elsewhere(rng, spec, frame, case) if not big and rng.random() < 0.4 else None
    asb = Assembly(model, ([lc] + others if rng.random() < 0.5 else [lc]) + ([modal("turned", turned, k)] if turned else []))
    Ma = asb.assemble_M().toarray()
    t = np.tile([True] * 3 + [False] * 3, len(frame.names))
    big = np.max(np.diag(M))
    m.close("mass-matrix", Ma[np.ix_(t, t)], M[:frame.n, :frame.n][np.ix_(t, t)], 1e-11, big)
    m.close("mass-matrix", Ma[~t][:, ~t], M[:frame.n, :frame.n][~t][:, ~t], 1e-10, max(big, 1.0))
    m.close("mass-matrix", Ma[t][:, ~t], np.zeros((t.sum(), t.sum())), 1e-12, big, "coupling")
    total = sum(b["rho"] * b["A"] * frame.geo[b["name"]]["l"] for b in spec["beams"])
    for d in range(3):
        e = np.zeros(frame.n)
        e[d::6] = 1
        m.close("total-mass", e @ Ma @ e, total + sum(v[d] for v in spec.get("mass", {}).values()), 1e-10)
    asb.save(path, "w.asb")
    s = ModalSolver(path, "w.asb")
    if turned:
        s.solve("turned")
        m.event("one solver for several supports")
    s.solve("modes") if rng.random() < 0.5 else s.solve_eigen("modes", k)
    got = np.load(os.path.join(path, "modes.o.npy")).ravel()
    res = NodeResultResolver(path, "w.asb")
    modes = [np.hstack([res.resolve_nodal_displacement(n, "modes", j + 1) for n in frame.names]) for j in range(k)]
    judge(m, frame, M, free, w2, k, got, modes, "core")
    f = StructureResultResolver(path, "w.asb").resolve_modal_frequency("modes")
    m.close("period-frequency-consistent", f["omega"], np.sqrt(w2), 1e-6, None)
    m.close("period-frequency-consistent", np.asarray(f["f"]) * 2 * np.pi, f["omega"], 1e-10)
    m.close("period-frequency-consistent", np.asarray(f["T"]) * f["f"], np.ones(k), 1e-10)
    m.distinct(spec["nodes"], spec["beams"], case["rest"], k)


def api(rng, m):
    spec, frame, case, M, free, w2, k = fresh(rng, m)
    for b in spec["beams"]:
        b["rot"] = 0.0
    frame = ref.Frame(spec)
    rest = case["rest"] or spec["rest"]
    spec = dict(spec, rest=rest, cases={"stat": dict(case, rest={})})
    frame = ref.Frame(spec)
    L = np.linalg.cholesky(frame.K()[np.ix_(free, free)])
    X = np.linalg.solve(L, np.linalg.solve(L, M[np.ix_(free, free)]).T)
    w = np.linalg.eigvalsh((X + X.T) / 2)[::-1][:k]
    if w[-1] <= 0 or w[0] / w[-1] > 1e6:
        raise Skip()
    w2 = 1 / w
    m.describe(spec=spec, n_modes=k)
    path = os.path.join(m.tmp(), "work")
    a = gen.build_api(spec, path, m)
    m.same("api-reports-success", a.add_modal_case("modes"), True)
    m.same("api-reports-success", a.assemble(), True)
    first = bool(rng.random() < 0.5)
    if first:
        m.same("api-reports-success", a.solve_static("stat"), True)
    m.same("api-reports-success", a.solve_modal("modes", k), True)
    d = np.load(os.path.join(path, "modes.d.npy"))
    modes = np.zeros((len(d), frame.n))
    modes[:, free] = d
    judge(m, frame, M, free, w2, k, np.load(os.path.join(path, "modes.o.npy")).ravel(), modes, "api")
    one = np.hstack([a.result_get_nodal_displacement(n, "modes") for n in frame.names])
    m.close("first-mode-read-back", one, modes[0], 1e-12)
    m.distinct(spec["nodes"], spec["beams"], rest, k)


def omegas(spec, case, k, path):
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_model.load.loadcase import ModalCase
    from hyperstatic.core.fe_solver.dynamic import ModalSolver
    lc = ModalCase("modes", k)
    for n, r in case["rest"].items():
        lc.set_nodal_restraint(n, *r)
    Assembly(gen.build_model(spec), [lc]).save(path, "w.asb")
    ModalSolver(path, "w.asb").solve("modes")
    return np.load(os.path.join(path, "modes.o.npy")).ravel()


def scaling(rng, m):
    """stiffer by s: frequencies squared times s; heavier by s: divided by s; more modes asked: the lowest stay the same"""
    spec, frame, case, M, free, w2, k = fresh(rng, m)
    m.describe(spec=spec, n_modes=k)
    s = float(10 ** rng.uniform(-2, 2))
    a = omegas(spec, case, k, m.tmp())
    b = omegas(dict(spec, beams=[dict(x, E=x["E"] * s) for x in spec["beams"]]), case, k, m.tmp())
    c = omegas(dict(spec, beams=[dict(x, rho=x["rho"] * s) for x in spec["beams"]],
                    mass={n: [x * s for x in v] for n, v in spec["mass"].items()}), case, k, m.tmp())
    tol = 1e-6 + 1e-11 * w2 / w2[0]
    m.close("stiffness-scales-frequency", b, a * s, tol, w2 * s)
    m.close("mass-scales-frequency", c, a / s, tol, w2 / s)
    d = omegas(spec, case, 1, m.tmp())
    m.close("more-modes-same-lowest", d, a[:1], tol[:1], w2[:1])
    m.distinct(spec["nodes"], spec["beams"], s)


KINDS = {"tower": (tower, 64, 512), "core": (core, 1000, 8000), "api": (api, 480, 3840), "scaling": (scaling, 320, 2560)}
