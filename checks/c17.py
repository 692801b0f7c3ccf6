"""C17: stiffness of triangular shells."""
import numpy as np
from hv import ext, shellref as S
from hv.core import Skip, Violation
from checks.c13 import frame, kin, dense, model, stiffness, scale, axes, KIND

PROP = "C17"
RULE = ("random triangles (right, equilateral, slender; horizontal, vertical, inclined; any corner first, either side up), thicknesses and materials, created through "
        "the model on rebuilt native kernels; non-trivial: every element; distinct by its data")
MUST_SEE = ["oracle:symmetric", "oracle:no-negative-energy", "oracle:rigid-motion-free", "oracle:plate-constant-curvature", "oracle:axes", "oracle:plate-equals-reference",
            "oracle:membrane-equals-reference", "oracle:no-drilling", "oracle:uncoupled", "oracle:corner-order", "oracle:turned", "oracle:translation", "oracle:scales-with-thickness",
            "oracle:scales-with-E", "oracle:units", "oracle:area", "horizontal", "vertical", "inclined", "face down", "oracle:solved-plate", "one of a family", "almost level or plumb", "out of level by a hair"]
ASSUMPTIONS = ["DKT plate re-derived in numpy from its Kirchhoff constraints, integrated exactly (lib/hv/shellref.py)",
               "recorded defect of the triangle membrane: an element equal to the recorded form is counted under its known finding, one equal to the constant-strain triangle is accepted"]
MEM = np.array([6 * i + k for i in range(3) for k in (0, 1)])
PLT = np.array([6 * i + k for i in range(3) for k in (2, 3, 4)])
DRL = np.array([5, 11, 17])
KEY = "t9-derivative-and-area"


def prepare(tier):
    ext.prepare(tier)


def imports():
    import hyperstatic.core, hyperstatic.core.fe_model.model, hyperstatic.core.fe_solver.static


def draw(rng):
    R, pl = frame(rng)
    k = int(rng.integers(4))
    if k == 0:
        X, shape = np.array([[0, 0], [1, 0], [0, 1.0]]), "right"
    elif k == 1:
        X, shape = np.array([[0, 0], [1, 0], [0.5, np.sqrt(0.75)]]), "equilateral"
    else:
        shape = "free"
        while True:
            X = rng.uniform(-1, 1, size=(3, 2)) * [1, 10 ** rng.uniform(-0.7, 0.7)]
            e = np.roll(X, -1, axis=0) - X
            c = e[:, 0] * np.roll(e, -1, axis=0)[:, 1] - e[:, 1] * np.roll(e, -1, axis=0)[:, 0]
            l = np.linalg.norm(e, axis=1)
            if np.all(c > 0.1 * l * np.roll(l, -1)):
                break
    size = float(10 ** rng.uniform(-1.5, 1.5))
    X = np.roll(X - X.mean(axis=0), int(rng.integers(3)), axis=0) * size
    o = rng.normal(size=3) * size * rng.choice([0, 1, 20])
    P = X @ R[:2] + o
    if pl == "horizontal":
        P[:, 2] = o[2]
    return dict(P=[[float(v) for v in p] for p in P], t=float(size * 10 ** rng.uniform(-3, -0.5)), E=float(10 ** rng.uniform(0, 11)),
                mu=float(rng.choice([0.0, 0.3, rng.uniform(0, 0.49)])), kind=KIND[int(rng.integers(3))], plane=pl, shape=shape, down=bool(R[2][2] < -0.5))


def far(d):
    P = np.array(d["P"])
    return 1 + 1e-2 * np.max(np.abs(P)) / np.max(np.linalg.norm(P - P[0], axis=1))


def kinds_scale(K):
    """by force and moment entries"""
    z = np.zeros(K.shape)
    t = np.tile([True, True, True, False, False, False], len(K) // 6)
    for a in (t, ~t):
        for b in (t, ~t):
            z[np.ix_(a, b)] = np.max(np.abs(K[np.ix_(a, b)]))
    return z


def element(rng, m):
    d = draw(rng)
    m.describe(**d)
    judge(m, d)
    m.distinct(d)


def hair(rng, m):
    """a triangle out of level by less than anyone could measure"""
    d = draw(rng)
    X = S.local(np.array(d["P"]))[1]
    lean = float(10 ** rng.uniform(-13, -5)) if rng.random() < 0.6 else float(rng.uniform(0.5e-9, 4e-9))
    a = rng.uniform(0, 2 * np.pi) if rng.random() < 0.5 else rng.integers(4) * np.pi / 2
    Y = X if rng.random() < 0.5 else X[::-1] if rng.random() < 0.5 else (X * [1, -1])[::-1]
    P = np.c_[Y, Y @ [np.cos(a), np.sin(a)] * lean]
    d.update(P=P.tolist(), lean=lean, plane="out of level by a hair", down=False)
    m.describe(**d)
    judge(m, d)
    m.event("out of level by a hair")
    m.distinct(d)


def family(rng, m):
    """triangles that have much in common, one after the other in one process"""
    d = draw(rng)
    run = [d]
    m.describe(shells=run)
    judge(m, d)
    for _ in range(int(rng.integers(2, 6))):
        e = kin(rng, run[int(rng.integers(len(run)))])
        if e is None:
            continue
        run.append(e)
        judge(m, e)
        m.event("one of a family")
    judge(m, d)
    m.distinct(run)


def judge(m, d):
    md = model(d)
    X = axes(m, md, d)
    K = dense(md.get_shell_K("s"))
    m.same("shape", K.shape, (18, 18))
    m.true("finite", np.all(np.isfinite(K)), repr(K))
    q = far(d)
    ref = S.tria_K(d["E"], d["mu"], d["t"], X, False)
    g = scale(K)
    m.true("symmetric", np.all(np.abs(K - K.T) <= 1e-9 * q * g + 1e-13 * q * np.max(np.abs(K))), "stiffness is not symmetric")
    pp = np.ix_(PLT, PLT)
    m.close("plate-equals-reference", K[pp], ref[pp], 1e-8 * q, scale(ref[pp]))
    m.true("no-drilling", np.all(K[DRL] == 0) and np.all(K[:, DRL] == 0), "drilling freedoms have stiffness")
    m.true("uncoupled", np.all(K[np.ix_(MEM, PLT)] == 0) and np.all(K[np.ix_(PLT, MEM)] == 0), "membrane and plate freedoms are coupled")
    mm = np.ix_(MEM, MEM)
    m.event("oracle:membrane-equals-reference")
    rec = S.tria_K(d["E"], d["mu"], d["t"], X, True)
    right = np.all(np.abs(K[mm] - ref[mm]) <= 1e-8 * q * scale(ref[mm]))
    if not right:
        if np.all(np.abs(K[mm] - rec[mm]) <= 1e-8 * q * scale(rec[mm]) + 1e-13 * np.max(np.abs(rec[mm]))):
            m.known_finding(KEY, d)
        else:
            raise Violation("membrane-equals-reference", "membrane stiffness %s is neither the recorded %s nor that of the constant-strain triangle %s" % (
                np.array2string(K[mm][0], precision=8), np.array2string(rec[mm][0], precision=8), np.array2string(ref[mm][0], precision=8)))
    s = np.sqrt(np.maximum(np.diag(K), 0))
    nz = s > 0
    m.true("no-negative-energy", np.all(np.diag(K) >= 0), "negative diagonal")
    w = np.linalg.eigvalsh(K[np.ix_(nz, nz)] / np.outer(s[nz], s[nz]))
    m.true("no-negative-energy", w[0] > -1e-9 * q, lambda: "eigenvalue %g of the scaled stiffness" % w[0])
    U = np.zeros((18, 6))
    for i, (x, y) in enumerate(X):
        U[6 * i, 0] = U[6 * i + 1, 1] = U[6 * i + 2, 2] = 1
        U[6 * i + 2, 3], U[6 * i + 3, 3] = y, 1
        U[6 * i + 2, 4], U[6 * i + 4, 4] = -x, 1
        U[6 * i, 5], U[6 * i + 1, 5] = -y, x
    if not right:
        U = U[:, :5]
    lim = np.abs(K) @ np.abs(U) + 1e-300
    m.true("rigid-motion-free", np.all(np.abs(K @ U) <= 1e-8 * q * lim), lambda: "rigid motions leave forces of %s of their terms" % (np.abs(K @ U) / lim).max(axis=0))
    wp = np.linalg.eigvalsh(K[pp] / np.outer(s[PLT], s[PLT]))
    m.same("plate-rank", int(np.sum(wp > 1e-7)) <= 6, True)
    C = S.plane_stress(d["E"], d["mu"])
    x, y = X[:, 0], X[:, 1]
    A = 0.5 * abs((x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]))
    for k in np.random.default_rng(3).normal(size=(3, 3)):
        u = np.zeros(18)
        u[2::6] = k[0] * x * x / 2 + k[1] * y * y / 2 + k[2] * x * y
        u[3::6] = k[1] * y + k[2] * x
        u[4::6] = -(k[0] * x + k[2] * y)
        kap = np.array([k[0], k[1], 2 * k[2]])
        m.close("plate-constant-curvature", u @ K @ u, d["t"]**3 / 12 * A * kap @ C @ kap, 1e-8 * q, np.abs(u) @ np.abs(K) @ np.abs(u))
    for k in (d["plane"], d["shape"]):
        m.event(k)
    if d["down"]:
        m.event("face down")


def relations(rng, m):
    d = draw(rng)
    m.describe(**d)
    K = stiffness(d)
    P = np.array(d["P"])
    L = np.max(np.linalg.norm(P - P[0], axis=1))
    q = far(d)
    pl = np.zeros((18, 18))
    pl[np.ix_(PLT, PLT)] = K[np.ix_(PLT, PLT)]
    c = float(10 ** rng.uniform(-1, 1))
    want = K * c
    want[np.ix_(PLT, PLT)] = c**3 * pl[np.ix_(PLT, PLT)]
    m.close("scales-with-thickness", stiffness(dict(d, t=d["t"] * c)), want, 1e-10, scale(want))
    m.close("scales-with-E", stiffness(dict(d, E=d["E"] * c)), c * K, 1e-10, scale(c * K))
    o = rng.normal(size=3) * L * 5
    m.close("translation", stiffness(dict(d, P=(P + o).tolist())), K, 1e-8 * (q + np.max(np.abs(o)) / L), scale(K) + 1e-14 * np.max(np.abs(K)))
    b = np.tile([1, 1, 1, c, c, c], 3)
    wantu = c * K * np.outer(b, b)
    m.close("units", stiffness(dict(d, P=(P * c).tolist(), t=d["t"] * c)), wantu, 1e-8 * q, scale(wantu) + 1e-14 * np.max(np.abs(wantu)))
    # plate part, as it acts on the structure: the same whichever corner is listed first, and turned with the triangle

    def plate(dd):
        md = model(dd)
        k = dense(md.get_shell_K("s"))
        z = np.zeros((18, 18))
        z[np.ix_(PLT, PLT)] = k[np.ix_(PLT, PLT)]
        T = dense(md.get_shell_transform_matrix("s"))
        return T.T @ z @ T
    A = plate(d)
    r = int(rng.integers(1, 3))
    B = plate(dict(d, P=np.roll(P, -r, axis=0).tolist()))
    ix = np.concatenate([np.arange(6) + 6 * ((i + r) % 3) for i in range(3)])
    m.close("corner-order", B, A[np.ix_(ix, ix)], 1e-7 * q, kinds_scale(A))
    a = rng.uniform(0, 2 * np.pi)
    R = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    Q = np.kron(np.eye(6), R)
    B = plate(dict(d, P=(P @ R.T).tolist()))
    W = Q @ A @ Q.T
    m.close("turned", B, W, 1e-7 * q, kinds_scale(W))
    m.distinct(d, c)


def area(rng, m):
    from hyperstatic.core.fe_model.element.tria.DKT import DKT
    from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
    from hyperstatic.core.fe_model.section.shell_section import ShellSection
    from hyperstatic.core.fe_model.node import Node
    d = draw(rng)
    m.describe(**d)
    sec = ShellSection("sec", IsotropicMaterial("mat", 1.0, d["E"], d["mu"], 0.0), d["t"], d["kind"])
    e = DKT("q", sec, *[Node("n%d" % k, *p) for k, p in enumerate(d["P"])])
    P = np.array(d["P"])
    m.close("area", e.area, 0.5 * np.linalg.norm(np.cross(P[1] - P[0], P[2] - P[0])), 1e-9 * far(d)**2)
    m.close("same-through-element", dense(e.integrate_K()), stiffness(d), 1e-13, scale(stiffness(d)))
    m.same("node-names", list(e.get_node_names()), ["n0", "n1", "n2"])
    m.distinct(d)


def plate_solve(rng, m):
    """a horizontal triangle clamped at one corner under loads that bend it to constant curvature: the solution is the parabola"""
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    from hyperstatic.core.fe_model.load.loadcase import StaticCase
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_solver.static import StaticSolver
    import os
    while True:
        d = draw(rng)
        if d["plane"] == "horizontal":
            break
    P = np.array(d["P"])
    if np.max(np.abs(P)) > 50 * np.max(np.linalg.norm(P - P[0], axis=1)):
        raise Skip()
    L = np.max(np.linalg.norm(P - P[0], axis=1))
    k = rng.normal(size=3) / L * 1e-2
    x, y = (P[:, 0] - P[0, 0]), (P[:, 1] - P[0, 1])
    u = np.zeros(18)
    u[2::6] = k[0] * x * x / 2 + k[1] * y * y / 2 + k[2] * x * y
    u[3::6] = k[1] * y + k[2] * x
    u[4::6] = -(k[0] * x + k[2] * y)
    X = P[:, :2] - P[0, :2]
    if d["down"]:
        X2 = X[[0, 2, 1]]
        perm = [0, 2, 1]
    else:
        X2, perm = X, [0, 1, 2]
    Kp = S.tria_K(d["E"], d["mu"], d["t"], X2, False)
    ix = np.concatenate([6 * p + np.array([2, 3, 4]) for p in perm])
    f = np.zeros(18)
    f[ix] = Kp[np.ix_(PLT, PLT)] @ u[ix]
    md = model(d)
    pat = LoadPattern("p")
    for i in (1, 2):
        pat.set_nodal_load("n%d" % i, *f[6 * i:6 * i + 6].tolist())
    md.set_nodal_restraint("n0", True, True, True, True, True, True)
    for i in (1, 2):
        md.set_nodal_restraint("n%d" % i, True, True, False, False, False, True)
    case = StaticCase("c")
    case.add_pattern(pat, 1.0)
    m.describe(curvature=k.tolist(), **d)
    ws = m.tmp()
    Assembly(md, [case]).save(ws, "w.asb")
    StaticSolver(ws, "w.asb").solve_linear("c")
    got = np.load(os.path.join(ws, "c.d.npy")).ravel()
    sc = np.tile([1, 1, np.max(np.abs(u[2::6])), 1, 1, 1], 3)
    sc[3::6] = sc[4::6] = np.max(np.abs(np.r_[u[3::6], u[4::6]]))
    sc[0::6] = sc[1::6] = sc[5::6] = 1e-300
    m.close("solved-plate", got, u, 1e-6 * far(d), sc)
    m.distinct(d, k.tolist())


KINDS = {"element": (element, 480, 8000), "relations": (relations, 192, 3000), "area": (area, 96, 1000), "plate_solve": (plate_solve, 96, 1500), "family": (family, 120, 1500), "hair": (hair, 160, 2000)}
